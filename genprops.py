#!/usr/bin/env python3
# Source of properties.jsonl (run: python3 genprops.py).
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None)))

p("C01","The scanner position always stays inside of the text",
 "After any sequence of scanner operations the position lies between 0 and the length of the text. Moving by a number of bytes and moving to a marker (and to the start or the end) succeed exactly if the target lies in that range, and then the scanner is at that target; otherwise they return false and the scanner stays where it was.",
 ["inputs","histories"],"for every text, every reached position, every offset or marker value and every sequence of operations",
 "The tests only move to a few positions that are valid; none passes a marker or offset outside of the text.",
 ["scanner.go","scanner_rev.go"],[("range check before each write of the position","scanner.go: Move, ToMarker"),("nothing else writes the position","whole package")],["Scanner.Move","Scanner.ToMarker","Scanner.ToEnd","Scanner.ToStart","Scanner.Mark"],
 [dict(name="pos",meaning="byte offset of the scanner",where="scanner.go: Scanner")])

p("C02","The text is immutable and observers do not move the scanner",
 "The text a scanner was created with never changes, so head and tail always concatenate to it and a marker or token keeps denoting the same substring. Observers (head, tail, line/column, at-start, at-end, mark, get by token, since a marker, segmentation, error construction) never move the scanner, and head, tail, get and since return exactly the denoted part of the text.",
 ["inputs","histories"],"for every text and every sequence of calls before and after an observer",
 "Tests compare Head/Tail after single calls on a handful of texts; they cannot show that no operation writes the text or that no observer moves.",
 ["scanner.go","token.go","error.go","segment.go"],[("text stored once at construction","scanner.go: NewScanner"),("slicing at the position","scanner.go: Head, Tail; token.go: Get, Since")],["Scanner.Head","Scanner.Tail","Scanner.Get","Scanner.Since","Scanner.LineCol"])

p("C03","Scoped calls keep a success, undo a failure and report the exact region",
 "The scanner functions that run a caller's function or reader (scope, trace, use, tokenize and capture, in all variants) return its result unchanged; if it fails the scanner is back at the position it had before the call, if it succeeds the scanner is where the callee left it. The token or string they report on success is exactly the part of the text between those two positions; on a failure the reader based capture and tokenize report an empty result.",
 ["inputs","programs","histories"],"for every callee whatsoever (also one that moves and then fails, or moves backward), every text and start position",
 "The callee is arbitrary; tests use a few well-behaved readers and mostly successful ones.",
 ["scanner.go","reader.go","token.go"],[("mark, run, restore on failure","scanner.go: Scope, Trace; reader.go: Use*, TraceUse*; token.go: Tokenize*, Capture*")],["Scanner.Use","Scanner.Scope","Scanner.TokenizeUse","Scanner.Capture"])

p("C04","A scanner function that reports a failure has not moved the scanner",
 "Whenever a scanner function that matches, searches or reads a value forward or backward returns false or an error, the scanner is at exactly the position it had before the call. This includes all partial progress, such as a sign before missing digits.",
 ["inputs"],"for every text, start position and argument of every scanner matching, searching and value-reading function",
 "Almost all tests check successful matches; the failing outcome is sampled for one or two functions.",
 ["scanner.go","scanner_rev.go","read.go"],[("decide first, move last","scanner.go, scanner_rev.go"),("restore of the marker","read.go: ReadInt")],["all bool/error returning Scanner methods"])

p("C05","A reader that fails leaves the scanner where it was",
 "Every reader of the library, including the grammars, leaves the scanner at its start position whenever its read returns an error, provided that the readers and functions it was built from do the same. So alternatives, options and repetitions never continue from a half-consumed position.",
 ["inputs","programs"],"for every reader, every composition of readers, every text and start position",
 "There are unboundedly many compositions; the tests build a dozen and nearly always match.",
 ["reader.go","grammar.go","monitor.go","tracker.go","grammar/json.go","grammar/lua.go","grammar/mxt.go"],[("mark and restore in each Read","reader.go")],["Reader.Read"])

p("C06","Forward operations never move backward, reverse operations never forward",
 "Every scanner function of the forward families and every reader that succeeds leaves the scanner at or after its start position, every function of the reverse families at or before it, provided that the used sub readers and functions do the same.",
 ["inputs","programs"],"for every text, start position, argument and composition",
 "Direction is only observed for the sampled texts.",
 ["scanner.go","scanner_rev.go","read.go","reader.go"],[("signed moves","scanner.go, scanner_rev.go, read.go, reader.go")],["Scanner methods","Reader.Read"])

p("C07","One-rune matchers consume exactly the adjacent rune if it matches",
 "The functions and readers that match a single rune (equal to a rune, any rune of a set, inside of a range or ranges, range with holes, accepted by a check function; forward and reverse) succeed if and only if there is an adjacent rune in that direction and it fulfils the predicate. On success the scanner moves over exactly that rune with its encoded width, also for multi-byte runes, U+FFFD and invalid UTF-8 bytes.",
 ["inputs"],"for every text (also invalid UTF-8), start position, rune, set, range and check function",
 "RevIfBetween and RevIfMatch have empty test tables; boundaries, the end of the text and invalid bytes are not sampled.",
 ["scanner.go","scanner_rev.go","reader.go"],[("decode, test, move by width","scanner.go: IfRune, IfAnyRune, IfBetween, IfMatch; scanner_rev.go; reader.go: holeyReader, betweenAnyReader")],["Scanner.IfRune","Scanner.RevIfBetween","Holey","Set"])

p("C08","To and While functions stop at exactly the first deciding rune",
 "The rune based To functions (forward and reverse) succeed if and only if a rune ahead in that direction fulfils the predicate and then stop directly in front of the nearest such rune, with no fulfilling rune passed. The rune based While functions move over the maximal run of fulfilling runes ahead in that direction and return true if and only if they moved.",
 ["inputs"],"for every text, start position and predicate",
 "The tests use short ASCII texts; the between and match tables of the reverse functions are empty and no test checks the returned bool.",
 ["scanner.go","scanner_rev.go","intl.go"],[("scan loops and reverse iterator","scanner.go: To*, While*; scanner_rev.go: RevTo*, RevWhile*; intl.go: revItr")],["Scanner.ToRune","Scanner.WhileBetween","Scanner.RevWhileMatch"])

p("C09","String and fold matchers match exactly their string",
 "The If functions for strings (plain, any of a list, case-folding; forward and reverse) and the literal and fold readers succeed if and only if the text adjacent in that direction is the string (under case-folding with the byte length of the string for fold), and then move by exactly that length. The To functions for strings stop at the nearest appearance in that direction (reverse: directly after the last appearance) and fail if and only if there is none.",
 ["inputs"],"for every text, start position and string, also strings longer than the rest of the text; reverse searches look at the places directly behind a rune",
 "The tests never use a string that is longer than the rest and check only one or two matches per function.",
 ["scanner.go","scanner_rev.go","reader.go"],[("prefix/suffix tests and index searches","scanner.go: If, IfAny, To, IfFold, ToFold; scanner_rev.go: RevIf, RevIfAny, RevTo, RevIfFold, RevToFold")],["Scanner.IfFold","Scanner.RevToFold","Lit","Fold"])

p("C10","No input makes the library panic",
 "No text, position, string, rune, number or reader composition makes a function of the library panic, as long as readers, functions and pointers passed in are not nil, tokens and markers passed in come from the same text, grammars passed in are pointers to structs, and callbacks do not panic. The only exceptions are the Must functions, which panic on an invalid grammar.",
 ["inputs","programs","histories"],"for every argument of every exported function",
 "Out-of-range slicing shows only for unusual arguments, for example fold strings longer than the rest.",
 ["scanner.go","scanner_rev.go","read.go","reader.go","intl.go","token.go","segment.go","graph.go","tracker.go","monitor.go","grammar.go"],[("length guards before slicing and indexing","whole package")],["all exported functions"])

p("C11","Every operation terminates",
 "Every scanner function and every reader of the library returns on every text, also on invalid UTF-8, provided that the sub readers and callbacks it uses return. In particular repetition and search readers terminate for sub readers that succeed without moving the scanner. Only Scanner.While, which by definition repeats as long as its callback returns true, is left to the callback.",
 ["inputs","programs"],"for every text and composition; for every loop of the library",
 "A test that hangs needs the specific unusual text or composition (empty match, invalid byte at the end).",
 ["scanner.go","scanner_rev.go","intl.go","reader.go","read.go","segment.go","graph.go","tracker.go"],[("progress in each loop","reader.go: Many, Zom, To, Past, Body; intl.go: revItr.next")],["Reader.Read","Scanner methods"])

p("C12","A tracker is told every position change",
 "Whenever the position of a scanner with a tracker changes, the tracker is updated with the new position before the operation that moved the scanner returns and before any other callback can run, and every update passes the actual current position. A scanner without a tracker works the same way.",
 ["inputs","histories","programs"],"for every operation that moves a scanner, forward or backward, including backtracking",
 "The tests never observe tracker updates.",
 ["scanner.go","tracker.go"],[("update directly after the write of the position","scanner.go: Move, ToMarker")],["Tracker.Update"])

p("C13","A basket drops exactly the segments that end after the new position",
 "If the segments in a basket have non-decreasing ends (as picking produces), an update with a position keeps, unchanged and in order, exactly the segments that end at or before it. Adding a segment appends it and changes nothing else, and the picked segments are returned in the order in which they were picked.",
 ["inputs","histories"],"for every content of the basket and every update position",
 "No test exercises picking followed by backtracking.",
 ["tracker.go"],[("truncate from the end","tracker.go: Basket.Update, Add, Picked")],["Basket.Update","Basket.Picked"],[dict(name="segments",meaning="picked segments in pick order",where="tracker.go: Basket")])

p("C14","Map, Pick, Monitor, Named and Rule are transparent and report exact tokens",
 "Wrapping a reader for mapping, picking, monitoring, naming or as a rule changes neither its result nor the position it leaves the scanner at. The map function is called and the segment is added exactly once per successful read and never for a failed one, with the token that covers exactly what the wrapped reader consumed; a picked segment carries the given information.",
 ["inputs","programs"],"for every wrapped reader, text and position",
 "The tests observe the mapped tokens of one MXT text.",
 ["reader.go","tracker.go","monitor.go","grammar.go"],[("call after success with the token of the read","reader.go: mapReader; tracker.go: pickReader; monitor.go: monitorReader")],["Map","Pick","Monitor","Rule"])

p("C15","Seq, SkipSeq, Any, Opt, Many, Zom and Times follow their definition",
 "A sequence succeeds iff all its readers succeed one after the other, each starting where the previous one ended (SkipSeq: with the skip reader run before, between and after), and otherwise returns the error of the first that fails; an alternative tries its readers in order from the same position and stops at the first that succeeds. Zero-or-more repeats until the reader fails or stops moving and always succeeds, one-or-more is the same but fails iff nothing was consumed, an option always succeeds, and n times means exactly n successful reads.",
 ["inputs","programs"],"for every list of readers, every outcome of each of them, every text",
 "The combinators are quantified over arbitrary sub readers; tests use fixed small ones.",
 ["reader.go"],[("loops over the sub readers","reader.go: seqReader, skipSeqReader, anyReader, optReader, manyReader, zomReader, timesReader")],["Seq","SkipSeq","Any","Opt","Many","Zom","Times"])

p("C16","At, AtEnd, Not, To, Past and Body look ahead exactly as documented",
 "At never moves and succeeds iff its reader does; AtEnd succeeds iff the scanner is at the end; Not succeeds iff its reader fails and there is a rune, and then moves over exactly one rune. To and Past find the nearest position at or after the start, in rune steps up to and including the end, where their reader succeeds, and end before respectively after that match; Body and BodyTail do the same for the tail and succeed iff the body reader consumes exactly the text between the start and that position.",
 ["inputs","programs"],"for every sub reader, text and position",
 "Tests cover one match per reader; not the end of the text, no-match or invalid UTF-8.",
 ["reader.go"],[("scan loops with restore","reader.go: atReader, notReader, toReader, pastReader, bodyReader, bodyTailReader")],["At","Not","To","Past","Body","BodyTail"])

p("C17","Tokens are ordered ranges with a consistent algebra",
 "Every token has a start that is not after its end, so its length is never negative. Covers, Before, After, Clashes and Merge are the interval relations and the interval hull for all pairs of tokens: two tokens clash iff they overlap and none covers the other, and the merge is the smallest token that covers both; splitting a token by a separator it covers gives the part before and the part after the separator.",
 ["inputs"],"for all pairs of tokens, including empty, touching and equal ones",
 "The tests sample four tokens; the relations depend on all orderings of the four ends.",
 ["token.go"],[("comparisons of the ends","token.go: MakeToken, After, Before, Merge, Clashes, Covers, Split, Len")],["Token methods"])

p("C18","Segment sorting is a strict order that puts covering segments first",
 "The comparisons used for sorting segments and graph nodes are strict weak orders on all tokens they can be applied to, so a stable sort keeps equal segments in their original order. A segment never appears after a different segment whose token it strictly covers, and for equal tokens the order list decides.",
 ["inputs"],"for all lists of segments, including equal, empty, touching and clashing ones",
 "The tests sort five segments with distinct, nested tokens.",
 ["segment.go","graph.go","token.go"],[("comparison functions","segment.go: SortSegments, SortSegmentsByOrder; graph.go: nodeByPos")],["SortSegments","SortSegmentsByOrder"])

p("C19","Segmentation tiles the segment without gap or overlap",
 "If every given segment lies in what remains behind its predecessor, segmentation succeeds and returns the given segments unchanged and in order together with non-empty fillers carrying the original information, so that the result covers the original segment from start to end without gap or overlap. Otherwise it returns an error.",
 ["inputs"],"for every segment and every list of segments",
 "One list is tested.",
 ["segment.go","token.go"],[("split at each segment","segment.go: Segmentate")],["Segment.Segmentate","Scanner.Segmentate"])

p("C20","The graph rejects clashes without damage and nests what it accepts",
 "Appending a segment either succeeds and the segment is in the graph, below the nodes that cover it and above the nodes it covers, or it clashes with a node and the append returns false with the graph unchanged. The root covers all nodes and siblings are ordered by position. (The nesting of empty segments that touch others is left open.)",
 ["inputs","histories"],"for every graph and every segment, for every history of appends",
 "Four appends are tested.",
 ["graph.go"],[("rankNodes and restore of the root token","graph.go: rankNodes, Append")],["Graph.Append","BuildGraph"])

p("C21","Integer reading is exact and never overflows",
 "Reading an integer or unsigned integer for any supported base and bit size consumes an optional sign (signed only) and the longest run of digits of that base whose value still fits the bit size, and returns exactly the value of the consumed digits. It fails iff there is no such digit or the base or bit size is not supported.",
 ["inputs"],"for every text, base and bit size",
 "Overflow depends on the digits near the limit; the tests sample two texts per size.",
 ["read.go"],[("guard before each multiplication","read.go: ReadInt, ReadUint"),("digit tables","read.go: octValue, decValue, hexValue")],["Scanner.ReadInt","Scanner.ReadUint"])

p("C22","Bool, rune, string and rune-wise reading is exact",
 "Reading a bool accepts exactly the spellings of its format and returns the value that was spelled; reading a rune (forward or reverse) returns the adjacent rune and moves over exactly it, and fails exactly at the end of the text in that direction and for invalid UTF-8. Moving by n runes (backward for a negative n) and scanning n runes succeed iff at least that many runes are left in that direction and move over exactly that many runes.",
 ["inputs"],"for every text, format and count",
 "Tests have no failing rune reads, no bool reads and only valid UTF-8.",
 ["read.go","scanner.go","intl.go"],[("format table","read.go: ReadBool"),("decode and move","read.go: ReadRune, RevReadRune; scanner.go: ScanString, MoveRunes; intl.go: getPrefix, revItr")],["Scanner.ReadBool","Scanner.ReadRune","Scanner.MoveRunes","Scanner.ScanString"])

p("C23","The log records enter, nesting level and exit of every monitored read",
 "For every monitored read the log holds one entry, in the order in which the reads began, with the enter position, the nesting level, and after the read returned the exit position and the result of exactly that read. The nesting level returns to its previous value whenever a monitored read returns, with or without an error.",
 ["programs","histories"],"for every nesting of monitored readers and every growth of the log",
 "The exit fields are never checked; lost writes need the log to grow during a read.",
 ["monitor.go"],[("Enter/Exit pairing","monitor.go: monitorReader, Enter, Exit")],["Log.Entries"],[dict(name="level",meaning="nesting depth",where="monitor.go: Log")])

p("C24","The provided grammars are complete, named and free of endless recursion",
 "In the JSON, MXT and Lua grammars every rule has a reader and a valid name that is unique in its grammar, every rule name is accepted by the rule name check, and no reader in the grammar is an invalid reader. No rule can reach itself without consuming input, no repetition has a body that can succeed without consuming input, so reading with a grammar terminates on every text.",
 ["inputs","configurations"],"for every rule of every grammar, for every text",
 "Tests read a few texts; a rule without reader or a left recursion shows only on the texts that reach it.",
 ["grammar/json.go","grammar/mxt.go","grammar/lua.go","grammar.go"],[("rule definitions","grammar/*.go constructors"),("name check","grammar.go: CheckRuleName, SetRuleNames, CheckRules")],["JSON","MXT","Lua"])

p("C25","The JSON grammar accepts exactly JSON",
 "The JSON grammar reads a valid UTF-8 text up to its end if and only if the text is a JSON text as defined by RFC 8259 (surrounding whitespace allowed). Each rule of the grammar consumes exactly the construct of its name: values, objects, arrays, strings, numbers, bools and null, and the parts they are made of in the McKeeman form of json.org (members, elements, characters, escapes, digits, integer, fraction, exponent, sign, whitespace).",
 ["inputs"],"for every text",
 "The tests read four positive examples and no negative one.",
 ["grammar/json.go"],[("rule definitions","grammar/json.go: JSON")],["JSON"])

p("C26","The Lua grammar's lexical rules match the Lua lexical elements",
 "On every valid UTF-8 text each lexical rule of the Lua grammar consumes exactly the longest element of its kind at the position. Names: a letter or underscore followed by letters, digits and underscores that is not a keyword. Unary and binary operators: those of the Lua manual (the words among them only as whole words), no operator is hidden by a shorter one that is tried first. Field separators: comma and semicolon. Numerals: decimal and hexadecimal with optional fraction and exponent, starting with a digit and with digits behind a point. Literal strings: quoted on one line with the escapes of the manual (the value of a decimal or Unicode escape is not restricted), or long brackets that end at the first closing bracket of the same level. Comments: two dashes and a long bracket up to its closing bracket, otherwise two dashes up to the next line feed or the end of the text.",
 ["inputs"],"for every text",
 "The tests read a handful of literals.",
 ["grammar/lua.go"],[("rule definitions","grammar/lua.go: Lua, LuaNumeral, LuaString, LuaComment")],["Lua"])

p("C27","The MXT grammar splits chunks at exactly the salted markers",
 "On every valid UTF-8 text the MXT grammar reads a header as a marker of two slashes and word characters, spaces, a name, a comment that ends where the first arrow (word characters that end with -->) starts, the arrow, and then either spaces with an optional salt word or, if the line or text ends there, no salt. The content of a chunk ends at the first new line that is followed by two slashes and the salt of that chunk, or at the end of the text; the salt is always that of the header of the same chunk, whatever was read before. The rules for name, comment, salt and content span exactly their part, without the marker, the arrow and the separating new line.",
 ["inputs"],"for every text",
 "Three texts are tested.",
 ["grammar/mxt.go"],[("rule definitions","grammar/mxt.go: MXT"),("salt hand-over","reader.go: Janus")],["MXT"])

p("C28","Invalid parameters always yield a visible invalid reader",
 "Each constructor that accepts a rune, string or reader treats exactly these three kinds as documented and returns an invalid reader for anything else (nil included), as do the range constructors for malformed range descriptions: a text that is not a list of min-max pairs with a dash between them, or an odd number of min and max values. Valid parameters never give an invalid reader. An invalid reader never succeeds, never moves the scanner and carries the invalid marker in its description. The description of every combinator contains the descriptions of all readers it is made of, so the marker is visible in it; only Named, the end reader of Janus, rules and grammars show a name instead, and the line of a rule in the list of grammar lines contains the description of its reader. HasInvalidReader and AnyHasInvalidReader report exactly the texts that contain the marker.",
 ["inputs","programs"],"for every parameter type and every composition",
 "One invalid parameter is tested.",
 ["reader.go"],[("asReader in each constructor","reader.go: asReader, Any, Many, Opt, Past, Seq, SkipSeq, To, Zom"),("What of the sub readers","reader.go")],["HasInvalidReader","Reader.What"])

p("C29","Reading changes no reader except the documented value holders",
 "Reading and describing never modify a reader or any shared state, except for the value fields of the bool, int and uint readers, the string handed from a Janus begin to its end reader, and the basket or log a reader was explicitly connected to. So a grammar gives the same result for the same text no matter what was read before, and after a successful value read the reader holds exactly the value that was read.",
 ["histories","schedules","programs"],"for every history of reads with the same reader and every interleaving of reads on different scanners",
 "Tests build a fresh reader per case.",
 ["reader.go","grammar.go","grammar/json.go","grammar/lua.go","grammar/mxt.go"],[("value and pointer readers without writes","all Read and What methods")],["Reader.Read"])

p("C30","Errors are never lost and point into the region that was read",
 "A reader returns nil only if it matched: no error of a sub reader is dropped except by the readers that are defined to recover from it. The error an Any reader with at least one alternative returns is the error of one of its own alternatives, the one with the latest position among the positioned ones (a ReadError), or an error without position if none is positioned. Every other failing reader or scanner function returns the error of a sub reader that failed or an error of its own, and positioned errors created by the library carry the position of the scanner after it was put back.",
 ["inputs","programs"],"for every composition of failing readers",
 "No test inspects a returned error.",
 ["reader.go","error.go","grammar/json.go","grammar/lua.go","grammar/mxt.go"],[("return of the sub error","reader.go"),("deepest error","reader.go: getDeepest; error.go: Later")],["ReadError","Any"])

p("C31","Line and column are those of the position",
 "The reported line is one plus the number of line ends (a line feed, alone or behind a carriage return) before the position, and the column is one plus the width in bytes of the part of the last line before the position, with each tab counted with the given width.",
 ["inputs"],"for every text, position and tab width",
 "Ten ASCII samples are tested.",
 ["scanner.go"],[("count of line ends and tabs","scanner.go: LineCol")],["Scanner.LineCol"])

p("C32","The Lua grammar accepts exactly Lua 5.4",
 "The Lua grammar reads a text up to its end if and only if it is a Lua 5.4 chunk.",
 ["inputs"],"for every text",
 "The tests read three statements.",
 ["grammar/lua.go"],[("rule definitions","grammar/lua.go")],["Lua"])

p("C33","Reading takes time linear in the text",
 "The number of steps a grammar needs is bounded by a constant times the length of the text and its nesting depth.",
 ["inputs"],"for every text",
 "Tests read short texts.",
 ["reader.go","grammar/lua.go"],[("ordered choice without memo","reader.go: anyReader")],["Reader.Read"])
p("C34","Every rule of a grammar is named, collected, checked and connected",
 "A rule name is accepted if and only if it is an ASCII letter followed by ASCII letters, digits, '+', '-', '.' or '_'. CollectRules returns pointers to exactly the exported Rule fields of the grammar struct in field order. SetRuleNames gives each rule whose tag has a non-empty name exactly this name, leaves the others as they are, and fails if and only if such a name is invalid. CheckRules succeeds if and only if every given rule has a valid name and a reader; MustCheckRules and MustSetRuleNames panic exactly when the other form fails. Connecting a basket or a log with rules (PickWith, NewBasketFor, Monitor, MonitorGrammar) makes every read of each given rule be recorded once under its name.",
 ["inputs"],"for every name, every grammar struct built of the field kinds (rule, rule with reader, other type, embedded, unexported, with and without tags) with up to three fields, and every list of up to three rules",
 "The tests name and collect the rules of one struct and check a handful of names.",
 ["grammar.go","tracker.go","monitor.go"],[("name check","grammar.go: CheckRuleName"),("reflection over the fields","grammar.go: CollectRules, SetRuleNames"),("connection of rules","tracker.go: PickWith, NewBasketFor; monitor.go: Monitor, MonitorGrammar")],["CheckRuleName","CollectRules","SetRuleNames","CheckRules","NewBasketFor","Log.MonitorGrammar"])

p("C35","Printed forms, graph comparison and building report exactly the content",
 "Token.String is '[FROM-TO)' with the decimal ends, Segment.String the info followed by the token, Basket.String the picked segments in order joined by ';', ReadError.Error 'not able to read WHAT at POSITION', Rule.Rule 'NAME: WHAT', GrammarLines one such line per rule in order, LogEntry.String the level, as many dots, '@ ', the position, a blank and the info. Graph.Equal and Node.Equal report true if and only if both trees have the same shape and equal segments at every node. FlameStack has one line per node, depth first: the numbered segments on the path from the root joined by ';', a blank and the length of the node. NewGraph has an empty root with the name; BuildGraph gives the graph that appending the segments one after the other gives, also behind a rejected one, and leaves the list as it is.",
 ["inputs"],"for all segments, infos and positions; for baskets, trees and lists of the bounded sizes of every shape",
 "The tests compare a few graphs and strings.",
 ["graph.go","segment.go","token.go","tracker.go","error.go","grammar.go","monitor.go"],[("recursive comparison","graph.go: Equal"),("recursive line builder","graph.go: makeStackLines"),("appends","graph.go: BuildGraph"),("formats","token.go, segment.go, tracker.go, error.go, grammar.go, monitor.go: String, Error, Rule")],["Graph.Equal","Graph.FlameStack","BuildGraph","Basket.String","ReadError.Error","GrammarLines"])
p("C36","The Lua syntax rules combine their parts as the manual's productions do",
 "Each syntactic rule of the Lua grammar (fields, tables, functions, arguments, calls, variables, expressions, lists, labels, every kind of statement, blocks and chunks) consumes exactly what its production in section 9 of the Lua 5.4 manual describes, in its form without left recursion: the same keywords (whole words only), symbols, names and parts, with the same options, repetitions and alternatives in the same order. White space and comments are allowed between all parts, every part that can follow is consumed (the longest reading), and no alternative of an expression, field, argument or statement hides another one that is meant. Reading with the grammar reads one block from the start; a script may start with a '#!' line. What the lexical rules accept is described in C26.",
 ["inputs"],"for every text, with nested expressions, blocks, literal strings and comments as units",
 "The tests read four fragments with single rules and the empty program with the whole grammar.",
 ["grammar/lua.go"],[("rule definitions","grammar/lua.go: Lua"),("order of alternatives","grammar/lua.go: Stat, Field, FinalExp, Exp, FuncArgs"),("entry","grammar/lua.go: Read")],["Lua"])
open('properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
