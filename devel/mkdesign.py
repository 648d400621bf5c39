import json,os
out=[]
w=out.append
w('''# Deciding the properties of aiq/tok by static analysis

aiq/tok is a scanner and parser-combinator library without concurrency or I/O. What a user relies on
is behaviour for *every* text, position and reader composition: positions stay in range, a failure is
undone, the matcher consumes exactly what it says, combinators follow their definition, nothing
panics or loops, the provided grammars read exactly their language. `properties.jsonl` lists %(all)d such
properties; %(claimed)d have a check, the others are under *Not applicable*.

All checks are one program, `tool/` (about 17,000 lines of Go, x/tools vendored, no network), built by
`build.sh` and run as `check.sh ID`. Every run loads /repo's current source, type-checks it, builds SSA
and decides from that. **No code of /repo is executed and no solver is used**: the deciding steps are
an abstract interpretation of the SSA with the checker's own polyhedral domain (Fourier-Motzkin), a
finite ordering domain, effect analyses, and automata over grammar rules.

## 1. The machinery

### 1.1 Abstract interpreter (`interp.go`, `state.go`, `val.go`, `lin.go`, `models*.go`)
Runs a function of the package on *symbolic* arguments: the text is an unknown string of unknown
length L, the position an unknown p with 0 <= p <= L, sub readers and callbacks are opaque objects
restricted only by the contract that the property grants them. A state holds
* linear constraints over positions, lengths, runes, decoded widths and values (`lin.go`, decided by
  elimination; integer tightening for strides);
* strings as pieces (text[a:b], constants, concatenations, unknown), runes as decoded at a position,
  lazily tied to width facts (1..4, 1 for invalid bytes, encoded width = decoded width unless invalid);
* facts about opaque predicates (`strings.Index`, `EqualFold`, a caller's check function, set
  membership, ...), *quantified* facts "for every rune start in [a,b) pred holds / does not hold";
* a heap of objects, slices with windows, maps, closures, defers, interfaces with dynamic types;
* the trace of observable events of the path: position writes, tracker updates, sub reads, callbacks,
  appends, map writes.
Branches split, infeasible branches are dropped when the constraints are inconsistent. Calls are
inlined (bounded recursion, except opaque readers). An instruction or library call without a model
makes the obligation *undecided*, which fails the check (never silently passes). Possible panics
(index, slice, nil, conversion, division, type assertion) are recorded as events of the path.

### 1.2 Loops (`loop.go`)
A loop is first unrolled where its number of rounds is known (constants, tables). Otherwise an
inductive summary is computed: partition by discrete values (flags, nil-ness), guess linear
invariants from the terms in use, strides and a round counter, keep those preserved by the
body (Houdini style), plus quantified facts about scanned runes and accumulated values. Everything
the loop changes that is not covered by a kept invariant is forgotten. Variants for termination are
found among the same terms. This is what makes "first deciding rune", "nearest match", "exactly n
rounds" decidable for all texts, and it does not depend on how the loop is written (index, range,
flag, helper, decode by hand, `for` with `goto`-like breaks).

If a clause cannot be shown, the subject is analysed a second time, more precisely (the first round of
every loop is kept apart, more partitions, higher unrolling), and only what that analysis cannot show either is
reported. `TOKONCE=1` switches this off.

### 1.3 Finite orderings (`exact.go`, `spec_data.go`, `spec_graph.go`)
Tokens are touched only through comparisons, min/max and copying, so all behaviours are determined by
the relative order of the end points. The interpreter runs with each of the finitely many orderings
and the result is compared with the interval definition. That is exhaustive for all token
values, not a sample.

### 1.4 Effects and dependencies (`spec_pure.go`, `spec_track.go`, `dep.go`)
Who may write the position, the text, reader fields or package variables; which values a written value
depends on. Resolved through SSA (fields by what `Mark()`/`Tail()` return, not by name).

### 1.5 Grammars as terms (`gram.go`, `peg.go`, `spec_gram.go`)
The constructors `JSON()`, `MXT()`, `Lua()` are evaluated abstractly to parsing expressions (the
readers behave as C04-C16 have established for their constructors). A parsing expression
without recursion through opaque values recognises, at each position, a function of the suffix; a
backwards automaton over rune classes (the coarsest partition that all ranges and literals of both
sides respect) computes for every suffix state where each sub expression ends. The rule and a
reference definition written from the RFC/manual are run in product: they must end at the same place for
every suffix. Nullability and left calls are computed on the terms.

### 1.6 Where the oracle is
For each property the oracle is the definition in the `spec_*.go` file, written against
observable results (return values, final position, trace of events): never against the
text or structure of the implementation. Every run counts obligations and fails if fewer than a floor
confirmed by hand were generated (no vacuous pass), and if an anchor (exported function of the
statement) is missing. Subjects are enumerated from the package: every exported `Scanner` method, every
type implementing `Reader` reached through every exported constructor, every rule of the grammars.

A violation names construct, clause, source line and the path of branches, and is
written to `evidence/Cxx.violation.txt`.

## 2. Properties
Times are for one check on 8 idle cores. Level "proof-like" below means: all paths, all inputs under the listed
assumptions, no bound unless one is named.
''')
P=[json.loads(l) for l in open('/verif/properties.jsonl')]
D={
'C01':("spec_pos.go","Every exported Scanner operation is run with symbolic text, 0<=p<=L and arbitrary callbacks; after each path the position term must satisfy 0<=pos<=L. Move, ToMarker, ToStart, ToEnd: success iff target in range, position equals the target / is unchanged. Effect part: nothing outside the enumerated operations writes the position. Callbacks get the scanner and may leave it anywhere in range.","35 s"),
'C02':("spec_pos.go","Text: no write of the text field except to a fresh scanner (effect analysis over the module, aliases included). Observers: every path has no position event, and the returned string is the piece text[0:p], text[p:L], text[t.from:t.to], text[m:p] (piece equality).","< 10 s"),
'C03':("spec_wrap.go","Every Scope/Trace/Use/Tokenize/Capture variant with an opaque callee that moves anywhere and returns an arbitrary result or error: result identical (same symbol), position p on failure, callee's position on success, token/string the exact piece. *Hostile* callees (that move and fail) are included, because these functions promise the undo themselves.","< 10 s"),
'C04':("spec_pos.go","All bool/error returning matchers: on every path whose result is false / a non-nil error the final position equals p as a linear term.","8 s"),
'C05':("spec_pos.go, gram.go","All readers by all constructors with opaque sub readers that obey the contract: on every failing path pos = p. Grammar rules are covered because they are terms over these constructors (extraction proves that no other Read is involved).","25 s"),
'C06':("spec_pos.go","Same enumeration: succeeding forward pos' >= p, reverse pos' <= p.","32 s"),
'C07':("spec_scan.go, spec_read.go","Each path of each one-rune matcher: the path's facts must imply success <=> (rune available in that direction and predicate holds on the decoded rune), and pos' = p +- decoded width. Width facts distinguish decoded from encoded width so U+FFFD versus invalid bytes is seen.","< 10 s"),
'C08':("spec_scan.go, loop.go","Quantified facts at loop exit: To: predicate at the stop position, false on all rune starts passed; fails only with the negative fact on the whole rest. While: predicate on all rune starts of the run, negative (or end) at the stop; true <=> moved. One known finding (WhileAnyRune at the end, pinned by a test).","< 10 s"),
'C09':("spec_str.go","Facts of prefix/suffix/equality/fold tests and of Index/LastIndex (models state: first/last appearance, none elsewhere), loops over candidate positions as in C08.","< 10 s"),
'C10':("spec_safe.go","Every exported function and method (all packages) with arbitrary arguments within the stated preconditions; each index, slice, conversion, nil dereference, type assertion, division, reflect call, explicit panic is an obligation that must be unreachable. Must functions may panic only on the error path.","80 s"),
'C11':("spec_safe.go","Every loop of every subject needs a variant: a linear term bounded below that strictly decreases, or a finite range, or, for repetitions, progress of the position (the sub reader may succeed without moving). Recursion: only over reader structure/graph trees (structurally smaller).","55 s"),
'C12':("spec_track.go","On the event trace: after every position write with a tracker present, before return and before any other callback, there is an update whose argument equals the current position term; every update passes the current position; with a nil tracker no call and the same result. Subjects: all operations that can move.","35 s"),
'C13':("spec_data.go","Baskets with 0..5 (thorough 9) symbolic segments with non-decreasing ends and up to two updates with symbolic positions: the kept window and its elements are compared with the definition in every ordering; Add and Picked by identity of the elements.","< 10 s"),
'C14':("spec_wrap.go","Wrappers around an opaque reader: result symbol and position equal; map/add events exactly one on success, none on failure; token = [p,p']; info symbol equal. Body-like readers hand absolute tokens to their sub readers.","< 10 s"),
'C15':("spec_mon.go","Monitors: the sequence of sub reads (reader, start, end, error) on every path is compared with the operational definition of the combinator; lists of 0..4 (thorough 7) readers with all outcomes of each, repetitions without bound through loop summaries.","< 10 s"),
'C16':("spec_mon.go","As C15 for the lookahead readers, with quantified facts: sub reader failed at every rune step before the stop, tried also at the end.","17 s"),
'C17':("spec_data.go, exact.go","All orderings of the four end points: result compared with interval definitions.","< 10 s"),
'C18':("spec_data.go","Less functions are extracted from the sort calls; irreflexive, asymmetric, transitive, incomparability transitive over all orderings of three tokens (and order indices); strict cover sorts first; the sort used is stable; order list uses the first appearance (lists of 0..3, thorough 4).","< 10 s"),
'C19':("spec_data.go","Lists of 0..4 (thorough 6) symbolic segments in every ordering of their ends; result compared with the tiling of the definition.","< 10 s"),
'C20':("spec_graph.go","All orderings of the ends for graphs made by up to 3 appends and one more append to each, interpreted abstractly; result compared with the nesting definition, and identity of the graph after a rejected append.","50 s"),
'C21':("spec_int.go","Loop invariant: value = value of the digits read so far and <= limit; next digit either missing, or would exceed the limit by exact arithmetic on ideal integers and wrap-around is reported; digit functions evaluated on the rune partition; each base/bit size pair separately, unsupported ones fail.","< 10 s"),
'C22':("spec_value.go","Bool formats enumerated, spelled strings from the facts of the path; runes by decode facts; MoveRunes/ScanString: number of loop rounds = n, fails iff fewer runes are left.","< 10 s"),
'C23':("spec_mon.go","The log object is interpreted through nested monitored reads (nesting <= 3, <= 4 entries per read, two reads one after the other, every combination of success and failure).","< 10 s"),
'C24':("spec_gram.go","Rules extracted; names present, unique, accepted by the interpreted name check; no invalid reader; nullability and left-call fixpoints.","< 10 s"),
'C25':("spec_gram.go, peg.go","Product automaton against the RFC 8259/McKeeman reference, nested values as an arbitrary reader with the value rule's first/last classes; induction on nesting. The constructors the grammar uses are decided in the same run as in C07, C09, C15 and C16.","20 s"),
'C26':("spec_gram.go, peg.go","Product automaton against the manual's lexical rules; long bracket levels up to 3 (5 thorough). The constructors the grammar uses are decided in the same run as in C07, C09, C15 and C16.","40 s"),
'C27':("spec_gram.go, peg.go","Product automaton; salts \"\", \"a\", \"ab\" (and \"/\" thorough) told apart, any other salt as one class; the hand-over through Janus by the effect analysis. The constructors the grammar uses are decided in the same run as in C07, C09, C15 and C16.","50 s"),
'C28':("spec_invalid.go","Constructors run with a parameter of each kind (rune, string, reader, nil, other dynamic type) and symbolic contents; range descriptions up to 7 runes (10 thorough), value lists up to 3; What() terms must contain the What() of all sub readers.","< 10 s"),
'C29':("spec_pure.go, dep.go","Every Read/What of every reader: writes to objects that existed before the call must be one of the documented holders; package variables never; value after success equals the returned symbol.","35 s"),
'C30':("spec_err.go","Error flow: on every path returning nil no sub error outstanding except where the definition recovers; returned error is a sub error symbol or fresh; fresh ReadErrors carry the final position; Any: latest of up to 3 alternatives with symbolic positions (all orderings).","18 s"),
'C31':("lines.go, spec_line.go","Counting functions over places of the text (line ends, tabs, widths) with the facts that splitting at a place adds the counts; models of Count, Split, Fields, LastIndex, ReplaceAll, loops over runes with candidate sums. The two results must equal the definition as terms.","< 5 s"),
'C34':("spec_rules.go, models_reflect.go","CheckRuleName on a symbolic name by quantified facts. Synthetic struct types with 15 kinds of field (rule, rule with reader, pointer, embedded, unexported, with tags of each kind), 1..2 fields and a third rule (thorough 3 fields), run through models of reflect; CheckRules on lists of up to 3 rules; PickWith, NewBasketFor, Monitor, MonitorGrammar with 1..3 rules, which are then read.","5 s"),
'C35':("spec_obs.go","Texts are terms of constants, symbols and decimal forms of linear terms (models of fmt, strconv, strings.Builder, Join); they are compared part by part with the text of the definition. Baskets of 0..4 (8) segments, log levels 0..5, lists of 0..3 rules, flame stacks of all 23 trees with up to 5 (7) nodes, equality of all pairs of trees with up to 4 (5) nodes with symbolic segments, BuildGraph with 2 symbolic segments and with 3 and 4 segments with all ends in 0..3.","3 s"),
'C36':("spec_lua.go, peg.go","Each rule against the manual's production by the product automaton on texts over runes and one extra symbol per unit (Exp, Block, LiteralString, Comment; Block may be absent), all other rules expanded, so that keywords, names and the order of alternatives meet on real characters; equal terms are equal without exploration. The constructors the grammar uses are decided in the same run as in C07, C09, C15 and C16.","55 s"),
}
for p in P:
    d=D.get(p['id'])
    if not d: continue
    w(f"### {p['id']} {p['title']}")
    w(f"*Decided in* {d[0]}; *cost* {d[2]}.")
    w(d[1]); w('')
tail=open('/verif/devel/design_tail.md').read()
rows=[]
for b in sorted(os.listdir('/verif/seeded')):
    m=json.load(open(f'/verif/seeded/{b}/meta.json'))
    rows.append(f"| {b}: {m['what_it_breaks']} | {m['property']} | {m['property']} |")
g={}
exec(open('/verif/claims.py').read().split('na=')[1].join(['na=','']),g)
tail=tail.replace('@@SEEDS@@','\n'.join(rows)).replace('@@NA@@','\n'.join(f'* **{k}** {v}' for k,v in g['na'].items()))
w(tail)
s='\n'.join(out).replace('%(claimed)d',str(len(P)-len(g['na']))).replace('%(all)d',str(len(P)))
open('/verif/DESIGN.md','w').write(s)
