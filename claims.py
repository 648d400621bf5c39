T="Trusted: go/types, x/tools/go/ssa, the abstract interpreter and its models of strings/unicode/utf8. Sub readers and callbacks are arbitrary within their stated contract. Positions are ideal integers."
for i in ["C01","C02","C03","C04","C05","C06","C07","C08","C09","C10","C11","C12","C13","C14","C15","C16","C17","C18","C19","C20","C21","C22","C23","C28","C29","C30","C31","C34","C35"]:
    c(i,AI,"All paths of all subjects for every text and position. "+T)
PEG="abstract evaluation of the grammar constructors to parsing expressions, then "
G=" The constructors the grammar uses are decided in the same run (as in C07, C09, C15, C16); combinations of them are covered by C04-C16. Trusted: go/types, x/tools/go/ssa, the abstract interpreter, the reference definitions in tool/spec_gram.go."
c("C24",PEG+"nullability and left-call analysis over the rules","All rules of all grammars, every text."+G)
c("C25",PEG+"language equivalence with the reference by a backwards automaton over rune classes","Every valid UTF-8 text, nested values as arbitrary readers."+G)
c("C26",PEG+"language equivalence with the reference by a backwards automaton over rune classes","Every valid UTF-8 text, long bracket levels up to 3 (5 thorough)."+G)
c("C27",PEG+"language equivalence with the reference by a backwards automaton over rune classes and salts","Every valid UTF-8 text; salts of a fixed set (3, thorough 4) told apart, all others as one."+G)
c("C36",PEG+"language equivalence with the manual's production by a backwards automaton over rune classes and unit symbols","Every valid UTF-8 text; nested expressions, blocks, literal strings and comments are units of the text, names are also tried as expressions (for statements in the thorough tier)."+G)
na={
"C32":"The grammar is known to differ from Lua 5.4 (a numeral cannot start or end with a point, escape values are not restricted, attributes and scoping rules are not checked), so the property does not hold as a whole, and texts with unbounded nesting are not regular, beyond the equivalence automaton. What can be decided is claimed instead: each rule relative to its nested parts as C36, the lexical rules as C26, completeness and termination as C24.",
"C33":"The property is false by design: ordered choice without memo reads a prefix again for each alternative, and Exp of the Lua grammar tries FinalExp twice per nesting level, so the effort is exponential in the nesting depth. A repair would need memoisation. Termination is claimed as C11 and C24.",
}
