BASE="Randomised search with a fixed seed and a fixed amount of work; failures are shrunk to a replay file. It explores, it does not prove. "
LEX="Trusts the reference lexer and the generators of the harness, written from the ECMAScript lexical grammar; Unicode classes as of version 9.0."
PAR="Trusts the tree generator and the printer of the harness, which write source text from a tree by the ECMAScript grammar, independently of the parser."
AST="Trusts the harness's own walk over the tree types, which lists every field by hand."
EST="Trusts the harness's ESTree encoder and the schema it is written from."
TECH.update({
"C01":"property-based testing: generated and enumerated texts, totality/progress invariant",
"C02":"property-based testing: layouts with positions known by construction, and text/location consistency",
"C03":"property-based testing with exhaustive short texts against a reference lexer",
"C04":"exhaustive character sweep and property-based testing against a reference lexer",
"C05":"property-based testing: literals spelled from chosen values, reference lexer",
"C06":"property-based testing: strings spelled from chosen values, reference lexer",
"C07":"property-based testing and enumerated bodies against a reference lexer",
"C08":"metamorphic property-based testing: same lexemes under two layouts",
"C09":"stateful model-based testing: operation histories against a queue model",
"C10":"property-based testing: defects by construction, mutation, reference lexer",
"C11":"property-based testing: print/parse round trip over generated trees and layouts",
"C12":"enumerated and generated operator nestings, print/parse round trip with minimal parentheses",
"C13":"property-based testing: statements with omitted terminators at chosen gaps, outcome known by construction",
"C14":"enumerated and generated nestings of jumps and labels against a scope model",
"C15":"property-based testing: restricted words planted in generated programs, against a strictness model",
"C16":"differential property-based testing between the four entry points",
"C17":"property-based testing: node spans known by construction from the printed layout",
"C18":"fuzzing: random texts, token soups, mutated and nested programs, totality invariant",
"C19":"differential fuzzing against acorn: acceptance and trees of near-miss programs, enumerated and random sequences of phrases, mutated real programs",
"C20":"property-based testing: every expression form in every target position, classified by construction",
"C21":"enumerated and generated prologues, outcome known by construction",
"C22":"property-based testing: generated trees with random locations, field-by-field walk",
"C23":"property-based testing: generated trees with distinct locations, read and write through the accessors",
"C24":"exhaustive tables of spellings and pairs, and generated near-operator texts",
"C25":"metamorphic property-based testing: single changes; all pairs of small expressions against structural comparison",
"C26":"property-based testing against a reference conversion",
"C27":"property-based testing: encode/decode round trip over generated trees, against an independent encoder, and over documents that acorn and esprima produce",
"C28":"property-based testing: single and multiple corruptions of generated documents against a schema; arbitrary JSON",
"C29":"property-based testing: accessors against a table of JSON values and types",
"C30":"property-based testing: defects inserted at token boundaries, blamed token known by construction; differential fuzzing of the blamed place against acorn",
"C31":"property-based testing: constructors on generated parts against the expected node",
"C32":"property-based testing: faults planted in generated programs, kind and place of the error known by construction",
"C33":"property-based testing on endless inputs: bound on the characters taken, metamorphic change of what follows",
"C34":"property-based testing: unsupported constructs planted in generated programs, error known by construction; differential between goals",
"C36":"metamorphic property-based testing: generated texts alone, after one another and inside one another, trees with locations and errors compared",
"C37":"metamorphic property-based testing: one character of a word escaped, outcome related to that without the escape",
"C38":"property-based testing: debug text of pairs of trees and tokens against an independent comparison, all pairs of small expressions",
"C35":"property-based testing: one defect planted in a generated document, kind and parts of the error known by construction",
})
for k in range(1,39):
    i="C%02d"%k
    NOTE[i]=BASE+(LEX if k<=10 or k==33 else AST if k in (22,23,24,25,26,31,38) else EST if k in (27,28,35) else "Trusts the table of JSON types in the harness." if k==29 else PAR)
NOTE["C19"]=BASE+"Trusts acorn (run under node) as the reading of ECMAScript, and the mapping between its trees and these."
