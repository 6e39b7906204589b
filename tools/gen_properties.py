#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source for the property texts)."""
import json, os
L='crates/joker/src/lexer.rs'; TK='crates/joker/src/token.rs'; CH='crates/joker/src/char.rs'; RD='crates/joker/src/reader.rs'
TR='crates/joker/src/track.rs'; WD='crates/joker/src/word.rs'; JE='crates/joker/src/error.rs'
P='src/parser.rs'; PT='src/track.rs'; PC='src/context.rs'; PA='src/atom.rs'; PTOK='src/tokens.rs'; PST='src/stack.rs'; PS='src/state.rs'; PE='src/error.rs'; PX='src/expr.rs'
EA='crates/easter/src/'; ES='crates/estree/src/'; UJ='crates/unjson/src/'
BASE="The only test that runs here is a table of 145 short sources for the lexer, each holding one token (crates/joker/tests/unit.json); "
NOP="No parser, AST, ESTree or JSON-accessor test runs in this tree (the upstream parser test needs a submodule and crates that are absent); "
props=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    props.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None)))

p('C01','Lexing any text is total and always makes progress',
 'Lexing any sequence of Unicode characters, under any choice of operator mode per token, yields after finitely many tokens either the end-of-input token or an error; it never panics or runs past the end of the input. Every token other than end-of-input consumes at least one character, and once end-of-input has been returned every further read returns it again at the same position.',
 ['inputs','histories'],'every character sequence (valid, truncated, mutated or random, any Unicode scalar values) and every sequence of operator-mode flags',
 BASE+'all but a handful are well formed, and none ends inside a lexeme, which is where a hand-written lexer indexes past the end.',
 [L,RD],[('one-character dispatch over (peek, peek2)',L),('lookahead reader that returns None at the end',RD)],['joker::lexer::Lexer::read_token'])
p('C02','Token locations and newline flags are exact',
 'Each token\'s location delimits exactly the characters it was lexed from: offset counts characters, line counts line terminators (LF, CR, CRLF as one, U+2028, U+2029) and column counts characters since the last of them. Tokens come in source order without overlap, everything between two tokens is white space or comments, and a token\'s newline flag is set exactly when a line terminator (also one inside a block comment) separates it from the previous token or the start of input.',
 ['inputs'],'every sequence of tokens and trivia, with every mix of line terminators and of characters inside and outside the BMP',
 BASE+'it compares token values only and never looks at a location or a newline flag.',
 [L,RD,TR],[('position advance on every consumed character',RD),('start/end capture around each lexeme',L)],['Token.location','Token.newline'],
 [dict(name='curr_posn',meaning='offset, line and column of the next unread character',where=RD)])
p('C03','Punctuators are recognised by maximal munch',
 'A run of punctuator characters is split into the longest ECMAScript punctuators from the left, and every punctuator the token type can represent is produced for its spelling. A slash begins a division operator when the caller asks for an operator and a regular expression literal otherwise.',
 ['inputs'],'all concatenations of punctuators, with and without separating trivia, in both operator modes',
 BASE+'each punctuator appears there alone, so which of two overlapping spellings wins is never tested, and one punctuator is never tested at all.',
 [L,TK],[('two-, three- and four-character lookahead matches',L)],['joker::lexer::Lexer::read_token'])
p('C04','Words are classified as the language defines them',
 'A maximal run of identifier characters (Unicode ID_Start / ID_Continue, $, _, ZWNJ, ZWJ and \\u escapes denoting such characters) is one token: a reserved word for exactly the unescaped spellings of the reserved words, otherwise an identifier carrying the unescaped text, marked as contextual exactly when it is an unescaped contextual word. An escaped reserved word, and an escape that denotes a character not allowed at that place of an identifier, are errors.',
 ['inputs'],'all identifier names over the assigned characters of Unicode 9.0, every reserved and contextual word, every subset of characters written as escapes',
 BASE+'it has a few dozen words and escapes and no non-ASCII class boundary.',
 [L,WD,CH],[('word map and escape flag',WD),('ID_Start / ID_Continue predicates',CH),('escape decoding',L)],['TokenData::Reserved','TokenData::Identifier'])
p('C05','Numeric literals keep their source form and denote the right value',
 'Every numeric literal form (decimal integers, fractions, exponents, hexadecimal, octal, binary, legacy octal) lexes to one token whose recorded source form reproduces the digits, letter case and sign as written, and whose value is the IEEE double nearest to the mathematical value. An identifier start or digit directly after a numeric literal is an error.',
 ['inputs'],'all digit strings up to and beyond the precision and range of doubles, all radixes, all sign, letter-case and omission variants',
 BASE+'its numbers are short; rounding past 53 bits, overflow, underflow and long exponents are out of its reach.',
 [L,TK],[('scanner for each literal form',L),('value of a source form',TK)],['NumberLiteral.value','NumberLiteral.source'])
p('C06','String literals keep their source text and decode every escape',
 'The recorded source of a string literal is the exact source text including quotes, and its value is the ECMAScript string value: single-character, hexadecimal, legacy octal, \\u and \\u{} escapes decoded, surrogate pairs combined, and line continuations (LF, CR, CRLF, U+2028, U+2029) contributing nothing. Strings whose value contains an unpaired surrogate are outside the claim, since the value type cannot represent it.',
 ['inputs'],'all strings over Unicode, with each character written raw or by any escape that denotes it, next to any following character',
 BASE+'it samples about twenty strings and never checks the recorded source.',
 [L,CH],[('escape decoder writing source and value in parallel',L),('single-character escape table',CH)],['StringLiteral.value','StringLiteral.source'])
p('C07','Regular expression literals are delimited correctly and kept verbatim',
 'In operand position a slash starts a regular expression literal that extends to the first slash that is neither escaped nor inside a character class; pattern text and flags are kept verbatim. A line terminator or the end of input inside the body, inside a class or after a backslash is an error.',
 ['inputs'],'all regular expression bodies built of plain characters, escapes and classes, with any flags, and their truncations and line-broken variants',
 BASE+'it has seven regular expressions and none that is cut off.',
 [L,TK],[('body, class and backslash scanners',L)],['RegExpLiteral.pattern','RegExpLiteral.flags'])
p('C08','White space and comments never change the tokens',
 'Replacing the trivia between two tokens by any other sequence of ECMAScript white space, line terminators, line comments, block comments and HTML-like comments leaves the token values unchanged, and changes newline flags exactly by whether a line terminator is present. The HTML-like close comment is recognised only where the line has so far held nothing but white space and comments; elsewhere its characters are ordinary operators.',
 ['inputs'],'all token sequences crossed with all trivia sequences, every ECMAScript space and line terminator character, comments of any content',
 BASE+'it only adds one plain space before and after a token and never a comment between two tokens.',
 [L,CH],[('trivia loop before each token',L),('white space and newline predicates',CH)],['Token.value','Token.newline'],
 [dict(name='empty_line',meaning='nothing but trivia seen since the last line terminator',where=L)])
p('C09','Peeking, reading and putting back tokens is one consistent stream',
 'Any sequence of peek, repeat-peek, read, re-read, skip and put-back operations within the lookahead bound behaves as a queue over the token sequence: peeking does not consume, a read returns exactly what was peeked, and a token put back is the next one returned. The operator flag matters only when a token is first lexed.',
 ['histories'],'every sequence of lookahead operations, operator modes and put-backs (at most two tokens ahead) over every input',
 BASE+'it reads two tokens in a row and never peeks or puts back.',
 [L],[('lookahead deque',L)],['joker::lexer::Lexer'],[dict(name='lookahead',meaning='tokens lexed and not yet consumed',where=L)])
p('C10','Malformed lexemes are rejected with the error that names the defect',
 'Lexing fails at the first malformed lexeme and nowhere earlier, and the error names the defect: illegal character, invalid or missing digit, missing exponent, identifier or digit after a number, unterminated string, regular expression or comment, incomplete or illegal identifier escape, code point out of range, reserved word with escapes. Well-formed lexemes are never rejected.',
 ['inputs'],'all token sequences in which one lexeme is cut short, corrupted or glued to the wrong neighbour',
 BASE+'it holds a few dozen malformed lexemes and only asserts that some error occurs.',
 [L,JE],[('error returns of each scanner',L)],['joker::error::Error'])
p('C11','Parsing recovers every program from its printed form',
 'For every syntax tree in the supported language (ES5 plus let/const, generator functions, spread, rest parameters, methods, shorthand properties, for-of, new.target and simple destructuring assignment) and every way of printing it as source text, parsing yields exactly that tree: same shape, operators, names, literals, parameters and directives. Redundant parentheses, white space, comments, trailing commas and optional semicolons do not change the tree.',
 ['programs','inputs'],'all syntax trees of the supported language and all layouts (trivia, redundant parentheses, inserted or explicit semicolons, literal spellings)',
 NOP+'and a fixed corpus samples neither tree shapes nor layouts.',
 [P,PS,PX,PTOK],[('recursive-descent productions',P),('label and in-operator context',PC)],['esprit::script'])
p('C12','Operators group by precedence and associativity',
 'An expression printed with only the parentheses ECMAScript requires parses to the tree it was printed from: binary operators group by precedence and to the left, assignment, conditional and prefix operators to the right, and postfix, call, member and new bind as specified. Inside a for head the in operator is not part of the initialiser unless bracketed.',
 ['programs'],'all nestings of all unary, binary, logical, conditional, assignment, update, sequence, call, member and new expressions',
 NOP+'pairs, triples and deeper nestings of about sixty operators cannot be listed by hand.',
 [PST,P,EA+'punc.rs'],[('operator-precedence stack',PST),('precedence table',EA+'punc.rs'),('new/call/member suffix loops',P)],['esprit::script'])
p('C13','Semicolons are inserted exactly where the language allows',
 'A statement terminator is recorded as explicit with its position when the semicolon is written, and as inserted when it is omitted before a closing brace, the end of input, or a token on a new line that cannot continue the statement; a do-while needs none. An omission anywhere else is rejected as a failed insertion that carries the token where the terminator is missing, and break, continue, return, throw and postfix operators never take their operand across a line terminator.',
 ['programs','inputs'],'all statement sequences crossed with all choices of omitted semicolons and line terminators between tokens',
 NOP+'where a newline may stand is a property of every token gap of every program.',
 [PT,PTOK,PS,P],[('end_with_auto_semi',PT),('has_arg_same_line',PS),('expression_continuation',PTOK)],['easter::punc::Semi','esprit::error::Error::FailedASI'])
p('C14','Jumps and labels are accepted exactly when they have a target',
 'A program is accepted only if every unlabelled break is inside a loop or switch, every unlabelled continue is inside a loop, every labelled break names an enclosing label, every labelled continue names an enclosing label of a loop, no label is nested inside itself, and every return is inside a function. Functions start a fresh set of targets, and programs meeting these rules are never rejected on these grounds.',
 ['programs'],'all nestings of loops, switches, labels, functions and jump statements',
 NOP+'target resolution depends on the whole path of enclosing statements.',
 [P,PC],[('label map, loop, switch and function context',PC),('break/continue/return productions',P)],['esprit::error::Error'],
 [dict(name='Context',meaning='labels, loop, switch and function state at the current point',where=PC)])
p('C15','Strict code rejects its reserved words, bindings and with statements',
 'In strict code (strict entry point, module entry point, or below a "use strict" directive of the script or an enclosing function) a with statement, a binding named eval or arguments, and any use as an identifier of implements, interface, let, package, private, protected, public, static or yield is rejected; await is rejected as an identifier in modules only. The same program outside strict code is accepted, and property names are never restricted. Bodies of generators, where yield is an operator and not supported, are outside the claim.',
 ['programs'],'all programs mixing those words in every binding, reference, label and property position, below every nesting of functions with and without directives',
 NOP+'strictness flows from directives and goals into arbitrary nesting.',
 [P,PA,PC],[('strict_check and context.strict',P),('strict word table',PA),('directive handling',P)],['esprit::script','esprit::strict','esprit::module'])
p('C16','Deferred goal resolution agrees with parsing for that goal directly',
 'For any source without import or export, parsing it without a goal and then asking for a script, strict script or module gives the same tree as parsing it for that goal directly, or an error in both cases. Accepting as strict script implies accepting as sloppy script with the same tree, and accepting as module implies accepting as strict script.',
 ['programs'],'all programs, valid and invalid, with strict-only and module-only restricted words',
 NOP+'the property relates four entry points on every input.',
 [P,PE],[('deferred checks',P),('Program::{script,strict,module}',P)],['esprit::program','esprit::script','esprit::strict','esprit::module'],
 [dict(name='deferred',meaning='strict-mode and module checks postponed until the goal is known',where=P)])
p('C17','Syntax tree locations are exact',
 'Every located node of a parsed tree spans from the first character of its first token to the end of its last token (an explicitly written terminating semicolon included, parentheses around an outermost operand and trailing trivia excluded), so child locations lie inside their parent and siblings follow each other in source order. This holds for expressions, statements, declarations, patterns, properties, functions and operators alike.',
 ['programs','inputs'],'all programs under all layouts',
 NOP+'and the upstream parser test erases locations before it compares.',
 [P,PT,PX,PST,PC],[('span helpers',PT),('span(left, right) on composite nodes',P)],['easter location fields'])
p('C18','Parsing any text is total',
 'Parsing any text for any goal returns a tree or an error and never panics, for every nesting the call stack can hold. Import and export declarations, classes, templates, arrow functions and other unsupported syntax are rejected with an error like any other unaccepted program. The outcome depends on the text and the goal alone: parsing it again, after any other texts and on any thread, gives the same tree or error.',
 ['inputs'],'arbitrary text, arbitrary token sequences, and mutations, truncations and splices of valid programs, for all four entry points',
 NOP+'a crash needs an input nobody thought of.',
 [P,PS,L],[('Result-based productions, re-read assertions',P)],['esprit::script','esprit::strict','esprit::module','esprit::program'])
p('C19','Acceptance and trees agree with an independent parser',
 'On the supported language a program is accepted exactly when an independent ECMAScript parser accepts it, and both produce the same tree. Early errors the parser does not claim to implement (duplicate declarations and parameters, strict-mode octal and delete checks, regular expression pattern syntax, new.target placement) and unsupported syntax are outside the comparison, and so are a directive\'s reach back to the parameters and name of its own function, assignment to eval or arguments in strict code, labelled and conditional function declarations, let as a name, and generator-only uses of yield as a name.',
 ['programs'],'token-level mutations, deletions, duplications and splices of generated programs, and random token sequences',
 NOP+'the boundary between valid and invalid programs is only reached by near-miss inputs.',
 [P,L,ES+'lib.rs'],[('all productions',P)],['esprit::script'])
p('C20','Only valid targets can be assigned, updated or iterated into',
 'Simple assignment and for-in/of heads accept an identifier, a member expression, or an array or object pattern of such targets; compound assignment and the increment and decrement operators accept only identifiers and member expressions. Any other left-hand side is rejected as an invalid target and never rewritten into something else.',
 ['programs'],'every expression form in every target position, parenthesised or not, nested in patterns',
 NOP+'targets are recovered from already parsed expressions, so any expression form can reach the conversion.',
 [P,EA+'cover.rs'],[('into_assign_target / into_assign_patt',EA+'cover.rs'),('unary, assignment and for-head productions',P)],['esprit::error::Error::InvalidLHS'])
p('C21','Directive prologues are the leading string statements and nothing else',
 'The directives of a script, module or function body are exactly its leading expression statements that consist of one unparenthesised string literal token, with source text preserved; a leading string that is continued by an operator, member access, call or comma (also on the next line) is an expression statement. A directive enables strict mode exactly when its source is use strict between quotes, without escapes. What a use module directive means for the choice of goal is outside the claim.',
 ['programs'],'all bodies starting with any number of string literals in any spelling followed by any continuation, with and without semicolons and newlines',
 NOP+'the prologue ends at a place that depends on the token after the string and on the newline between them.',
 [P,PTOK,EA+'stmt.rs'],[('match_directive_opt',P),('expression_continuation',PTOK),('Dir::pragma',EA+'stmt.rs')],['Body.dirs'])
p('C22','Untracking erases every location and nothing else',
 'Untracking any syntax tree clears every source location in it, at every depth and in every node type, keeps everything else, and is idempotent. Trees parsed from two layouts of the same program become equal after untracking.',
 ['programs'],'all syntax trees of every node type with every combination of present and absent locations',
 NOP+'and a single forgotten field is visible only in trees that contain that node type with a location there.',
 ['crates/derive/src/lib.rs',TR]+[EA+f for f in ('expr.rs','stmt.rs','decl.rs','patt.rs','obj.rs','fun.rs','id.rs','punc.rs')],[('derived Untrack',"crates/derive/src/lib.rs"),('hand-written Untrack impls',TR)],['joker::track::Untrack'])
p('C23','Location accessors read and write the node\'s own location',
 'For every node type, reading a node\'s tracked location returns the location stored in that node (for a wrapper, that of the node it wraps), and writing through the mutable accessor changes exactly that location and no other. Joining two locations yields the start of the first and the end of the second, and nothing if either is missing.',
 ['inputs'],'all node types and variants with arbitrary locations',
 NOP+'the accessors are generated by a macro for each of about thirty types.',
 ['crates/derive/src/lib.rs',TR,EA+'patt.rs',P],[('derived TrackingRef/TrackingMut',"crates/derive/src/lib.rs"),('span()',TR)],['joker::track::TrackingRef','joker::track::TrackingMut'])
p('C24','Operator spelling, token and precedence tables agree',
 'Every unary, binary, logical and assignment operator is read from its spelling, binary, logical and assignment operators are displayed by that same spelling, unknown spellings are refused, and the token lexed from a spelling converts to the same operator and to no operator of another class; the in operator converts only where it is allowed. Operator precedences order the classes as ECMAScript does.',
 ['inputs'],'all operators, all tokens, all strings',
 NOP+'nothing here exercises the tables.',
 [EA+'punc.rs'],[('FromStr, Display, ToOp, Precedence',EA+'punc.rs')],['easter::punc'])
p('C25','Tree equality means same structure',
 'Two syntax trees compare equal exactly when they have the same shape, operators, names, literal values (regular expression flags in any order) and locations, where new with an empty argument list equals new without one; a single difference anywhere makes them unequal. Equality is reflexive on trees without NaN and symmetric.',
 ['programs'],'all pairs of a tree and a tree differing from it in one place, and independent pairs',
 NOP+'equality is hand-written over all expression forms, so any two forms can be confused.',
 [EA+'expr.rs',TK],[('PartialEq for Expr',EA+'expr.rs'),('literal equality',TK)],['PartialEq'])
p('C26','Expressions convert to assignment patterns faithfully',
 'Converting an expression to an assignment target or pattern succeeds exactly for identifiers, member expressions, and array and object literals built of them (elisions and a final spread allowed), keeps every component and location, and maps a final spread to a rest pattern. Everything else, including methods, accessors, non-final spreads and defaults, is refused with an error located at an offending part.',
 ['inputs'],'all expression trees, tracked or not',
 NOP+'the conversion is applied to arbitrary already built trees.',
 [EA+'cover.rs'],[('into_assign_target / into_assign_patt / into_assign_prop',EA+'cover.rs')],['easter::cover'])
p('C27','ESTree documents decode to the tree they describe',
 'Decoding the ESTree JSON of any supported program yields exactly the tree that parsing its source yields after untracking, for every statement, declaration, expression, property, pattern and literal form, including directives and null optional parts. Unknown extra fields do not change the result. Destructuring assignments are described by array and object expressions on the left, pattern nodes being unsupported; ESTree cannot tell new a from new a(), nor a parenthesised leading string from a directive.',
 ['programs','inputs'],'all syntax trees of the supported language encoded as ESTree, with optional and extra fields in every variation',
 NOP+'each of about fifty node types has its own decoder.',
 [ES+f for f in ('expr.rs','stmt.rs','decl.rs','obj.rs','fun.rs','lit.rs','patt.rs','prog.rs','node.rs','tag.rs')],[('IntoNode decoders',ES+'node.rs')],['estree::IntoScript'])
p('C28','Malformed ESTree documents are refused',
 'Decoding a JSON value that is not a well-formed ESTree document of the expected kind (missing or mistyped field, unknown or misplaced node type, unknown operator or kind, wrong array shape) returns an error and never panics or yields a tree that omits or invents parts. Node types the tree cannot represent (classes, templates, arrow functions, modules, pattern nodes) are refused as well, and the error for an unknown type names it. Whether an otherwise well-shaped document describes a program the language allows is not checked.',
 ['inputs'],'all single corruptions (removal, retyping, renaming, replacement) of any field of any ESTree document, and arbitrary JSON',
 NOP+'every field of every node can be wrong in every way.',
 [ES+f for f in ('expr.rs','stmt.rs','decl.rs','obj.rs','fun.rs','lit.rs','patt.rs','prog.rs','node.rs','tag.rs','error.rs')],[('typed field extraction',ES+'node.rs'),('tag decoding',ES+'tag.rs')],['estree::Error'])
p('C29','JSON accessors return the typed content or a precise error',
 'Each typed JSON accessor returns the content when the value has the requested type, returns nothing for null where it is optional, and otherwise reports a mismatch naming the expected and actual type; field accessors report a missing field by name and taking a field removes exactly it. Integer accessors accept exactly the integers their type holds, however the number is stored. None of them panics, and none of the reading ones changes the value.',
 ['inputs'],'all JSON values and all accessors',
 'The crate has no test at all.',
 [UJ+'unjson.rs',UJ+'error.rs',UJ+'ty.rs'],[('ExtractField / Unjson / GetField impls',UJ+'unjson.rs')],['unjson'])
p('C30','Syntax errors blame the first offending token',
 'When a text is no program because of a token that cannot occur at its place, such as an unbalanced closing bracket or the end of input inside an open construct, the error carries exactly that token, never a later one, with its exact location; when it is broken by a malformed lexeme, the lexer\'s error is passed through unchanged. Nothing after that point influences the error. A throw without its argument blames the throw, a reserved word used as a shorthand property blames that word, and a label-less break or continue, an update operator or a strict let that is cut short may be blamed itself.',
 ['programs'],'all valid programs with one foreign closing bracket, truncation or malformed lexeme inserted at any token boundary, and all sequences of tokens',
 NOP+'the blamed position is defined for every prefix of every program.',
 [P,PS,PE],[('expect / unexpected',PS),('LexError wrapping',PS)],['esprit::error::Error'])
p('C31','Declarators and directives are built from and taken apart into their parts',
 'Building a declarator from a name or pattern and an initialiser keeps both and is located from the start of the one to the end of the other; without an initialiser only a simple variable declarator can be built, and anything else is handed back unchanged. A statement is a directive exactly when it is an expression statement of one string literal, converting it keeps location, string and terminator, any other statement is handed back unchanged, and the pragma of a directive is its source text without the quotes. Wrapping a name as pattern, expression or declarator keeps name and location.',
 ['inputs'],'all patterns, initialisers and statements with arbitrary locations',
 NOP+'each conversion is a separate hand-written function.',
 [EA+f for f in ('decl.rs','stmt.rs','patt.rs','id.rs')]+[TR],[('DtorExt for Dtor and ConstDtor',EA+'decl.rs'),('is_directive / to_directive / into_directive / pragma',EA+'stmt.rs'),('IdExt',EA+'id.rs')],['easter::decl::DtorExt','easter::stmt','easter::id::IdExt'])
p('C32','Errors for misuse name the misuse and its exact place',
 'When the only fault of a program is a misplaced jump, an undefined, repeated or unsuitable label, a return outside functions, a reserved word, restricted binding or with statement in strict code, an invalid assignment target, a second default clause, a throw without argument or a try without handler, the error is of the kind for that fault and carries exactly the token, name, statement or left-hand side at fault with its exact location, however deeply it is nested and whatever surrounds it; asking for the goal later reports the same error. Of several such faults the first is reported, where a return counts at its end. Every error has a text, and one that wraps a lexical or target error has it as its cause.',
 ['programs'],'all programs with such faults, in every nesting of statements and functions and under every goal',
 NOP+'an error is built at some twenty places of the parser, each with its own idea of the place to report.',
 [P,PC,PE,EA+'cover.rs'],[('Error values built at each early-error check',P),('Error::description / cause',PE)],['esprit::error::Error'])
p('C33','The lexer reads its input only as it needs it',
 'A lexer over a character iterator takes from it, for the tokens returned so far, at most four characters past the end of the last of them, whether they were read, peeked or put back; making a lexer takes nothing beyond that either. So an endless input works, a token or error that has been returned does not depend on what follows beyond those characters, and an error comes out as soon as the characters that make it certain have been read.',
 ['inputs','histories'],'every text followed by every endless continuation, under every operator mode and every mix of reading, peeking and putting back',
 BASE+'its inputs are complete strings, so how far ahead the lexer reads is invisible to it.',
 [L,RD],[('bounded lookahead buffer',RD),('one token lexed on demand',L)],['joker::lexer::Lexer::new','joker::lexer::Lexer::read_token'])
p('C34','Unsupported syntax is refused by name, or at the token where it starts',
 'Where a binding (of var, let, const, a parameter, a rest parameter or catch) begins with a bracket or brace, and where yield stands as an expression in a generator of sloppy code, parsing fails with the unsupported-feature error "destructuring" or "yield"; an import or export at the top of a module, or of a program whose goal is not given, fails with "import" or "export", and elsewhere as an unexpected token. An import or export makes what stands before it module code: if that holds something a module may not, the first such error is the one reported, with and without a given goal. Classes, arrows, default values, computed names, super, templates and other later syntax are refused as an unexpected token, or failed semicolon insertion, at the token where the supported language ends.',
 ['programs'],'all programs with such a construct, in every nesting and surroundings, and under every goal',
 NOP+'each construct is recognised at a different place of the parser, and nothing records which ones are meant to be refused.',
 [P,PE],[('UnsupportedFeature errors',P),('deferred checks forced by import and export',P)],['esprit::script','esprit::module','esprit::program'])
p('C35','A refused ESTree document is refused for what is wrong with it',
 'When an otherwise well-formed ESTree document has a single defect, the error names it: a missing field by its name; a value of the wrong JSON type with the type expected and the type found; an unknown node type, or one that cannot stand at its place, by that type; an unknown operator or declaration kind by its spelling; a wrong number of loop declarators or accessor parameters with the right and the found number; an invalid assignment target by the field that holds it; an initialiser that a loop head may not have or a const lacks with that initialiser or name. The text of the error states the parts it carries where they are names, types, spellings or numbers, and reading the document through the deserialiser reports that text.',
 ['inputs'],'all documents of all trees with any one field removed, retyped, renamed to another node type or operator, at any depth',
 NOP+'each field of each node type is read by a statement of its own, with its own idea of what to expect.',
 [ES+f for f in ('stmt.rs','expr.rs','obj.rs','node.rs','decl.rs','error.rs','tag.rs')],[('error constructors and Display',ES+'error.rs'),('expect_tag and the node type table',ES+'tag.rs')],['estree::IntoScript','estree::ESTreeScript'])
p('C36','Programs compose: code means the same whatever stands before or around it',
 'What a statement list, or an expression, parses to does not depend on the code before or around it. A text followed by an empty block and a second text parses to the items of the first, the block, and the items of the second parsed alone at its place, or is refused with the error of the part at fault, as are the checks left for a later choice of goal. Statements parse to the same items, with the same locations and terminators or the same error, inside any block, loop, switch, label, try, or function; an expression in brackets likewise in any place for one. And what is around parses the same whatever is inside. Only strictness, jumps and their labels, return, new.target and yield depend on what encloses them.',
 ['programs','inputs'],'all pairs of texts one after the other, and all texts in all nestings of constructs and places',
 NOP+'the parser carries some ten pieces of state (strictness, function, generator, loop, switch, labels, whether in is an operator, literals that are no patterns, tokens put back) from place to place, which must be set and restored on every path.',
 [P,PC,PS,'src/track.rs','src/stack.rs'],[('Context and its replacement on entering and leaving constructs',PC),('save and restore around functions, loops, switches, heads',P)],['esprit::script','esprit::strict','esprit::module','esprit::program'])
p('C37','Escapes in words change neither names nor grammar',
 'Writing any character of a name, property name or label with a Unicode escape leaves the tree the same but for locations, and an error that blames a name (as a reserved or restricted word in strict code, or as a label) the same but for its place. A keyword of the grammar does not survive an escape: a reserved word with one is refused as such wherever it stands, and get, set, of, let or target with one never plays its part in the grammar.',
 ['programs','inputs'],'all programs and refused texts, with any one character of any word escaped in any form',
 BASE+NOP+'the lexer decodes escapes, but which words the parser may then take for keywords is decided at each place that looks at one.',
 [P,'src/atom.rs','src/tokens.rs',L,WD],[('contextual keyword tests',P),('escaped words',WD)],['esprit::script','esprit::strict','esprit::module'])
p('C38','Debug text and equality show the same structure',
 'The debug text of two syntax trees without locations is the same when the trees are equal and different when they are not, so every part of a tree shows (new x counts as new x(), and literals show by what they denote, not how they are written); located trees that are equal show the same text. Token values compare equal exactly when they are the same word, punctuator or end, or literals of the same value (regular expressions: the same pattern and the same flags in any order), however written, and their debug text tells them apart just so; whole tokens compare by location and preceding line break besides. A position shows as its one-based line:column and a span as start..end, and positions and spans compare by offset, line and column.',
 ['inputs'],'all pairs of trees, tokens, positions and spans',
 NOP+'every node kind has its own line in a hand-written Debug implementation, and literals and operators their own; debug text is what test failures and the test generator show.',
 [EA+'expr.rs',EA+'punc.rs',TK,TR],[('Debug and PartialEq of Expr',EA+'expr.rs'),('Debug of Op',EA+'punc.rs'),('literals and tokens',TK),('Posn and Span',TR)],['Debug and PartialEq of easter and joker types'])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for q in props:
        assert len(q['title'])<=80,q['id']
        f.write(json.dumps(q,ensure_ascii=False)+'\n')
print(len(props))
