AST = ['ecmascript/ast/node.go', 'ecmascript/ast/estree.go', 'ecmascript/ast/expressions.go', 'ecmascript/ast/expressions_binary.go',
       'ecmascript/ast/expressions_unary.go', 'ecmascript/ast/expressions_literal.go', 'ecmascript/ast/statement.go',
       'ecmascript/ast/declaration.go', 'ecmascript/ast/module.go', 'ecmascript/ast/script.go']
LIB = ['ecmascript/ast', 'ecmascript/errs', 'ecmascript/lexer', 'ecmascript/parser']
PENDING = 'The analysis that is to decide it is not finished.'

prop('C13', 'Every node type encodes to the ESTree object ESTree prescribes for it',
     'For every syntax tree node, whatever its contents, the ESTree encoding has exactly the type name, keys, operator and kind names, flags and literal values that ESTree prescribes for that kind of node, and each key holds the encoding of the corresponding part of the node. Encoding never panics on a tree the parser can build.',
     ['inputs'], 'all values of all node types: every operator, every combination of absent and present children, lists of every length',
     'The tests compare parser trees for a few dozen sources and never look at the encoding.',
     AST, [('ESTree methods', 'ecmascript/ast'), ('operator and kind name tables', 'ecmascript/ast/expressions_binary.go, expressions_unary.go, declaration.go, statement.go')],
     'lockstep abstract interpretation of each ESTree method against a reference encoding, to a fixpoint', 'proof',
     'Sound for all nodes, given the trusted base in the evidence; numeric literal values and raw text are compared as uninterpreted functions of the node.',
     observe=['return value of ESTree()', 'output of encoding/json on it'])

prop('C14', 'Children keep their place, order and number in the ESTree encoding',
     'In the ESTree encoding of every node, each child appears exactly once under the key for its role, list-valued keys are always arrays (empty rather than null) with one entry per element in the order of the tree, and an absent optional child, or an array hole, is null.',
     ['inputs'], 'all nodes with lists of every length and every combination of absent children',
     'No test inspects the encoding; which lists are empty and which children are absent varies with the input.',
     AST, [('ESTree methods', 'ecmascript/ast'), ('estree helper for absent children', 'ecmascript/ast/estree.go')],
     'lockstep abstract interpretation of each ESTree method against a reference encoding, lists generalised by induction', 'proof',
     'Same analysis as C13, restricted to differences in children and lists.',
     observe=['return value of ESTree()'])

prop('C18', 'Parsers are isolated from each other and deterministic',
     'What a parse returns depends only on its source text, its URL and its options: no lexing, parsing or encoding leaves anything behind in package-level state, and none depends on time, randomness, scheduling, addresses or map iteration order. Any number of parsers can therefore run at the same time or one after another without influencing each other.',
     ['schedules', 'histories'], 'all interleavings and sequences of uses of the library in one process',
     'The tests run one parser at a time, and hidden state only shows with particular histories or interleavings.',
     LIB, [('all parser state in Parser, Scanner and Lexer values', 'ecmascript/parser/parser.go, ecmascript/parser/scanner.go, ecmascript/lexer/lexer.go'), ('read-only tables', 'ecmascript/lexer/token.go, ecmascript/lexer/unicode.go, ecmascript/parser/keyword.go, ecmascript/ast')],
     'interprocedural may-alias and effect analysis over SSA', 'other',
     'Sound for writes through package-level variables up to the standard library summaries listed in the evidence; a map iteration is reported even if its result does not depend on the order.')

prop('C19', 'The library touches nothing but what it is given',
     'Lexing, parsing and encoding have no effect besides reading the source they are given: they never print, log, open or change files, use the network, the clock, the environment or the process, and start no goroutines.',
     ['inputs'], 'all inputs on all paths, error paths included',
     'Tests do not watch standard output, and a stray effect hides on a path that they do not take.',
     LIB, [('no imports beyond pure packages', 'ecmascript/*'), ('errors instead of logging', 'ecmascript/errs/errors.go')],
     'who-may-call analysis over type-resolved calls, function values and variables', 'other',
     'Sound up to the enumerated list of pure standard library packages; anything outside that list is reported.')

PAR = ['ecmascript/parser/parser.go', 'ecmascript/parser/expression.go', 'ecmascript/parser/statement.go', 'ecmascript/parser/declaration.go',
       'ecmascript/parser/module.go', 'ecmascript/parser/script.go', 'ecmascript/parser/keyword.go', 'ecmascript/parser/context.go']
LOCK = 'lockstep abstract interpretation of every parser production against a reference grammar, to a fixpoint'
PNOTE = 'Sound for all token streams of any length, given the trusted base in the evidence; constructs that the parser does not support are specified as syntax errors.'
def parser(id, title, statement, text, why, mech, files=PAR, over=['inputs']):
    prop(id, title, statement, over, text, why, files, mech, LOCK, 'proof', PNOTE, observe=['node and error returned by Parser.Parse'])

parser('C04', 'Every operator in the source becomes that operator in the tree',
    'Every unary, binary, logical, assignment and update operator and the conditional, comma, member and call forms are represented in the tree by the node type and operator code of exactly that operator, with prefix and postfix kept apart. No operator is mistaken for another one, dropped or applied to the wrong operands, in whatever expression it occurs.',
    'all expressions: every operator in every position, at every depth',
    'The tests have a few expressions per operator, hardly any with several operators next to each other.',
    [('expression parser', 'ecmascript/parser/expression.go'), ('operator tables', 'ecmascript/parser/expression.go, ecmascript/ast/expressions_binary.go')])
parser('C05', 'Operator precedence and associativity are those of ECMAScript',
    'Expressions group as in ECMAScript for every combination of operators: binary levels from `??` and `||` to `*`, left-associative except for `**`, right-associative assignments and conditionals, unary operators below `**` and above the others, `new`, calls and member access innermost. Combinations without a grouping (such as `-a ** b`, or `??` next to `||`) are syntax errors, and parentheses keep their group as a node of its own.',
    'all sequences of operators and operands, of any length and nesting',
    'Grouping depends on pairs and triples of operators; tests sample a few of thousands of combinations.',
    [('precedence climbing with exprOrder', 'ecmascript/parser/expression.go')])
parser('C10', 'Semicolons are inserted exactly where ECMAScript inserts them',
    'A statement that ends with a semicolon may omit it exactly when the next token is `}`, is the first one on its line, or is the end of the source; after do-while it is always optional. A line break ends `return`, `break` and `continue` before their operand, is not allowed after `throw`, keeps `++` and `--` from being postfix operators, and keeps `=>` and `async` from making an arrow or async function; everywhere else line breaks mean nothing.',
    'all token streams with all placements of line breaks',
    'Line breaks can stand between any two tokens; the tests have them in a handful of places.',
    [('expectSemicolon', 'ecmascript/parser/parser.go'), ('newline flag of tokens', 'ecmascript/lexer/token.go')])
parser('C11', 'The parser accepts the supported grammar and rejects everything else',
    'Script, module and expression sources made of the constructs that the parser supports are accepted, whatever their length and nesting; token sequences that are not in the ECMAScript grammar, and constructs that the parser does not support, are rejected with a syntax error. Nothing malformed is repaired, skipped or silently dropped.',
    'all token streams', 'Both sides are infinite: the tests have a few dozen valid sources and fewer invalid ones.',
    [('recursive descent over the scanner', 'ecmascript/parser')])
parser('C12', 'The tree holds all parts of the source, each in its place and in order',
    'Each part of an accepted source (test and branches, initialisers, callee and arguments, keys and values, labels, parameters, bodies, elisions, list elements) is in the field of the node for its role, exactly once, and lists have the order of the source. Flags such as computed, method, kind, static, async, generator and rest are those of the source, and nothing leaks from one node into a later one.',
    'all accepted token streams', 'The tests compare few trees, with short lists, and not every field.',
    [('node construction in every production', 'ecmascript/parser')])
parser('C15', 'Trees are complete: only optional children are absent',
    'In every tree that the parser returns, each child that ESTree requires is present: no nil in required places or in lists other than holes of arrays. The children that are optional in the grammar (else, initialisers, the parts of a for header, return values, superclasses, catch parameters, handlers and finalizers, default cases) are absent exactly if the source leaves them out.',
    'all accepted token streams', 'A missing child only shows with particular incomplete constructs, which tests do not have.',
    [('sub-statements and operands', 'ecmascript/parser/statement.go, ecmascript/parser/expression.go')])
parser('C16', 'Placeholders of arrow parameter parsing never reach the caller',
    'While the parser does not know yet whether a parenthesis starts arrow parameters, it uses temporary nodes; no tree that it returns contains one, at any depth. Sources in which they would be left over, such as `()`, `(...a)` or `(a, ...b) + 1` without an arrow, are syntax errors.',
    'all token streams', 'Placeholders can be left at any depth of a nested literal or sequence; the tests look at few of them.',
    [('ContainsTemporalNodes', 'ecmascript/ast'), ('conversion of parameters', 'ecmascript/parser/expression.go')], files=PAR + AST + ['ecmascript/ast/temporal.go'])
parser('C17', 'Strict, async and generator contexts begin and end where they should',
    'Which words are identifiers depends on the context alone: `await` is reserved in async functions, `yield` in generators, the strict mode reserved words in modules, class bodies and code under "use strict". Each function starts its own async and generator context, arrow functions included, and every context is restored where its construct ends, so that nothing before or after it is affected.',
    'all token streams, all nestings of functions, classes and directives',
    'A context that leaks only shows in code that follows a nested construct and uses one of a few words.',
    [('parseContext', 'ecmascript/parser/context.go'), ('save and restore around bodies', 'ecmascript/parser/expression.go, ecmascript/parser/statement.go, ecmascript/parser/declaration.go')])
parser('C23', 'Every node spans exactly its source text',
    'The span of every statement, declaration, expression, method definition and catch clause node starts at the location of the scanner before its first token and ends at the location after its last one, a closing bracket or semicolon included (the span of an expression statement is that of its expression). Spans of children thus lie within that of their parent, in order, however deep they nest.',
    'all accepted token streams', 'The tests clear spans before they compare trees.',
    [('setStart, setEnd and start arguments', 'ecmascript/parser'), ('ast.Span', 'ecmascript/ast/location.go')])
parser('C27', 'Arrow function parameters are the parameters of the source',
    'Parameters of arrow functions, which are first read as an expression, are converted without loss: identifiers, defaults, array and object patterns with holes, defaults, renamed keys and rest elements, in their order. Whatever can not be a parameter list (other expressions, a rest parameter that is not last, reserved words, compound assignments) is a syntax error, and parentheses or calls that are no arrow parameters keep their meaning, `async(...)` included.',
    'all parenthesised token streams in front of an arrow or not', 'Cover grammars have many forms that only differ tokens later; tests have a few arrow functions.',
    [('convertExprToArrowParams, convertExprToCallParams', 'ecmascript/parser/expression.go')])
parser('C32', 'Directive prologues are recognised exactly at the start of bodies',
    'String literal statements at the start of scripts, modules and function bodies are directives until the first other statement, and nowhere else. "use strict" makes the rest of that script or body strict, functions nested in it included, and nothing outside of it.',
    'all scripts, modules and function bodies', 'A directive only matters in combination with reserved words in code that follows it.',
    [('parseDirective', 'ecmascript/parser/statement.go')])
parser('C30', 'Import declarations keep their bindings and module',
    'All supported forms of import (bare, default, namespace, named, aliased, empty and combined ones, with trailing commas) yield exactly the bindings of the source, in order, with imported and local names not exchanged, and the module string with its raw text. Malformed lists are syntax errors, and imports occur at the top level of modules only.',
    'all import declarations, of any length', 'The tests have a few imports.',
    [('parseImportDecl', 'ecmascript/parser/module.go')])
parser('C31', 'Binding patterns keep their elements',
    'Array and object patterns in declarations, parameters and catch clauses yield exactly the elements of the source, in order: holes, nested patterns, shorthand and renamed properties, initialisers and rest elements. A rest element is last and has no initialiser, and malformed patterns are syntax errors.',
    'all patterns, of any length and depth', 'The tests have a few small patterns.',
    [('parseArrayBindingPatternTail, parseObjectBindingPatternTail', 'ecmascript/parser/statement.go')])
parser('C33', 'Control statements keep their parts',
    'if, for (all three forms), while, do-while, switch, try, block, labelled, break, continue, return, throw, empty and variable statements have exactly the tests, bodies, branches, headers, clauses, labels and declarators of the source: a dangling else belongs to the nearest if, `in` and `of` make a for-in or for-of only as such, a switch has at most one default, and a try has a handler or finalizer. Everything else in their place is a syntax error.',
    'all statements, of any length and nesting', 'The tests have one or two sources per statement.',
    [('statement parsers', 'ecmascript/parser/statement.go')])
parser('C34', 'Members of objects, classes and functions keep their kind',
    'Properties, methods, accessors, constructors, async and generator methods of object literals, supported members of class bodies, and the parameters, rest parameters, names and bodies of functions yield nodes with exactly the key, value, kind, and computed, static, method, shorthand, async and generator flags of the source, in order. In object literals, the words get, set and async are keys where no key follows them.',
    'all object literals, class bodies and functions, of any length', 'Modifiers combine with keys and punctuators in many ways; tests have a few.',
    [('parseObjectTail', 'ecmascript/parser/expression.go'), ('parseClassBody', 'ecmascript/parser/declaration.go')])

LEX = ['ecmascript/lexer/lexer.go', 'ecmascript/lexer/token.go', 'ecmascript/lexer/unicode.go', 'ecmascript/lexer/tokentype_string.go']
LLOCK = 'lockstep abstract interpretation of the lexer against a reference lexer over a symbolic rune stream, to a fixpoint'
LNOTE = 'Sound for all sources of any length, given the trusted base in the evidence. Not specified, and not compared, are templates, escapes in names, hashbangs, optional chaining, BigInts other than 0n, a name directly behind a number, and what follows the digits of a legacy octal literal.'
def lexer(id, title, statement, text, why, mech, over=['inputs']):
    prop(id, title, statement, over, text, why, LEX, mech, LLOCK, 'proof', LNOTE, observe=['tokens returned by Lexer.Lex and Lexer.ReLex'])

lexer('C06', 'Sources are divided into the longest tokens of the lexical grammar',
    'For every source, the sequence of tokens is that of the ECMAScript lexical grammar: at each point the longest punctuator, name, number or string, with the right token type, white space and comments in between (to the first `*/`, or to the end of the line), and the end of the source at its end only. Nothing is skipped, split, joined or lexed twice, and characters that start no token, unterminated comments and malformed literals are syntax errors.',
    'all sequences of characters, of any length', 'Which characters follow each other in a source is unbounded; the tests lex a few hundred short ones.',
    [('consumeNextToken', 'ecmascript/lexer/lexer.go'), ('classes of characters', 'ecmascript/lexer/unicode.go')])
lexer('C07', 'Words are keywords exactly if they are spelled like one',
    'A name (IdentifierStart and IdentifierPart characters of Unicode, as many as there are) is lexed as the keyword token of its spelling exactly if the whole name is that keyword, in lower case; all other names are identifiers, and private names are never keywords. The token has the name as its text, without any change.',
    'all names, of any length', 'The set of names is infinite: tests look at each keyword and a few prefixes or extensions of them at most.',
    [('keyword table', 'ecmascript/lexer/token.go'), ('consumeIdentifier', 'ecmascript/lexer/lexer.go')])
lexer('C08', 'Literal tokens hold the text of the source',
    'The text of a string token is exactly its source text with quotes and escapes, and that of a number is its source text without separators. Each escape and line continuation (CRLF included) is part of the string, the other kind of quote does not end it, and the forms of numbers (bases, separators only between digits, fractions, exponents) are those of ECMAScript, everything else being a syntax error.',
    'all string and number literals, of any length', 'Escapes, quotes, separators, digits and signs combine without bound; the tests have a few dozen literals.',
    [('consumeStringLiteral, consumeDecimalPart and its siblings', 'ecmascript/lexer/lexer.go')])
lexer('C09', 'Tokens know whether a line break precedes them',
    'The newline flag of a token is set exactly if there is a line terminator (LF, CR, LS or PS) between it and the token before it, inside or at the end of comments included, and also at the end of the source. It never carries over to a later token.',
    'all sequences of tokens, white space and comments', 'Line breaks in comments between particular tokens are not sampled by tests.',
    [('newLine of the lexer', 'ecmascript/lexer/lexer.go'), ('Token.NewLine', 'ecmascript/lexer/token.go')])
lexer('C25', 'Regular expression literals end where they should and keep their parts',
    'When the parser asks for a regular expression after `/` or `/=`, it gets the text up to the first `/` that is neither escaped nor in a character class, with that `/=` belonging to the pattern, and all the flag characters behind it; pattern and flags are exactly those parts of the source. A line terminator or the end of the source before that is a syntax error.',
    'all regular expression literals, of any length', 'Escapes, classes and slashes combine without bound; the tests have a few literals.',
    [('ReLex and consumeRegex', 'ecmascript/lexer/lexer.go')])

def extra(id, title, statement, text, why, files, mech, technique, note, over=['inputs'], observe=None):
    prop(id, title, statement, over, text, why, files, mech, technique, 'proof', note, observe=observe)
SCAN = ['ecmascript/lexer/scanner.go']
PARSE = ['ecmascript/parser/parser.go', 'ecmascript/parser/scanner.go', 'ecmascript/errs/errors.go']
DRV = 'lockstep abstract interpretation of all uses of the code against a reference implementation, to a fixpoint'
DNOTE = 'Sound for uses and inputs of any length, given the trusted base in the evidence. '

extra('C01', 'No source makes the lexer or the parser panic',
    'Lexing and parsing end with a result or with one of the errors of the library for every source, in every mode: there is no source for which they index out of range, dereference nil, fail a type assertion or panic with anything else. The same holds for the evaluation of every literal token that the lexer can produce.',
    'all sources, in all modes', 'Unexpected sources are without number; a panic hides behind rare ones, such as unusual tokens at the end of the source.',
    PAR + LEX + ['ecmascript/ast/expressions_literal.go'],
    [('productions of the grammar', 'ecmascript/parser'), ('states of the lexer', 'ecmascript/lexer/lexer.go'), ('conversion of literals', 'ecmascript/parser/constants.go')],
    'lockstep abstract interpretation of all parser productions and lexer states, run-time errors counted', DNOTE + 'Exhaustion of stack or memory by very deep nesting or very long sources is not covered, and the recursion of productions is by contract.',
    observe=['panics of Parser.Parse and Lexer.Lex'])
extra('C02', 'Lexing and parsing terminate',
    'Lexing and parsing terminate for every source, in every mode, including sources that end in the middle of a token, a list or a block. There is no cycle in the lexer or the parser that does not consume input.',
    'all sources, in all modes', 'A test that hangs shows one source; which sources hang depends on where they end.',
    PAR + LEX, [('loops of the parser', 'ecmascript/parser'), ('loops of the lexer', 'ecmascript/lexer/lexer.go')],
    'lockstep abstract interpretation of all parser productions and lexer states, cycles without progress counted', DNOTE + 'Cycles are those within a production or within lexing a token, and left recursion between productions.',
    observe=['termination of Parser.Parse and Lexer.Lex'])
extra('C03', 'Parse returns a tree or an error, and hides no other failure',
    'Parse returns either a tree and no error, or an error of the library and no tree, never both or neither: it returns the syntax, encoding and other errors of its own lexer and parser unchanged, and lets all other panics through. In expression mode the whole source has to be one expression: anything behind it is a syntax error.',
    'all outcomes of parsing, in all modes', 'Tests compare one tree or one error at a time; how failures of each kind leave the parser is not sampled.',
    PARSE, [('Parse and catchError', 'ecmascript/parser/parser.go'), ('kinds of errors', 'ecmascript/errs/errors.go')], DRV,
    DNOTE + 'The productions that Parse calls are replaced by ones that return or panic arbitrarily.', observe=['results of Parser.Parse'])
extra('C21', 'The scanner gives every rune once, with its row and column',
    'The scanner returns the runes of its source in order, each with the location that its place in the source has: rows and columns count from 1, columns count runes, and a row ends behind each line terminator (LF, CR, LS, PS). Unreading a rune restores the location before it, so that it is read again in the same way, and reading the end of the source changes nothing.',
    'all sources, with any sequence of reading and unreading', 'The location at each point depends on the history of reading and unreading; tests follow a few.',
    SCAN, [('Scanner', 'ecmascript/lexer/scanner.go')], DRV, DNOTE + 'At most one rune is unread in a row, as the lexer does.', over=['inputs', 'histories'], observe=['Scanner.Read, Scanner.Location'])
extra('C22', 'Lookahead does not change what is scanned',
    'The parser sees each token of the lexer exactly once and in order, however far and how often it looks ahead: looking ahead changes neither the tokens that are scanned afterwards, nor their number, nor the location. A regular expression is scanned in place of the last token only.',
    'all sequences of looking ahead and scanning, over all tokens', 'Bugs of buffering show only for particular orders of lookahead and scanning, which grow exponentially.',
    ['ecmascript/parser/scanner.go'], [('tokenScanner', 'ecmascript/parser/scanner.go')], DRV,
    DNOTE + 'Lookahead is up to three tokens, more than the parser uses.', over=['inputs', 'histories'], observe=['PeekAt, Scan, ReScan, Location'])
extra('C24', 'Failures of the source reader reach the caller',
    'If the reader of the source fails at any point, the error of the reader is returned by Parse, as an encoding error with the location of the failure and the error of the reader in it, and no tree. The end of the source is not taken for a failure, nor a failure for the end of the source.',
    'failures at all points of all sources, in all modes', 'Tests read from strings, which never fail.',
    SCAN + PARSE, [('Scanner.Read', 'ecmascript/lexer/scanner.go'), ('catchError', 'ecmascript/parser/parser.go'), ('EncodingError', 'ecmascript/errs/errors.go')], DRV, DNOTE,
    over=['fault_sequences', 'inputs'], observe=['error returned by Parser.Parse'])
extra('C28', 'Every token prints as its source text',
    'The source text of a token is its spelling in the language: that of a keyword or punctuator for each of them, the text it holds for names, numbers and strings, with the `#` of private names, and the delimiters and flags of regular expressions.',
    'all tokens, of every type and text', 'Tests print a few tokens only, in error messages at most.',
    ['ecmascript/lexer/token.go', 'ecmascript/lexer/tokentype_string.go'], [('Token.Source', 'ecmascript/lexer/token.go')], DRV, DNOTE, observe=['Token.Source'])
extra('C20', 'The command writes the tree of each file, in order, or fails',
    'For any list of files, the command parses each of them as a script, in order, with its absolute path as file URL, and writes their ESTree encodings to standard output (indented by two spaces, without HTML escapes), with a separator line between two of them and nothing else. If a file can not be opened, parsed or encoded, the command stops there and fails; otherwise it succeeds.',
    'all lists of files, and all failures of opening, parsing and encoding at any of them', 'The command has no tests.',
    ['cmd/estree/main.go'], [('main', 'cmd/estree/main.go')], DRV,
    DNOTE + 'The library, the standard library and the process are replaced by models; what is logged is not compared, and a failure to write the separator is not considered.', over=['inputs', 'fault_sequences'],
    observe=['standard output and exit status of the command'])
extra('C26', 'The web parser returns either the tree or the error',
    'For any arguments, the function that the web page calls returns an object with either the ESTree encoding of its first argument, parsed as a script, as indented JSON text without HTML escapes, or the text of the error that prevented it, never both or neither. It fails with such an error, too, if it gets no argument.',
    'all lists of arguments, and all failures of parsing and encoding', 'The web parser has no tests, and needs a browser.',
    ['web/parser/parser.go'], [('ParseES', 'web/parser/parser.go')], DRV,
    DNOTE + 'The library and the standard library are replaced by models.', observe=['value returned to JavaScript'])

prop('C29', 'Number literals evaluate to the number that they denote',
     'The value of every number literal in the tree is the double nearest to the number that its source text denotes, in every base, with infinity for literals that are too large.',
     ['inputs'], 'all number literals', 'There are infinitely many literals, and rounding differs for rare ones.',
     ['ecmascript/lexer/token.go'], [('NumberConstant', 'ecmascript/lexer/token.go')],
     na='The value is computed by the conversions of strconv and math/big from digits that are only known at run time: a static argument would have to bound the rounding of these, which no dataflow or effect analysis can. The text that is converted (C08), the place of the value in the tree (C12, C13) and that the evaluation does not panic (C01) are decided.')
prop('C35', 'Parsing takes time and memory in proportion to the source',
     'The time and memory that lexing, parsing and encoding take grow with the length of the source by a constant factor only, and deep nesting in the source does not exhaust the stack.',
     ['inputs'], 'all sources', 'Tests measure neither, and have no deeply nested sources.',
     PAR + LEX, [('recursive descent', 'ecmascript/parser'), ('lookahead', 'ecmascript/parser/scanner.go')],
     na='The recursion of the parser follows the nesting of the source, which is unbounded, so that no static bound of the stack exists (the parser has no limit of nesting that could be checked), and amortised costs are run-time quantities. That no cycle runs without consuming input is decided by C02.')
