#!/usr/bin/env python3
# Regenerates properties.jsonl (kept as data here so that the statements are easy to edit).
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None)))

p("C01","Tokenising any byte sequence ends, without a crash",
 "For every byte sequence, creating a lexer over it and asking it for tokens neither panics nor hangs. Every token other than the end-of-input token consumes at least one byte of the source, so the end-of-input token arrives after at most as many tokens as the source has bytes. Once the end-of-input token has been returned, every later request returns it again.",
 ["inputs"],"all byte sequences, valid UTF-8 or not, of any length, and every number of token requests",
 "TestIdentifers/TestNumbers use 30 fixed sources and TestLexerFuzz samples 1000 sequences of well-formed tokens; none contains an unterminated text literal, an invalid byte, or a truncated token at the end of input.",
 ["lexer/lexer.go"],[("Lexer.Scan and the per-token scanners","lexer/lexer.go"),("Lexer.next advances over one rune","lexer/lexer.go")],
 ["lexer.NewLexer, Lexer.Scan: return values, panics, number of calls until token.EOF"],
 [dict(name="offset/rdOffset/chr",meaning="current rune, its offset and the offset after it",where="lexer/lexer.go Lexer")])

p("C02","Every token carries its exact source position",
 "For every source, the position returned with a token gives the byte offset at which the token's text begins, a line equal to one plus the number of line feeds before that offset, and a column equal to the distance in bytes from the line's first byte plus one. The end-of-input token is positioned at the length of the source.",
 ["inputs"],"all byte sequences and all tokens of each",
 "The fuzz test checks positions only on single-line ASCII sources; no test covers several lines, comments, multi-byte text or invalid bytes.",
 ["lexer/lexer.go","token/position.go"],[("position computed from the line table in Scan","lexer/lexer.go"),("line table extended when whitespace is skipped","lexer/lexer.go")],
 ["position returned by Lexer.Scan"],[dict(name="lineOffsets",meaning="offsets of the line feeds passed so far",where="lexer/lexer.go Lexer")])

p("C03","Tokens and whitespace together cover the source exactly",
 "For every source, tokens come in source order, do not overlap, and everything between two consecutive tokens is space, tab, carriage return or line feed. A token's literal is exactly the source text it covers, except that a text literal omits its quotes and a comment omits its leading semicolon; a comment extends to the end of its line, and a text literal to its closing quote or, if there is none on that line, to the end of the line with an error recorded by the lexer. Bytes that are not valid UTF-8 are never dropped: outside comments and text literals each becomes an illegal token, whose literal is the Unicode replacement character U+FFFD.",
 ["inputs"],"all byte sequences and all tokens of each",
 "Tests compare literals of tokens separated by single spaces; token boundaries without separating spaces, at end of input, or next to non-ASCII bytes are not sampled.",
 ["lexer/lexer.go"],[("literal slices taken from the source buffer","lexer/lexer.go")],
 ["literal, token and position returned by Lexer.Scan, Lexer.Errors"])

p("C04","A token's kind is decided by its spelling, longest match first",
 "A maximal run of identifier characters starting with a letter, `@`, `_` or `$` is one token: the reserved token exactly if the whole run is one of CDDL's reserved words (int, uint, nint, float, float16, float32, float64, tstr, text, bytes, bstr, bool, true, false, nil, null, any), otherwise an identifier. Every operator, bracket and control-operator spelling yields its own token with the longest spelling winning (`//=` over `//` over `/`, `...` over `..` over `.`, `=>` over `=`), and a run of digits is an integer token, or a float token exactly when it contains a point followed by a digit. Printing a reserved word's or operator's token gives back its spelling.",
 ["inputs"],"all byte sequences; all token values",
 "The tests list about 30 spellings, and the fuzz test only sees spellings produced by the table it is checking, each followed by a space.",
 ["lexer/lexer.go","token/token.go"],[("switch over the first character in Scan","lexer/lexer.go"),("keyword table built from the token table","token/token.go init, Lookup, String")],
 ["token returned by Lexer.Scan; token.Lookup; Token.String"])

p("C05","Lexing never writes to the caller's memory",
 "Creating a lexer over a byte slice and scanning it to the end leaves every byte of the caller's underlying array as it was, including bytes beyond the end of the slice. Overwriting the caller's slice after the lexer has been created does not change the tokens that the lexer returns.",
 ["inputs","histories"],"all byte slices of all lengths and capacities, and every interleaving of caller writes with token requests",
 "All tests pass a fresh slice with no spare data behind it, so writes past the end are invisible to them.",
 ["lexer/lexer.go","cmd/cddlc/commands/repl.go"],[("NewLexer takes the source","lexer/lexer.go")],
 ["the caller's array before and after NewLexer/Scan"])

p("C06","Parsing any byte sequence ends, without a crash",
 "For every byte sequence, creating a parser over a lexer for it and parsing the file returns, without panicking and without hanging, a tree and a list of diagnostics.",
 ["inputs"],"all byte sequences (hence all token sequences), parser built with or without an existing symbol table of complete nodes",
 "The tests parse some fifty well-formed sources; crashes and endless loops on malformed operands, truncated constructs and duplicate declarations lie outside any sample.",
 ["parser/parser.go","parser/diagnostic.go","ast","environment/environment.go"],[("Pratt loop parseEntry, prefix and infix handlers","parser/parser.go"),("token remaining measure: every handler consumes its token","parser/parser.go next")],
 ["parser.NewParser, Parser.ParseFile: return, panics"])

p("C07","No error is swallowed while parsing",
 "When parsing a file returns no diagnostics, the lexer has recorded no error for that source, the whole source up to the end-of-input token has been consumed, and every rule in it parsed completely, so that the returned tree holds exactly one entry per rule or comment group between rules, in source order. Every diagnostic produced by a handler while parsing a rule reaches the returned list.",
 ["inputs"],"all byte sequences",
 "Existing tests compare diagnostics only when their number happens to be the expected one, and never check that malformed sources produce any.",
 ["parser/parser.go"],[("error results propagated through parseEntry/parseRule","parser/parser.go"),("ParseFile collects them","parser/parser.go ParseFile")],
 ["diagnostics and tree returned by Parser.ParseFile"])

p("C08","Every diagnostic points into the source and is shown",
 "Every diagnostic returned for a source parsed with its own symbol table starts at a line that exists in that source (between 1 and one plus its number of line feeds) and at a column of at least one. The command line renders each diagnostic exactly once, in order, with the source line it starts at, and never crashes doing so.",
 ["inputs"],"all byte sequences, all diagnostics of each",
 "Tests never inspect positions of diagnostics that the parser really produced, nor the rendering code.",
 ["parser/parser.go","parser/diagnostic.go","cmd/cddlc/commands/generate.go","cmd/cddlc/commands.go","ast"],[("positions passed to the error constructors","parser/parser.go"),("errorStringer","cmd/cddlc/commands/generate.go, cmd/cddlc/commands.go")],
 ["Start() of returned diagnostics; text printed by the parse and generate commands"])

p("C09","An accepted file yields a complete tree",
 "When parsing returns no diagnostics, every node of the tree has all of its mandatory parts (a tag's item is optional; both operands of every operator, the name and value of every rule and entry, the item of every prefix operator, every element of every collection), and asking any node for its start or end position succeeds.",
 ["inputs"],"all byte sequences accepted by the parser",
 "The tests' tree comparison skips parts that are absent from the parsed tree and never asks operators or occurrences for their extent.",
 ["parser/parser.go","ast"],[("handlers fill the node after parsing operands","parser/parser.go"),("Start/End methods","ast/*.go")],
 ["tree returned by Parser.ParseFile; Start and End of its nodes"])

p("C10","Each construct becomes the node that says what was written",
 "In an accepted file each token in prefix position yields the node for that construct, carrying its source position and the value written: type names, boolean, integer, float and text literals, tags, occurrences with their bounds, optional, unwrap, enumeration. Each infix operator yields its node with the operand parsed before it on the left and the operand parsed after it on the right, unswapped, unduplicated and not dropped; groups, maps and arrays hold their entries in source order, and the file holds its rules and comments in source order, each rule with the name and the value written.",
 ["inputs"],"all byte sequences accepted by the parser, every prefix/infix token",
 "The tests cover about 60% of the token-to-node table with one source each and do not compare maps, occurrences, comparators, bits or unwraps at all.",
 ["parser/parser.go","ast"],[("handler table registered in NewParser","parser/parser.go"),("handlers","parser/parser.go")],
 ["tree returned by Parser.ParseFile"])

p("C11","Operators nest by binding strength",
 "In an accepted file, an infix operator never becomes an operand of a tighter-binding infix or prefix operator unless brackets enclose it. Binding strength, loosest first: group choice `//`; occurrence and optional prefixes; key separators `:` and `=>`; type choice `/`; ranges and control operators; unwrap `~` and enumeration `&`; chains of the same choice operator nest to the right. (Prefix operators such as `?` and `*` may themselves stand as the right operand of an infix operator; an infix occurrence `n*m` is outside the claim.)",
 ["inputs"],"all byte sequences accepted by the parser, all operator combinations and nesting depths",
 "Only chains of `/` are compared with an expected tree; operator_precedence.cddl is merely parsed.",
 ["parser/parser.go","token/token.go"],[("precedence argument of parseEntry","parser/parser.go"),("Precedence","token/token.go")],
 ["tree returned by Parser.ParseFile"])

p("C12","First declaration wins, duplicates and unknown names are reported",
 "Adding a name to a symbol table succeeds exactly if the name is not yet there, changes nothing else, and an attempt to add it again leaves the first value in place and reports the conflict; lookups return exactly what was added. Parsing declares each `=` rule once under its name, reports a second `=` declaration of the same name, and reports every referenced identifier (other than those starting with `$`) for which no declaration exists once the whole file has been read.",
 ["inputs","histories"],"all sequences of table operations and all byte sequences",
 "TestEnvAdd performs three additions; no parser test declares a name twice or references an undeclared one.",
 ["environment/environment.go","parser/parser.go"],[("Environment.Add/Get/Exists","environment/environment.go"),("deferred declaration in parseRule, deferred reference checks","parser/parser.go")],
 ["environment API; diagnostics of Parser.ParseFile"],[dict(name="symbols",meaning="declared names",where="environment/environment.go Environment")])

p("C13","Walking a tree visits every node once, in source order",
 "Walking any tree the parser can produce calls the visitor once with each node, parents before children and children in source order, calls it with nil after a node's children, does not descend below a node for which the visitor returns nil, uses for the children the visitor returned for their parent, and never panics (for visitors that do not change the tree while it is walked).",
 ["inputs"],"all trees built from the parser's node types, all visitors",
 "No test walks a tree.",
 ["ast/astutils/walk.go"],[("Walk","ast/astutils/walk.go")],["calls of Visitor.Visit made by astutils.Walk"])

p("C14","Range and comparison validators agree with the mathematical order",
 "For every integer and floating-point type and all values, the inclusive range validator accepts exactly the values from the lower to the upper limit with both limits included, the exclusive one those strictly between, and the less-than and greater-than validators exactly the values strictly below or above the limit; a not-a-number operand is never accepted. The assertion helpers panic exactly when given false or a non-nil error.",
 ["inputs"],"all values of all ten integer and two floating-point kinds",
 "The package has no tests.",
 ["runtime/validators/validators.go"],[("comparison expressions","runtime/validators/validators.go")],["validators.InInclusiveRange, InExclusiveRange, IsLessThan, IsGreaterThan, MustBool, MustNotErr"])

p("C15","Generated Go declarations mirror the rules",
 "For every schema built from the constructs the generator supports, each rule yields, in rule order, exactly one declaration named after the rule followed by its `Valid` method: a variable for a literal rule, a type otherwise. tstr maps to string, uint to uint, int to int, bool to bool, bytes to []byte, an identifier to its exported Go name, an occurrence to a slice of its item, a group to a struct with one field per entry in order (an entry without a key gets the name Item followed by its index), an array to such a struct led by the toarray marker; integer, float, boolean and text literals keep their value. The result is syntactically valid Go. (Any other construct stops the generator with a panic.)",
 ["inputs"],"all schemas over the supported constructs",
 "TestGen generates one two-field array and prints it without comparing anything.",
 ["transforms/codegen/golang"],[("transpile functions","transforms/codegen/golang/*.go")],["output of Generator.Visit + Generator.String"])

p("C16","init never overwrites, and generate never fails quietly",
 "Initialising a project writes the default configuration only when no configuration file exists yet and otherwise reports an error and leaves the file as it was. Generating handles exactly the files ending in .cddl of each configured source directory, and ends in success only if every one of them was parsed without diagnostics and its output was written completely; any failure to read, parse, generate or write is returned as an error (a construct the generator does not support, or an empty build entry in the configuration, stops the run with a panic, never with success).",
 ["inputs","configurations","fault_sequences"],"all directory contents, configurations and failing file operations",
 "No test runs a command.",
 ["cmd/cddlc/commands/init.go","cmd/cddlc/commands/generate.go","config/config.go"],[("getFileHandle, InitCmd","cmd/cddlc/commands/init.go"),("GenerateCmd, generateFile","cmd/cddlc/commands/generate.go")],
 ["files written and errors returned by the init and generate commands"])

open(__file__.rsplit('/',2)[0]+'/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
