# Contracts for package token (the word lists are written here independently of the code's tables).
package token

# number of lines of the source that is parsed, any number for the other properties
const srclines Int
pred PosOK(q) = 1 <= q.Line && q.Line <= srclines && 1 <= q.Column

# the token of a reserved word, IDENT for any other spelling
pred WordTok(s) = ite(s == "int", INT, ite(s == "uint", UINT, ite(s == "nint", NINT, ite(s == "float", FLOAT, ite(s == "float16", FLOAT16, ite(s == "float32", FLOAT32, ite(s == "float64", FLOAT64, ite(s == "tstr", TSTR, ite(s == "text", TEXT, ite(s == "bytes", BYTES, ite(s == "bstr", BSTR, ite(s == "bool", BOOL, ite(s == "true", TRUE, ite(s == "false", FALSE, ite(s == "nil", NIL, ite(s == "null", NULL, ite(s == "any", ANY, IDENT)))))))))))))))))
pred CtlTok(s) = ite(s == ".size", SIZE, ite(s == ".bits", BITS, ite(s == ".regexp", REGEXP, ite(s == ".cbor", CBOR, ite(s == ".cborseq", CBORSEQ, ite(s == ".within", WITHIN, ite(s == ".and", AND, ite(s == ".lt", LT, ite(s == ".le", LE, ite(s == ".gt", GT, ite(s == ".ge", GE, ite(s == ".eq", EQ, ite(s == ".ne", NE, ite(s == ".default", DEFAULT, ite(s == ".plus", PLUS, ite(s == ".cat", CAT, ite(s == ".det", DET, ite(s == ".abnf", ABNF, ite(s == ".abnfb", ABNFB, ite(s == ".feature", FEATURE, IDENT))))))))))))))))))))
pred AnyTok(s) = ite(s == "int", INT, ite(s == "uint", UINT, ite(s == "nint", NINT, ite(s == "float", FLOAT, ite(s == "float16", FLOAT16, ite(s == "float32", FLOAT32, ite(s == "float64", FLOAT64, ite(s == "tstr", TSTR, ite(s == "text", TEXT, ite(s == "bytes", BYTES, ite(s == "bstr", BSTR, ite(s == "bool", BOOL, ite(s == "true", TRUE, ite(s == "false", FALSE, ite(s == "nil", NIL, ite(s == "null", NULL, ite(s == "any", ANY, ite(s == ".size", SIZE, ite(s == ".bits", BITS, ite(s == ".regexp", REGEXP, ite(s == ".cbor", CBOR, ite(s == ".cborseq", CBORSEQ, ite(s == ".within", WITHIN, ite(s == ".and", AND, ite(s == ".lt", LT, ite(s == ".le", LE, ite(s == ".gt", GT, ite(s == ".ge", GE, ite(s == ".eq", EQ, ite(s == ".ne", NE, ite(s == ".default", DEFAULT, ite(s == ".plus", PLUS, ite(s == ".cat", CAT, ite(s == ".det", DET, ite(s == ".abnf", ABNF, ite(s == ".abnfb", ABNFB, ite(s == ".feature", FEATURE, IDENT)))))))))))))))))))))))))))))))))))))

func token.Lookup(str) (t)
  nonodes
  ensures [C04] "reserved words and control operators, and nothing else, have their own token" t == AnyTok(str)
  ensures "never a token that has another spelling" !oneof(t, EOF, COMMENT, TEXT_LITERAL, ILLEGAL)

func (token.Token).String(t) (s)
  nonodes
  safety C04
  ensures [C04,C10] "the token of int prints as written" t == INT ==> s == "int"
  ensures [C04,C10] "the token of uint prints as written" t == UINT ==> s == "uint"
  ensures [C04] "the token of nint prints as written" t == NINT ==> s == "nint"
  ensures [C04,C10] "the token of float prints as written" t == FLOAT ==> s == "float"
  ensures [C04,C10] "the token of float16 prints as written" t == FLOAT16 ==> s == "float16"
  ensures [C04,C10] "the token of float32 prints as written" t == FLOAT32 ==> s == "float32"
  ensures [C04,C10] "the token of float64 prints as written" t == FLOAT64 ==> s == "float64"
  ensures [C04] "the token of tstr prints as written" t == TSTR ==> s == "tstr"
  ensures [C04] "the token of text prints as written" t == TEXT ==> s == "text"
  ensures [C04] "the token of bytes prints as written" t == BYTES ==> s == "bytes"
  ensures [C04] "the token of bstr prints as written" t == BSTR ==> s == "bstr"
  ensures [C04] "the token of bool prints as written" t == BOOL ==> s == "bool"
  ensures [C04] "the token of true prints as written" t == TRUE ==> s == "true"
  ensures [C04] "the token of false prints as written" t == FALSE ==> s == "false"
  ensures [C04] "the token of nil prints as written" t == NIL ==> s == "nil"
  ensures [C04] "the token of null prints as written" t == NULL ==> s == "null"
  ensures [C04] "the token of any prints as written" t == ANY ==> s == "any"
  ensures [C04] "the token of .size prints as written" t == SIZE ==> s == ".size"
  ensures [C04] "the token of .bits prints as written" t == BITS ==> s == ".bits"
  ensures [C04] "the token of .regexp prints as written" t == REGEXP ==> s == ".regexp"
  ensures [C04] "the token of .cbor prints as written" t == CBOR ==> s == ".cbor"
  ensures [C04] "the token of .cborseq prints as written" t == CBORSEQ ==> s == ".cborseq"
  ensures [C04] "the token of .within prints as written" t == WITHIN ==> s == ".within"
  ensures [C04] "the token of .and prints as written" t == AND ==> s == ".and"
  ensures [C04] "the token of .lt prints as written" t == LT ==> s == ".lt"
  ensures [C04] "the token of .le prints as written" t == LE ==> s == ".le"
  ensures [C04] "the token of .gt prints as written" t == GT ==> s == ".gt"
  ensures [C04] "the token of .ge prints as written" t == GE ==> s == ".ge"
  ensures [C04] "the token of .eq prints as written" t == EQ ==> s == ".eq"
  ensures [C04] "the token of .ne prints as written" t == NE ==> s == ".ne"
  ensures [C04] "the token of .default prints as written" t == DEFAULT ==> s == ".default"
  ensures [C04] "the token of .plus prints as written" t == PLUS ==> s == ".plus"
  ensures [C04] "the token of .cat prints as written" t == CAT ==> s == ".cat"
  ensures [C04] "the token of .det prints as written" t == DET ==> s == ".det"
  ensures [C04] "the token of .abnf prints as written" t == ABNF ==> s == ".abnf"
  ensures [C04] "the token of .abnfb prints as written" t == ABNFB ==> s == ".abnfb"
  ensures [C04] "the token of .feature prints as written" t == FEATURE ==> s == ".feature"
  ensures [C04] "the token of - prints as written" t == MINUS ==> s == "-"
  ensures [C04] "the token of ( prints as written" t == LPAREN ==> s == "("
  ensures [C04] "the token of [ prints as written" t == LBRACK ==> s == "["
  ensures [C04] "the token of { prints as written" t == LBRACE ==> s == "{"
  ensures [C04] "the token of ) prints as written" t == RPAREN ==> s == ")"
  ensures [C04] "the token of ] prints as written" t == RBRACK ==> s == "]"
  ensures [C04] "the token of } prints as written" t == RBRACE ==> s == "}"
  ensures [C04] "the token of , prints as written" t == COMMA ==> s == ","
  ensures [C04] "the token of . prints as written" t == PERIOD ==> s == "."
  ensures [C04] "the token of : prints as written" t == COLON ==> s == ":"
  ensures [C04] "the token of = prints as written" t == ASSIGN ==> s == "="
  ensures [C04] "the token of => prints as written" t == ARROW_MAP ==> s == "=>"
  ensures [C04] "the token of ? prints as written" t == OPTIONAL ==> s == "?"
  ensures [C04] "the token of / prints as written" t == TYPE_CHOICE ==> s == "/"
  ensures [C04] "the token of // prints as written" t == GROUP_CHOICE ==> s == "//"
  ensures [C04] "the token of /= prints as written" t == TYPE_CHOICE_ASSIGN ==> s == "/="
  ensures [C04] "the token of //= prints as written" t == GROUP_CHOICE_ASSIGN ==> s == "//="
  ensures [C04] "the token of & prints as written" t == AMPERSAND ==> s == "&"
  ensures [C04] "the token of # prints as written" t == HASH ==> s == "#"
  ensures [C04] "the token of < prints as written" t == LEFT_ANGLE_BRACKET ==> s == "<"
  ensures [C04] "the token of > prints as written" t == RIGHT_ANGLE_BRACKET ==> s == ">"
  ensures [C04] "the token of .. prints as written" t == INCLUSIVE_BOUND ==> s == ".."
  ensures [C04] "the token of ... prints as written" t == EXCLUSIVE_BOUND ==> s == "..."
  ensures [C04] "the token of * prints as written" t == ZERO_OR_MORE ==> s == "*"
  ensures [C04] "the token of + prints as written" t == ONE_OR_MORE ==> s == "+"
  ensures [C04] "the token of ~ prints as written" t == UNWRAP ==> s == "~"

# binding strength, loosest first
pred CtlOp(t) = SIZE <= t && t <= FEATURE
pred Prec(t) = ite(oneof(t, ASSIGN, TYPE_CHOICE_ASSIGN, GROUP_CHOICE_ASSIGN), 1, ite(t == GROUP_CHOICE, 2, ite(t == COMMA, 3,
  ite(oneof(t, ZERO_OR_MORE, ONE_OR_MORE, OPTIONAL), 4, ite(oneof(t, ARROW_MAP, COLON), 5, ite(t == TYPE_CHOICE, 6,
  ite(oneof(t, INCLUSIVE_BOUND, EXCLUSIVE_BOUND) || CtlOp(t), 7, ite(oneof(t, AMPERSAND, UNWRAP), 8, 0))))))))

func (token.Token).Precedence(t) (p)
  nonodes
  safety C06
  ensures [C11] "binding strength" p == Prec(t)
