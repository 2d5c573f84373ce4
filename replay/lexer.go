package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"time"
	"unicode"
	"unicode/utf8"

	"github.com/HannesKimara/cddlc/lexer"
	"github.com/HannesKimara/cddlc/token"
)

// spellings of the tokens, written independently of the code's tables
var words = map[string]token.Token{"int": token.INT, "uint": token.UINT, "nint": token.NINT, "float": token.FLOAT, "float16": token.FLOAT16, "float32": token.FLOAT32, "float64": token.FLOAT64,
	"tstr": token.TSTR, "text": token.TEXT, "bytes": token.BYTES, "bstr": token.BSTR, "bool": token.BOOL, "true": token.TRUE, "false": token.FALSE, "nil": token.NIL, "null": token.NULL, "any": token.ANY}
var ctls = map[string]token.Token{".size": token.SIZE, ".bits": token.BITS, ".regexp": token.REGEXP, ".cbor": token.CBOR, ".cborseq": token.CBORSEQ, ".within": token.WITHIN, ".and": token.AND,
	".lt": token.LT, ".le": token.LE, ".gt": token.GT, ".ge": token.GE, ".eq": token.EQ, ".ne": token.NE, ".default": token.DEFAULT, ".plus": token.PLUS, ".cat": token.CAT, ".det": token.DET,
	".abnf": token.ABNF, ".abnfb": token.ABNFB, ".feature": token.FEATURE}
var ops = []struct {
	s string
	t token.Token
}{{"//=", token.GROUP_CHOICE_ASSIGN}, {"...", token.EXCLUSIVE_BOUND}, {"//", token.GROUP_CHOICE}, {"/=", token.TYPE_CHOICE_ASSIGN}, {"=>", token.ARROW_MAP}, {"..", token.INCLUSIVE_BOUND},
	{"-", token.MINUS}, {"(", token.LPAREN}, {"[", token.LBRACK}, {"{", token.LBRACE}, {")", token.RPAREN}, {"]", token.RBRACK}, {"}", token.RBRACE}, {",", token.COMMA}, {".", token.PERIOD},
	{":", token.COLON}, {"=", token.ASSIGN}, {"?", token.OPTIONAL}, {"/", token.TYPE_CHOICE}, {"&", token.AMPERSAND}, {"#", token.HASH}, {"<", token.LEFT_ANGLE_BRACKET}, {">", token.RIGHT_ANGLE_BRACKET},
	{"*", token.ZERO_OR_MORE}, {"+", token.ONE_OR_MORE}, {"~", token.UNWRAP}}

type refTok struct {
	tok        token.Token
	s, e       int
	lit        string
	openString bool
}

func letter(c byte) bool  { return 'a' <= c && c <= 'z' || 'A' <= c && c <= 'Z' }
func digit(c byte) bool   { return '0' <= c && c <= '9' }
func idStart(c byte) bool { return letter(c) || c == '@' || c == '_' || c == '$' }
func idBody(c byte) bool  { return idStart(c) || digit(c) || c == '-' || c == '.' }
func isWS(c byte) bool    { return c == ' ' || c == '\t' || c == '\n' || c == '\r' }

// refLex tokenises independently of the code under test.
func refLex(src []byte) (out []refTok) {
	at := func(i int) byte {
		if i < len(src) {
			return src[i]
		}
		return ' '
	}
	i := 0
	for {
		for i < len(src) && isWS(src[i]) {
			i++
		}
		if i >= len(src) {
			return append(out, refTok{token.EOF, len(src), len(src), "", false})
		}
		s := i
		c := src[i]
		t := refTok{s: s}
		switch {
		case idStart(c):
			for i < len(src) && idBody(src[i]) {
				i++
			}
			t.lit = string(src[s:i])
			t.tok = token.IDENT
			if w, ok := words[t.lit]; ok {
				t.tok = w
			}
		case digit(c):
			t.tok = token.INT
			if c == '0' && (at(i+1) == 'x' || at(i+1) == 'b' || at(i+1) == 'o') {
				k := at(i + 1)
				i += 2
				for i < len(src) && (k == 'x' && (digit(src[i]) || 'a' <= src[i] && src[i] <= 'f' || 'A' <= src[i] && src[i] <= 'F') || k == 'b' && (src[i] == '0' || src[i] == '1') || k == 'o' && '0' <= src[i] && src[i] <= '7') {
					i++
				}
			} else {
				for i < len(src) {
					if src[i] == '.' && digit(at(i+1)) {
						t.tok = token.FLOAT
						i++
						continue
					}
					r, w := utf8.DecodeRune(src[i:])
					if !unicode.IsDigit(r) {
						break
					}
					i += w
				}
			}
			t.lit = string(src[s:i])
		case c == ';':
			for i < len(src) && src[i] != '\n' {
				i++
			}
			t.tok = token.COMMENT
			t.lit = string(src[s+1 : i])
		case c == '"':
			i++
			for i < len(src) && src[i] != '\n' && src[i] != '"' {
				i++
			}
			t.tok = token.TEXT_LITERAL
			t.lit = string(src[s+1 : i])
			if at(i) == '"' && i < len(src) {
				i++
			} else {
				t.openString = true
				if i >= len(src) {
					t.lit += "" // the end of the input ends the literal
				}
			}
		case c == '.' && letter(at(i+1)):
			i++
			for i < len(src) && letter(src[i]) {
				i++
			}
			t.lit = string(src[s:i])
			t.tok = token.IDENT
			if w, ok := ctls[t.lit]; ok {
				t.tok = w
			}
		default:
			for _, o := range ops {
				if bytes.HasPrefix(src[i:], []byte(o.s)) {
					t.tok, t.lit = o.t, o.s
					i += len(o.s)
					break
				}
			}
			if t.lit == "" {
				r, w := utf8.DecodeRune(src[i:])
				t.tok, t.lit = token.ILLEGAL, string(r)
				i += w
			}
		}
		t.e = i
		out = append(out, t)
	}
}

type gotTok struct {
	tok  token.Token
	pos  token.Position
	lit  string
	errs int
}

// lexAll asks for tokens until the end of input, at most n+3 times.
func lexAll(src []byte) (out []gotTok, l *lexer.Lexer, done bool) {
	l = lexer.NewLexer(src)
	n := len(src)
	for i := 0; i <= n+3; i++ {
		t, p, s := l.Scan()
		out = append(out, gotTok{t, p, s, len(l.Errors)})
		if t == token.EOF {
			return out, l, true
		}
	}
	return out, l, false
}

// refLit is the open-ended literal: the sentinel space is part of the text the lexer sees at the end of input.
func sameLit(src []byte, r refTok, lit string) bool {
	if r.openString && r.e == len(src) {
		return lit == r.lit
	}
	return lit == r.lit
}

func lineCol(src []byte, off int) (line, col int) {
	pre := src[:off]
	line = 1 + bytes.Count(pre, []byte("\n"))
	col = off - bytes.LastIndexByte(pre, '\n')
	return
}

func oracleC01(src []byte) string {
	toks, l, done := lexAll(src)
	if !done {
		return fmt.Sprintf("no end-of-input token after %d tokens of a source of %d bytes", len(toks), len(src))
	}
	if len(toks)-1 > len(src) {
		return fmt.Sprintf("%d tokens before the end of input, the source has %d bytes", len(toks)-1, len(src))
	}
	last := -1
	for i, t := range toks {
		if t.tok != token.EOF && t.pos.Offset <= last {
			return fmt.Sprintf("token %d starts at %d, not after the start of the one before it (%d)", i, t.pos.Offset, last)
		}
		last = t.pos.Offset
	}
	for i := 0; i < 3; i++ {
		if t, _, _ := l.Scan(); t != token.EOF {
			return fmt.Sprintf("request %d after the end-of-input token returns %v", i+1, t)
		}
	}
	return ""
}

func oracleC02(src []byte) string {
	toks, _, _ := lexAll(src)
	ref := refLex(src)
	prev := 0
	for i, t := range toks {
		o := t.pos.Offset
		if o < 0 || o > len(src) {
			return fmt.Sprintf("token %d (%v) has offset %d, the source has %d bytes", i, t.tok, o, len(src))
		}
		line, col := lineCol(src, o)
		if t.pos.Line != line || t.pos.Column != col {
			return fmt.Sprintf("token %d (%v %q) at offset %d is reported at line %d column %d, it is at line %d column %d", i, t.tok, t.lit, o, t.pos.Line, t.pos.Column, line, col)
		}
		if t.pos.Filename != "" {
			return fmt.Sprintf("token %d has file name %q", i, t.pos.Filename)
		}
		if t.tok == token.EOF && o != len(src) {
			return fmt.Sprintf("end of input reported at offset %d of %d", o, len(src))
		}
		if i < len(ref) && ref[i].tok == t.tok && ref[i].lit == t.lit && ref[i].s != o && o < len(src) {
			return fmt.Sprintf("token %d (%v %q) begins at offset %d, reported at %d", i, t.tok, t.lit, ref[i].s, o)
		}
		if t.tok != token.EOF && o < len(src) && isWS(src[o]) || o < prev {
			return fmt.Sprintf("token %d (%v %q) is reported at offset %d, which is not where it begins", i, t.tok, t.lit, o)
		}
		prev = o
	}
	return ""
}

func oracleC03(src []byte) string {
	toks, _, _ := lexAll(src)
	end := 0
	errs := 0
	for i, t := range toks {
		s := t.pos.Offset
		if s < end || s > len(src) {
			return fmt.Sprintf("token %d (%v %q) starts at %d, the one before it ends at %d", i, t.tok, t.lit, s, end)
		}
		for k := end; k < s; k++ {
			if !isWS(src[k]) {
				return fmt.Sprintf("byte %d (%q) is in no token", k, src[k])
			}
		}
		e := s + len(t.lit)
		switch {
		case t.tok == token.EOF:
			if t.lit != "" {
				return fmt.Sprintf("end of input with literal %q", t.lit)
			}
			if s != len(src) {
				return fmt.Sprintf("end of input at %d of %d", s, len(src))
			}
		case t.tok == token.COMMENT:
			e++
			want := len(src)
			if k := bytes.IndexByte(src[s:], '\n'); k >= 0 {
				want = s + k
			}
			if src[s] != ';' || e > len(src) || e != want || t.lit != string(src[s+1:e]) {
				return fmt.Sprintf("comment at %d has literal %q, its text is %q", s, t.lit, src[s:want])
			}
		case t.tok == token.TEXT_LITERAL:
			e++
			want := len(src)
			if k := bytes.IndexAny(src[s+1:], "\"\n"); k >= 0 {
				want = s + 1 + k
			}
			if src[s] != '"' || e != want || t.lit != string(src[s+1:want]) {
				return fmt.Sprintf("text literal at %d has literal %q, its text is %q", s, t.lit, src[s:want])
			}
			if want < len(src) && src[want] == '"' {
				e++
				if t.errs != errs {
					return fmt.Sprintf("an error is recorded for the closed text literal at %d", s)
				}
			} else if t.errs == errs {
				return fmt.Sprintf("no error is recorded for the unterminated text literal at %d", s)
			}
		case t.tok == token.ILLEGAL && s < len(src) && src[s] >= 128:
			r, w := utf8.DecodeRune(src[s:])
			e = s + w
			if t.lit != string(r) {
				return fmt.Sprintf("illegal token at %d has literal %q for %q", s, t.lit, src[s:e])
			}
		default:
			if e > len(src) || t.lit != string(src[s:e]) || e == s {
				k := e
				if k > len(src) {
					k = len(src)
				}
				return fmt.Sprintf("token %v at %d has literal %q, the source has %q there", t.tok, s, t.lit, src[s:k])
			}
		}
		errs = t.errs
		end = e
	}
	if end < len(src) {
		return fmt.Sprintf("tokens end at %d of %d", end, len(src))
	}
	return ""
}

func oracleC04(src []byte) string {
	toks, _, _ := lexAll(src)
	ref := refLex(src)
	for i, r := range ref {
		if i >= len(toks) {
			return fmt.Sprintf("token %d (%v %q) is missing", i, r.tok, r.lit)
		}
		if toks[i].tok != r.tok || toks[i].pos.Offset != r.s {
			return fmt.Sprintf("token %d at offset %d is %d (%v) %q, expected %d (%v) %q at %d", i, toks[i].pos.Offset, int(toks[i].tok), toks[i].tok, toks[i].lit, int(r.tok), r.tok, r.lit, r.s)
		}
		if r.tok != token.TEXT_LITERAL && r.tok != token.ILLEGAL && toks[i].lit != r.lit {
			return fmt.Sprintf("token %d at offset %d has text %q, expected %q", i, r.s, toks[i].lit, r.lit)
		}
	}
	if len(toks) != len(ref) {
		return fmt.Sprintf("%d tokens, expected %d", len(toks), len(ref))
	}
	return ""
}

func directedC04(r *rand.Rand, deadline time.Time) *Failure {
	for w, t := range words {
		if token.Lookup(w) != t {
			return &Failure{Input: w, Detail: fmt.Sprintf("Lookup(%q) = %d, expected %d", w, token.Lookup(w), t)}
		}
		if t.String() != w {
			return &Failure{Input: w, Detail: fmt.Sprintf("the token of %q prints as %q", w, t.String())}
		}
	}
	for w, t := range ctls {
		if token.Lookup(w) != t {
			return &Failure{Input: w, Detail: fmt.Sprintf("Lookup(%q) = %d, expected %d", w, token.Lookup(w), t)}
		}
		if t.String() != w {
			return &Failure{Input: w, Detail: fmt.Sprintf("the token of %q prints as %q", w, t.String())}
		}
	}
	for _, o := range ops {
		if o.t.String() != o.s {
			return &Failure{Input: o.s, Detail: fmt.Sprintf("the token of %q prints as %q", o.s, o.t.String())}
		}
	}
	for t := token.Token(-3); t < 200; t++ {
		s := t.String()
		_, w := words[s]
		_, c := ctls[s]
		if got := token.Lookup(s); got != token.IDENT && !w && !c {
			return &Failure{Input: s, Detail: fmt.Sprintf("%q is no reserved word but looks up as %v", s, got)}
		}
	}
	return nil
}

func oracleC05(src []byte) string {
	for _, spare := range []int{0, 1, 7} {
		arr := make([]byte, len(src)+spare)
		copy(arr, src)
		for i := len(src); i < len(arr); i++ {
			arr[i] = byte(0xA0 + i%32)
		}
		orig := append([]byte{}, arr...)
		toks, l, _ := lexAll(arr[:len(src)])
		l.Scan()
		if !bytes.Equal(arr, orig) {
			return fmt.Sprintf("the caller's array (%d bytes, %d spare) is changed", len(src), spare)
		}
		ref := append([]byte{}, arr...)
		l2 := lexer.NewLexer(ref[:len(src)])
		for i := range ref {
			ref[i] = 'Z'
		}
		for i, t := range toks {
			a, b, c := l2.Scan()
			if a != t.tok || b != t.pos || c != t.lit {
				return fmt.Sprintf("token %d changes from %v %q to %v %q when the caller overwrites the slice after NewLexer", i, t.tok, t.lit, a, c)
			}
		}
		// overwriting between requests
		ref = append([]byte{}, arr...)
		l3 := lexer.NewLexer(ref[:len(src)])
		for i, t := range toks {
			a, b, c := l3.Scan()
			if a != t.tok || b != t.pos || c != t.lit {
				return fmt.Sprintf("token %d changes from %v %q to %v %q when the caller overwrites the slice between requests", i, t.tok, t.lit, a, c)
			}
			for k := range ref {
				ref[k] ^= 0x11
			}
		}
	}
	return ""
}

func init() {
	byteOracles["C01"] = oracleC01
	byteOracles["C02"] = oracleC02
	byteOracles["C03"] = oracleC03
	byteOracles["C04"] = oracleC04
	byteOracles["C05"] = oracleC05
	directed["C04"] = directedC04
}
