package main

import (
	"fmt"
	"math/rand"
	"reflect"
	"strings"
	"time"

	"github.com/HannesKimara/cddlc/ast"
	"github.com/HannesKimara/cddlc/environment"
	"github.com/HannesKimara/cddlc/errors"
	"github.com/HannesKimara/cddlc/lexer"
	"github.com/HannesKimara/cddlc/parser"
	"github.com/HannesKimara/cddlc/token"
)

type tok struct {
	t   token.Token
	pos token.Position
	lit string
}

func scanAll(src []byte) (out []tok, errs int) {
	l := lexer.NewLexer(append([]byte{}, src...))
	for i := 0; i <= len(src)+2; i++ {
		t, p, s := l.Scan()
		if t == token.EOF {
			break
		}
		out = append(out, tok{t, p, s})
	}
	return out, len(l.Errors)
}

func parse(src []byte) (*ast.CDDL, []errors.Diagnostic, *environment.Environment) {
	env := environment.NewEnvironment()
	p := parser.NewParser(lexer.NewLexer(append([]byte{}, src...)), parser.WithEnv(env))
	c, errs := p.ParseFile()
	return c, errs, env
}

func oracleC06(src []byte) string {
	c, _, _ := parse(src)
	if c == nil {
		return "no tree is returned"
	}
	p := parser.NewParser(lexer.NewLexer(append([]byte{}, src...)))
	if c, _ := p.ParseFile(); c == nil {
		return "no tree is returned without a symbol table"
	}
	return ""
}

func isAssign(t token.Token) bool {
	return t == token.ASSIGN || t == token.TYPE_CHOICE_ASSIGN || t == token.GROUP_CHOICE_ASSIGN
}

func oracleC07(src []byte) string {
	c, diags, _ := parse(src)
	if len(diags) != 0 || c == nil {
		return ""
	}
	ts, lexErrs := scanAll(src)
	if lexErrs != 0 {
		return "accepted, though the lexer recorded an error"
	}
	assigns := 0
	var stack []token.Token
	for _, t := range ts {
		switch {
		case isAssign(t.t):
			assigns++
		case t.t == token.ILLEGAL:
			return fmt.Sprintf("accepted, though it has the illegal token %q", t.lit)
		case t.t == token.LPAREN || t.t == token.LBRACE || t.t == token.LBRACK:
			stack = append(stack, t.t)
		case t.t == token.RPAREN || t.t == token.RBRACE || t.t == token.RBRACK:
			open := map[token.Token]token.Token{token.RPAREN: token.LPAREN, token.RBRACE: token.LBRACE, token.RBRACK: token.LBRACK}[t.t]
			if len(stack) == 0 || stack[len(stack)-1] != open {
				return "accepted, though a bracket has no partner"
			}
			stack = stack[:len(stack)-1]
		}
	}
	if len(stack) != 0 {
		return "accepted, though a bracket is not closed"
	}
	rules := 0
	last := -1
	for _, e := range c.Rules {
		if isNil(e) {
			return "accepted, with an entry that is nil"
		}
		if r, ok := e.(*ast.Rule); ok {
			rules++
			if r.Name == nil || isNil(r.Value) {
				return "accepted, with an incomplete rule"
			}
		}
		if off := e.Start().Offset; off <= last {
			return "accepted, with the entries out of source order"
		} else {
			last = off
		}
	}
	if rules != assigns {
		return fmt.Sprintf("accepted, with %d rules for %d assignments", rules, assigns)
	}
	// leading comments up to the first rule are one group
	if len(ts) > 0 && ts[0].t == token.COMMENT {
		n := 0
		for n < len(ts) && ts[n].t == token.COMMENT {
			n++
		}
		if len(c.Rules) == 0 {
			return "accepted, the leading comments are missing"
		}
		switch x := c.Rules[0].(type) {
		case *ast.Comment:
			if n != 1 {
				return "accepted, leading comments are missing"
			}
		case *ast.CommentGroup:
			if len(x.List) != n {
				return "accepted, leading comments are missing"
			}
		default:
			return "accepted, the leading comments are missing"
		}
	}
	return ""
}

func oracleC08(src []byte) string {
	_, diags, _ := parse(src)
	lf := strings.Count(string(src), "\n")
	for _, d := range diags {
		if isNil(d) {
			return "a nil diagnostic"
		}
		p := d.Start()
		if p.Line < 1 || p.Line > lf+1 || p.Column < 1 {
			return fmt.Sprintf("diagnostic %q starts at line %d, column %d in a source of %d lines", d.Error(), p.Line, p.Column, lf+1)
		}
	}
	return ""
}

func isNil(x any) bool {
	if x == nil {
		return true
	}
	v := reflect.ValueOf(x)
	switch v.Kind() {
	case reflect.Pointer, reflect.Interface, reflect.Slice, reflect.Map:
		return v.IsNil()
	}
	return false
}

// optional parts, by type and field
var optionalParts = map[string]bool{"Rule.TrailingComment": true, "Entry.TrailingComment": true, "NMOccurrence.M": true, "Tag.Major": true, "Tag.TagNumber": true, "Tag.Item": true}

var nodeType = reflect.TypeOf((*ast.Node)(nil)).Elem()

// eachNode calls f for every node of the tree below x, x first; missing is called for a part that is nil.
func eachNode(x ast.Node, f func(n ast.Node), missing func(string)) {
	f(x)
	v := reflect.ValueOf(x).Elem()
	for i := 0; i < v.NumField(); i++ {
		fv := v.Field(i)
		name := v.Type().Name() + "." + v.Type().Field(i).Name
		one := func(fv reflect.Value) {
			if fv.IsNil() {
				if !optionalParts[name] {
					missing(name)
				}
				return
			}
			n, ok := fv.Interface().(ast.Node)
			if !ok || isNil(n) {
				missing(name)
				return
			}
			eachNode(n, f, missing)
		}
		switch {
		case fv.Kind() == reflect.Slice && (fv.Type().Elem().Implements(nodeType)):
			for j := 0; j < fv.Len(); j++ {
				one(fv.Index(j))
			}
		case fv.Kind() == reflect.Interface || fv.Kind() == reflect.Pointer:
			one(fv)
		}
	}
}

func treeProblem(c *ast.CDDL) (msg string) {
	var stop = func(s string) {
		if msg == "" {
			msg = s
		}
	}
	for i, e := range c.Rules {
		if isNil(e) {
			return fmt.Sprintf("accepted, with entry %d nil", i)
		}
		eachNode(e, func(n ast.Node) {
			if b, ok := n.(*ast.BadNode); ok {
				stop(fmt.Sprintf("accepted, with a bad node %v", b.Token))
			}
			if g, ok := n.(*ast.CommentGroup); ok && len(g.List) == 0 {
				stop("accepted, with an empty comment group")
			}
		}, func(s string) { stop("accepted, with " + s + " missing") })
	}
	return
}

func oracleC09(src []byte) string {
	c, diags, _ := parse(src)
	if len(diags) != 0 || c == nil {
		return ""
	}
	if m := treeProblem(c); m != "" {
		return m
	}
	for _, e := range c.Rules {
		eachNode(e, func(n ast.Node) { n.Start(); n.End() }, func(string) {})
	}
	c.Start()
	c.End()
	return ""
}

func oracleC12(src []byte) string {
	c, diags, env := parse(src)
	ts, _ := scanAll(src)
	decl := map[string]int{}
	for i := 0; i+1 < len(ts); i++ {
		if ts[i].t == token.IDENT && ts[i+1].t == token.ASSIGN {
			decl[ts[i].lit]++
			if decl[ts[i].lit] > 1 && len(diags) == 0 {
				return fmt.Sprintf("accepted, though %s is declared twice", ts[i].lit)
			}
		}
	}
	if len(diags) != 0 || c == nil {
		return ""
	}
	names := map[string]bool{"undeclared-name": true}
	msg := ""
	refs := func(n ast.Node) {}
	refs = func(n ast.Node) {
		entryNames := map[*ast.Identifier]bool{}
		eachNode(n, func(n ast.Node) {
			switch x := n.(type) {
			case *ast.Entry:
				entryNames[x.Name] = true
			case *ast.Rule:
				entryNames[x.Name] = true
			case *ast.Identifier:
				if entryNames[x] {
					return
				}
				names[x.Name] = true
				if !strings.HasPrefix(x.Name, "$") && decl[x.Name] == 0 {
					msg = fmt.Sprintf("accepted, though %s is used and not declared", x.Name)
				}
			}
		}, func(string) {})
	}
	byName := map[string]ast.Node{}
	for _, e := range c.Rules {
		refs(e)
		if r, ok := e.(*ast.Rule); ok {
			names[r.Name.Name] = true
			if decl[r.Name.Name] > 0 && byName[r.Name.Name] == nil {
				for i := 0; i+1 < len(ts); i++ {
					if ts[i].pos.Offset == r.Name.Pos.Offset && ts[i+1].t == token.ASSIGN {
						byName[r.Name.Name] = r.Value
					}
				}
			}
		}
	}
	for n := range names {
		if env.Exists(n) != (byName[n] != nil) {
			return fmt.Sprintf("accepted; %s declared: %v, in the symbol table: %v", n, byName[n] != nil, env.Exists(n))
		}
		if env.Get(n) != byName[n] {
			return fmt.Sprintf("accepted; the symbol table does not hold the value of %s", n)
		}
	}
	return msg
}

// directedC12 tries sequences of operations on a table, against a plain model.
func directedC12(r *rand.Rand, deadline time.Time) *Failure {
	end := time.Now().Add(time.Second)
	for time.Now().Before(end) {
		env := environment.NewEnvironment()
		model := map[string]ast.Node{}
		names := []string{"a", "b", "", "$s", "ab"}
		log := ""
		for k := 0; k < 12; k++ {
			n := names[r.Intn(len(names))]
			v := &ast.Identifier{Name: fmt.Sprint(k)}
			old, was := model[n]
			log += fmt.Sprintf("Add(%q, %d); ", n, k)
			err := env.Add(n, v)
			if (err == nil) == was {
				return &Failure{Setup: log, Detail: fmt.Sprintf("returned %v", err)}
			}
			if !was {
				model[n] = v
			} else {
				model[n] = old
			}
			for _, m := range names {
				w, ok := model[m]
				if env.Exists(m) != ok || env.Get(m) != w && !(w == nil && env.Get(m) == nil) {
					return &Failure{Setup: log, Detail: fmt.Sprintf("%q: exists %v, want %v", m, env.Exists(m), ok)}
				}
			}
		}
	}
	return nil
}

// ---- trees: a random tree, its text, and what the parser makes of it ----

type printer struct {
	r    *rand.Rand
	b    strings.Builder
	line int
	col  int
	wide bool
	ids  []string
}

// put writes a token's text and returns where it starts.
func (p *printer) put(s string) token.Position {
	if p.wide && p.r.Intn(12) == 0 {
		p.b.WriteString("\n  ")
		p.line++
		p.col = 3
	}
	pos := token.Position{Offset: p.b.Len(), Line: p.line, Column: p.col}
	p.b.WriteString(s)
	p.col += len(s)
	p.b.WriteString(" ")
	p.col++
	return pos
}

func (p *printer) nl() {
	p.b.WriteString("\n")
	p.line++
	p.col = 1
}

func (p *printer) comment() *ast.Comment {
	s := []string{" c", "", " más; \"q\""}[p.r.Intn(3)]
	w := p.wide
	p.wide = false
	pos := p.put(";" + s)
	p.wide = w
	c := &ast.Comment{Pos: pos, Text: s + " "}
	p.nl()
	return c
}

func (p *printer) ident() *ast.Identifier {
	n := p.ids[p.r.Intn(len(p.ids))]
	if p.r.Intn(4) == 0 {
		n = "$s"
	}
	return &ast.Identifier{Pos: p.put(n), Name: n}
}

func (p *printer) intLit() *ast.IntegerLiteral {
	s := []string{"0", "7", "42", "0x1F", "0b101"}[p.r.Intn(5)]
	v := map[string]int64{"0": 0, "7": 7, "42": 42, "0x1F": 31, "0b101": 5}[s]
	return &ast.IntegerLiteral{Pos: p.put(s), Token: token.INT, Literal: v}
}

func (p *printer) floatLit() *ast.FloatLiteral {
	s := []string{"0.5", "7.25", "42.0"}[p.r.Intn(3)]
	v := map[string]float64{"0.5": 0.5, "7.25": 7.25, "42.0": 42}[s]
	return &ast.FloatLiteral{Range: token.PositionRange{Start: p.put(s)}, Token: token.FLOAT, Literal: v}
}

func (p *printer) text() *ast.TextLiteral {
	s := []string{"", "t", "a b", "ünï"}[p.r.Intn(4)]
	return &ast.TextLiteral{Pos: p.put("\"" + s + "\""), Token: token.TEXT_LITERAL, Literal: s}
}

func (p *printer) tstr() *ast.TstrType {
	if p.r.Intn(2) == 0 {
		return &ast.TstrType{Pos: p.put("text"), Token: token.TEXT}
	}
	return &ast.TstrType{Pos: p.put("tstr"), Token: token.TSTR}
}

// node prints and returns a type whose outermost operator binds at least as strongly as lvl.
func (p *printer) node(lvl, d int) ast.Node {
	k := p.r.Intn(30)
	if d <= 0 {
		k = p.r.Intn(14)
	}
	switch {
	case k < 14:
		switch k {
		case 0:
			return p.tstr()
		case 1:
			return &ast.IntegerType{Pos: p.put("int"), Token: token.INT}
		case 2:
			return &ast.UintType{Range: token.PositionRange{Start: p.put("uint")}, Token: token.UINT}
		case 3:
			return &ast.NegativeIntegerType{Pos: p.put("nint"), Token: token.NINT}
		case 4:
			return &ast.BooleanType{Pos: p.put("bool"), Token: token.BOOL}
		case 5:
			if p.r.Intn(2) == 0 {
				return &ast.BytesType{Pos: p.put("bytes"), Token: token.BYTES}
			}
			return &ast.BstrType{Pos: p.put("bstr"), Token: token.BSTR}
		case 6:
			i := p.r.Intn(4)
			return &ast.FloatType{Pos: p.put([]string{"float", "float16", "float32", "float64"}[i]), Token: []token.Token{token.FLOAT, token.FLOAT16, token.FLOAT32, token.FLOAT64}[i]}
		case 7:
			if p.r.Intn(2) == 0 {
				return &ast.NullType{Pos: p.put("null"), Token: token.NULL}
			}
			return &ast.NullType{Pos: p.put("nil"), Token: token.NIL}
		case 8:
			if p.r.Intn(2) == 0 {
				return &ast.BooleanLiteral{Range: token.PositionRange{Start: p.put("true")}, Bool: true}
			}
			return &ast.BooleanLiteral{Range: token.PositionRange{Start: p.put("false")}, Bool: false}
		case 9:
			return p.intLit()
		case 10:
			return p.floatLit()
		case 11:
			return p.text()
		default:
			return p.ident()
		}
	case k == 14 || k == 15:
		g := &ast.Array{Pos: p.put("[")}
		p.entries(d-1, func(n ast.Node) { g.Rules = append(g.Rules, n.(ast.GroupEntry)) })
		p.put("]")
		return g
	case k == 16 || k == 17:
		g := &ast.Map{Pos: p.put("{")}
		p.entries(d-1, func(n ast.Node) { g.Rules = append(g.Rules, n) })
		p.put("}")
		return g
	case k == 18:
		return p.group(d - 1)
	case k == 19:
		t := &ast.Tag{Pos: p.put("#"), Token: token.HASH}
		switch p.r.Intn(3) {
		case 0:
			pos := p.put("6.32")
			t.Major = &ast.UintLiteral{Pos: pos, Token: token.FLOAT, Literal: 6}
			t.TagNumber = &ast.UintLiteral{Pos: pos, Token: token.FLOAT, Literal: 32}
		case 1:
			t.Major = &ast.UintLiteral{Pos: p.put("6"), Token: token.INT, Literal: 6}
		}
		p.put("(")
		t.Item = p.node(6, d-1)
		p.put(")")
		return t
	case k == 20 && lvl <= 8:
		u := &ast.Unwrap{Pos: p.put("~"), Token: token.UNWRAP}
		u.Item = p.node(9, d-1)
		return u
	case k == 21 && lvl <= 8:
		u := &ast.Enumeration{Pos: p.put("&"), Token: token.AMPERSAND}
		u.Value = p.node(9, d-1)
		return u
	case (k == 22 || k == 23 || k == 24) && lvl <= 6:
		c := &ast.TypeChoice{Token: token.TYPE_CHOICE}
		c.First = p.node(7, d-1)
		c.Pos = p.put("/")
		c.Second = p.node(6, d-1)
		return c
	case k == 25 && lvl <= 7:
		c := &ast.Range{Token: token.INCLUSIVE_BOUND}
		op := ".."
		if p.r.Intn(2) == 0 {
			c.Token, op = token.EXCLUSIVE_BOUND, "..."
		}
		if p.r.Intn(2) == 0 {
			c.From = p.intLit()
			c.Pos = p.put(op)
			c.To = p.intLit()
		} else {
			c.From = p.floatLit()
			c.Pos = p.put(op)
			c.To = p.floatLit()
		}
		return c
	case k == 26 && lvl <= 7:
		c := &ast.SizeOperatorControl{Token: token.SIZE}
		switch p.r.Intn(3) {
		case 0:
			c.Type = p.tstr()
		case 1:
			c.Type = &ast.UintType{Range: token.PositionRange{Start: p.put("uint")}, Token: token.UINT}
		default:
			c.Type = &ast.BstrType{Pos: p.put("bstr"), Token: token.BSTR}
		}
		c.Pos = p.put(".size")
		c.Size = p.node(8, d-1)
		return c
	case k == 27 && lvl <= 7:
		c := &ast.Regexp{Token: token.REGEXP}
		c.Base = p.tstr()
		c.Pos = p.put(".regexp")
		if p.r.Intn(2) == 0 {
			c.Regex = p.text()
		} else {
			c.Regex = p.ident()
		}
		return c
	case k == 28 && lvl <= 7:
		c := &ast.Bits{Token: token.BITS}
		c.Base = p.node(8, d-1)
		c.Pos = p.put(".bits")
		c.Contstraint = p.node(8, d-1)
		return c
	case k == 29 && lvl <= 7:
		c := &ast.ComparatorOpControl{}
		switch p.r.Intn(3) {
		case 0:
			c.Left = &ast.IntegerType{Pos: p.put("int"), Token: token.INT}
		case 1:
			c.Left = &ast.UintType{Range: token.PositionRange{Start: p.put("uint")}, Token: token.UINT}
		default:
			c.Left = &ast.FloatType{Pos: p.put("float"), Token: token.FLOAT}
		}
		i := p.r.Intn(6)
		c.Operator = []string{".lt", ".le", ".gt", ".ge", ".eq", ".ne"}[i]
		c.Token = []token.Token{token.LT, token.LE, token.GT, token.GE, token.EQ, token.NE}[i]
		c.Pos = p.put(c.Operator)
		switch p.r.Intn(3) {
		case 0:
			c.Right = p.ident()
		case 1:
			c.Right = p.intLit()
		default:
			c.Right = p.floatLit()
		}
		return c
	}
	return p.node(lvl, 0)
}

func (p *printer) group(d int) *ast.Group {
	g := &ast.Group{Pos: p.put("(")}
	p.entries(d, func(n ast.Node) { g.Entries = append(g.Entries, n.(ast.GroupEntry)) })
	p.put(")")
	return g
}

func (p *printer) entries(d int, add func(ast.Node)) {
	n := p.r.Intn(4)
	for i := 0; i < n; i++ {
		add(p.entry(d, i == n-1, true))
	}
}

// entry prints an entry of a group and what separates it from the next.
func (p *printer) entry(d int, last, first bool) ast.Node {
	k := p.r.Intn(10)
	if first && k < 3 && d > 0 {
		switch k {
		case 0:
			o := &ast.Optional{Pos: p.put("?"), Token: token.OPTIONAL}
			o.Item = p.entry(d-1, last, false)
			return o
		case 1:
			o := &ast.NMOccurrence{Token: token.ZERO_OR_MORE}
			v := uint64(0)
			if p.r.Intn(2) == 0 {
				o.Pos = p.put("*")
			} else {
				o.Token, v = token.ONE_OR_MORE, 1
				o.Pos = p.put("+")
			}
			o.N = &ast.UintLiteral{Pos: o.Pos, Token: token.UINT, Literal: v}
			if p.r.Intn(3) == 0 {
				o.M = &ast.UintLiteral{Pos: p.put("9"), Token: token.INT, Literal: 9}
			}
			o.Item = p.entry(d-1, last, false)
			return o
		case 2:
			o := &ast.NMOccurrence{Token: token.ZERO_OR_MORE}
			l := &ast.UintLiteral{Pos: p.put("2"), Token: token.UINT, Literal: 2}
			o.N = l
			o.Pos = p.put("*")
			if p.r.Intn(2) == 0 {
				o.M = &ast.UintLiteral{Pos: p.put("5"), Token: token.INT, Literal: 5}
			}
			o.Item = p.entry(d-1, last, false)
			return o
		}
	}
	if k < 5 {
		n := p.node(6, d-1)
		if !last || p.r.Intn(4) == 0 {
			p.put(",")
		}
		return n
	}
	arrow := p.r.Intn(4) == 0
	name := []string{"k", "name", "x-y"}[p.r.Intn(3)]
	if arrow {
		name = p.ids[p.r.Intn(len(p.ids))]
	}
	e := &ast.Entry{Name: &ast.Identifier{Pos: p.put(name), Name: name}}
	if arrow {
		e.Pos = p.put("=>")
	} else {
		w := p.wide
		e.Pos = p.put(":")
		p.wide = w
	}
	e.Value = p.node(6, d-1)
	if !last || p.r.Intn(4) == 0 {
		p.put(",")
	}
	return e
}

func genTree(r *rand.Rand) (string, *ast.CDDL) {
	p := &printer{r: r, line: 1, col: 1, wide: r.Intn(3) == 0, ids: []string{"a", "b", "c"}}
	out := &ast.CDDL{}
	for _, n := range p.ids {
		w := p.wide
		p.wide = false
		ru := &ast.Rule{Name: &ast.Identifier{Pos: p.put(n), Name: n}}
		p.wide = w
		p.put("=")
		ru.Value = p.node(6, 1+r.Intn(4))
		if r.Intn(4) == 0 {
			ru.TrailingComment = p.comment()
		} else {
			p.nl()
		}
		out.Rules = append(out.Rules, ru)
		if r.Intn(5) == 0 {
			g := &ast.CommentGroup{List: []*ast.Comment{p.comment(), p.comment()}}
			if ru.TrailingComment == nil {
				out.Rules = append(out.Rules, g)
			} else {
				out.Rules = append(out.Rules, g)
			}
		}
	}
	return p.b.String(), out
}

// differ compares two trees, except for end positions and derived fields.
func differ(a, b reflect.Value, path string) string {
	if a.IsValid() != b.IsValid() {
		return path + ": one is missing"
	}
	if a.Kind() != b.Kind() || a.Type() != b.Type() {
		return fmt.Sprintf("%s: %v, should be %v", path, b.Type(), a.Type())
	}
	switch a.Kind() {
	case reflect.Pointer, reflect.Interface:
		if a.IsNil() || b.IsNil() {
			if a.IsNil() != b.IsNil() {
				return path + ": one is nil"
			}
			return ""
		}
		return differ(a.Elem(), b.Elem(), path)
	case reflect.Slice:
		if a.Len() != b.Len() {
			return fmt.Sprintf("%s: %d elements, should be %d", path, b.Len(), a.Len())
		}
		for i := 0; i < a.Len(); i++ {
			if m := differ(a.Index(i), b.Index(i), fmt.Sprintf("%s[%d]", path, i)); m != "" {
				return m
			}
		}
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			f := a.Type().Field(i).Name
			if f == "End" || f == "EndPos" || f == "Base" && a.Type().Name() == "FloatType" || a.Type().Name() == "Map" && f == "Token" || a.Type().Name() == "Comment" && f == "Text" {
				continue
			}
			if m := differ(a.Field(i), b.Field(i), path+"."+f); m != "" {
				return m
			}
		}
	case reflect.String, reflect.Int, reflect.Int64, reflect.Uint64, reflect.Float64, reflect.Bool:
		if a.Interface() != b.Interface() {
			return fmt.Sprintf("%s: %v, should be %v", path, b.Interface(), a.Interface())
		}
	}
	return ""
}

func treeSearch(only func(msg string) bool) func(r *rand.Rand, deadline time.Time) *Failure {
	return func(r *rand.Rand, deadline time.Time) *Failure {
		var best *Failure
		for i := 0; time.Now().Before(deadline); i++ {
			src, want := genTree(r)
			if best != nil && len(src) >= len(best.Input) {
				if i > 40000 {
					break
				}
				continue
			}
			got, diags, _ := parse([]byte(src))
			m := ""
			if len(diags) > 0 {
				continue // not an accepted file
			}
			m = differ(reflect.ValueOf(want), reflect.ValueOf(got), "tree")
			if m != "" {
				best = fail("", []byte(src), m, "")
				if len(src) < 60 {
					break
				}
			}
		}
		return best
	}
}

func init() {
	byteOracles["C06"] = oracleC06
	byteOracles["C07"] = oracleC07
	byteOracles["C08"] = oracleC08
	byteOracles["C09"] = oracleC09
	byteOracles["C12"] = oracleC12
	directed["C12"] = directedC12
	directed["C10"] = treeSearch(nil)
	directed["C11"] = treeSearch(nil)
}
