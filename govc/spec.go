package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Clause is one line of a contract.
type Clause struct {
	label string
	tags  []string
	expr  ast.Expr
	text  string
	where string
	local bool // proved, but of no use to callers
}

func (c *Clause) active(prop string) bool {
	if prop == "*" || len(c.tags) == 0 {
		return true
	}
	for _, t := range c.tags {
		if t == prop {
			return true
		}
	}
	return false
}

type Contract struct {
	key       string
	kind      string // func, functype, iface, extern
	pkg       string
	params    []string
	results   []string
	requires  []*Clause
	updates   []*Clause // ghost == value, executed when the function returns
	ensures   []*Clause
	assumes   []*Clause // assumed about the caller's state at entry, justified elsewhere (reported)
	modifies  []*Clause
	invs      []*Clause
	measures  []*Clause
	decr      []*Clause
	cases     []*Clause
	ghosts    []*Clause // ghost updates at return: name := expr
	safety    []string
	tags      []string // properties for which the function is a root
	inline    bool
	trusted   bool
	anywrite  bool
	noreturn  bool
	maypanic  []*Clause
	where     string
	uses      map[string]bool
	lets      []*Clause // label = name
	defines   []*Clause // ghost definitions: assumed by callers, nothing to prove
	decrGroup string
	always    bool // calls through this function type always go by the contract
	insts     [][]string
	split     string // a parameter: one unit for each dynamic type it can have
	nonodes   bool   // creates no tree nodes
	noauto    bool   // no automatic candidates about heap cells
}

type SpecFunc struct {
	name   string
	args   []string
	ret    string
	def    ast.Expr
	parms  []string
	pkg    string
	opaque bool
	parts  []string
}

type Specs struct {
	funcs     map[string]*Contract
	functypes map[string]*Contract
	iface     map[string]*Contract
	externs   map[string]*Contract
	defs      map[string]*SpecFunc
	preds     map[string]*SpecFunc
	ghosts    map[string]string  // name -> sort
	consts    map[string]string  // name -> sort
	counts    map[string]*Clause // struct type -> the ghost that counts its allocations (in label)
	wf        map[string]*WFSpec
	lemmas    []*Clause
	constf    map[string]bool   // fields that only the constructor sets
	ctors     map[string]string // struct type -> constructor
	captures  map[string]*WFSpec
	files     []string
}

type WFSpec struct {
	typ  string
	self string
	cls  []*Clause
	pkg  string
}

func newSpecs() *Specs {
	return &Specs{funcs: map[string]*Contract{}, functypes: map[string]*Contract{}, iface: map[string]*Contract{}, externs: map[string]*Contract{},
		defs: map[string]*SpecFunc{}, preds: map[string]*SpecFunc{}, ghosts: map[string]string{}, consts: map[string]string{}, counts: map[string]*Clause{}, wf: map[string]*WFSpec{}, constf: map[string]bool{}, ctors: map[string]string{}, captures: map[string]*WFSpec{}}
}

// preImp rewrites a ==> b and a <==> b into calls.
func preImp(s string) string {
	// split into top-level and bracketed parts
	var out strings.Builder
	i := 0
	var segs []string // current comma segment pieces
	cur := ""
	flush := func() string {
		segs = append(segs, cur)
		cur = ""
		r := ""
		for k, x := range segs {
			if k > 0 {
				r += ","
			}
			r += impSeg(x)
		}
		segs = nil
		return r
	}
	for i < len(s) {
		c := s[i]
		switch {
		case c == '"' || c == '`' || c == '\'':
			j := i + 1
			for j < len(s) && s[j] != c {
				if s[j] == '\\' && c != '`' {
					j++
				}
				j++
			}
			cur += s[i : j+1]
			i = j + 1
		case c == '(' || c == '[' || c == '{':
			depth := 0
			j := i
			for ; j < len(s); j++ {
				if s[j] == '"' || s[j] == '\'' || s[j] == '`' {
					q := s[j]
					for j++; j < len(s) && s[j] != q; j++ {
						if s[j] == '\\' && q != '`' {
							j++
						}
					}
					continue
				}
				if s[j] == '(' || s[j] == '[' || s[j] == '{' {
					depth++
				}
				if s[j] == ')' || s[j] == ']' || s[j] == '}' {
					depth--
					if depth == 0 {
						break
					}
				}
			}
			cur += string(c) + preImp(s[i+1:j]) + string(s[j])
			i = j + 1
		case c == ',':
			segs = append(segs, cur)
			cur = ""
			i++
		default:
			cur += string(c)
			i++
		}
	}
	out.WriteString(flush())
	return out.String()
}

// impSeg handles one segment whose brackets are already rewritten.
func impSeg(s string) string {
	if i := topIndex(s, "<==>"); i >= 0 {
		return "iff(" + impSeg(s[:i]) + "," + impSeg(s[i+4:]) + ")"
	}
	if i := topIndex(s, "==>"); i >= 0 {
		return "imp(" + s[:i] + "," + impSeg(s[i+3:]) + ")"
	}
	return s
}

func topIndex(s, op string) int {
	depth := 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '"', '\'', '`':
			q := s[i]
			for i++; i < len(s) && s[i] != q; i++ {
				if s[i] == '\\' && q != '`' {
					i++
				}
			}
			continue
		case '(', '[', '{':
			depth++
		case ')', ']', '}':
			depth--
		}
		if depth == 0 && strings.HasPrefix(s[i:], op) {
			if op == "==>" && i > 0 && s[i-1] == '<' {
				continue
			}
			return i
		}
	}
	return -1
}

var clauseWords = map[string]bool{"package": true, "func": true, "functype": true, "iface": true, "extern": true, "pred": true, "fun": true,
	"requires": true, "ensures": true, "shows": true, "assumes": true, "modifies": true, "inv": true, "measure": true, "decreases": true, "safety": true, "inline": true,
	"trusted": true, "anywrite": true, "ghost": true, "const": true, "count": true, "root": true, "node": true, "nodeinv": true, "lemma": true, "constfield": true, "noreturn": true, "maypanic": true, "optional": true, "set": true, "update": true, "let": true, "defines": true, "capture": true, "ctor": true, "always": true, "nonodes": true, "noauto": true, "split": true, "opaque": true, "instances": true}

func (sp *Specs) parseExpr(text, where string) (ast.Expr, error) {
	e, err := parser.ParseExpr(preImp(text))
	if err != nil {
		return nil, fmt.Errorf("%s: %v in %q", where, err, preImp(text))
	}
	return e, nil
}

func (sp *Specs) load(dir string) error {
	fs, err := filepath.Glob(filepath.Join(dir, "*.spec"))
	if err != nil {
		return err
	}
	sort.Strings(fs)
	for _, f := range fs {
		if err := sp.loadFile(f); err != nil {
			return err
		}
	}
	return nil
}

func (sp *Specs) loadFile(f string) error {
	data, err := os.ReadFile(f)
	if err != nil {
		return err
	}
	sp.files = append(sp.files, f)
	type rec struct {
		word, rest string
		line       int
	}
	var recs []rec
	for i, ln := range strings.Split(string(data), "\n") {
		if k := strings.Index(ln, "//#"); k >= 0 {
			ln = ln[:k]
		}
		t := strings.TrimSpace(ln)
		if t == "" || strings.HasPrefix(t, "#") {
			continue
		}
		w := t
		rest := ""
		if j := strings.IndexAny(t, " \t"); j >= 0 {
			w, rest = t[:j], strings.TrimSpace(t[j:])
		}
		if clauseWords[w] {
			recs = append(recs, rec{w, rest, i + 1})
		} else if len(recs) > 0 {
			recs[len(recs)-1].rest += " " + t
		} else {
			return fmt.Errorf("%s:%d: unknown %q", f, i+1, w)
		}
	}
	pkg := ""
	var con *Contract
	var wf *WFSpec
	for _, r := range recs {
		where := fmt.Sprintf("%s:%d", filepath.Base(f), r.line)
		clause := func() (*Clause, error) {
			c := &Clause{where: where}
			t := r.rest
			if strings.HasPrefix(t, "[") {
				j := strings.Index(t, "]")
				c.tags = strings.FieldsFunc(t[1:j], func(x rune) bool { return x == ',' || x == ' ' })
				t = strings.TrimSpace(t[j+1:])
			}
			if strings.HasPrefix(t, "\"") {
				j := strings.Index(t[1:], "\"") + 1
				c.label = t[1:j]
				t = strings.TrimSpace(t[j+1:])
			}
			c.text = t
			if c.label == "" {
				c.label = t
			}
			var err error
			c.expr, err = sp.parseExpr(t, where)
			return c, err
		}
		switch r.word {
		case "package":
			pkg = r.rest
		case "constfield":
			sp.constf[r.rest] = true
		case "func", "functype", "iface", "extern":
			con = &Contract{kind: r.word, pkg: pkg, where: where, uses: map[string]bool{}}
			// KEY(params) (results)
			s := r.rest
			// the parameter list is the first "(" following the key; keys may start with "(*T)."
			start := 0
			if strings.HasPrefix(s, "(") {
				start = strings.Index(s, ")") + 1
			}
			k := strings.Index(s[start:], "(")
			if k < 0 {
				return fmt.Errorf("%s: missing parameter list", where)
			}
			k += start
			con.key = strings.TrimSpace(s[:k])
			j := strings.Index(s[k:], ")") + k
			con.params = splitNames(s[k+1 : j])
			rest := strings.TrimSpace(s[j+1:])
			rest = strings.Trim(rest, "()")
			con.results = splitNames(rest)
			switch r.word {
			case "func":
				if sp.funcs[con.key] != nil {
					return fmt.Errorf("%s: duplicate contract %s", where, con.key)
				}
				sp.funcs[con.key] = con
			case "functype":
				sp.functypes[con.key] = con
			case "iface":
				sp.iface[con.key] = con
			case "extern":
				con.trusted = true
				sp.externs[con.key] = con
			}
		case "opaque":
			// the predicate is an atom outside its package
			for _, n := range strings.Fields(r.rest) {
				if sp.preds[n] == nil {
					return fmt.Errorf("%s: no predicate %s", where, n)
				}
				sp.preds[n].opaque = true
			}
		case "pred", "fun":
			// name(a,b) = expr   |  name(Sort,Sort) Sort
			k := strings.Index(r.rest, "(")
			j := strings.Index(r.rest, ")")
			sf := &SpecFunc{name: strings.TrimSpace(r.rest[:k]), pkg: pkg}
			rest := strings.TrimSpace(r.rest[j+1:])
			if r.word == "pred" {
				sf.parms = splitNames(r.rest[k+1 : j])
				rest = strings.TrimSpace(strings.TrimPrefix(rest, "="))
				e, err := sp.parseExpr(rest, where)
				if err != nil {
					return err
				}
				sf.def = e
				sp.preds[sf.name] = sf
			} else {
				sf.args = splitNames(r.rest[k+1 : j])
				sf.ret = rest
				sp.defs[sf.name] = sf
			}
		case "node":
			// node T(self)
			k := strings.Index(r.rest, "(")
			wf = &WFSpec{typ: strings.TrimSpace(r.rest[:k]), self: strings.Trim(r.rest[k:], "() "), pkg: pkg}
			sp.wf[wf.typ] = wf
		case "ctor":
			fs := strings.Fields(r.rest)
			sp.ctors[fs[0]] = fs[1]
		case "nonodes":
			con.nonodes = true
		case "noauto":
			con.noauto = true
		case "split":
			con.split = strings.TrimSpace(r.rest)
		case "always":
			con.always = true
		case "capture":
			k := strings.Index(r.rest, "(")
			j := strings.Index(r.rest, ")")
			cs := sp.captures[strings.TrimSpace(r.rest[:k])]
			if cs == nil {
				cs = &WFSpec{typ: strings.TrimSpace(r.rest[:k]), self: r.rest[k+1 : j], pkg: pkg}
				sp.captures[cs.typ] = cs
			}
			r.rest = strings.TrimSpace(r.rest[j+1:])
			c, err := clause()
			if err != nil {
				return err
			}
			cs.cls = append(cs.cls, c)
		case "let":
			k := strings.Index(r.rest, "=")
			name := strings.TrimSpace(r.rest[:k])
			r.rest = strings.TrimSpace(r.rest[k+1:])
			c, err := clause()
			if err != nil {
				return err
			}
			c.label = name
			con.lets = append(con.lets, c)
		case "decreases":
			k := strings.Index(r.rest, ":")
			con.decrGroup = strings.TrimSpace(r.rest[:k])
			for _, part := range splitTop(r.rest[k+1:]) {
				e, err := sp.parseExpr(part, where)
				if err != nil {
					return err
				}
				con.decr = append(con.decr, &Clause{expr: e, text: part, where: where})
			}
		case "nodeinv":
			c, err := clause()
			if err != nil {
				return err
			}
			wf.cls = append(wf.cls, c)
		case "const": // an arbitrary value that never changes
			fs := strings.Fields(r.rest)
			sp.consts[fs[0]] = fs[1]
		case "ghost":
			fs := strings.Fields(r.rest)
			sp.ghosts[fs[0]] = strings.Join(fs[1:], " ")
		case "count": // count [props] TYPE GHOST
			c := &Clause{where: where}
			t := r.rest
			if strings.HasPrefix(t, "[") {
				j := strings.Index(t, "]")
				c.tags = strings.FieldsFunc(t[1:j], func(x rune) bool { return x == ',' || x == ' ' })
				t = t[j+1:]
			}
			fs := strings.Fields(t)
			c.label = fs[1]
			sp.counts[fs[0]] = c
			sp.ghosts[fs[1]] = "Int"
		case "lemma":
			c, err := clause()
			if err != nil {
				return err
			}
			sp.lemmas = append(sp.lemmas, c)
		case "safety":
			con.safety = splitNames(strings.Trim(r.rest, "[]"))
		case "root":
			con.tags = splitNames(strings.Trim(r.rest, "[]"))
		case "instances":
			for _, x := range strings.Fields(r.rest) {
				con.insts = append(con.insts, strings.Split(x, ","))
			}
		case "inline":
			con.inline = true
		case "trusted":
			con.trusted = true
		case "anywrite":
			con.anywrite = true
		case "noreturn":
			con.noreturn = true
		case "modifies":
			for _, part := range splitTop(r.rest) {
				e, err := sp.parseExpr(part, where)
				if err != nil {
					return err
				}
				con.modifies = append(con.modifies, &Clause{expr: e, text: part, where: where})
			}
		default:
			c, err := clause()
			if err != nil {
				return err
			}
			switch r.word {
			case "requires":
				con.requires = append(con.requires, c)
			case "ensures", "shows":
				c.local = r.word == "shows"
				con.ensures = append(con.ensures, c)
			case "assumes":
				con.assumes = append(con.assumes, c)
			case "inv":
				con.invs = append(con.invs, c)
			case "measure":
				con.measures = append(con.measures, c)
			case "defines":
				con.defines = append(con.defines, c)
			case "maypanic":
				con.maypanic = append(con.maypanic, c)
			case "update":
				con.updates = append(con.updates, c)
			case "set":
				con.ghosts = append(con.ghosts, c)
			}
		}
	}
	return nil
}

func splitTop(s string) []string {
	var out []string
	depth, start := 0, 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(', '[', '{':
			depth++
		case ')', ']', '}':
			depth--
		case ',':
			if depth == 0 {
				out = append(out, strings.TrimSpace(s[start:i]))
				start = i + 1
			}
		}
	}
	if t := strings.TrimSpace(s[start:]); t != "" {
		out = append(out, t)
	}
	return out
}

func splitNames(s string) []string {
	var out []string
	for _, x := range strings.Split(s, ",") {
		if x = strings.TrimSpace(x); x != "" {
			out = append(out, x)
		}
	}
	return out
}

func (sp *Specs) forFunc(f *ssa.Function) *Contract {
	if c, ok := sp.funcs[fnKey(f)]; ok {
		return c
	}
	if c, ok := sp.externs[f.String()]; ok {
		return c
	}
	return nil
}
