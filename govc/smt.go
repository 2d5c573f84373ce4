package main

import (
	"bytes"
	"context"
	"fmt"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

func smtName(s string) string {
	for i := 0; i < len(s); i++ {
		c := s[i]
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || strings.IndexByte("_.$!@-+*/<>=%?&^~", c) >= 0) {
			return "|" + s + "|"
		}
	}
	if s == "" || s[0] >= '0' && s[0] <= '9' {
		return "|" + s + "|"
	}
	return s
}

// builtin operators are those without a declaration.
var sortNames = map[string]string{"F64": "(_ FloatingPoint 11 53)", "F32": "(_ FloatingPoint 8 24)"}

func smtSort(s string) string {
	if r, ok := sortNames[s]; ok {
		return r
	}
	if strings.Contains(s, "F64") {
		s = strings.ReplaceAll(s, "F64", sortNames["F64"])
	}
	if strings.Contains(s, "F32") {
		s = strings.ReplaceAll(s, "F32", sortNames["F32"])
	}
	return s
}

type printer struct {
	b      strings.Builder
	names  map[*Term]string // defined shared terms
	refs   map[*Term]int
	syms   map[*Term]bool
	funs   map[string]bool
	strs   []*Term
	n      int
	order  []*Term
	noDefs bool
	pats   map[*Term]string // printed patterns of a quantifier
}

func (p *printer) count(t *Term) {
	p.refs[t]++
	if p.refs[t] > 1 {
		return
	}
	switch t.op {
	case "sym":
		if !t.bound {
			if !p.syms[t] {
				p.syms[t] = true
				p.order = append(p.order, t)
				if t.hasSC {
					p.strs = append(p.strs, t)
				}
			}
		}
		return
	case "app":
		if d, ok := tt.decls[t.name]; ok && d != "" {
			p.funs[t.name] = true
		}
	}
	for _, a := range t.args {
		p.count(a)
	}
	for _, ps := range t.pats {
		for _, x := range ps {
			p.count(x)
		}
	}
}

func (p *printer) str(t *Term) string {
	if n, ok := p.names[t]; ok {
		return n
	}
	switch t.op {
	case "int":
		if t.iv.Sign() < 0 {
			return "(- " + strings.TrimPrefix(t.iv.String(), "-") + ")"
		}
		return t.iv.String()
	case "true", "false":
		return t.op
	case "sym":
		if strings.HasPrefix(t.name, "flt$") {
			return fltConst(t.name)
		}
		return smtName(t.name)
	case "forall", "exists":
		var b strings.Builder
		b.WriteString("(" + t.op + " (")
		for _, v := range t.vars {
			b.WriteString("(" + smtName(v.name) + " " + smtSort(v.sort) + ")")
		}
		b.WriteString(") ")
		pats := p.pats[t]
		if pats != "" {
			b.WriteString("(! ")
		}
		b.WriteString(p.str(t.args[0]))
		if pats != "" {
			if t.weight > 0 {
				pats += fmt.Sprintf(" :weight %d", t.weight)
			}
			b.WriteString(pats + ")")
		}
		b.WriteString(")")
		return b.String()
	}
	switch t.name {
	case "const":
		return "((as const " + smtSort(t.sort) + ") " + p.str(t.args[0]) + ")"
	case "f64zero":
		return "(_ +zero 11 53)"
	case "f32zero":
		return "(_ +zero 8 24)"
	}
	var b strings.Builder
	n := t.name
	if _, ok := tt.decls[n]; ok {
		n = smtName(n)
		if len(t.args) == 0 {
			return n
		}
	}
	b.WriteString("(" + n)
	for _, a := range t.args {
		b.WriteByte(' ')
		b.WriteString(p.str(a))
	}
	b.WriteByte(')')
	return b.String()
}

func fltConst(name string) string {
	p := strings.SplitN(name, "$", 3)
	f, err := strconv.ParseFloat(p[2], 64)
	if err != nil {
		panic(err)
	}
	if p[1] == "F32" {
		b := math.Float32bits(float32(f))
		return fmt.Sprintf("((_ to_fp 8 24) #x%08x)", b)
	}
	return fmt.Sprintf("((_ to_fp 11 53) #x%016x)", math.Float64bits(f))
}

func interpreted(t *Term) bool {
	if t.op == "forall" || t.op == "exists" || t.op == "true" || t.op == "false" {
		return true
	}
	if t.op != "app" {
		return false
	}
	switch t.name {
	case "ite", "and", "or", "not", "=>", "=", "<=", "<", ">", ">=":
		return true
	}
	return false
}

func hasInterpreted(t *Term, seen map[*Term]bool) bool {
	if seen[t] {
		return false
	}
	seen[t] = true
	if interpreted(t) {
		return true
	}
	for _, a := range t.args {
		if hasInterpreted(a, seen) {
			return true
		}
	}
	return false
}

// patTerm prints a pattern; closed parts that may not occur in patterns are given a name.
func (p *printer) patTerm(t *Term) (string, bool) {
	if !hasInterpreted(t, map[*Term]bool{}) {
		return p.str(t), true
	}
	if !t.bound {
		k := mkApp("$pat", t.sort, t)
		if n, ok := p.names[k]; ok {
			return n, true
		}
		p.n++
		nm := fmt.Sprintf("$p%d", p.n)
		fmt.Fprintf(&p.b, "(declare-const %s %s)\n(assert (= %s %s))\n", nm, smtSort(t.sort), nm, p.str(t))
		p.names[k] = nm
		return nm, true
	}
	if interpreted(t) || t.name == "const" {
		return "", false
	}
	n := t.name
	if _, ok := tt.decls[n]; ok {
		n = smtName(n)
	}
	s := "(" + n
	for _, a := range t.args {
		x, ok := p.patTerm(a)
		if !ok {
			return "", false
		}
		s += " " + x
	}
	return s + ")", true
}

func (p *printer) printPats(t *Term) {
	s := ""
	for _, ps := range t.pats {
		one := ""
		ok := true
		for i, x := range ps {
			if i > 0 {
				one += " "
			}
			y, k := p.patTerm(x)
			one += y
			ok = ok && k
		}
		if ok {
			s += " :pattern (" + one + ")"
		}
	}
	p.pats[t] = s
}

// define names the shared closed subterms.
func (p *printer) define(t *Term, done map[*Term]bool) {
	if done[t] || t.op != "app" && t.op != "forall" && t.op != "exists" {
		return
	}
	done[t] = true
	for _, a := range t.args {
		p.define(a, done)
	}
	for _, ps := range t.pats {
		for _, x := range ps {
			p.define(x, done)
		}
	}
	if len(t.pats) > 0 {
		p.printPats(t)
	}
	if p.refs[t] > 1 && !t.bound && t.op == "app" && len(t.args) > 0 {
		s := p.str(t)
		p.n++
		nm := fmt.Sprintf("$d%d", p.n)
		fmt.Fprintf(&p.b, "(define-fun %s () %s %s)\n", nm, smtSort(t.sort), s)
		p.names[t] = nm
	}
}

// script renders assumptions and a negated goal.
func script(assumps []*Term, goal *Term, model bool) string {
	p := &printer{names: map[*Term]string{}, refs: map[*Term]int{}, syms: map[*Term]bool{}, funs: map[string]bool{}, pats: map[*Term]string{}}
	for _, a := range assumps {
		p.count(a)
	}
	p.count(goal)
	// library axioms for the functions and constants in use
	ax, extra := axioms(p)
	for _, t := range extra {
		p.count(t)
	}
	var out strings.Builder
	out.WriteString("(set-option :smt.auto_config false)\n(set-option :smt.mbqi false)\n")
	if model {
		out.WriteString("(set-option :produce-models true)\n")
	}
	out.WriteString("(declare-sort Str 0)\n")
	sort.Slice(p.order, func(i, j int) bool { return p.order[i].id < p.order[j].id })
	for _, s := range p.order {
		if strings.HasPrefix(s.name, "flt$") {
			continue
		}
		fmt.Fprintf(&out, "(declare-const %s %s)\n", smtName(s.name), smtSort(s.sort))
	}
	var fs []string
	for f := range p.funs {
		fs = append(fs, f)
	}
	sort.Strings(fs)
	for _, f := range fs {
		d := tt.decls[f]
		d = strings.Replace(d, "(declare-fun "+f+" ", "(declare-fun "+smtName(f)+" ", 1)
		out.WriteString(smtSort2(d) + "\n")
	}
	done := map[*Term]bool{}
	for _, a := range ax {
		p.b.WriteString(a + "\n")
	}
	for _, a := range append(append([]*Term{}, extra...), assumps...) {
		p.define(a, done)
		p.b.WriteString("(assert " + p.str(a) + ")\n")
	}
	p.define(goal, done)
	p.b.WriteString("(assert (not " + p.str(goal) + "))\n(check-sat)\n")
	if model {
		p.b.WriteString("(get-model)\n")
	}
	out.WriteString(p.b.String())
	return out.String()
}

func smtSort2(d string) string {
	d = strings.ReplaceAll(d, " F64", " "+sortNames["F64"])
	d = strings.ReplaceAll(d, "(F64", "("+sortNames["F64"])
	d = strings.ReplaceAll(d, " F32", " "+sortNames["F32"])
	d = strings.ReplaceAll(d, "(F32", "("+sortNames["F32"])
	return d
}

const rowSort = "(Array Int Int)"

// axioms gives the library facts for strings and byte rows used in a query.
func axioms(p *printer) (ax []string, terms []*Term) {
	use := func(fs ...string) bool {
		for _, f := range fs {
			if p.funs[f] {
				return true
			}
		}
		return false
	}
	declare := func(f string, args []string, ret string) {
		if _, ok := tt.decls[f]; !ok {
			tt.decls[f] = "(declare-fun " + f + " (" + strings.Join(args, " ") + ") " + ret + ")"
		}
		p.funs[f] = true
	}
	if use("sconcat") || use("strof") || use("substr") || use("runestr") || use("itoa") {
		declare("slen", []string{"Str"}, "Int")
	}
	if use("slen") || len(p.strs) > 0 {
		declare("slen", []string{"Str"}, "Int")
		ax = append(ax, "(assert (forall ((s Str)) (! (<= 0 (slen s)) :pattern ((slen s)))))")
	}
	if use("strof") {
		declare("sat", []string{"Str", "Int"}, "Int")
		ax = append(ax, "(assert (forall ((r "+rowSort+") (a Int) (n Int)) (! (=> (<= 0 n) (= (slen (strof r a n)) n)) :pattern ((strof r a n)))))")
		ax = append(ax, "(assert (forall ((r "+rowSort+") (a Int) (n Int) (i Int)) (! (=> (and (<= 0 i) (< i n)) (= (sat (strof r a n) i) (select r (+ a i)))) :pattern ((sat (strof r a n) i)))))")
	}
	if use("sconcat") {
		ax = append(ax, "(assert (forall ((s Str) (t Str)) (! (= (slen (sconcat s t)) (+ (slen s) (slen t))) :pattern ((sconcat s t)))))")
		if use("strof") {
			ax = append(ax, "(assert (forall ((r "+rowSort+") (a Int) (n Int) (m Int) (b Int)) (! (=> (and (<= 0 n) (<= 0 m) (= b (+ a n))) (= (sconcat (strof r a n) (strof r b m)) (strof r a (+ n m)))) :pattern ((sconcat (strof r a n) (strof r b m))))))")
		}
	}
	if use("substr") {
		ax = append(ax, "(assert (forall ((s Str) (a Int) (n Int)) (! (=> (<= 0 n) (= (slen (substr s a n)) n)) :pattern ((substr s a n)))))")
		declare("sat", []string{"Str", "Int"}, "Int")
		ax = append(ax, "(assert (forall ((s Str) (a Int) (n Int) (i Int)) (! (=> (and (<= 0 i) (< i n)) (= (sat (substr s a n) i) (sat s (+ a i)))) :pattern ((sat (substr s a n) i)))))")
	}
	if use("runestr") && use("strof") {
		if use("decr") {
			declare("decw", []string{rowSort, "Int", "Int"}, "Int")
			ax = append(ax, "(assert (forall ((r "+rowSort+") (a Int) (h Int)) (! (=> (and (< a h) (or (< 1 (decw r a h)) (not (= (decr r a h) 65533)))) (= (runestr (decr r a h)) (strof r a (decw r a h)))) :pattern ((runestr (decr r a h))))))")
		}
		ax = append(ax, "(assert (forall ((c Int)) (! (=> (and (<= 0 c) (< c 128)) (= (slen (runestr c)) 1)) :pattern ((runestr c)))))")
		ax = append(ax, "(assert (forall ((c Int) (r "+rowSort+") (a Int)) (! (=> (and (<= 0 c) (< c 128) (= (select r a) c)) (= (runestr c) (strof r a 1))) :pattern ((runestr c) (strof r a 1)))))")
	}
	// string constants
	if len(p.strs) > 1 {
		var b strings.Builder
		b.WriteString("(assert (distinct")
		for _, s := range p.strs {
			b.WriteString(" " + smtName(s.name))
		}
		b.WriteString("))")
		ax = append(ax, b.String())
	}
	for _, s := range p.strs {
		ax = append(ax, fmt.Sprintf("(assert (= (slen %s) %d))", smtName(s.name), len(s.sc)))
		if use("sat") {
			for i := 0; i < len(s.sc) && i < 40; i++ {
				ax = append(ax, fmt.Sprintf("(assert (= (sat %s %d) %d))", smtName(s.name), i, s.sc[i]))
			}
		}
		if use("strof") && len(s.sc) < 24 {
			eq := fmt.Sprintf("(= n %d)", len(s.sc))
			for i := 0; i < len(s.sc); i++ {
				eq += fmt.Sprintf(" (= (select r (+ a %d)) %d)", i, s.sc[i])
			}
			ax = append(ax, fmt.Sprintf("(assert (forall ((r %s) (a Int) (n Int)) (! (=> (<= 0 n) (= (and %s) (= (strof r a n) %s))) :pattern ((strof r a n)))))", rowSort, eq, smtName(s.name)))
			if use("sconcat") && len(s.sc) <= 2 && len(s.sc) > 0 {
				eq := "true"
				for i := 0; i < len(s.sc); i++ {
					eq += fmt.Sprintf(" (= (select r (- a %d)) %d)", len(s.sc)-i, s.sc[i])
				}
				ax = append(ax, fmt.Sprintf("(assert (forall ((r %s) (a Int) (n Int)) (! (=> (and (<= 0 n) %s) (= (sconcat %s (strof r a n)) (strof r (- a %d) (+ n %d)))) :pattern ((sconcat %s (strof r a n))))))", rowSort, eq, smtName(s.name), len(s.sc), len(s.sc), smtName(s.name)))
			}
		}
	}
	if use("runestr") {
		for _, s := range p.strs {
			if rs := []rune(s.sc); len(rs) == 1 && string(rs) == s.sc {
				ax = append(ax, fmt.Sprintf("(assert (= (runestr %d) %s))", rs[0], smtName(s.name)))
			}
		}
	}
	if use("cnt") {
		// lemmas proved from the definition, see lemmas/cnt.smt2
		ax = append(ax, cntLemmas...)
	}
	if use("cntall") && use("cnt") {
		// cntall is cnt over a range whose parts are counted elsewhere
		ax = append(ax, "(assert (forall ((r (Array Int Int)) (c Int) (l Int) (h Int) (a Int)) (! (=> (<= a h) (<= (cnt r c l a) (cntall r c l h))) :pattern ((cnt r c l a) (cntall r c l h)))))")
	}
	if use("lastix") {
		ax = append(ax, lastLemmas...)
	}
	return
}

var cntLemmas = []string{
	"(assert (forall ((r (Array Int Int)) (c Int) (l Int) (h Int)) (! (and (<= 0 (cnt r c l h)) (=> (<= h l) (= (cnt r c l h) 0))) :pattern ((cnt r c l h)))))",
	stepLemma("cnt", func(base, at string) string { return "(+ " + base + " (ite (= (select r " + at + ") c) 1 0))" }),
}

var lastLemmas = []string{
	"(assert (forall ((r (Array Int Int)) (c Int) (l Int) (h Int)) (! (and (<= (- l 1) (lastix r c l h)) (=> (<= l h) (< (lastix r c l h) h)) (=> (<= h l) (= (lastix r c l h) (- l 1)))) :pattern ((lastix r c l h)))))",
	stepLemma("lastix", func(base, at string) string { return "(ite (= (select r " + at + ") c) " + at + " " + base + ")" }),
}

// stepLemma relates the function at two bounds at most four apart.
func stepLemma(f string, step func(base, at string) string) string {
	var cs []string
	base := fmt.Sprintf("(%s r c l a)", f)
	for k := 1; k <= 4; k++ {
		at := fmt.Sprintf("(+ a %d)", k-1)
		base = step(base, at)
		cs = append(cs, fmt.Sprintf("(=> (and (<= l a) (= b (+ a %d))) (= (%s r c l b) %s))", k, f, base))
	}
	return fmt.Sprintf("(assert (forall ((r (Array Int Int)) (c Int) (l Int) (a Int) (b Int)) (! (and %s) :pattern ((%s r c l a) (%s r c l b)))))", strings.Join(cs, " "), f, f)
}

// ---- running solvers ----

type solverResult struct {
	res    string // unsat sat unknown timeout error
	solver string
	ms     float64
	out    string
	text   string
}

type racer struct {
	bin  string
	args []string
	text string
}

// forCVC5 drops what only z3 understands.
func forCVC5(t string) string {
	return "(set-logic ALL)\n" + strings.Replace(strings.ReplaceAll(t, " :weight 2", ""), "(set-option :smt.auto_config false)\n(set-option :smt.mbqi false)\n", "", 1)
}

// race runs several solvers at once and stops the others when one has proved the goal.
func race(budget time.Duration, rs []racer) solverResult {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	ch := make(chan solverResult, len(rs))
	for _, x := range rs {
		go func() {
			args := append([]string{"-in", solverTimeout(budget)}, x.args...)
			if x.bin == "cvc5" {
				args = append([]string{"--lang=smt2", fmt.Sprintf("--tlimit=%d", budget.Milliseconds())}, x.args...)
			}
			ch <- runSolverCtx(ctx, x.bin, args, x.text, budget)
		}()
	}
	var last solverResult
	for range rs {
		r := <-ch
		if r.res == "unsat" || r.res == "sat" {
			return r
		}
		if last.res == "" || r.res == "unknown" {
			last = r
		}
	}
	return last
}

func runSolver(bin string, args []string, text string, timeout time.Duration) solverResult {
	return runSolverCtx(context.Background(), bin, args, text, timeout)
}

func runSolverCtx(parent context.Context, bin string, args []string, text string, timeout time.Duration) solverResult {
	ctx, cancel := context.WithTimeout(parent, timeout+2*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, args...)
	cmd.Stdin = strings.NewReader(text)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	t0 := time.Now()
	err := cmd.Run()
	ms := float64(time.Since(t0).Microseconds()) / 1000
	s := strings.TrimSpace(out.String())
	first := s
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		first = s[:i]
	}
	r := solverResult{solver: filepath.Base(bin), ms: ms, out: s}
	switch first {
	case "unsat", "sat", "unknown", "timeout":
		r.res = first
	default:
		r.res = "error"
		if ctx.Err() != nil || err != nil && first == "" {
			r.res = "timeout"
		} else if theEngine != nil && theEngine.prog.verbose {
			fmt.Println("  solver error:", first)
			os.MkdirAll("/tmp/failed", 0o755)
			os.WriteFile("/tmp/failed/error.smt2", []byte(text), 0o644)
		}
	}
	return r
}

func solverTimeout(d time.Duration) string { return fmt.Sprintf("-T:%d", int(d.Seconds())) }

var queryDump string
var queryN int
var queryMu sync.Mutex

// solve tries the solvers in turn.
func solve(text string, quick bool, budget time.Duration) solverResult {
	if queryDump != "" {
		queryMu.Lock()
		queryN++
		n := queryN
		queryMu.Unlock()
		os.WriteFile(filepath.Join(queryDump, fmt.Sprintf("q%05d.smt2", n)), []byte(text), 0o644)
	}
	short := budget
	if short > 2*time.Second {
		short = 2 * time.Second
	}
	r := runSolver("z3-new", []string{"-in", solverTimeout(short)}, text, short)
	if r.res == "unsat" || r.res == "sat" {
		return r
	}
	if r.res == "timeout" || r.ms > 1500 {
		// the two versions of z3 side by side
		ms := r.ms
		r = race(budget, []racer{{"z3-new", nil, text}, {"z3", nil, text}})
		r.ms += ms
		if r.res == "unsat" || r.res == "sat" {
			return r
		}
	}
	first := r
	if r.res == "unknown" && r.ms < 1500 {
		// given up early: the order of instantiations matters
		for _, a := range [][]string{{"z3-new", "smt.random_seed=3"}, {"z3", ""}, {"z3-new", "smt.random_seed=11"}} {
			args := []string{"-in", solverTimeout(budget)}
			if a[1] != "" {
				args = append(args, a[1])
			}
			x := runSolver(a[0], args, text, budget)
			r.ms += x.ms
			if x.res == "unsat" {
				x.ms = r.ms
				return x
			}
		}
	}
	if quick {
		return r
	}
	for _, s := range []struct {
		bin  string
		args []string
		mod  func(string) string
	}{
		{"z3-new", []string{"-in", solverTimeout(budget)}, func(t string) string {
			return strings.Replace(t, "(set-option :smt.auto_config false)\n(set-option :smt.mbqi false)\n", "", 1)
		}},
		{"cvc5", []string{"--lang=smt2", fmt.Sprintf("--tlimit=%d", budget.Milliseconds())}, func(t string) string {
			return forCVC5(t)
		}},
	} {
		t := text
		if s.mod != nil {
			t = s.mod(text)
		}
		x := runSolver(s.bin, s.args, t, budget)
		r.ms += x.ms
		if x.res == "unsat" {
			x.ms = r.ms
			return x
		}
		if x.res == "sat" && s.mod == nil && r.res != "sat" {
			first = x
		}
	}
	first.ms = r.ms
	return first
}
