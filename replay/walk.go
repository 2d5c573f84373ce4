package main

import (
	"fmt"
	"reflect"

	"github.com/HannesKimara/cddlc/ast"
	"github.com/HannesKimara/cddlc/ast/astutils"
)

// children lists the nodes directly below n, in the order of the source.
func children(n ast.Node) (out []ast.Node) {
	v := reflect.ValueOf(n)
	if v.Kind() != reflect.Pointer || v.Elem().Kind() != reflect.Struct {
		return nil
	}
	add := func(f reflect.Value) {
		if (f.Kind() == reflect.Pointer || f.Kind() == reflect.Interface) && !f.IsNil() {
			if c, ok := f.Interface().(ast.Node); ok {
				out = append(out, c)
			}
		}
	}
	if s, ok := n.(*ast.SizeOperatorControl); ok { // the type stands before the size
		add(reflect.ValueOf(&s.Type).Elem())
		add(reflect.ValueOf(&s.Size).Elem())
		return out
	}
	for i := 0; i < v.Elem().NumField(); i++ {
		f := v.Elem().Field(i)
		if f.Kind() == reflect.Slice {
			for k := 0; k < f.Len(); k++ {
				add(f.Index(k))
			}
		} else {
			add(f)
		}
	}
	return out
}

// logger is a visitor with an identity of its own, so that a visitor handed to the wrong node shows.
type logger struct {
	id   int
	log  *[]string
	next *int
	stop int // returns nil for every stop-th node
}

func (l *logger) Visit(n ast.Node) astutils.Visitor {
	*l.log = append(*l.log, fmt.Sprintf("%d visits %T %p", l.id, n, n))
	if n == nil {
		return l
	}
	*l.next++
	if l.stop > 0 && *l.next%l.stop == 0 {
		return nil
	}
	return &logger{*l.next, l.log, l.next, l.stop}
}

func wantWalk(id int, n ast.Node, next *int, stop int, out *[]string) {
	*out = append(*out, fmt.Sprintf("%d visits %T %p", id, n, n))
	*next++
	if stop > 0 && *next%stop == 0 {
		return
	}
	me := *next
	for _, c := range children(n) {
		wantWalk(me, c, next, stop, out)
	}
	var none ast.Node
	*out = append(*out, fmt.Sprintf("%d visits %T %p", me, none, none))
}

func walkOnce(n ast.Node, stop int) (msg string) {
	var got, want []string
	k := 0
	wantWalk(0, n, &k, stop, &want)
	defer func() {
		if e := recover(); e != nil {
			msg = fmt.Sprintf("walking panics: %v", e)
		}
	}()
	k = 0
	astutils.Walk(&logger{0, &got, &k, stop}, n)
	for i := 0; i < len(got) || i < len(want); i++ {
		g, w := "nothing", "nothing"
		if i < len(got) {
			g = got[i]
		}
		if i < len(want) {
			w = want[i]
		}
		if g != w {
			return fmt.Sprintf("call %d of Visit: visitor %s, expected visitor %s", i, g, w)
		}
	}
	return ""
}

func oracleC13(src []byte) string {
	var c *ast.CDDL
	func() {
		defer func() { recover() }()
		c, _, _ = parse(src)
	}()
	if c == nil {
		return ""
	}
	for _, stop := range []int{0, 2, 3, 5} {
		if m := walkOnce(c, stop); m != "" {
			return m
		}
	}
	return ""
}

func init() { byteOracles["C13"] = oracleC13 }
