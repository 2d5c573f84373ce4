package main

import (
	"errors"
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"time"

	"github.com/HannesKimara/cddlc/runtime/validators"
)

// exact compares as mathematical numbers; NaN compares with nothing.
func exact[T validators.NumericOrdered](a T) (*big.Float, int, bool) {
	switch x := any(a).(type) {
	case float32:
		return exactF(float64(x))
	case float64:
		return exactF(x)
	}
	b := new(big.Float)
	b.SetPrec(200)
	b.SetMode(big.ToNearestEven)
	var i big.Int
	i.SetString(fmt.Sprint(a), 10)
	b.SetInt(&i)
	return b, 0, true
}

func exactF(x float64) (*big.Float, int, bool) {
	if math.IsNaN(x) {
		return nil, 0, false
	}
	if math.IsInf(x, 0) {
		if x > 0 {
			return nil, 1, true
		}
		return nil, -1, true
	}
	return new(big.Float).SetPrec(200).SetFloat64(x), 0, true
}

func less[T validators.NumericOrdered](a, b T) bool {
	x, xi, ok1 := exact(a)
	y, yi, ok2 := exact(b)
	if !ok1 || !ok2 {
		return false
	}
	if xi != 0 || yi != 0 {
		return xi < yi
	}
	return x.Cmp(y) < 0
}

func same[T validators.NumericOrdered](a, b T) bool {
	x, xi, ok1 := exact(a)
	y, yi, ok2 := exact(b)
	if !ok1 || !ok2 {
		return false
	}
	if xi != 0 || yi != 0 {
		return xi == yi
	}
	return x.Cmp(y) == 0
}

func tryAll[T validators.NumericOrdered](name string, vs []T) *Failure {
	for _, a := range vs {
		for _, b := range vs {
			if g, w := validators.IsLessThan(a, b), less(a, b); g != w {
				return &Failure{Input: fmt.Sprintf("IsLessThan[%s](%v, %v)", name, a, b), Detail: fmt.Sprintf("returns %v, expected %v", g, w)}
			}
			if g, w := validators.IsGreaterThan(a, b), less(b, a); g != w {
				return &Failure{Input: fmt.Sprintf("IsGreaterThan[%s](%v, %v)", name, a, b), Detail: fmt.Sprintf("returns %v, expected %v", g, w)}
			}
			for _, c := range vs {
				if g, w := validators.InExclusiveRange(a, b, c), less(b, a) && less(a, c); g != w {
					return &Failure{Input: fmt.Sprintf("InExclusiveRange[%s](%v, %v, %v)", name, a, b, c), Detail: fmt.Sprintf("returns %v, expected %v", g, w)}
				}
				if g, w := validators.InInclusiveRange(a, b, c), (less(b, a) || same(a, b)) && (less(a, c) || same(a, c)); g != w {
					return &Failure{Input: fmt.Sprintf("InInclusiveRange[%s](%v, %v, %v)", name, a, b, c), Detail: fmt.Sprintf("returns %v, expected %v", g, w)}
				}
			}
		}
	}
	return nil
}

func panics(f func()) (p bool) {
	defer func() { p = recover() != nil }()
	f()
	return
}

func ints[T validators.NumericOrdered](r *rand.Rand, lo, hi T, all []T) []T {
	return append([]T{lo, lo + 1, lo + 2, hi, hi - 1, hi - 2, 0, 1, 2, 3, 5, 7, 100, 127}, all...)
}

func directedC14(r *rand.Rand, deadline time.Time) *Failure {
	rs := func(n int) (out []int64) {
		for i := 0; i < n; i++ {
			out = append(out, int64(r.Uint64()>>uint(r.Intn(64))))
		}
		return
	}
	var fs []*Failure
	add := func(f *Failure) {
		if f != nil {
			fs = append(fs, f)
		}
	}
	conv := func(f func(int64)) {
		for _, x := range rs(24) {
			f(x)
		}
	}
	{
		var e []int8
		conv(func(x int64) { e = append(e, int8(x)) })
		add(tryAll("int8", ints(r, math.MinInt8, math.MaxInt8, e)))
	}
	{
		var e []int16
		conv(func(x int64) { e = append(e, int16(x), -int16(x)) })
		add(tryAll("int16", ints(r, math.MinInt16, math.MaxInt16, e)))
	}
	{
		var e []int32
		conv(func(x int64) { e = append(e, int32(x), -int32(x)) })
		add(tryAll("int32", ints(r, math.MinInt32, math.MaxInt32, e)))
	}
	{
		var e []int64
		conv(func(x int64) { e = append(e, x, -x) })
		e = append(e, 1<<53, 1<<53+1, 1<<53-1)
		add(tryAll("int64", ints(r, math.MinInt64, math.MaxInt64, e)))
	}
	{
		var e []int
		conv(func(x int64) { e = append(e, int(x), -int(x)) })
		e = append(e, 1<<53, 1<<53+1, 1<<53-1, 1<<24, 1<<24+1, 1<<32)
		add(tryAll("int", ints(r, math.MinInt, math.MaxInt, e)))
	}
	{
		var e []uint8
		conv(func(x int64) { e = append(e, uint8(x)) })
		add(tryAll("uint8", ints(r, 0, math.MaxUint8, e)))
	}
	{
		var e []uint16
		conv(func(x int64) { e = append(e, uint16(x)) })
		add(tryAll("uint16", ints(r, 0, math.MaxUint16, e)))
	}
	{
		var e []uint32
		conv(func(x int64) { e = append(e, uint32(x)) })
		add(tryAll("uint32", ints(r, 0, math.MaxUint32, e)))
	}
	{
		var e []uint64
		conv(func(x int64) { e = append(e, uint64(x)) })
		e = append(e, 1<<53, 1<<53+1, 1<<63, 1<<63-1)
		add(tryAll("uint64", ints(r, 0, math.MaxUint64, e)))
	}
	{
		var e []uint
		conv(func(x int64) { e = append(e, uint(x)) })
		e = append(e, 1<<53, 1<<53+1, 1<<63, 1<<63-1)
		add(tryAll("uint", ints(r, 0, math.MaxUint, e)))
	}
	nan, inf := math.NaN(), math.Inf(1)
	f64 := []float64{0, math.Copysign(0, -1), 1, -1, 1.5, -1.5, 0.1, 0.2, 0.30000000000000004, 0.3, 1e-300, 5e-324, math.MaxFloat64, -math.MaxFloat64, inf, -inf, nan, 1 << 53, 1<<53 + 2, 1e-9, 1 + 1e-12, 1 + 2.220446049250313e-16, 2, 3, 255, 256}
	for i := 0; i < 20; i++ {
		f64 = append(f64, math.Float64frombits(r.Uint64()), r.NormFloat64())
	}
	add(tryAll("float64", f64))
	var f32 []float32
	for _, x := range f64 {
		f32 = append(f32, float32(x))
	}
	add(tryAll("float32", f32))
	if len(fs) > 0 {
		return fs[0]
	}
	if panics(func() { validators.MustBool(true) }) {
		return &Failure{Input: "MustBool(true)", Detail: "panics"}
	}
	if !panics(func() { validators.MustBool(false) }) {
		return &Failure{Input: "MustBool(false)", Detail: "does not panic"}
	}
	if panics(func() { validators.MustNotErr(nil) }) {
		return &Failure{Input: "MustNotErr(nil)", Detail: "panics"}
	}
	var np *tErr
	for _, e := range []error{errors.New("x"), errors.New(""), fmt.Errorf("w: %w", errors.New("y")), tErr("z"), np} {
		if !panics(func() { validators.MustNotErr(e) }) {
			return &Failure{Input: fmt.Sprintf("MustNotErr(%T)", e), Detail: "does not panic"}
		}
	}
	return nil
}

type tErr string

func (e tErr) Error() string { return string(e) }

func init() { directed["C14"] = directedC14 }
