package main

import (
	"fmt"
	"math"
	"math/big"
)

// Floats. A symbolic float64 is a real-sorted term whose value is exactly the
// real number the float64 holds. An operation whose ideal result is `exact`
// yields a fresh real variable r with
//     |r - exact| <= half an ulp at the largest magnitude exact can have, and
//     floor(exact) <= r <= ceil(exact)   (rounding is monotone and fixes integers)
// which over-approximates round-to-nearest-even; identical operations on
// identical operands share one r. Ideal results that are integers below 2^53
// are exact. NaN, infinities and subnormals are outside the model: operands
// must have finite intervals.

var two53 = new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(1), 53))
var fmemo = map[string]*Term{}

type unsupportedErr struct{ msg string }

func unsupported(f string, a ...any) unsupportedErr { return unsupportedErr{fmt.Sprintf(f, a...)} }

func termMag(t *Term) *big.Rat {
	if t.lo == nil || t.hi == nil {
		return nil
	}
	x := new(big.Rat).Abs(t.lo)
	y := new(big.Rat).Abs(t.hi)
	if x.Cmp(y) > 0 {
		return x
	}
	return y
}

var two24 = big.NewRat(1<<24, 1)

// halfUlp32: the same for float32; the subnormal range counts as its edge.
func halfUlp32(m *big.Rat) *big.Rat {
	f, _ := m.Float64()
	_, e := math.Frexp(f)
	if f == 0 || e < -125 {
		e = -125
	}
	return new(big.Rat).SetFloat64(math.Ldexp(1, e-1-24))
}

// fround32 narrows a float64 value to float32.
func fround32(exact *Term) *Term {
	if exact.isConst() {
		f, _ := exact.c0.Float64()
		return FloatC(float64(float32(f)))
	}
	m := termMag(exact)
	if m == nil {
		panic(unsupported("float32 of unbounded magnitude"))
	}
	if exact.sort == SInt && m.Cmp(two24) <= 0 {
		return exact
	}
	if m.Cmp(new(big.Rat).SetFloat64(1e38)) > 0 {
		panic(unsupported("float32 overflow"))
	}
	if c0, atoms, coefs := linParts(exact); len(atoms) == 1 && c0.Sign() == 0 && isFloatVar(atoms[0]) && atoms[0].fn == "f32" && coefs[0].Cmp(ratOne) == 0 {
		return exact
	}
	if exact.op == OIte {
		return Ite(exact.args[0], fround32(exact.args[1]), fround32(exact.args[2]))
	}
	if n, D, ok := ndOf(exact); ok && isPow2(new(big.Rat).SetInt(D)) && D.BitLen() < 100 {
		if nm := termMag(n); nm != nil && nm.Cmp(two24) <= 0 {
			return exact
		}
	}
	key := fmt.Sprintf("s%d", exact.id)
	if r, ok := fmemo[key]; ok {
		return r
	}
	eps := halfUlp32(m)
	f32 := func(r *big.Rat) *big.Rat {
		f, _ := r.Float64()
		return new(big.Rat).SetFloat64(float64(float32(f)))
	}
	r := NewRealVar(fmt.Sprintf("f32!%d", exact.id), f32(exact.lo), f32(exact.hi))
	r.exact = exact
	r.fn = "f32"
	d := Sub(r, exact)
	r.defs = append(r.defs, Le(d, RatC(eps)), Le(Neg(d), RatC(eps)))
	if m.Cmp(two24) < 0 {
		if n, D, ok := ndOf(exact); ok {
			r.defs = append(r.defs, Le(DivFloor(n, D), r), Le(r, Neg(DivFloor(Neg(n), D))))
		}
		addIdeal(r, exact, eps)
	}
	fmemo[key] = r
	return r
}

// halfUlp: half the spacing of float64 at magnitude m.
func halfUlp(m *big.Rat) *big.Rat {
	f, _ := m.Float64()
	if f == 0 {
		return new(big.Rat).SetFloat64(math.Ldexp(1, -1074))
	}
	_, e := math.Frexp(f) // m in [2^(e-1), 2^e)
	// guard: Float64 may have rounded up to a power of two; harmless
	return new(big.Rat).SetFloat64(math.Ldexp(1, e-1-53))
}

func roundConst(r *big.Rat) *Term {
	f, _ := r.Float64()
	return FloatC(f)
}

// ndOf returns N, D with t = N/D, N an integer term, when t is over integer atoms only.
func ndOf(t *Term) (*Term, *big.Int, bool) {
	c0, atoms, coefs := linParts(t)
	if !allInt(atoms) {
		return nil, nil, false
	}
	l := new(big.Int).Set(c0.Denom())
	for _, c := range coefs {
		d := c.Denom()
		g := new(big.Int).GCD(nil, nil, l, d)
		l = new(big.Int).Mul(l, new(big.Int).Quo(d, g))
	}
	return Scale(new(big.Rat).SetInt(l), t), l, true
}

// ideal is what a float variable stands for without rounding: N/D over integer
// atoms, with |r - N/D| <= err; intExact says r = N/D whenever N/D is an integer.
type ideal struct {
	N        *Term
	D        *big.Int
	err      *big.Rat
	intExact bool
	ex       *Term // a condition under which r = N/D
}

var ideals = map[*Term]*ideal{}

// idealOf composes the ideal of an unrounded expression.
func idealOf(t *Term) *ideal {
	if t.sort == SInt {
		return &ideal{N: t, D: big.NewInt(1), err: ratZero, intExact: true, ex: TTrue}
	}
	if r, ok := ideals[t]; ok {
		return r
	}
	c0, atoms, coefs := linParts(t)
	sum := RatC(c0)
	err := new(big.Rat)
	floats, plain := 0, c0.IsInt()
	for _, a := range atoms {
		if a.sort != SInt {
			floats++
		}
	}
	exact := true
	ex := TTrue
	for i, a := range atoms {
		if a.sort == SInt {
			sum = Add(sum, Scale(coefs[i], a))
			plain = plain && coefs[i].IsInt()
			continue
		}
		in, ok := ideals[a]
		if !ok {
			return nil
		}
		sum = Add(sum, Scale(new(big.Rat).Quo(coefs[i], new(big.Rat).SetInt(in.D)), in.N))
		err.Add(err, new(big.Rat).Mul(new(big.Rat).Abs(coefs[i]), in.err))
		g := new(big.Int).GCD(nil, nil, new(big.Int).Abs(coefs[i].Num()), in.D)
		ex = And(ex, in.ex)
		exact = exact && in.intExact && g.Cmp(big.NewInt(1)) == 0
	}
	n, D, ok := ndOf(sum)
	if !ok {
		return nil
	}
	if floats > 0 {
		exact = exact && floats == 1 && plain
	}
	return &ideal{N: n, D: D, err: err, intExact: exact, ex: ex}
}

// decides: the rounded value lies strictly on the ideal's side of every
// integer the ideal does not touch.
func (i *ideal) decides() bool {
	return i.err.Cmp(new(big.Rat).SetFrac(big.NewInt(1), i.D)) < 0
}

// snapped: r is an integer known by its ideal.
func addIdeal(r, exact *Term, eps *big.Rat) {
	in := idealOf(exact)
	if in == nil {
		return
	}
	m := termMag(r)
	if m == nil || m.Cmp(two53) >= 0 {
		return
	}
	out := &ideal{N: in.N, D: in.D, err: new(big.Rat).Add(in.err, eps), intExact: in.intExact, ex: And(in.ex, Eq(ModFloor(in.N, in.D), IntC(0)))}
	ideals[r] = out
	if !isFloatVar(exact) && in.err.Sign() > 0 {
		q := Scale(new(big.Rat).SetFrac(big.NewInt(1), in.D), in.N)
		d := Sub(r, q)
		r.defs = append(r.defs, Le(d, RatC(out.err)), Le(Neg(d), RatC(out.err)))
	}
	if out.intExact && out.decides() && in.err.Sign() > 0 {
		r.defs = append(r.defs, Le(DivFloor(in.N, in.D), r), Le(r, Neg(DivFloor(Neg(in.N), in.D))))
	}
}

func isFloatVar(t *Term) bool { return t.op == OVar && t.sort == SReal }

// fround rounds the ideal value `exact` to a float64 term.
func fround(exact *Term) *Term {
	if exact.isConst() {
		return roundConst(exact.c0)
	}
	m := termMag(exact)
	if m == nil {
		panic(unsupported("float of unbounded magnitude"))
	}
	if exact.sort == SInt && m.Cmp(two53) <= 0 {
		return exact
	}
	// already a float64 (possibly negated or scaled by a power of two)
	if c0, atoms, coefs := linParts(exact); len(atoms) == 1 && c0.Sign() == 0 && isFloatVar(atoms[0]) && isPow2(coefs[0]) {
		return exact
	}
	if exact.op == OIte {
		return Ite(exact.args[0], fround(exact.args[1]), fround(exact.args[2]))
	}
	// a dyadic fraction that needs no more than 53 bits
	if n, D, ok := ndOf(exact); ok && isPow2(new(big.Rat).SetInt(D)) && D.BitLen() < 900 {
		if nm := termMag(n); nm != nil && nm.Cmp(two53) <= 0 {
			return exact
		}
	}
	key := fmt.Sprintf("r%d", exact.id)
	if r, ok := fmemo[key]; ok {
		return r
	}
	eps := halfUlp(m)
	lo := new(big.Rat).Sub(exact.lo, eps)
	hi := new(big.Rat).Add(exact.hi, eps)
	// monotone rounding: the bounds themselves round
	if f, _ := exact.lo.Float64(); !math.IsInf(f, 0) {
		lo = maxR(lo, new(big.Rat).SetFloat64(f))
	}
	if f, _ := exact.hi.Float64(); !math.IsInf(f, 0) {
		hi = minR(hi, new(big.Rat).SetFloat64(f))
	}
	r := NewRealVar(fmt.Sprintf("flt!%d", exact.id), lo, hi)
	r.exact = exact
	d := Sub(r, exact)
	r.defs = append(r.defs, Le(d, RatC(eps)), Le(Neg(d), RatC(eps)))
	if n, D, ok := ndOf(exact); ok && m.Cmp(two53) < 0 {
		fl := DivFloor(n, D)
		ce := Neg(DivFloor(Neg(n), D))
		r.defs = append(r.defs, Le(fl, r), Le(r, ce))
	}
	addIdeal(r, exact, eps)
	fmemo[key] = r
	return r
}

func isPow2(c *big.Rat) bool {
	c = new(big.Rat).Abs(c)
	n, d := c.Num(), c.Denom()
	p := func(x *big.Int) bool {
		return x.Sign() > 0 && new(big.Int).And(x, new(big.Int).Sub(x, big.NewInt(1))).Sign() == 0
	}
	return p(n) && p(d) && n.BitLen() < 200 && d.BitLen() < 200
}

// ffloor: math.Floor as an integer term.
func ffloor(t *Term) *Term {
	if t.sort == SInt {
		return t
	}
	if t.op == OIte {
		return Ite(t.args[0], ffloor(t.args[1]), ffloor(t.args[2]))
	}
	if t.isConst() {
		return BigC(ratFloor(t.c0))
	}
	if in := idealOf(t); in != nil && in.decides() {
		base := DivFloor(in.N, in.D)
		if in.intExact || in.err.Sign() == 0 {
			return base
		}
		// an ideal that is an integer may have been rounded below it
		key := fmt.Sprintf("fl%d", t.id)
		if r, ok := fmemo[key]; ok {
			return Sub(base, r)
		}
		may := And(Eq(ModFloor(in.N, in.D), IntC(0)), Not(in.ex))
		if may == TFalse {
			return base
		}
		bit := NewIntVar(fmt.Sprintf("below!%d", t.id), rat(0), rat(1))
		bit.defs = append(bit.defs, Le(bit, Ite(may, IntC(1), IntC(0))))
		f := Sub(base, bit)
		bit.defs = append(bit.defs, Le(f, t), Lt(t, Add(f, IntC(1))))
		bitOf[bit] = [2]*Term{t, base}
		fmemo[key] = bit
		return f
	}
	return FloorT(t)
}

func ftrunc(t *Term) *Term {
	if t.sort == SInt {
		return t
	}
	if t.lo != nil && t.lo.Sign() >= 0 {
		return ffloor(t)
	}
	if t.hi != nil && t.hi.Sign() <= 0 {
		return Neg(ffloor(Neg(t)))
	}
	return Ite(Ge(t, IntC(0)), ffloor(t), Neg(ffloor(Neg(t))))
}

func fsub(a, b *Term) *Term {
	exact := Sub(a, b)
	// x - floor(x) is exact for x >= 0, and lies in [0,1)
	if isFloatVar(a) && a.lo != nil && a.lo.Sign() >= 0 && b.sort == SInt && b == ffloor(a) {
		key := fmt.Sprintf("frac%d", a.id)
		if r, ok := fmemo[key]; ok {
			return r
		}
		top := new(big.Rat).Sub(ratOne, new(big.Rat).SetFrac(big.NewInt(1), new(big.Int).Lsh(big.NewInt(1), 53)))
		r := NewRealVar(fmt.Sprintf("frac!%d", a.id), rat(0), top)
		r.exact = exact
		r.defs = append(r.defs, Eq(r, exact))
		if in := idealOf(exact); in != nil {
			ideals[r] = in
		}
		fmemo[key] = r
		return r
	}
	return fround(exact)
}

func fadd(a, b *Term) *Term { return fround(Add(a, b)) }
func fmul(a, b *Term) *Term { return fround(Mul(a, b)) }
func fdiv(a, b *Term) *Term {
	if !b.isConst() {
		panic(unsupported("float division by a symbolic value"))
	}
	if b.c0.Sign() == 0 {
		panic(unsupported("float division by zero"))
	}
	return fround(Scale(new(big.Rat).Inv(b.c0), a))
}

func ftrig(fn string, t *Term) *Term {
	key := fmt.Sprintf("%s%d", fn, t.id)
	if r, ok := fmemo[key]; ok {
		return r
	}
	r := NewRealVar(fmt.Sprintf("%s!%d", fn, t.id), rat(-1), rat(1))
	r.sinArg = t
	r.fn = fn
	fmemo[key] = r
	return r
}

var bitOf = map[*Term][2]*Term{}

// substVar rebuilds a derived variable after substitution in what defines it.
func substVar(t *Term, sub, memo map[*Term]*Term) *Term {
	if b, ok := bitOf[t]; ok {
		x := substTerm(b[0], sub, memo)
		if x == b[0] {
			return t
		}
		return Sub(substTerm(b[1], sub, memo), ffloor(x))
	}
	if t.sinArg != nil {
		x := substTerm(t.sinArg, sub, memo)
		if x == t.sinArg {
			return t
		}
		if x.isConst() {
			return FloatC(trigAt(t.fn, x.c0))
		}
		return ftrig(t.fn, x)
	}
	if t.exact != nil {
		x := substTerm(t.exact, sub, memo)
		if x == t.exact {
			return t
		}
		if t.fn == "f32" {
			return fround32(x)
		}
		return fround(x)
	}
	return t
}

func trigAt(fn string, x *big.Rat) float64 {
	f, _ := x.Float64()
	if fn == "cos" {
		return math.Cos(f)
	}
	return math.Sin(f)
}

// refineTrig adds enclosures of the trigonometric results around one point:
// the tangent with the second-order error bound, near it, and Lipschitz.
func refineTrig(f *Term, in map[*Term]*Term) int {
	n := 0
	memo := map[*Term]*Term{}
	for _, s := range newClosure([]*Term{f}).sins {
		x := substTerm(s.sinArg, in, memo)
		if !x.isConst() || len(s.defs) > 60 {
			continue
		}
		v := trigAt(s.fn, x.c0)
		dv := math.Cos
		if s.fn == "cos" {
			dv = func(a float64) float64 { return -math.Sin(a) }
		}
		xf, _ := x.c0.Float64()
		slope := new(big.Rat).SetFloat64(dv(xf))
		val := new(big.Rat).SetFloat64(v)
		tol := new(big.Rat).SetFrac64(1, 1<<45)
		d := Sub(s.sinArg, x)
		ad := AbsT(d)
		s.defs = append(s.defs, Le(AbsT(Sub(s, RatC(val))), Add(ad, RatC(tol))))
		for _, h := range []*big.Rat{big.NewRat(1, 8), big.NewRat(1, 64)} {
			e := new(big.Rat).Mul(h, h)
			e.Quo(e, rat(2))
			e.Add(e, tol)
			lin := Add(RatC(val), Scale(slope, d))
			s.defs = append(s.defs, Or(Not(Le(ad, RatC(h))), Le(AbsT(Sub(s, lin)), RatC(e))))
		}
		n++
	}
	return n
}
