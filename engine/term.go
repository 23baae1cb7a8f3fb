package main

import (
	"fmt"
	"math"
	"math/big"
	"sort"
	"strings"
)

// Terms: hash-consed DAG of booleans and numbers. Numbers are mathematical
// (machine wrap-around is made explicit by the executor), kept in a linear
// normal form  c0 + sum ci*ai  over atoms ai.

type Sort uint8

const (
	SBool Sort = iota
	SInt
	SReal
)

type Op uint8

const (
	OTrue Op = iota
	OFalse
	OBVar
	ONot
	OAnd
	OOr
	OLe0 // args[0] <= 0
	OEq0 // args[0] == 0
	OVar
	OLin
	ODiv // floor(args[0]/k)
	OMod // args[0] - k*floor(args[0]/k)
	OIte
	OMul
	OFloor // floor of a real
)

type Term struct {
	id    int
	op    Op
	sort  Sort
	args  []*Term
	c0    *big.Rat
	coefs []*big.Rat
	k     *big.Int
	name  string

	lo, hi *big.Rat // interval, nil = unbounded

	// float bookkeeping (OVar/SReal only)
	exact  *Term   // ideal value this var rounds
	defs   []*Term // definitional constraints
	sinArg *Term
	fn     string
	input  bool
	size   int
}

var (
	termTab = map[string]*Term{}
	termSeq int
	ratZero = new(big.Rat)
	ratOne  = big.NewRat(1, 1)
	TTrue   = &Term{id: 0, op: OTrue, sort: SBool, size: 1}
	TFalse  = &Term{id: 1, op: OFalse, sort: SBool, size: 1}
)

func init() { termSeq = 2 }

func intern(key string, mk func() *Term) *Term {
	if t, ok := termTab[key]; ok {
		return t
	}
	t := mk()
	t.id = termSeq
	termSeq++
	s := 1
	for _, a := range t.args {
		s += a.size
		if s > 1<<30 {
			s = 1 << 30
		}
	}
	t.size = s
	termTab[key] = t
	return t
}

func rat(n int64) *big.Rat { return new(big.Rat).SetInt64(n) }

func IntC(n int64) *Term    { return mkLin(rat(n), nil, nil) }
func BigC(n *big.Int) *Term { return mkLin(new(big.Rat).SetInt(n), nil, nil) }
func RatC(r *big.Rat) *Term { return mkLin(r, nil, nil) }
func BoolC(b bool) *Term {
	if b {
		return TTrue
	}
	return TFalse
}
func FloatC(f float64) *Term {
	if math.IsNaN(f) || math.IsInf(f, 0) {
		panic(unsupported("non-finite float in a symbolic expression"))
	}
	return RatC(new(big.Rat).SetFloat64(f))
}

func (t *Term) isConst() bool {
	return t.op == OTrue || t.op == OFalse || (t.op == OLin && len(t.args) == 0)
}
func (t *Term) constRat() *big.Rat { return t.c0 }

func NewIntVar(name string, lo, hi *big.Rat) *Term {
	return intern("iv:"+name+":"+lo.RatString()+":"+hi.RatString(), func() *Term {
		return &Term{op: OVar, sort: SInt, name: name, lo: lo, hi: hi}
	})
}
func NewRealVar(name string, lo, hi *big.Rat) *Term {
	return intern("rv:"+name+":"+lo.RatString()+":"+hi.RatString(), func() *Term {
		return &Term{op: OVar, sort: SReal, name: name, lo: lo, hi: hi}
	})
}
func NewBoolVar(name string) *Term {
	return intern("bv:"+name, func() *Term {
		return &Term{op: OBVar, sort: SBool, name: name}
	})
}

// asLin views a numeric term as c0 + sum.
func linParts(t *Term) (*big.Rat, []*Term, []*big.Rat) {
	if t.op == OLin {
		return t.c0, t.args, t.coefs
	}
	return ratZero, []*Term{t}, []*big.Rat{ratOne}
}

func mkLin(c0 *big.Rat, atoms []*Term, coefs []*big.Rat) *Term {
	if len(atoms) == 1 && c0.Sign() == 0 && coefs[0].Cmp(ratOne) == 0 {
		return atoms[0]
	}
	var sb strings.Builder
	sb.WriteString("L")
	sb.WriteString(c0.RatString())
	isInt := c0.IsInt()
	for i, a := range atoms {
		fmt.Fprintf(&sb, "+%s*%d", coefs[i].RatString(), a.id)
		if a.sort != SInt || !coefs[i].IsInt() {
			isInt = false
		}
	}
	return intern(sb.String(), func() *Term {
		t := &Term{op: OLin, c0: c0, args: atoms, coefs: coefs, sort: SReal}
		if isInt {
			t.sort = SInt
		}
		t.lo, t.hi = linInterval(t, nil)
		return t
	})
}

func linInterval(t *Term, iv func(*Term) (*big.Rat, *big.Rat)) (lo, hi *big.Rat) {
	lo = new(big.Rat).Set(t.c0)
	hi = new(big.Rat).Set(t.c0)
	for i, a := range t.args {
		c := t.coefs[i]
		al, ah := a.lo, a.hi
		if iv != nil {
			al, ah = iv(a)
		}
		if c.Sign() < 0 {
			al, ah = ah, al
		}
		if lo != nil && al != nil {
			lo.Add(lo, new(big.Rat).Mul(c, al))
		} else {
			lo = nil
		}
		if hi != nil && ah != nil {
			hi.Add(hi, new(big.Rat).Mul(c, ah))
		} else {
			hi = nil
		}
	}
	return
}

// linBuild normalises: merges equal atoms, drops zero coefficients, folds
// u - k*Div(u,k) into Mod(u,k).
func linBuild(c0 *big.Rat, m map[*Term]*big.Rat) *Term {
	c0 = new(big.Rat).Set(c0)
	for tries := 0; tries < 8; tries++ {
		changed := false
		for a, c := range m {
			if a.op != ODiv || c.Sign() == 0 {
				continue
			}
			// c*Div(u,k): mult = -c/k ; need mult*u inside m
			mult := new(big.Rat).Quo(c, new(big.Rat).SetInt(a.k))
			mult.Neg(mult)
			uc0, ua, uc := linParts(a.args[0])
			ok := len(ua) > 0
			for i, x := range ua {
				want := new(big.Rat).Mul(mult, uc[i])
				have, in := m[x]
				if !in || have.Cmp(want) != 0 {
					ok = false
					break
				}
			}
			if !ok {
				continue
			}
			for _, x := range ua {
				delete(m, x)
			}
			delete(m, a)
			c0.Sub(c0, new(big.Rat).Mul(mult, uc0))
			mod := mkModAtom(a.args[0], a.k)
			addTo(m, mod, mult)
			changed = true
			break
		}
		if !changed {
			break
		}
	}
	atoms := make([]*Term, 0, len(m))
	for a, c := range m {
		if c.Sign() != 0 {
			atoms = append(atoms, a)
		}
	}
	sort.Slice(atoms, func(i, j int) bool { return atoms[i].id < atoms[j].id })
	coefs := make([]*big.Rat, len(atoms))
	for i, a := range atoms {
		coefs[i] = m[a]
	}
	return mkLin(c0, atoms, coefs)
}

func addTo(m map[*Term]*big.Rat, a *Term, c *big.Rat) {
	if o, ok := m[a]; ok {
		m[a] = new(big.Rat).Add(o, c)
	} else {
		m[a] = new(big.Rat).Set(c)
	}
}

func LinComb(ts []*Term, cs []*big.Rat) *Term {
	c0 := new(big.Rat)
	m := map[*Term]*big.Rat{}
	for i, t := range ts {
		tc, ta, tk := linParts(t)
		c0.Add(c0, new(big.Rat).Mul(tc, cs[i]))
		for j, a := range ta {
			addTo(m, a, new(big.Rat).Mul(tk[j], cs[i]))
		}
	}
	return linBuild(c0, m)
}

func Add(a, b *Term) *Term { return LinComb([]*Term{a, b}, []*big.Rat{ratOne, ratOne}) }
func Sub(a, b *Term) *Term {
	return LinComb([]*Term{a, b}, []*big.Rat{ratOne, rat(-1)})
}
func Scale(c *big.Rat, a *Term) *Term { return LinComb([]*Term{a}, []*big.Rat{c}) }
func ScaleI(c int64, a *Term) *Term   { return Scale(rat(c), a) }
func AddI(a *Term, n int64) *Term     { return Add(a, IntC(n)) }
func Neg(a *Term) *Term               { return ScaleI(-1, a) }

func Mul(a, b *Term) *Term {
	if a.isConst() {
		return Scale(a.c0, b)
	}
	if b.isConst() {
		return Scale(b.c0, a)
	}
	// small ite distributes
	if a.op == OIte && a.args[1].isConst() && a.args[2].isConst() {
		return Ite(a.args[0], Mul(a.args[1], b), Mul(a.args[2], b))
	}
	if b.op == OIte && b.args[1].isConst() && b.args[2].isConst() {
		return Mul(b, a)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return intern(fmt.Sprintf("M%d,%d", a.id, b.id), func() *Term {
		t := &Term{op: OMul, args: []*Term{a, b}, sort: SReal}
		if a.sort == SInt && b.sort == SInt {
			t.sort = SInt
		}
		if a.lo != nil && a.hi != nil && b.lo != nil && b.hi != nil {
			for _, x := range []*big.Rat{a.lo, a.hi} {
				for _, y := range []*big.Rat{b.lo, b.hi} {
					p := new(big.Rat).Mul(x, y)
					if t.lo == nil || p.Cmp(t.lo) < 0 {
						t.lo = p
					}
					if t.hi == nil || p.Cmp(t.hi) > 0 {
						t.hi = p
					}
				}
			}
		}
		return t
	})
}

func ratFloor(r *big.Rat) *big.Int {
	q := new(big.Int)
	m := new(big.Int)
	q.DivMod(r.Num(), r.Denom(), m) // Euclidean; denom>0 => floor
	return q
}

// reduceDiv: t = k*Q + u with u reduced; returns Q, u (u has coefs in [0,k)).
func reduceDiv(t *Term, k *big.Int) (q, u *Term, k2 *big.Int) {
	c0, atoms, coefs := linParts(t)
	kk := new(big.Rat).SetInt(k)
	split := func(c *big.Rat) (*big.Rat, *big.Rat) {
		f := new(big.Rat).SetInt(ratFloor(new(big.Rat).Quo(c, kk)))
		return f, new(big.Rat).Sub(c, new(big.Rat).Mul(f, kk))
	}
	qc, uc := split(c0)
	qm := map[*Term]*big.Rat{}
	um := map[*Term]*big.Rat{}
	for i, a := range atoms {
		f, r := split(coefs[i])
		if f.Sign() != 0 {
			addTo(qm, a, f)
		}
		if r.Sign() != 0 {
			addTo(um, a, r)
		}
	}
	// gcd reduction
	g := new(big.Int).Set(k)
	for _, c := range um {
		g.GCD(nil, nil, g, c.Num())
	}
	k2 = k
	if len(um) == 0 {
		g = k
	}
	if g.Cmp(big.NewInt(1)) > 0 {
		gr := new(big.Rat).SetInt(g)
		for a, c := range um {
			um[a] = new(big.Rat).Quo(c, gr)
		}
		uc = new(big.Rat).SetInt(ratFloor(new(big.Rat).Quo(uc, gr)))
		k2 = new(big.Int).Quo(k, g)
	}
	return linBuild(qc, qm), linBuild(uc, um), k2
}

func DivFloor(t *Term, k *big.Int) *Term {
	r := divFloor(t, k)
	if r.op != ODiv || r.args[0] != t {
		claimDef("rawD", ODiv, t, k, r)
	}
	return r
}

func divFloor(t *Term, k *big.Int) *Term {
	if k.Sign() <= 0 {
		panic("DivFloor: k<=0")
	}
	if t.sort != SInt {
		panic("DivFloor: non-int")
	}
	if k.Cmp(big.NewInt(1)) == 0 {
		return t
	}
	q, u, k2 := reduceDiv(t, k)
	if k2.Cmp(big.NewInt(1)) == 0 {
		return Add(q, u)
	}
	if u.isConst() {
		return Add(q, BigC(ratFloor(new(big.Rat).Quo(u.c0, new(big.Rat).SetInt(k2)))))
	}
	return Add(q, mkDivAtom(u, k2))
}

func divIv(u *Term, k *big.Int) (lo, hi *big.Rat) {
	kr := new(big.Rat).SetInt(k)
	if u.lo != nil {
		lo = new(big.Rat).SetInt(ratFloor(new(big.Rat).Quo(u.lo, kr)))
	}
	if u.hi != nil {
		hi = new(big.Rat).SetInt(ratFloor(new(big.Rat).Quo(u.hi, kr)))
	}
	return
}

func mkDivAtom(u *Term, k *big.Int) *Term {
	lo, hi := divIv(u, k)
	if lo != nil && hi != nil && lo.Cmp(hi) == 0 {
		return RatC(lo)
	}
	// floor(floor(x/a)/k) = floor(x/(a*k)) when u is a bare Div atom plus const
	if c0, at, cf := linParts(u); len(at) == 1 && at[0].op == ODiv && cf[0].Cmp(ratOne) == 0 {
		a := at[0]
		// (floor(x/a)+c)/k = floor((x + c*a)/(a*k))
		nx := Add(a.args[0], Scale(new(big.Rat).Mul(c0, new(big.Rat).SetInt(a.k)), IntC(1)))
		nk := new(big.Int).Mul(a.k, k)
		return DivFloor(nx, nk)
	}
	return intern(fmt.Sprintf("D%d/%s", u.id, k), func() *Term {
		return &Term{op: ODiv, sort: SInt, args: []*Term{u}, k: k, lo: lo, hi: hi}
	})
}

func mkModAtom(u *Term, k *big.Int) *Term {
	lo, hi := divIv(u, k)
	if lo != nil && hi != nil && lo.Cmp(hi) == 0 {
		return Sub(u, Scale(new(big.Rat).Mul(lo, new(big.Rat).SetInt(k)), IntC(1)))
	}
	return intern(fmt.Sprintf("R%d/%s", u.id, k), func() *Term {
		return &Term{op: OMod, sort: SInt, args: []*Term{u}, k: k, lo: rat(0), hi: new(big.Rat).Sub(new(big.Rat).SetInt(k), ratOne)}
	})
}

func ModFloor(t *Term, k *big.Int) *Term {
	r := modFloor(t, k)
	if r.op != OMod || r.args[0] != t {
		claimDef("rawR", OMod, t, k, r)
	}
	return r
}

func modFloor(t *Term, k *big.Int) *Term {
	if k.Cmp(big.NewInt(1)) == 0 {
		return IntC(0)
	}
	// (Mod(u,k*m)+c) mod k is Mod(u+c,k)
	c0, atoms, coefs := linParts(t)
	um := map[*Term]*big.Rat{}
	uc := new(big.Rat).Set(c0)
	kr := new(big.Rat).SetInt(k)
	red := func(c *big.Rat) *big.Rat {
		f := new(big.Rat).SetInt(ratFloor(new(big.Rat).Quo(c, kr)))
		return new(big.Rat).Sub(c, f.Mul(f, kr))
	}
	for i, a := range atoms {
		c := red(coefs[i])
		if c.Sign() == 0 {
			continue
		}
		if a.op == OMod {
			// c*a = c*u - c*ak*div : if c*ak divisible by k, replace by c*u
			p := new(big.Rat).Mul(c, new(big.Rat).SetInt(a.k))
			if new(big.Rat).Quo(p, kr).IsInt() {
				xc, xa, xk := linParts(a.args[0])
				uc.Add(uc, new(big.Rat).Mul(c, xc))
				for j, x := range xa {
					addTo(um, x, new(big.Rat).Mul(c, xk[j]))
				}
				continue
			}
		}
		addTo(um, a, c)
	}
	for a, c := range um {
		um[a] = red(c)
	}
	uc = red(uc)
	g := new(big.Int).Set(k)
	for _, c := range um {
		g.GCD(nil, nil, g, c.Num())
	}
	rest := new(big.Rat)
	k2 := k
	if len(um) == 0 {
		return RatC(uc)
	}
	gr := new(big.Rat).SetInt(g)
	if g.Cmp(big.NewInt(1)) > 0 {
		for a, c := range um {
			um[a] = new(big.Rat).Quo(c, gr)
		}
		f := new(big.Rat).SetInt(ratFloor(new(big.Rat).Quo(uc, gr)))
		rest.Sub(uc, new(big.Rat).Mul(f, gr))
		uc = f
		k2 = new(big.Int).Quo(k, g)
	}
	if k2.Cmp(big.NewInt(1)) == 0 {
		return RatC(rest)
	}
	u := linBuild(uc, um)
	if u.isConst() {
		q := new(big.Rat).SetInt(ratFloor(new(big.Rat).Quo(u.c0, new(big.Rat).SetInt(k2))))
		m := new(big.Rat).Sub(u.c0, q.Mul(q, new(big.Rat).SetInt(k2)))
		return RatC(m.Add(m.Mul(m, gr), rest))
	}
	return Add(Scale(gr, mkModAtom(u, k2)), RatC(rest))
}

func minR(a, b *big.Rat) *big.Rat {
	if a == nil || b == nil {
		return nil
	}
	if a.Cmp(b) < 0 {
		return a
	}
	return b
}
func maxR(a, b *big.Rat) *big.Rat {
	if a == nil || b == nil {
		return nil
	}
	if a.Cmp(b) > 0 {
		return a
	}
	return b
}

func Ite(c, a, b *Term) *Term {
	if c == TTrue {
		return a
	}
	if c == TFalse {
		return b
	}
	if a == b {
		return a
	}
	if a.sort == SBool {
		return Or(And(c, a), And(Not(c), b))
	}
	if c.op == ONot {
		return Ite(c.args[0], b, a)
	}
	if b.op == OIte && b.args[0] == c {
		b = b.args[2]
	}
	if a.op == OIte && a.args[0] == c {
		a = a.args[1]
	}
	if a == b {
		return a
	}
	// factor the common linear part: ite(c, x+s, x+t)
	if !a.isConst() && !b.isConst() && a.op != OIte && b.op != OIte {
		d := Sub(a, b)
		if d.isConst() {
			r := Add(b, Ite(c, d, IntC(0)))
			claimIte(c, a, b, r)
			return r
		}
	}
	return intern(fmt.Sprintf("I%d,%d,%d", c.id, a.id, b.id), func() *Term {
		t := &Term{op: OIte, args: []*Term{c, a, b}, sort: SReal}
		if a.sort == SInt && b.sort == SInt {
			t.sort = SInt
		}
		t.lo, t.hi = minR(a.lo, b.lo), maxR(a.hi, b.hi)
		return t
	})
}

func Not(a *Term) *Term {
	switch a.op {
	case OTrue:
		return TFalse
	case OFalse:
		return TTrue
	case ONot:
		return a.args[0]
	case OLe0:
		if a.args[0].sort == SInt { // t<=0  ->  t>=1 -> 1-t<=0
			return Le0(Sub(IntC(1), a.args[0]))
		}
	}
	return intern(fmt.Sprintf("!%d", a.id), func() *Term {
		return &Term{op: ONot, args: []*Term{a}, sort: SBool}
	})
}

func nary(op Op, xs []*Term) *Term {
	unit, zero := TTrue, TFalse
	pre := "&"
	if op == OOr {
		unit, zero = TFalse, TTrue
		pre = "|"
	}
	set := map[*Term]bool{}
	var out []*Term
	var add func(x *Term) bool
	add = func(x *Term) bool {
		if x == unit || set[x] {
			return true
		}
		if x == zero {
			return false
		}
		if x.op == op {
			for _, y := range x.args {
				if !add(y) {
					return false
				}
			}
			return true
		}
		if set[Not(x)] {
			return false
		}
		set[x] = true
		out = append(out, x)
		return true
	}
	for _, x := range xs {
		if !add(x) {
			return zero
		}
	}
	// absorption for the dual nested op: a & (a|b) -> a ; a & (!a | b) -> a & b
	dual := OOr
	if op == OOr {
		dual = OAnd
	}
	changed := false
	for i, x := range out {
		if x.op != dual {
			continue
		}
		var keep []*Term
		drop := false
		for _, y := range x.args {
			if set[y] {
				drop = true
				break
			}
			if set[Not(y)] {
				continue
			}
			keep = append(keep, y)
		}
		if drop {
			out[i] = unit
			changed = true
		} else if len(keep) != len(x.args) {
			out[i] = nary(dual, keep)
			changed = true
		}
	}
	if changed {
		return nary(op, out)
	}
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	var sb strings.Builder
	sb.WriteString(pre)
	for _, x := range out {
		fmt.Fprintf(&sb, "%d,", x.id)
	}
	return intern(sb.String(), func() *Term {
		return &Term{op: op, args: out, sort: SBool}
	})
}

func And(xs ...*Term) *Term { return nary(OAnd, xs) }

// Or factors common conjuncts, so that re-joined branches collapse.
func Or(xs ...*Term) *Term {
	if len(xs) == 2 {
		a, b := xs[0], xs[1]
		if a.op == OAnd || b.op == OAnd {
			as, bs := conj(a), conj(b)
			in := map[*Term]bool{}
			for _, x := range bs {
				in[x] = true
			}
			var common, ra []*Term
			cs := map[*Term]bool{}
			for _, x := range as {
				if in[x] {
					common = append(common, x)
					cs[x] = true
				} else {
					ra = append(ra, x)
				}
			}
			if len(common) > 0 {
				var rb []*Term
				for _, x := range bs {
					if !cs[x] {
						rb = append(rb, x)
					}
				}
				return And(append(common, nary(OOr, []*Term{And(ra...), And(rb...)}))...)
			}
		}
	}
	return nary(OOr, xs)
}

func conj(t *Term) []*Term {
	if t.op == OAnd {
		return t.args
	}
	return []*Term{t}
}

// primitive scales a linear term by a positive rational so that integer
// coefficients are coprime.
func primitive(t *Term) *Term {
	c0, atoms, coefs := linParts(t)
	if len(atoms) == 0 {
		return t
	}
	l := big.NewInt(1)
	for _, c := range coefs {
		d := c.Denom()
		g := new(big.Int).GCD(nil, nil, l, d)
		l = new(big.Int).Mul(l, new(big.Int).Quo(d, g))
	}
	g := new(big.Int)
	lr := new(big.Rat).SetInt(l)
	for _, c := range coefs {
		n := new(big.Rat).Mul(c, lr)
		g.GCD(nil, nil, g, new(big.Int).Abs(n.Num()))
	}
	f := new(big.Rat).Quo(lr, new(big.Rat).SetInt(g))
	if f.Cmp(ratOne) == 0 {
		return t
	}
	nc := make([]*big.Rat, len(coefs))
	for i, c := range coefs {
		nc[i] = new(big.Rat).Mul(c, f)
	}
	return mkLin(new(big.Rat).Mul(c0, f), atoms, nc)
}

func allInt(atoms []*Term) bool {
	for _, a := range atoms {
		if a.sort != SInt {
			return false
		}
	}
	return true
}

// iteLift: t = c0 + c*ite(...) with a single ite atom over cheap leaves.
func singleIte(t *Term) (*Term, bool) {
	_, atoms, _ := linParts(t)
	if len(atoms) == 1 && atoms[0].op == OIte {
		return atoms[0], true
	}
	return nil, false
}

func iteLeavesConst(t *Term, budget *int) bool {
	*budget--
	if *budget < 0 {
		return false
	}
	if t.isConst() {
		return true
	}
	if t.op == OIte {
		return iteLeavesConst(t.args[1], budget) && iteLeavesConst(t.args[2], budget)
	}
	return false
}

func Le0(t *Term) *Term {
	if t.hi != nil && t.hi.Sign() <= 0 {
		claimFold('<', t, true)
		return TTrue
	}
	if t.lo != nil && t.lo.Sign() > 0 {
		claimFold('<', t, false)
		return TFalse
	}
	t = primitive(t)
	c0, atoms, coefs := linParts(t)
	if allInt(atoms) && !c0.IsInt() {
		// sum + c0 <= 0  <=> sum <= floor(-c0)
		f := new(big.Rat).SetInt(ratFloor(new(big.Rat).Neg(c0)))
		return Le0(mkLin(f.Neg(f), atoms, coefs))
	}
	if ite, ok := singleIte(t); ok {
		b := 64
		if iteLeavesConst(ite, &b) {
			x := LinComb([]*Term{IntC(1), ite.args[1]}, []*big.Rat{c0, coefs[0]})
			y := LinComb([]*Term{IntC(1), ite.args[2]}, []*big.Rat{c0, coefs[0]})
			r := Or(And(ite.args[0], Le0(x)), And(Not(ite.args[0]), Le0(y)))
			claimSame(rawLe0(t), r)
			return r
		}
	}
	return intern(fmt.Sprintf("<=%d", t.id), func() *Term {
		return &Term{op: OLe0, args: []*Term{t}, sort: SBool}
	})
}

func Eq0(t *Term) *Term {
	if t.isConst() {
		return BoolC(t.c0.Sign() == 0)
	}
	if (t.hi != nil && t.hi.Sign() < 0) || (t.lo != nil && t.lo.Sign() > 0) {
		claimFold('=', t, false)
		return TFalse
	}
	t = primitive(t)
	c0, atoms, coefs := linParts(t)
	if allInt(atoms) && !c0.IsInt() {
		return TFalse
	}
	if coefs[0].Sign() < 0 {
		return Eq0(Neg(t))
	}
	if ite, ok := singleIte(t); ok {
		b := 64
		if iteLeavesConst(ite, &b) {
			x := LinComb([]*Term{IntC(1), ite.args[1]}, []*big.Rat{c0, coefs[0]})
			y := LinComb([]*Term{IntC(1), ite.args[2]}, []*big.Rat{c0, coefs[0]})
			r := Or(And(ite.args[0], Eq0(x)), And(Not(ite.args[0]), Eq0(y)))
			claimSame(rawEq0(t), r)
			return r
		}
	}
	return intern(fmt.Sprintf("=%d", t.id), func() *Term {
		return &Term{op: OEq0, args: []*Term{t}, sort: SBool}
	})
}

func Le(a, b *Term) *Term { return Le0(Sub(a, b)) }
func Lt(a, b *Term) *Term {
	d := Sub(a, b)
	if d.sort == SInt {
		return Le0(AddI(d, 1))
	}
	return Not(Le0(Neg(d)))
}
func Ge(a, b *Term) *Term { return Le(b, a) }
func Gt(a, b *Term) *Term { return Lt(b, a) }
func Eq(a, b *Term) *Term {
	if a.sort == SBool {
		if a == b {
			return TTrue
		}
		return Or(And(a, b), And(Not(a), Not(b)))
	}
	return Eq0(Sub(a, b))
}
func Ne(a, b *Term) *Term { return Not(Eq(a, b)) }

// ---------------------------------------------------------------- evaluation

type Model map[string]*big.Rat // booleans as 0/1

// evalTerm evaluates under a model (missing vars = lo or 0).
func evalTerm(t *Term, m Model, memo map[*Term]*big.Rat) *big.Rat {
	if r, ok := memo[t]; ok {
		return r
	}
	b2r := func(b bool) *big.Rat {
		if b {
			return ratOne
		}
		return ratZero
	}
	var r *big.Rat
	switch t.op {
	case OTrue:
		r = ratOne
	case OFalse:
		r = ratZero
	case OBVar, OVar:
		if v, ok := m[t.name]; ok {
			r = v
		} else if t.lo != nil {
			r = t.lo
		} else {
			r = ratZero
		}
	case ONot:
		r = b2r(evalTerm(t.args[0], m, memo).Sign() == 0)
	case OAnd:
		r = ratOne
		for _, a := range t.args {
			if evalTerm(a, m, memo).Sign() == 0 {
				r = ratZero
				break
			}
		}
	case OOr:
		r = ratZero
		for _, a := range t.args {
			if evalTerm(a, m, memo).Sign() != 0 {
				r = ratOne
				break
			}
		}
	case OLe0:
		r = b2r(evalTerm(t.args[0], m, memo).Sign() <= 0)
	case OEq0:
		r = b2r(evalTerm(t.args[0], m, memo).Sign() == 0)
	case OLin:
		r = new(big.Rat).Set(t.c0)
		for i, a := range t.args {
			r.Add(r, new(big.Rat).Mul(t.coefs[i], evalTerm(a, m, memo)))
		}
	case ODiv:
		r = new(big.Rat).SetInt(ratFloor(new(big.Rat).Quo(evalTerm(t.args[0], m, memo), new(big.Rat).SetInt(t.k))))
	case OMod:
		x := evalTerm(t.args[0], m, memo)
		kr := new(big.Rat).SetInt(t.k)
		q := new(big.Rat).SetInt(ratFloor(new(big.Rat).Quo(x, kr)))
		r = new(big.Rat).Sub(x, q.Mul(q, kr))
	case OFloor:
		r = new(big.Rat).SetInt(ratFloor(evalTerm(t.args[0], m, memo)))
	case OIte:
		if evalTerm(t.args[0], m, memo).Sign() != 0 {
			r = evalTerm(t.args[1], m, memo)
		} else {
			r = evalTerm(t.args[2], m, memo)
		}
	case OMul:
		r = new(big.Rat).Mul(evalTerm(t.args[0], m, memo), evalTerm(t.args[1], m, memo))
	}
	memo[t] = r
	return r
}

// substTerm replaces variables by terms, rebuilding (and so re-simplifying).
func substTerm(t *Term, sub map[*Term]*Term, memo map[*Term]*Term) *Term {
	if t.isConst() {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	if r, ok := sub[t]; ok {
		memo[t] = r
		return r
	}
	var r *Term
	switch t.op {
	case OBVar:
		r = t
	case OVar:
		r = substVar(t, sub, memo)
	case ONot:
		r = Not(substTerm(t.args[0], sub, memo))
	case OAnd, OOr:
		xs := make([]*Term, len(t.args))
		same := true
		for i, a := range t.args {
			xs[i] = substTerm(a, sub, memo)
			same = same && xs[i] == a
		}
		if same {
			r = t
		} else {
			r = nary(t.op, xs)
		}
	case OLe0:
		r = Le0(substTerm(t.args[0], sub, memo))
	case OEq0:
		r = Eq0(substTerm(t.args[0], sub, memo))
	case OLin:
		xs := []*Term{RatC(t.c0)}
		cs := []*big.Rat{ratOne}
		same := true
		for i, a := range t.args {
			x := substTerm(a, sub, memo)
			same = same && x == a
			xs = append(xs, x)
			cs = append(cs, t.coefs[i])
		}
		if same {
			r = t
		} else {
			r = LinComb(xs, cs)
		}
	case ODiv:
		r = DivFloor(substTerm(t.args[0], sub, memo), t.k)
	case OMod:
		r = ModFloor(substTerm(t.args[0], sub, memo), t.k)
	case OFloor:
		r = FloorT(substTerm(t.args[0], sub, memo))
	case OIte:
		r = Ite(substTerm(t.args[0], sub, memo), substTerm(t.args[1], sub, memo), substTerm(t.args[2], sub, memo))
	case OMul:
		r = Mul(substTerm(t.args[0], sub, memo), substTerm(t.args[1], sub, memo))
	}
	memo[t] = r
	return r
}

// FloorT: floor of a numeric term as an Int term.
func FloorT(t *Term) *Term {
	if t.sort == SInt {
		return t
	}
	r := floorT(t)
	if r.op != OFloor || r.args[0] != t {
		claimDef("rawF", OFloor, t, nil, r)
	}
	return r
}

func floorT(t *Term) *Term {
	if t.isConst() {
		return BigC(ratFloor(t.c0))
	}
	c0, atoms, coefs := linParts(t)
	// split off integer-valued part
	ip := []*Term{}
	ic := []*big.Rat{}
	m := map[*Term]*big.Rat{}
	for i, a := range atoms {
		if a.sort == SInt && coefs[i].IsInt() {
			ip = append(ip, a)
			ic = append(ic, coefs[i])
		} else {
			m[a] = coefs[i]
		}
	}
	f := new(big.Rat).SetInt(ratFloor(c0))
	ip = append(ip, IntC(1))
	ic = append(ic, f)
	rest := linBuild(new(big.Rat).Sub(c0, f), m)
	base := LinComb(ip, ic)
	if rest.isConst() {
		return Add(base, BigC(ratFloor(rest.c0)))
	}
	_, ra, rc := linParts(rest)
	if allInt(ra) { // N/D
		l := big.NewInt(1)
		for _, c := range append([]*big.Rat{rest.c0n()}, rc...) {
			d := c.Denom()
			g := new(big.Int).GCD(nil, nil, l, d)
			l = new(big.Int).Mul(l, new(big.Int).Quo(d, g))
		}
		return Add(base, DivFloor(Scale(new(big.Rat).SetInt(l), rest), l))
	}
	var lo, hi *big.Rat
	if rest.lo != nil {
		lo = new(big.Rat).SetInt(ratFloor(rest.lo))
	}
	if rest.hi != nil {
		hi = new(big.Rat).SetInt(ratFloor(rest.hi))
	}
	if lo != nil && hi != nil && lo.Cmp(hi) == 0 {
		return Add(base, RatC(lo))
	}
	return Add(base, intern(fmt.Sprintf("F%d", rest.id), func() *Term {
		return &Term{op: OFloor, sort: SInt, args: []*Term{rest}, lo: lo, hi: hi}
	}))
}

func (t *Term) c0n() *big.Rat {
	if t.op == OLin {
		return t.c0
	}
	return ratZero
}
