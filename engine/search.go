package main

import (
	"math"
	"math/big"
	"math/rand"
	"time"
)

// Model search by evaluation. When the solvers neither prove nor refute a
// formula, candidate models are looked for by evaluating it, with derived
// float variables taking the value the machine would give them. A candidate
// only ever leads to a replay against the compiled code: it can refute an
// obligation, never discharge one.

type ev struct {
	op   Op
	kind uint8 // 0 plain, 1 input, 2 round64, 3 round32, 4 sin, 5 cos, 6 below-bit
	a    []int
	c    []float64
	c0   float64
	den  float64 // integer linear forms are divided by den at the end
	k    float64
	isI  bool
}

type evalProg struct {
	code  []ev
	ins   []*Term
	slots map[*Term]int
	roots []int
	vals  []float64
}

func compileEval(f *Term, limit int) *evalProg {
	p := &evalProg{slots: map[*Term]int{}}
	ok := true
	var comp func(t *Term) int
	comp = func(t *Term) int {
		if s, have := p.slots[t]; have {
			return s
		}
		if len(p.code) > limit {
			ok = false
			return 0
		}
		e := ev{op: t.op, isI: t.sort == SInt}
		switch {
		case t.isConst() && t.sort != SBool:
			e.op = OLin
			e.c0, _ = t.c0.Float64()
			e.den = 1
		case t.op == OVar || t.op == OBVar:
			switch b, isBit := bitOf[t]; {
			case t.input:
				e.kind = 1
				p.ins = append(p.ins, t)
			case isBit:
				e.kind = 6
				e.a = []int{comp(b[0]), comp(b[1])}
			case t.sinArg != nil:
				e.kind = 4
				if t.fn == "cos" {
					e.kind = 5
				}
				e.a = []int{comp(t.sinArg)}
			case t.exact != nil:
				e.kind = 2
				if t.fn == "f32" {
					e.kind = 3
				}
				e.a = []int{comp(t.exact)}
			default:
				if t.lo != nil {
					e.c0, _ = t.lo.Float64()
				}
			}
		case t.op == OLin:
			l := new(big.Int).Set(t.c0.Denom())
			for _, c := range t.coefs {
				g := new(big.Int).GCD(nil, nil, l, c.Denom())
				l.Mul(l, new(big.Int).Quo(c.Denom(), g))
			}
			if l.BitLen() > 40 {
				l = big.NewInt(1)
			}
			lr := new(big.Rat).SetInt(l)
			e.den, _ = lr.Float64()
			e.c0, _ = new(big.Rat).Mul(lr, t.c0).Float64()
			for i, a := range t.args {
				c, _ := new(big.Rat).Mul(lr, t.coefs[i]).Float64()
				e.c = append(e.c, c)
				e.a = append(e.a, comp(a))
			}
		default:
			for _, a := range t.args {
				e.a = append(e.a, comp(a))
			}
			if t.k != nil {
				e.k, _ = new(big.Float).SetInt(t.k).Float64()
			}
		}
		p.code = append(p.code, e)
		p.slots[t] = len(p.code) - 1
		return len(p.code) - 1
	}
	for _, c := range conj(f) {
		p.roots = append(p.roots, comp(c))
	}
	if !ok {
		return nil
	}
	p.vals = make([]float64, len(p.code))
	return p
}

// eval returns how many conjuncts hold.
func (p *evalProg) eval(in map[*Term]int64, ts []*Term) int {
	b2f := func(b bool) float64 {
		if b {
			return 1
		}
		return 0
	}
	v := p.vals
	ni := 0
	for i := range p.code {
		e := &p.code[i]
		var r float64
		switch e.op {
		case OTrue:
			r = 1
		case OFalse:
		case OVar, OBVar:
			switch e.kind {
			case 1:
				r = float64(in[ts[ni]])
				ni++
			case 2:
				r = v[e.a[0]]
			case 3:
				r = float64(float32(v[e.a[0]]))
			case 4:
				r = math.Sin(v[e.a[0]])
			case 5:
				r = math.Cos(v[e.a[0]])
			case 6:
				r = v[e.a[1]] - math.Floor(v[e.a[0]])
			default:
				r = e.c0
			}
		case ONot:
			r = 1 - v[e.a[0]]
		case OAnd:
			r = 1
			for _, a := range e.a {
				if v[a] == 0 {
					r = 0
					break
				}
			}
		case OOr:
			for _, a := range e.a {
				if v[a] != 0 {
					r = 1
					break
				}
			}
		case OLe0:
			r = b2f(v[e.a[0]] <= 0)
		case OEq0:
			r = b2f(v[e.a[0]] == 0)
		case OLin:
			r = e.c0
			for j, a := range e.a {
				r += e.c[j] * v[a]
			}
			if e.den != 1 {
				r /= e.den
			}
			if e.isI {
				r = math.Round(r)
			}
		case ODiv:
			r = math.Floor(v[e.a[0]] / e.k)
		case OMod:
			x := v[e.a[0]]
			r = x - e.k*math.Floor(x/e.k)
		case OFloor:
			r = math.Floor(v[e.a[0]])
		case OIte:
			if v[e.a[0]] != 0 {
				r = v[e.a[1]]
			} else {
				r = v[e.a[2]]
			}
		case OMul:
			r = v[e.a[0]] * v[e.a[1]]
		}
		v[i] = r
	}
	n := 0
	for _, r := range p.roots {
		if v[r] != 0 {
			n++
		}
	}
	return n
}

// search evaluates f at points of the input box, climbing on the number of
// conjuncts that hold, and calls hit on each point where all of them do. It
// stops when hit returns true, and says whether it did.
func search(f *Term, seed int64, budget time.Duration, hit func(map[*Term]int64) bool) bool {
	p := compileEval(f, 400_000)
	if p == nil || len(p.ins) == 0 {
		return false
	}
	for _, t := range p.ins {
		if t.lo == nil || t.hi == nil {
			return false
		}
	}
	rng := rand.New(rand.NewSource(seed ^ int64(f.size)))
	draw := func(t *Term) int64 {
		lo, hi := t.lo.Num().Int64(), t.hi.Num().Int64()
		w := hi - lo + 1
		switch rng.Intn(16) {
		case 0:
			return lo
		case 1:
			return hi
		case 2:
			if w > 3 {
				return lo + rng.Int63n(3)
			}
		}
		if w <= 0 {
			return lo
		}
		return lo + rng.Int63n(w)
	}
	end := time.Now().Add(budget)
	cur := map[*Term]int64{}
	best, stale, hits := -1, 0, 0
	for n := 0; ; n++ {
		if n&15 == 0 && time.Now().After(end) {
			return false
		}
		next := make(map[*Term]int64, len(p.ins))
		for _, t := range p.ins {
			next[t] = cur[t]
		}
		if best < 0 || stale > 60 {
			for _, t := range p.ins {
				next[t] = draw(t)
			}
			best, stale = -1, 0
		} else {
			for j := 0; j <= rng.Intn(2); j++ {
				t := p.ins[rng.Intn(len(p.ins))]
				if d := rng.Intn(4); d == 0 && next[t] < t.hi.Num().Int64() {
					next[t]++
				} else if d == 1 && next[t] > t.lo.Num().Int64() {
					next[t]--
				} else {
					next[t] = draw(t)
				}
			}
		}
		s := p.eval(next, p.ins)
		if s == len(p.roots) {
			if hit(next) {
				return true
			}
			if hits++; hits >= 12 {
				return false
			}
			best = -1
			continue
		}
		if s > best {
			stale = 0
		} else {
			stale++
		}
		if s >= best {
			best, cur = s, next
		}
	}
}
