package main

import (
	"math/bits"
)

// Value tables: a term over one input of a small domain is tabulated over that
// domain. They serve path feasibility only (which branches exist for some
// value in the bounds); obligations go to the simplifier and the solvers.

const tableMax = 1024

type table struct {
	v    *Term // nil: constant
	vals []int64
}

var tableMemo = map[*Term]*table{}

func tabulate(t *Term) *table {
	if r, ok := tableMemo[t]; ok {
		return r
	}
	r := tabulate1(t)
	tableMemo[t] = r
	return r
}

func constTable(n int64) *table { return &table{vals: []int64{n}} }

func (a *table) at(i int) int64 {
	if a.v == nil {
		return a.vals[0]
	}
	return a.vals[i]
}

func mulOK(a, b int64) (int64, bool) {
	hi, lo := bits.Mul64(uint64(absI(a)), uint64(absI(b)))
	if hi != 0 || lo >= 1<<62 {
		return 0, false
	}
	return a * b, true
}

func absI(a int64) int64 {
	if a < 0 {
		return -a
	}
	return a
}

func tabulate1(t *Term) *table {
	switch t.op {
	case OTrue:
		return constTable(1)
	case OFalse:
		return constTable(0)
	case OVar:
		if !t.input || t.lo == nil || t.hi == nil {
			return nil
		}
		lo, hi := t.lo.Num(), t.hi.Num()
		if !lo.IsInt64() || !hi.IsInt64() || hi.Int64()-lo.Int64() >= tableMax {
			return nil
		}
		r := &table{v: t}
		for n := lo.Int64(); n <= hi.Int64(); n++ {
			r.vals = append(r.vals, n)
		}
		return r
	case OBVar, OFloor:
		return nil
	}
	as := make([]*table, len(t.args))
	var v *Term
	n := 1
	for i, a := range t.args {
		as[i] = tabulate(a)
		if as[i] == nil {
			return nil
		}
		if as[i].v != nil {
			if v != nil && v != as[i].v {
				return nil
			}
			v = as[i].v
			n = len(as[i].vals)
		}
	}
	var cs []int64
	var c0, k int64
	if t.op == OLin {
		if !t.c0.IsInt() || !t.c0.Num().IsInt64() {
			return nil
		}
		c0 = t.c0.Num().Int64()
		for _, c := range t.coefs {
			if !c.IsInt() || !c.Num().IsInt64() {
				return nil
			}
			cs = append(cs, c.Num().Int64())
		}
	}
	if t.op == ODiv || t.op == OMod {
		if !t.k.IsInt64() {
			return nil
		}
		k = t.k.Int64()
	}
	r := &table{v: v, vals: make([]int64, n)}
	b := func(x bool) int64 {
		if x {
			return 1
		}
		return 0
	}
	for i := 0; i < n; i++ {
		var x int64
		switch t.op {
		case ONot:
			x = 1 - as[0].at(i)
		case OAnd:
			x = 1
			for _, a := range as {
				x &= a.at(i)
			}
		case OOr:
			for _, a := range as {
				x |= a.at(i)
			}
		case OLe0:
			x = b(as[0].at(i) <= 0)
		case OEq0:
			x = b(as[0].at(i) == 0)
		case OLin:
			x = c0
			for j, a := range as {
				p, ok := mulOK(cs[j], a.at(i))
				if !ok {
					return nil
				}
				x += p
				if absI(x) >= 1<<62 {
					return nil
				}
			}
		case ODiv, OMod:
			u := as[0].at(i)
			q := u / k
			if u%k != 0 && u < 0 {
				q--
			}
			x = q
			if t.op == OMod {
				x = u - q*k
			}
		case OIte:
			if as[0].at(i) != 0 {
				x = as[1].at(i)
			} else {
				x = as[2].at(i)
			}
		case OMul:
			p, ok := mulOK(as[0].at(i), as[1].at(i))
			if !ok {
				return nil
			}
			x = p
		default:
			return nil
		}
		r.vals[i] = x
	}
	return r
}

// byTable: which truth values c takes on the path, when tables can tell.
// known is false when they cannot.
func (x *Exec) byTable(st *State, c *Term) (yes, no, known bool) {
	t := tabulate(c)
	if t == nil {
		return
	}
	if t.v == nil {
		return t.vals[0] != 0, t.vals[0] == 0, true
	}
	alive := make([]bool, len(t.vals))
	for i := range alive {
		alive[i] = true
	}
	all := true
	for p := st.pc; p != nil; p = p.parent {
		q := tabulate(p.c)
		if q == nil || (q.v != nil && q.v != t.v) {
			all = false
			continue
		}
		for i := range alive {
			alive[i] = alive[i] && q.at(i) != 0
		}
	}
	for i, a := range alive {
		if a {
			if t.vals[i] != 0 {
				yes = true
			} else {
				no = true
			}
		}
	}
	if !all && yes && no {
		return yes, no, false // the other conditions may still decide
	}
	if !yes && !no {
		return false, false, true // an impossible path
	}
	return yes, no, true
}

var compactMemo = map[*Term]*Term{}

// compact rewrites the comparisons of a large formula that depend on one input
// of a small domain into the ranges of that input where they hold.
func compact(f *Term) *Term {
	if f.size < 400 {
		return f
	}
	if r, ok := compactMemo[f]; ok {
		return r
	}
	r := f
	switch f.op {
	case ONot:
		r = Not(compact(f.args[0]))
	case OAnd, OOr:
		xs := make([]*Term, len(f.args))
		for i, a := range f.args {
			xs[i] = compact(a)
		}
		r = nary(f.op, xs)
	case OIte:
		if f.sort == SBool {
			r = Ite(compact(f.args[0]), compact(f.args[1]), compact(f.args[2]))
		}
	case OLe0, OEq0:
		if t := tabulate(f); t != nil {
			r = t.ranges()
		}
	}
	compactMemo[f] = r
	return r
}

func (t *table) ranges() *Term {
	if t.v == nil {
		return BoolC(t.vals[0] != 0)
	}
	lo := t.v.lo.Num().Int64()
	var or []*Term
	n := len(t.vals)
	for i := 0; i < n; i++ {
		if t.vals[i] == 0 {
			continue
		}
		j := i
		for j+1 < n && t.vals[j+1] != 0 {
			j++
		}
		or = append(or, And(Le(IntC(lo+int64(i)), t.v), Le(t.v, IntC(lo+int64(j)))))
		i = j
	}
	return Or(or...)
}
