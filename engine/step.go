package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- integers

func basicOf(t types.Type) *types.Basic {
	b, _ := t.Underlying().(*types.Basic)
	return b
}

func intBits(t types.Type) (bits int, unsigned bool) {
	b := basicOf(t)
	switch b.Kind() {
	case types.Int8:
		return 8, false
	case types.Int16:
		return 16, false
	case types.Int32, types.UntypedRune:
		return 32, false
	case types.Uint8:
		return 8, true
	case types.Uint16:
		return 16, true
	case types.Uint32:
		return 32, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, true
	}
	return 64, false
}

func isFloat(t types.Type) bool  { b := basicOf(t); return b != nil && b.Info()&types.IsFloat != 0 }
func isIntT(t types.Type) bool   { b := basicOf(t); return b != nil && b.Info()&types.IsInteger != 0 }
func isString(t types.Type) bool { b := basicOf(t); return b != nil && b.Info()&types.IsString != 0 }
func isBool(t types.Type) bool   { b := basicOf(t); return b != nil && b.Info()&types.IsBoolean != 0 }

// wrapC normalises a concrete integer to its type.
func wrapC(n int64, t types.Type) int64 {
	bits, uns := intBits(t)
	switch {
	case bits == 8 && uns:
		return int64(uint8(n))
	case bits == 8:
		return int64(int8(n))
	case bits == 16 && uns:
		return int64(uint16(n))
	case bits == 16:
		return int64(int16(n))
	case bits == 32 && uns:
		return int64(uint32(n))
	case bits == 32:
		return int64(int32(n))
	}
	return n
}

// wrapT makes machine wrap-around explicit when the value can leave the type.
func (x *Exec) wrapT(st *State, t *Term, ty types.Type) Value {
	bits, uns := intBits(ty)
	lo, hi := new(big.Int), new(big.Int)
	if uns {
		hi.Sub(new(big.Int).Lsh(big.NewInt(1), uint(bits)), big.NewInt(1))
	} else {
		hi.Sub(new(big.Int).Lsh(big.NewInt(1), uint(bits-1)), big.NewInt(1))
		lo.Neg(new(big.Int).Lsh(big.NewInt(1), uint(bits-1)))
	}
	rl, rh := new(big.Rat).SetInt(lo), new(big.Rat).SetInt(hi)
	if t.lo != nil && t.hi != nil && t.lo.Cmp(rl) >= 0 && t.hi.Cmp(rh) <= 0 {
		return fromTermInt(t)
	}
	l, h := st.interval(t, map[*Term][2]*big.Rat{})
	if l != nil && h != nil && l.Cmp(rl) >= 0 && h.Cmp(rh) <= 0 {
		return fromTermInt(t)
	}
	m := new(big.Int).Lsh(big.NewInt(1), uint(bits))
	off := BigC(new(big.Int).Neg(lo))
	return fromTermInt(Sub(ModFloor(Add(t, off), m), off))
}

// ivTerm: a sign test under the state's intervals.
func (x *Exec) nonNeg(st *State, t *Term) bool {
	l, _ := st.interval(t, map[*Term][2]*big.Rat{})
	return l != nil && l.Sign() >= 0
}

func (x *Exec) truncDiv(st *State, t *Term, k int64) (q, r *Term) {
	kb := big.NewInt(k)
	neg := false
	if k < 0 {
		kb.Neg(kb)
		neg = true
	}
	switch {
	case x.nonNeg(st, t):
		q, r = DivFloor(t, kb), ModFloor(t, kb)
	case x.nonNeg(st, Neg(t)):
		q, r = Neg(DivFloor(Neg(t), kb)), Neg(ModFloor(Neg(t), kb))
	default:
		c := Ge(t, IntC(0))
		q = Ite(c, DivFloor(t, kb), Neg(DivFloor(Neg(t), kb)))
		r = Ite(c, ModFloor(t, kb), Neg(ModFloor(Neg(t), kb)))
	}
	if neg {
		q = Neg(q)
	}
	return
}

func (x *Exec) intBin(st *State, op token.Token, a, b Value, ty types.Type, bty types.Type) Value {
	an, aok := a.(int64)
	bn, bok := b.(int64)
	_, uns := intBits(ty)
	if aok && bok {
		switch op {
		case token.ADD:
			return wrapC(an+bn, ty)
		case token.SUB:
			return wrapC(an-bn, ty)
		case token.MUL:
			return wrapC(an*bn, ty)
		case token.QUO, token.REM:
			if bn == 0 {
				panic(goPanic{"integer divide by zero"})
			}
			if uns {
				if op == token.QUO {
					return int64(uint64(an) / uint64(bn))
				}
				return int64(uint64(an) % uint64(bn))
			}
			if bn == -1 {
				if op == token.QUO {
					return wrapC(-an, ty)
				}
				return int64(0)
			}
			if op == token.QUO {
				return an / bn
			}
			return an % bn
		case token.AND:
			return an & bn
		case token.OR:
			return an | bn
		case token.XOR:
			return wrapC(an^bn, ty)
		case token.AND_NOT:
			return an &^ bn
		case token.SHL:
			if _, u := intBits(bty); !u && bn < 0 {
				panic(goPanic{"negative shift amount"})
			}
			if uint64(bn) >= 64 {
				return int64(0)
			}
			return wrapC(an<<uint(bn), ty)
		case token.SHR:
			if _, u := intBits(bty); !u && bn < 0 {
				panic(goPanic{"negative shift amount"})
			}
			if uns {
				if uint64(bn) >= 64 {
					return int64(0)
				}
				return int64(uint64(an) >> uint(bn))
			}
			if uint64(bn) >= 64 {
				bn = 63
			}
			return an >> uint(bn)
		}
		panic(unsupported("integer op %s", op))
	}
	ta, tb := toTermInt(a, ty), toTermInt(b, bty)
	switch op {
	case token.ADD:
		return x.wrapT(st, Add(ta, tb), ty)
	case token.SUB:
		return x.wrapT(st, Sub(ta, tb), ty)
	case token.MUL:
		return x.wrapT(st, Mul(ta, tb), ty)
	case token.QUO, token.REM:
		if !bok {
			bn = x.concretize(st, b)
		}
		if bn == 0 {
			panic(goPanic{"integer divide by zero"})
		}
		if aok {
			return x.intBin(st, op, a, bn, ty, bty)
		}
		q, r := x.truncDiv(st, ta, bn)
		if op == token.QUO {
			return x.wrapT(st, q, ty)
		}
		return fromTermInt(r)
	case token.SHL:
		if !bok {
			bn = x.concretize(st, b)
		}
		if bn < 0 {
			panic(goPanic{"negative shift amount"})
		}
		if aok {
			return x.intBin(st, op, a, bn, ty, bty)
		}
		if bn > 100 {
			return int64(0)
		}
		return x.wrapT(st, Scale(new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(1), uint(bn))), ta), ty)
	case token.SHR:
		if !bok {
			bn = x.concretize(st, b)
		}
		if bn < 0 {
			panic(goPanic{"negative shift amount"})
		}
		if aok {
			return x.intBin(st, op, a, bn, ty, bty)
		}
		if bn > 63 {
			bn = 63
		}
		return fromTermInt(DivFloor(ta, new(big.Int).Lsh(big.NewInt(1), uint(bn))))
	case token.AND:
		m, v, vv := bn, ta, a
		if aok {
			m, v, vv = an, tb, b
		}
		if (aok || bok) && m >= 0 && m&(m+1) == 0 {
			return fromTermInt(ModFloor(v, new(big.Int).SetInt64(m+1)))
		}
		_ = vv
	}
	// last resort: concretise
	return x.intBin(st, op, x.concretize(st, a), x.concretize(st, b), ty, bty)
}

func (x *Exec) cmpVals(st *State, op token.Token, a, b Value, ty types.Type) Value {
	switch {
	case isIntT(ty):
		an, aok := a.(int64)
		bn, bok := b.(int64)
		if aok && bok {
			_, uns := intBits(ty)
			lt := an < bn
			if uns {
				lt = uint64(an) < uint64(bn)
			}
			return cmpRes(op, an == bn, lt)
		}
		return cmpTerm(op, toTermInt(a, ty), toTermInt(b, ty))
	case isFloat(ty):
		af, aok := a.(float64)
		bf, bok := b.(float64)
		if aok && bok {
			switch op {
			case token.EQL:
				return af == bf
			case token.NEQ:
				return af != bf
			case token.LSS:
				return af < bf
			case token.LEQ:
				return af <= bf
			case token.GTR:
				return af > bf
			case token.GEQ:
				return af >= bf
			}
		}
		if aok && math.IsNaN(af) || bok && math.IsNaN(bf) {
			return op == token.NEQ
		}
		if aok && math.IsInf(af, 0) || bok && math.IsInf(bf, 0) {
			fa, fb := 0.0, 0.0
			if aok && math.IsInf(af, 0) {
				fa = af
			}
			if bok && math.IsInf(bf, 0) {
				fb = bf
			}
			return x.cmpVals(st, op, fa, fb, ty)
		}
		return cmpTerm(op, toTerm(a), toTerm(b))
	case isString(ty):
		as, aok := a.(string)
		bs, bok := b.(string)
		if aok && bok {
			return cmpRes(op, as == bs, as < bs)
		}
		if op != token.EQL && op != token.NEQ {
			panic(unsupported("ordering of symbolic strings"))
		}
		e := x.strEq(st, a, b)
		if op == token.NEQ {
			e = Not(e)
		}
		return fromTermBool(e)
	}
	e := x.eqVals(st, a, b, ty)
	if op == token.NEQ {
		e = Not(e)
	} else if op != token.EQL {
		panic(unsupported("comparison %s of %s", op, ty))
	}
	return fromTermBool(e)
}

func cmpRes(op token.Token, eq, lt bool) Value {
	switch op {
	case token.EQL:
		return eq
	case token.NEQ:
		return !eq
	case token.LSS:
		return lt
	case token.LEQ:
		return lt || eq
	case token.GTR:
		return !lt && !eq
	}
	return !lt
}

func cmpTerm(op token.Token, a, b *Term) Value {
	switch op {
	case token.EQL:
		return fromTermBool(Eq(a, b))
	case token.NEQ:
		return fromTermBool(Ne(a, b))
	case token.LSS:
		return fromTermBool(Lt(a, b))
	case token.LEQ:
		return fromTermBool(Le(a, b))
	case token.GTR:
		return fromTermBool(Gt(a, b))
	case token.GEQ:
		return fromTermBool(Ge(a, b))
	}
	panic(unsupported("comparison %s", op))
}

// strEq: equality of two strings, at least one symbolic. Concatenations of
// literals and formatted numbers are compared piece by piece.
func (x *Exec) strEq(st *State, a, b Value) *Term {
	if e := strEqPieces(a, b); e != nil {
		return e
	}
	// the pieces do not line up: compare character by character
	ca, cb := x.chars(st, a), x.chars(st, b)
	if len(ca) != len(cb) {
		return TFalse
	}
	var conds []*Term
	for i := range ca {
		conds = append(conds, Eq(ca[i], cb[i]))
	}
	return And(conds...)
}

// chars is a text as the terms of its bytes; the signs and numbers of digits
// of the numbers in it are decided by forking.
func (x *Exec) chars(st *State, v Value) []*Term {
	var out []*Term
	for _, g := range strSegs(v) {
		if g.term == nil {
			for i := 0; i < len(g.lit); i++ {
				out = append(out, IntC(int64(g.lit[i])))
			}
			continue
		}
		if g.dig {
			out = append(out, AddI(g.term, '0'))
			continue
		}
		width, zero := 0, false
		var vb byte
		if _, err := fmt.Sscanf(g.verb, "%%%d%c", &width, &vb); err == nil {
			zero = strings.HasPrefix(g.verb, "%0")
		} else if g.verb != "%d" {
			panic(unsupported("characters of a number formatted with %q", g.verb))
		} else {
			vb = 'd'
		}
		if vb != 'd' || width < 0 || g.term.sort != SInt {
			panic(unsupported("characters of a number formatted with %q", g.verb))
		}
		neg := x.decide(st, Lt(g.term, IntC(0)))
		n := g.term
		if neg {
			n = Neg(n)
		}
		digits, p := 1, big.NewInt(10)
		for !x.decide(st, Lt(n, BigC(p))) {
			digits++
			p = new(big.Int).Mul(p, big.NewInt(10))
			if digits > 19 {
				panic(unsupported("a number without bounds as text"))
			}
		}
		room := width - digits
		if neg {
			room--
		}
		pad := func(c byte) {
			for ; room > 0; room-- {
				out = append(out, IntC(int64(c)))
			}
		}
		if !zero {
			pad(' ')
		}
		if neg {
			out = append(out, IntC('-'))
		}
		pad('0')
		for k := digits - 1; k >= 0; k-- {
			d := new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(k)), nil)
			q := DivFloor(n, d)
			if k < digits-1 {
				q = Sub(q, ScaleI(10, DivFloor(n, new(big.Int).Mul(d, big.NewInt(10)))))
			}
			out = append(out, AddI(q, '0'))
		}
	}
	return out
}

// numLen is the length of a formatted integer; nil when it is not known.
func (x *Exec) numLen(st *State, g Seg) *Term {
	width, vb := 0, 'd'
	if _, err := fmt.Sscanf(g.verb, "%%%d%c", &width, &vb); err != nil && g.verb != "%d" {
		return nil
	}
	if vb != 'd' || width < 0 || g.term.sort != SInt {
		return nil
	}
	lo, hi := st.interval(g.term, map[*Term][2]*big.Rat{})
	if lo == nil || hi == nil {
		return nil
	}
	size := func(r *big.Rat) int64 { return int64(len(fmt.Sprintf("%*d", width, r.Num()))) }
	t := IntC(size(lo))
	// lengths change at the powers of ten and at zero
	at := func(r *big.Rat, l int64) {
		if r.Cmp(lo) > 0 && r.Cmp(hi) <= 0 {
			t = Ite(Ge(g.term, RatC(r)), IntC(l), t)
		}
	}
	for k := int64(19); k > 0; k-- {
		p := new(big.Rat).SetInt(new(big.Int).Neg(new(big.Int).Exp(big.NewInt(10), big.NewInt(k), nil)))
		at(new(big.Rat).Add(p, ratOne), size(new(big.Rat).Add(p, ratOne)))
	}
	at(rat(0), size(rat(0)))
	for k := int64(1); k < 20; k++ {
		p := new(big.Rat).SetInt(new(big.Int).Exp(big.NewInt(10), big.NewInt(k), nil))
		at(p, size(p))
	}
	return t
}

// decide is the truth of a condition in the state, forking when both remain.
func (x *Exec) decide(st *State, c *Term) bool {
	switch c {
	case TTrue:
		return true
	case TFalse:
		return false
	}
	if v := st.onPath(c); v != Unknown {
		return v == Sat
	}
	if c.op == OLe0 || c.op == ONot && c.args[0].op == OLe0 {
		l, neg := c, false
		if c.op == ONot {
			l, neg = c.args[0], true
		}
		lo, hi := st.interval(l.args[0], map[*Term][2]*big.Rat{})
		if hi != nil && hi.Sign() <= 0 {
			return !neg
		}
		if lo != nil && lo.Sign() > 0 {
			return neg
		}
	}
	panic(needSplit{conds: []*Term{c, Not(c)}})
}

// fromChars makes a text of byte terms.
func fromChars(cs []*Term) Value {
	var segs []Seg
	for _, c := range cs {
		if c.isConst() {
			segs = append(segs, Seg{lit: string([]byte{byte(c.c0.Num().Int64())})})
		} else {
			segs = append(segs, Seg{term: AddI(c, -'0'), verb: "%d", dig: true})
		}
	}
	return segsStr(segs)
}

// strEqPieces compares piece by piece; nil when the pieces do not line up.
func strEqPieces(a, b Value) *Term {
	sa, ok1 := a.(*SymStr)
	sb, ok2 := b.(*SymStr)
	if ok1 && ok2 && sa.id != nil && sb.id != nil {
		return Eq(sa.id, sb.id)
	}
	if ok1 && sa.id != nil {
		if s, ok := b.(string); ok {
			return Eq(sa.id, IntC(strID(s)))
		}
		panic(unsupported("comparing an opaque string with a formatted one"))
	}
	if ok2 && sb.id != nil {
		return strEqPieces(b, a)
	}
	ga, gb := strSegs(a), strSegs(b)
	// strip common literal prefixes/suffixes piecewise
	i, j := 0, 0
	la, lb := "", ""
	var conds []*Term
	for {
		if la == "" && i < len(ga) && ga[i].term == nil {
			la = ga[i].lit
			i++
			continue
		}
		if lb == "" && j < len(gb) && gb[j].term == nil {
			lb = gb[j].lit
			j++
			continue
		}
		if la != "" && lb != "" {
			n := len(la)
			if len(lb) < n {
				n = len(lb)
			}
			if la[:n] != lb[:n] {
				return TFalse
			}
			la, lb = la[n:], lb[n:]
			continue
		}
		ea, eb := la == "" && i >= len(ga), lb == "" && j >= len(gb)
		if ea && eb {
			return And(conds...)
		}
		if la == "" && lb == "" && i < len(ga) && j < len(gb) {
			if ga[i].verb != gb[j].verb || ga[i].dig != gb[j].dig {
				return nil
			}
			if !ga[i].dig && (runsOn(ga, i) || runsOn(gb, j)) && !(fixedWidth(ga[i]) && fixedWidth(gb[j])) {
				return nil
			}
			conds = append(conds, Eq(ga[i].term, gb[j].term))
			i++
			j++
			continue
		}
		if ea || eb {
			// one side is exhausted; the other still has a number or text
			return TFalse
		}
		return nil
	}
}

// runsOn: the number's digits are followed by what may be a digit.
func runsOn(g []Seg, i int) bool {
	if i+1 >= len(g) {
		return false
	}
	n := g[i+1]
	return n.term != nil || n.lit[0] >= '0' && n.lit[0] <= '9'
}

func fixedWidth(g Seg) bool {
	w, c := 0, ' '
	if n, err := fmt.Sscanf(g.verb, "%%%d%c", &w, &c); n != 2 || err != nil || c != 'd' || !strings.HasPrefix(g.verb, "%0") || w > 18 {
		return false
	}
	return g.term.lo != nil && g.term.hi != nil && g.term.lo.Sign() >= 0 && g.term.hi.Cmp(new(big.Rat).SetInt(new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(w)), nil))) < 0
}

// eqVals: == on any comparable type.
func (x *Exec) eqVals(st *State, a, b Value, ty types.Type) *Term {
	switch va := a.(type) {
	case int64, bool, float64, string, *Term, *SymStr:
		switch b.(type) {
		case int64, bool, float64, string, *Term, *SymStr:
		default:
			return TFalse
		}
		if ty == nil || types.IsInterface(ty) {
			ty = types.Typ[types.Int]
			switch a.(type) {
			case string, *SymStr:
				ty = types.Typ[types.String]
			case bool:
				ty = types.Typ[types.Bool]
			case float64:
				ty = types.Typ[types.Float64]
			}
		}
		if isBool(ty) {
			return Eq(toTerm(a), toTerm(b))
		}
		return toTerm(x.cmpVals(st, token.EQL, a, b, ty))
	case Ptr:
		return BoolC(a == b)
	case MapV:
		return BoolC(a == b)
	case SliceV: // only against nil
		bs := b.(SliceV)
		return BoolC(va.obj == 0 && bs.obj == 0)
	case FuncV:
		return BoolC(va.fn == nil && va.nat == nil && b.(FuncV).fn == nil && b.(FuncV).nat == nil)
	case IfaceV:
		vb, ok := b.(IfaceV)
		if !ok {
			return TFalse
		}
		if va.t == nil || vb.t == nil {
			return BoolC(va.t == nil && vb.t == nil)
		}
		if !types.Identical(va.t, vb.t) {
			return TFalse
		}
		return x.eqVals(st, va.v, vb.v, va.t)
	case StructV:
		vb := b.(StructV)
		var cs []*Term
		var stt *types.Struct
		if ty != nil {
			stt, _ = ty.Underlying().(*types.Struct)
		}
		for i := range va.f {
			var ft types.Type
			if stt != nil {
				ft = stt.Field(i).Type()
			}
			cs = append(cs, x.eqVals(st, va.f[i], vb.f[i], ft))
		}
		return And(cs...)
	case ArrayV:
		vb := b.(ArrayV)
		var et types.Type
		if at, ok := ty.Underlying().(*types.Array); ok {
			et = at.Elem()
		}
		var cs []*Term
		for i := range va.e {
			cs = append(cs, x.eqVals(st, va.e[i], vb.e[i], et))
		}
		return And(cs...)
	case TimeV:
		vb := b.(TimeV)
		if va.loc != vb.loc {
			return TFalse
		}
		return And(Eq(toTerm(va.sec), toTerm(vb.sec)), Eq(toTerm(va.nsec), toTerm(vb.nsec)))
	}
	panic(unsupported("== on %T", a))
}

func (x *Exec) floatBin(op token.Token, a, b Value) Value {
	af, aok := a.(float64)
	bf, bok := b.(float64)
	if aok && bok {
		switch op {
		case token.ADD:
			return af + bf
		case token.SUB:
			return af - bf
		case token.MUL:
			return af * bf
		case token.QUO:
			return af / bf
		}
	}
	ta, tb := toTerm(a), toTerm(b)
	var r *Term
	switch op {
	case token.ADD:
		r = fadd(ta, tb)
	case token.SUB:
		r = fsub(ta, tb)
	case token.MUL:
		r = fmul(ta, tb)
	case token.QUO:
		r = fdiv(ta, tb)
	default:
		panic(unsupported("float op %s", op))
	}
	return fromTermFloat(r)
}

func (x *Exec) binop(st *State, op token.Token, a, b Value, ta, tb types.Type) Value {
	switch op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		ty := ta
		if types.IsInterface(tb) && !types.IsInterface(ta) {
			a = IfaceV{ta, a}
			ty = tb
		} else if types.IsInterface(ta) && !types.IsInterface(tb) {
			b = IfaceV{tb, b}
		}
		return x.cmpVals(st, op, a, b, ty)
	}
	switch {
	case isIntT(ta):
		return x.intBin(st, op, a, b, ta, tb)
	case isFloat(ta):
		r := x.floatBin(op, a, b)
		if basicOf(ta).Kind() == types.Float32 {
			if f, ok := r.(float64); ok {
				return float64(float32(f))
			}
			return fromTermFloat(fround32(toTerm(r)))
		}
		return r
	case isString(ta) && op == token.ADD:
		if as, ok := a.(string); ok {
			if bs, ok := b.(string); ok {
				return as + bs
			}
		}
		if a == "" {
			return b
		}
		if b == "" {
			return a
		}
		return segsStr(append(append([]Seg(nil), strSegs(a)...), strSegs(b)...))
	case isBool(ta):
		x1, y1 := toTerm(a), toTerm(b)
		switch op {
		case token.AND, token.LAND:
			return fromTermBool(And(x1, y1))
		case token.OR, token.LOR:
			return fromTermBool(Or(x1, y1))
		}
	}
	panic(unsupported("binop %s on %s", op, ta))
}

// ------------------------------------------------------------- conversions

func (x *Exec) convert(st *State, v Value, from, to types.Type) Value {
	if types.Identical(from.Underlying(), to.Underlying()) {
		return v
	}
	switch {
	case isIntT(from) && isIntT(to):
		if n, ok := v.(int64); ok {
			return wrapC(n, to)
		}
		return x.wrapT(st, toTerm(v), to)
	case isIntT(from) && isFloat(to):
		if n, ok := v.(int64); ok {
			var f float64
			if _, u := intBits(from); u {
				f = float64(uint64(n))
			} else {
				f = float64(n)
			}
			if basicOf(to).Kind() == types.Float32 {
				f = float64(float32(f))
			}
			return f
		}
		t := toTerm(v)
		if basicOf(to).Kind() == types.Float32 {
			return fromTermFloat(fround32(fround(t)))
		}
		lo, hi := st.interval(t, map[*Term][2]*big.Rat{})
		if lo != nil && hi != nil && new(big.Rat).Abs(lo).Cmp(two53) <= 0 && new(big.Rat).Abs(hi).Cmp(two53) <= 0 {
			return t
		}
		return fround(t)
	case isFloat(from) && isIntT(to):
		if f, ok := v.(float64); ok {
			if math.IsNaN(f) || math.Abs(f) >= 9.3e18 {
				panic(unsupported("out of range float to integer conversion"))
			}
			return wrapC(int64(f), to)
		}
		t := ftrunc(toTerm(v))
		return x.wrapT(st, t, to)
	case isFloat(from) && isFloat(to):
		if f, ok := v.(float64); ok {
			if basicOf(to).Kind() == types.Float32 {
				return float64(float32(f))
			}
			return f
		}
		if basicOf(to).Kind() == types.Float32 {
			return fromTermFloat(fround32(toTerm(v)))
		}
		return v
	case isString(to):
		if isString(from) {
			return v
		}
		if isIntT(from) {
			return string(rune(x.concretize(st, v)))
		}
		if sl, ok := from.Underlying().(*types.Slice); ok {
			s, isS := v.(SliceV)
			if !isS {
				panic(unsupported("convert %T to string", v))
			}
			es := x.sliceElems(st, s)
			if bt := basicOf(sl.Elem()); bt != nil && bt.Kind() == types.Uint8 {
				if len(es) == 1 {
					if ss, ok := es[0].(*SymStr); ok { // whole symbolic text in one cell
						return ss
					}
					if d, ok := es[0].(DocV); ok {
						return fmt.Sprintf("%s%d.", jsonMark, st.alloc(d))
					}
				}
				bs := make([]byte, len(es))
				for i, e := range es {
					bs[i] = byte(x.concretize(st, e))
				}
				return string(bs)
			}
			rs := make([]rune, len(es))
			for i, e := range es {
				rs[i] = rune(x.concretize(st, e))
			}
			return string(rs)
		}
	case isString(from):
		if sl, ok := to.Underlying().(*types.Slice); ok {
			s, ok := v.(string)
			if bt := basicOf(sl.Elem()); bt.Kind() == types.Uint8 {
				return x.bytesOf(st, v)
			}
			if !ok {
				panic(unsupported("symbolic string to slice"))
			}
			var es []Value
			if bt := basicOf(sl.Elem()); bt.Kind() == types.Uint8 {
				for i := 0; i < len(s); i++ {
					es = append(es, int64(s[i]))
				}
			} else {
				for _, r := range s {
					es = append(es, int64(r))
				}
			}
			return x.newSlice(st, es)
		}
	}
	if _, ok := to.Underlying().(*types.Pointer); ok {
		return v
	}
	panic(unsupported("conversion %s -> %s", from, to))
}

// -------------------------------------------------------------------- step

func one(it *item) ([]*item, bool) { return nil, true }

func (x *Exec) set(fi *funcInfo, it *item, v ssa.Value, val Value) {
	it.env[fi.regs[v]] = val
}

func (x *Exec) step(fn *ssa.Function, fi *funcInfo, it *item, in ssa.Instruction, outs *[]Outcome) ([]*item, bool) {
	st := it.st
	switch in := in.(type) {
	case *ssa.Alloc:
		o := st.alloc(zeroValue(in.Type().Underlying().(*types.Pointer).Elem()))
		x.set(fi, it, in, Ptr{obj: o})
	case *ssa.BinOp:
		x.set(fi, it, in, x.binop(st, in.Op, x.val(fi, it, in.X), x.val(fi, it, in.Y), in.X.Type(), in.Y.Type()))
	case *ssa.UnOp:
		v := x.val(fi, it, in.X)
		switch in.Op {
		case token.MUL:
			x.set(fi, it, in, x.loadPtr(st, v, in.Type()))
		case token.NOT:
			x.set(fi, it, in, fromTermBool(Not(toTerm(v))))
		case token.SUB:
			if isFloat(in.Type()) {
				if f, ok := v.(float64); ok {
					x.set(fi, it, in, -f)
				} else {
					x.set(fi, it, in, fromTermFloat(Neg(toTerm(v))))
				}
			} else {
				x.set(fi, it, in, x.intBin(st, token.SUB, int64(0), v, in.Type(), in.Type()))
			}
		case token.XOR:
			if n, ok := v.(int64); ok {
				x.set(fi, it, in, wrapC(^n, in.Type()))
			} else if _, u := intBits(in.Type()); !u {
				x.set(fi, it, in, fromTermInt(Sub(IntC(-1), toTerm(v))))
			} else {
				panic(unsupported("^ on unsigned symbolic"))
			}
		default:
			panic(unsupported("unary %s", in.Op))
		}
	case *ssa.ChangeType:
		x.set(fi, it, in, x.val(fi, it, in.X))
	case *ssa.Convert:
		x.set(fi, it, in, x.convert(st, x.val(fi, it, in.X), in.X.Type(), in.Type()))
	case *ssa.MultiConvert:
		x.set(fi, it, in, x.convert(st, x.val(fi, it, in.X), in.X.Type(), in.Type()))
	case *ssa.ChangeInterface:
		x.set(fi, it, in, x.val(fi, it, in.X))
	case *ssa.MakeInterface:
		x.set(fi, it, in, IfaceV{in.X.Type(), x.val(fi, it, in.X)})
	case *ssa.MakeClosure:
		b := make([]Value, len(in.Bindings))
		for i, v := range in.Bindings {
			b[i] = x.val(fi, it, v)
		}
		x.set(fi, it, in, FuncV{fn: in.Fn.(*ssa.Function), bind: b})
	case *ssa.MakeMap:
		o := st.alloc(&MapObj{})
		x.set(fi, it, in, MapV{o})
	case *ssa.MakeSlice:
		n := x.concretize(st, x.val(fi, it, in.Len))
		c := x.concretize(st, x.val(fi, it, in.Cap))
		if n < 0 || c < n || c > 1<<22 {
			panic(goPanic{"makeslice: len out of range"})
		}
		e := make([]Value, c)
		if c > 0 {
			z := zeroValue(in.Type().Underlying().(*types.Slice).Elem())
			for i := range e {
				e[i] = z
			}
		}
		o := st.alloc(ArrayV{e})
		x.set(fi, it, in, SliceV{obj: o, len: int(n), cap: int(c)})
	case *ssa.Extract:
		x.set(fi, it, in, x.val(fi, it, in.Tuple).(TupleV)[in.Index])
	case *ssa.Field:
		x.set(fi, it, in, getPath(x.val(fi, it, in.X), []int{in.Field}))
	case *ssa.FieldAddr:
		p, ok := x.val(fi, it, in.X).(Ptr)
		if !ok {
			panic(unsupported("field address of %T", x.val(fi, it, in.X)))
		}
		if p.obj == 0 {
			panic(goPanic{"nil pointer dereference"})
		}
		x.set(fi, it, in, Ptr{p.obj, pathJoin(p.path, in.Field)})
	case *ssa.Index:
		c := x.val(fi, it, in.X)
		iv := x.val(fi, it, in.Index)
		switch cv := c.(type) {
		case string:
			i := x.concretize(st, iv)
			if i < 0 || i >= int64(len(cv)) {
				panic(goPanic{"index out of range"})
			}
			x.set(fi, it, in, int64(cv[i]))
		case ArrayV:
			x.set(fi, it, in, cv.e[x.boundIdx(st, iv, len(cv.e))])
		case *SymStr:
			if cv.id != nil {
				t := x.concStr(st, cv)
				i := x.concretize(st, iv)
				if i < 0 || i >= int64(len(t)) {
					panic(goPanic{"index out of range"})
				}
				x.set(fi, it, in, int64(t[i]))
				break
			}
			cs := x.chars(st, cv)
			x.set(fi, it, in, fromTermInt(cs[x.boundIdx(st, iv, len(cs))]))
		default:
			panic(unsupported("index of %T", c))
		}
	case *ssa.IndexAddr:
		c := x.val(fi, it, in.X)
		iv := x.val(fi, it, in.Index)
		switch cv := c.(type) {
		case Ptr: // *array
			n := int(in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
			x.set(fi, it, in, Ptr{cv.obj, pathJoin(cv.path, x.boundIdx(st, iv, n))})
		case SliceV:
			i := x.boundIdx(st, iv, cv.len)
			x.set(fi, it, in, Ptr{cv.obj, pathJoin(cv.path, cv.off+i)})
		default:
			panic(unsupported("index address of %T", c))
		}
	case *ssa.Slice:
		x.set(fi, it, in, x.slice(fi, it, in))
	case *ssa.Lookup:
		c := x.val(fi, it, in.X)
		k := x.val(fi, it, in.Index)
		if s, ok := c.(string); ok {
			i := x.concretize(st, k)
			if i < 0 || i >= int64(len(s)) {
				panic(goPanic{"index out of range"})
			}
			x.set(fi, it, in, int64(s[i]))
			break
		}
		mt := in.X.Type().Underlying().(*types.Map)
		v, found := x.mapGet(st, c.(MapV), k, mt)
		if in.CommaOk {
			x.set(fi, it, in, TupleV{v, fromTermBool(found)})
		} else {
			x.set(fi, it, in, v)
		}
	case *ssa.MapUpdate:
		x.mapSet(st, x.val(fi, it, in.Map).(MapV), x.val(fi, it, in.Key), x.val(fi, it, in.Value), in.Map.Type().Underlying().(*types.Map))
	case *ssa.Store:
		x.storePtr(st, x.val(fi, it, in.Addr), x.val(fi, it, in.Val))
	case *ssa.Range:
		c := x.val(fi, it, in.X)
		io := &IterObj{}
		switch cv := c.(type) {
		case string:
			for i, r := range cv {
				io.keys = append(io.keys, int64(i))
				io.vals = append(io.vals, int64(r))
			}
		case MapV:
			if cv.obj != 0 {
				o, _ := st.load(cv.obj)
				mo := o.(*MapObj)
				io.keys = append([]Value(nil), mo.keys...)
				io.vals = append([]Value(nil), mo.vals...)
				if len(io.keys) > 1 {
					x.mapRange[fn.String()] = true
				}
			}
		default:
			panic(unsupported("range over %T", c))
		}
		x.set(fi, it, in, IterV{st.alloc(io)})
	case *ssa.Next:
		iv := x.val(fi, it, in.Iter).(IterV)
		o, _ := st.load(iv.obj)
		io := o.(*IterObj)
		tt := in.Type().(*types.Tuple)
		if io.pos >= len(io.keys) {
			z := func(i int) Value {
				t := tt.At(i).Type()
				if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
					return nil
				}
				return zeroValue(t)
			}
			x.set(fi, it, in, TupleV{false, z(1), z(2)})
		} else {
			x.set(fi, it, in, TupleV{true, io.keys[io.pos], io.vals[io.pos]})
			n := *io
			n.pos++
			st.store(iv.obj, &n)
		}
	case *ssa.TypeAssert:
		iv, _ := x.val(fi, it, in.X).(IfaceV)
		ok := false
		var v Value
		if iv.t != nil {
			if ifc, isI := in.AssertedType.Underlying().(*types.Interface); isI {
				ok = types.Implements(iv.t, ifc)
				v = iv
			} else {
				ok = types.Identical(iv.t, in.AssertedType)
				v = iv.v
			}
		}
		if !ok {
			if !in.CommaOk {
				panic(goPanic{"interface conversion"})
			}
			v = zeroValue(in.AssertedType)
		}
		if in.CommaOk {
			x.set(fi, it, in, TupleV{v, ok})
		} else {
			x.set(fi, it, in, v)
		}
	case *ssa.SliceToArrayPointer:
		sv := x.val(fi, it, in.X).(SliceV)
		if sv.off != 0 {
			panic(unsupported("slice to array pointer"))
		}
		x.set(fi, it, in, Ptr{sv.obj, sv.path})
	case *ssa.Panic:
		iv, _ := x.val(fi, it, in.X).(IfaceV)
		panic(goPanic{"panic: " + showVal(iv)})
	case *ssa.Defer:
		fv, args := x.callee(fi, it, &in.Call)
		it.defs = append(it.defs, deferred{call: &in.Call, fn: fv, args: args})
	case *ssa.RunDefers:
		return x.runDefers(fi, it, outs)
	case *ssa.Call:
		if b, ok := in.Call.Value.(*ssa.Builtin); ok {
			x.set(fi, it, in, x.builtin(fi, it, b, &in.Call))
			break
		}
		fv, args := x.callee(fi, it, &in.Call)
		res := x.call(fv, args, st)
		return x.spread(fi, it, in, res, outs)
	case *ssa.Go, *ssa.Send, *ssa.Select, *ssa.MakeChan:
		panic(unsupported("concurrency: %s", in))
	default:
		panic(unsupported("instruction %T", in))
	}
	return one(it)
}

func showVal(iv IfaceV) string {
	if iv.t == nil {
		return "nil"
	}
	switch v := iv.v.(type) {
	case string:
		return v
	case int64, bool, float64:
		return fmt.Sprint(v)
	}
	return iv.t.String()
}

// spread continues the caller after a call that may have several outcomes.
func (x *Exec) spread(fi *funcInfo, it *item, in *ssa.Call, res []Outcome, outs *[]Outcome) ([]*item, bool) {
	var live []Outcome
	for _, r := range res {
		if r.stop {
			continue
		}
		if r.panic_ {
			t := it
			if len(res) > 1 {
				c := *it
				c.env = append([]Value(nil), it.env...)
				c.defs = append([]deferred(nil), it.defs...)
				t = &c
			}
			t.st = r.st
			*outs = append(*outs, x.unwindDefers(t, r)...)
			continue
		}
		live = append(live, r)
	}
	if len(live) == 0 {
		return nil, false
	}
	if len(live) == 1 {
		it.st = live[0].st
		if in != nil {
			x.set(fi, it, in, live[0].val)
		}
		return nil, true
	}
	var multi []*item
	for _, r := range live {
		n := *it
		n.env = append([]Value(nil), it.env...)
		n.defs = append([]deferred(nil), it.defs...)
		n.st = r.st
		n.idx = it.idx + 1
		if in != nil {
			x.set(fi, &n, in, r.val)
		}
		multi = append(multi, &n)
	}
	return multi, true
}

func (x *Exec) runDefers(fi *funcInfo, it *item, outs *[]Outcome) ([]*item, bool) {
	if len(it.defs) == 0 {
		return nil, true
	}
	d := it.defs[len(it.defs)-1]
	it.defs = append([]deferred(nil), it.defs[:len(it.defs)-1]...)
	res := x.callDeferred(d, it.st)
	multi, ok := x.spread(fi, it, nil, res, outs)
	if !ok {
		return nil, false
	}
	if multi == nil {
		return x.runDefers(fi, it, outs)
	}
	// re-run the RunDefers instruction for the rest
	for _, m := range multi {
		m.idx = it.idx
	}
	return multi, true
}

func (x *Exec) callDeferred(d deferred, st *State) []Outcome {
	if f, ok := d.fn.(FuncV); ok && f.bi != nil {
		return []Outcome{{st: st}} // deferred builtins (close, print) have no effect here
	}
	return x.call(d.fn, d.args, st)
}

func (x *Exec) unwindDefers(it *item, o Outcome) []Outcome {
	if len(it.defs) == 0 {
		return []Outcome{o}
	}
	cur := []Outcome{o}
	for i := len(it.defs) - 1; i >= 0; i-- {
		d := it.defs[i]
		if fn := d.fn.(FuncV).fn; fn != nil && callsRecover(fn) {
			panic(unsupported("recover"))
		}
		var next []Outcome
		for _, c := range cur {
			for _, r := range x.callDeferred(d, c.st) {
				if r.stop {
					continue
				}
				next = append(next, Outcome{st: r.st, panic_: true, msg: c.msg})
			}
		}
		cur = next
	}
	return cur
}

func callsRecover(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok {
				if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "recover" {
					return true
				}
			}
		}
	}
	return false
}

// boundIdx concretises an index and raises the bounds panic where possible.
func (x *Exec) boundIdx(st *State, iv Value, n int) int {
	if i, ok := iv.(int64); ok {
		if i < 0 || i >= int64(n) {
			panic(goPanic{fmt.Sprintf("index out of range [%d] with length %d", i, n)})
		}
		return int(i)
	}
	t := iv.(*Term)
	in := And(Ge(t, IntC(0)), Lt(t, IntC(int64(n))))
	yes, no := x.feasible(st, in, true)
	if yes && no {
		conds := []*Term{Not(in)}
		for i := 0; i < n; i++ {
			if c := Eq(t, IntC(int64(i))); c != TFalse {
				conds = append(conds, c)
			}
		}
		panic(needSplit{conds: conds})
	}
	if !yes {
		panic(goPanic{fmt.Sprintf("index out of range with length %d", n)})
	}
	// feasible only in range
	lo, hi := st.interval(t, map[*Term][2]*big.Rat{})
	if lo != nil && hi != nil && lo.Cmp(hi) == 0 {
		return int(lo.Num().Int64())
	}
	for p := st.pc; p != nil; p = p.parent {
		if p.c.op == OEq0 {
			if v, ok := solveFor(p.c.args[0], t); ok {
				return int(v)
			}
		}
	}
	var conds []*Term
	for i := 0; i < n; i++ {
		if c := Eq(t, IntC(int64(i))); c != TFalse {
			conds = append(conds, c)
		}
	}
	panic(needSplit{conds: conds})
}

func (x *Exec) slice(fi *funcInfo, it *item, in *ssa.Slice) Value {
	st := it.st
	c := x.val(fi, it, in.X)
	get := func(v ssa.Value, d int) int {
		if v == nil {
			return d
		}
		return int(x.concretize(st, x.val(fi, it, v)))
	}
	chk := func(b bool) {
		if !b {
			panic(goPanic{"slice bounds out of range"})
		}
	}
	switch cv := c.(type) {
	case string:
		lo, hi := get(in.Low, 0), get(in.High, len(cv))
		chk(0 <= lo && lo <= hi && hi <= len(cv))
		return cv[lo:hi]
	case SliceV:
		lo, hi, mx := get(in.Low, 0), get(in.High, cv.len), get(in.Max, cv.cap)
		chk(0 <= lo && lo <= hi && hi <= mx && mx <= cv.cap)
		return SliceV{obj: cv.obj, path: cv.path, off: cv.off + lo, len: hi - lo, cap: mx - lo}
	case Ptr:
		n := int(in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		lo, hi, mx := get(in.Low, 0), get(in.High, n), get(in.Max, n)
		chk(0 <= lo && lo <= hi && hi <= mx && mx <= n)
		return SliceV{obj: cv.obj, path: cv.path, off: lo, len: hi - lo, cap: mx - lo}
	case *SymStr:
		if in.Low == nil && in.High == nil {
			return cv
		}
		lo, hi := get(in.Low, 0), get(in.High, -1)
		if lo == 0 && in.High == nil {
			return cv
		}
		if in.High != nil && lo == 0 && hi == 0 {
			return ""
		}
		if cv.id != nil {
			s := x.concStr(st, cv)
			if in.High == nil {
				hi = len(s)
			}
			chk(0 <= lo && lo <= hi && hi <= len(s))
			return s[lo:hi]
		}
		// a formatted text: cuts inside its leading literal
		if first := cv.segs[0]; first.term == nil {
			chk(0 <= lo && (in.High == nil || lo <= hi))
			if in.High != nil && hi <= len(first.lit) {
				return first.lit[lo:hi]
			}
			if in.High == nil && lo <= len(first.lit) {
				return segsStr(append([]Seg{{lit: first.lit[lo:]}}, cv.segs[1:]...))
			}
		}
		cs := x.chars(st, cv)
		if in.High == nil {
			hi = len(cs)
		}
		chk(0 <= lo && lo <= hi && hi <= len(cs))
		return fromChars(cs[lo:hi])
	}
	panic(unsupported("slice of %T", c))
}

// mapGet: value and presence for a possibly symbolic key.
func (x *Exec) mapGet(st *State, m MapV, k Value, mt *types.Map) (Value, *Term) {
	zero := zeroValue(mt.Elem())
	if m.obj == 0 {
		return zero, TFalse
	}
	o, ok := st.load(m.obj)
	if !ok {
		panic(unsupported("map object %d", m.obj))
	}
	mo := o.(*MapObj)
	var conds []*Term
	var vals []Value
	for i := range mo.keys {
		c := x.eqVals(st, k, mo.keys[i], mt.Key())
		if c == TFalse {
			continue
		}
		if c == TTrue {
			return mo.vals[i], TTrue
		}
		switch st.quick(c, nil) {
		case Unsat:
			continue
		case Sat:
			return mo.vals[i], TTrue
		}
		conds = append(conds, c)
		vals = append(vals, mo.vals[i])
	}
	if len(conds) == 0 {
		return zero, TFalse
	}
	// merge into one expression when the values allow it
	res := zero
	done := func() (ok bool) {
		defer func() {
			if r := recover(); r != nil {
				if _, is := r.(noMerge); is {
					ok = false
					return
				}
				panic(r)
			}
		}()
		for i := len(conds) - 1; i >= 0; i-- {
			res = mergeVal(conds[i], vals[i], res, true)
		}
		return true
	}()
	if done {
		return res, Or(conds...)
	}
	for i, c := range conds {
		if st.onPath(c) == Sat {
			return vals[i], TTrue
		}
	}
	all := append([]*Term(nil), conds...)
	none := Not(Or(conds...))
	if st.onPath(none) == Sat {
		return zero, TFalse
	}
	neg := true
	for _, c := range conds {
		if y, _ := x.feasible(st, c, false); y {
			neg = false
		}
	}
	if neg {
		return zero, TFalse
	}
	panic(needSplit{conds: append(all, none)})
}

// decideKey finds the entry equal to k, forking when it is not determined.
func (x *Exec) decideKey(st *State, mo *MapObj, k Value, kt types.Type) int {
	var conds []*Term
	for i := range mo.keys {
		c := x.eqVals(st, k, mo.keys[i], kt)
		if c == TTrue {
			return i
		}
		if c == TFalse {
			continue
		}
		y, n := x.feasible(st, c, true)
		if y && !n {
			return i
		}
		if y {
			conds = append(conds, c)
		}
	}
	if len(conds) == 0 {
		return -1
	}
	panic(needSplit{conds: append(append([]*Term(nil), conds...), Not(Or(conds...)))})
}

var symStrIDs = map[*SymStr]int{}

func symStrSeq(s *SymStr) int {
	n, ok := symStrIDs[s]
	if !ok {
		n = len(symStrIDs) + 1
		symStrIDs[s] = n
	}
	return n
}

func (x *Exec) mapSet(st *State, m MapV, k, v Value, mt *types.Map) {
	if m.obj == 0 {
		panic(goPanic{"assignment to entry in nil map"})
	}
	x.noteStore(st, m.obj)
	o, _ := st.load(m.obj)
	mo := o.(*MapObj)
	i := x.decideKey(st, mo, k, mt.Key())
	n := &MapObj{keys: append([]Value(nil), mo.keys...), vals: append([]Value(nil), mo.vals...)}
	if i >= 0 {
		n.vals[i] = v
	} else {
		n.keys = append(n.keys, k)
		n.vals = append(n.vals, v)
	}
	st.store(m.obj, n)
}

func (x *Exec) builtin(fi *funcInfo, it *item, b *ssa.Builtin, call *ssa.CallCommon) Value {
	st := it.st
	args := make([]Value, len(call.Args))
	for i, a := range call.Args {
		args[i] = x.val(fi, it, a)
	}
	switch b.Name() {
	case "len", "cap":
		switch v := args[0].(type) {
		case string:
			return int64(len(v))
		case SliceV:
			if b.Name() == "cap" {
				return int64(v.cap)
			}
			return int64(v.len)
		case MapV:
			if v.obj == 0 {
				return int64(0)
			}
			o, _ := st.load(v.obj)
			return int64(len(o.(*MapObj).keys))
		case ArrayV:
			return int64(len(v.e))
		case Ptr:
			return call.Args[0].Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		case *SymStr:
			if v.id == nil {
				n, nums := IntC(0), 0
				for _, s := range v.segs {
					n = AddI(n, int64(len(s.lit)))
					switch {
					case s.term == nil:
					case s.dig:
						n = AddI(n, 1)
					default:
						if l := x.numLen(st, s); l != nil {
							n = Add(n, l)
						} else {
							nums++
						}
					}
				}
				if nums > 0 { // a formatted number is never empty
					n = Add(n, NewIntVar(fmt.Sprintf("len!%d", symStrSeq(v)), rat(int64(nums)), rat(int64(64*nums))))
				}
				return fromTermInt(n)
			}
			return x.strLen(v)
		}
		panic(unsupported("len of %T", args[0]))
	case "append":
		s := args[0].(SliceV)
		var add []Value
		switch v := args[1].(type) {
		case SliceV:
			add = x.sliceElems(st, v)
		case string:
			for i := 0; i < len(v); i++ {
				add = append(add, int64(v[i]))
			}
		default:
			panic(unsupported("append %T", args[1]))
		}
		return x.appendTo(st, s, add, call.Args[0].Type())
	case "copy":
		d := args[0].(SliceV)
		var src []Value
		switch v := args[1].(type) {
		case SliceV:
			src = append([]Value(nil), x.sliceElems(st, v)...)
		case string:
			for i := 0; i < len(v); i++ {
				src = append(src, int64(v[i]))
			}
		}
		n := len(src)
		if d.len < n {
			n = d.len
		}
		if n > 0 {
			o, _ := st.load(d.obj)
			pp := pathParts(d.path)
			arr := getPath(o, pp).(ArrayV)
			e := append([]Value(nil), arr.e...)
			copy(e[d.off:d.off+n], src[:n])
			x.noteStore(st, d.obj)
			st.store(d.obj, setPath(o, pp, ArrayV{e}))
		}
		return int64(n)
	case "delete":
		m := args[0].(MapV)
		if m.obj == 0 {
			return nil
		}
		o, _ := st.load(m.obj)
		mo := o.(*MapObj)
		i := x.decideKey(st, mo, args[1], call.Args[0].Type().Underlying().(*types.Map).Key())
		if i >= 0 {
			n := &MapObj{keys: append([]Value(nil), mo.keys[:i]...), vals: append([]Value(nil), mo.vals[:i]...)}
			n.keys = append(n.keys, mo.keys[i+1:]...)
			n.vals = append(n.vals, mo.vals[i+1:]...)
			x.noteStore(st, m.obj)
			st.store(m.obj, n)
		}
		return nil
	case "clear":
		switch v := args[0].(type) {
		case MapV:
			if v.obj != 0 {
				x.noteStore(st, v.obj)
				st.store(v.obj, &MapObj{})
			}
		default:
			panic(unsupported("clear of %T", v))
		}
		return nil
	case "min", "max":
		ty := call.Args[0].Type()
		r := args[0]
		for _, a := range args[1:] {
			op := token.LSS
			if b.Name() == "max" {
				op = token.GTR
			}
			c := x.cmpVals(st, op, a, r, ty)
			if cb, ok := c.(bool); ok {
				if cb {
					r = a
				}
			} else {
				r = mergeVal(c.(*Term), a, r, true)
			}
		}
		return r
	case "print", "println":
		return nil
	case "recover":
		return IfaceV{}
	case "ssa:wrapnilchk":
		if p, ok := args[0].(Ptr); ok && p.obj == 0 {
			panic(goPanic{"nil pointer in method wrapper"})
		}
		return args[0]
	case "close":
		return nil
	}
	panic(unsupported("builtin %s", b.Name()))
}

func (x *Exec) appendTo(st *State, s SliceV, add []Value, sty types.Type) SliceV {
	if len(add) == 0 {
		return s
	}
	if s.len+len(add) <= s.cap {
		o, _ := st.load(s.obj)
		pp := pathParts(s.path)
		arr := getPath(o, pp).(ArrayV)
		e := append([]Value(nil), arr.e...)
		copy(e[s.off+s.len:], add)
		x.noteStore(st, s.obj)
		st.store(s.obj, setPath(o, pp, ArrayV{e}))
		s.len += len(add)
		return s
	}
	old := x.sliceElems(st, s)
	n := len(old) + len(add)
	c := growCap(s.cap, n)
	e := make([]Value, 0, c)
	e = append(e, old...)
	e = append(e, add...)
	z := zeroValue(sty.Underlying().(*types.Slice).Elem())
	for len(e) < c {
		e = append(e, z)
	}
	o := st.alloc(ArrayV{e})
	return SliceV{obj: o, len: n, cap: c}
}

// growCap: doubling, as the runtime does for small slices (size classes are
// ignored; no code under check may depend on the exact capacity).
func growCap(old, need int) int {
	if need > 2*old {
		return need
	}
	if old < 256 {
		return 2 * old
	}
	c := old
	for c < need {
		c += (c + 3*256) / 4
	}
	return c
}

// callee resolves the function value and arguments of a call.
func (x *Exec) callee(fi *funcInfo, it *item, c *ssa.CallCommon) (Value, []Value) {
	var args []Value
	if c.IsInvoke() {
		rv := x.val(fi, it, c.Value)
		iv, ok := rv.(IfaceV)
		if !ok {
			panic(unsupported("invoke on %T", rv))
		}
		if iv.t == nil {
			panic(goPanic{"nil pointer dereference (method call on nil interface)"})
		}
		args = append(args, iv.v)
		for _, a := range c.Args {
			args = append(args, x.val(fi, it, a))
		}
		if o, ok := iv.v.(*natErr); ok {
			return FuncV{nat: func(x *Exec, st *State, a []Value) []Outcome {
				return []Outcome{{st: st, val: o.msg}}
			}}, args
		}
		fn := x.lookupMethod(iv.t, c.Method)
		if fn == nil {
			panic(unsupported("no method %s on %s", c.Method.Name(), iv.t))
		}
		return FuncV{fn: fn}, args
	}
	fv := x.val(fi, it, c.Value)
	for _, a := range c.Args {
		args = append(args, x.val(fi, it, a))
	}
	return fv, args
}

func (x *Exec) lookupMethod(t types.Type, m *types.Func) *ssa.Function {
	sel := x.prog.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	return x.prog.MethodValue(sel)
}

func (x *Exec) methodByName(t types.Type, name string) *ssa.Function {
	ms := x.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return x.prog.MethodValue(ms.At(i))
		}
	}
	return nil
}

// natErr is an error value made by errors.New / fmt.Errorf.
type natErr struct{ msg Value }

// strLen: the length of an opaque string, decided by its known candidates.
func (x *Exec) strLen(v *SymStr) Value {
	t := IntC(0)
	lo, hi := v.id.lo.Num().Int64(), v.id.hi.Num().Int64()
	first := true
	for i := lo; i <= hi && i < int64(len(strByID)); i++ {
		l := IntC(int64(len(strByID[i])))
		if first {
			t = l
			first = false
			continue
		}
		t = Ite(Eq(v.id, IntC(i)), l, t)
	}
	return fromTermInt(t)
}

var _ = utf8.RuneError
