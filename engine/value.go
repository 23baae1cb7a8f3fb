package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value: int64 (any concrete integer), bool, float64, string, *Term (symbolic
// bool/int/float), *SymStr, and the composite kinds below.
type Value interface{}

type StructV struct{ f []Value }
type ArrayV struct{ e []Value }
type Ptr struct {
	obj  int
	path string // "/i/j": indices into nested structs/arrays
}
type SliceV struct {
	obj  int
	path string
	off  int
	len  int
	cap  int
}
type MapV struct{ obj int } // obj 0 = nil map
type MapObj struct {
	keys []Value
	vals []Value
}
type IfaceV struct {
	t types.Type // nil = nil interface
	v Value
}
type FuncV struct {
	fn   *ssa.Function // nil with bi==nil: nil func
	bind []Value
	bi   *ssa.Builtin
	nat  func(x *Exec, st *State, args []Value) []Outcome
}
type TupleV []Value

// TimeV models time.Time in UTC: seconds since the Unix epoch and nanoseconds.
type TimeV struct {
	sec, nsec Value
	loc       string // "" = UTC via zero value, "UTC"
}

// MapIter for range over maps/strings.
type IterV struct {
	obj int // heap object holding *IterObj
}
type IterObj struct {
	keys, vals []Value
	pos        int
}

// SymStr: either an opaque string variable (id != nil) or a concatenation of
// literal pieces and formatted numbers.
type SymStr struct {
	id   *Term
	segs []Seg
}
type Seg struct {
	lit  string
	term *Term
	verb string
	dig  bool // a single decimal digit
}

func segsStr(ss []Seg) Value {
	var out []Seg
	for _, s := range ss {
		if s.term == nil {
			if s.lit == "" {
				continue
			}
			if len(out) > 0 && out[len(out)-1].term == nil {
				out[len(out)-1].lit += s.lit
				continue
			}
		}
		out = append(out, s)
	}
	if len(out) == 0 {
		return ""
	}
	if len(out) == 1 && out[0].term == nil {
		return out[0].lit
	}
	return &SymStr{segs: out}
}

func strSegs(v Value) []Seg {
	switch s := v.(type) {
	case string:
		return []Seg{{lit: s}}
	case *SymStr:
		if s.id != nil {
			panic(unsupported("operation on an opaque string"))
		}
		return s.segs
	}
	panic(unsupported("strSegs %T", v))
}

// interned string constants for opaque string variables
var strIDs = map[string]int64{}
var strByID []string

func strID(s string) int64 {
	if i, ok := strIDs[s]; ok {
		return i
	}
	i := int64(len(strByID))
	strIDs[s] = i
	strByID = append(strByID, s)
	return i
}

// ---------------------------------------------------------------- heap/state

type pcNode struct {
	parent *pcNode
	c      *Term
	n      int
}

type State struct {
	heap   *heapT
	pc     *pcNode
	bounds map[*Term][2]*big.Rat // refined bounds of input variables (copy-on-write)
	watch  int                   // nonzero: stores to objects numbered up to it are obligations
	steps  int
	forks  int
	trace  []string
	obs    []obsEntry
}

type obsEntry struct {
	name string
	v    Value
}

func newState() *State {
	return &State{heap: newHeap(), bounds: map[*Term][2]*big.Rat{}}
}

var objSeq = 1

func newObjID() int { objSeq++; return objSeq }

func (s *State) load(o int) (Value, bool) { return s.heap.load(o) }

func (s *State) store(o int, v Value) { s.heap.store(o, v) }

func (s *State) alloc(v Value) int {
	o := newObjID()
	s.heap.store(o, v)
	return o
}

// fork returns an independent copy.
func (s *State) fork() *State {
	n := *s
	n.heap = s.heap.share()
	n.trace = append([]string(nil), s.trace...)
	n.obs = append([]obsEntry(nil), s.obs...)
	return &n
}

func (s *State) pcList() []*Term {
	var out []*Term
	for p := s.pc; p != nil; p = p.parent {
		out = append(out, p.c)
	}
	return out
}

func (s *State) assume(c *Term) {
	if c == TTrue {
		return
	}
	if c.op == OAnd {
		for _, a := range c.args {
			s.assume(a)
		}
		return
	}
	n := 1
	if s.pc != nil {
		n = s.pc.n + 1
	}
	s.pc = &pcNode{parent: s.pc, c: c, n: n}
	s.refine(c)
}

// onPath tells whether a condition was assumed on this path, or its negation:
// conjunctions are kept by their parts.
func (s *State) onPath(c *Term) Verdict {
	if c == TTrue {
		return Sat
	}
	if c == TFalse {
		return Unsat
	}
	nc := Not(c)
	for p := s.pc; p != nil; p = p.parent {
		if p.c == c {
			return Sat
		}
		if p.c == nc {
			return Unsat
		}
	}
	switch c.op {
	case ONot:
		switch a := c.args[0]; a.op {
		case OAnd, OOr:
			switch s.onPath(a) {
			case Sat:
				return Unsat
			case Unsat:
				return Sat
			}
		}
	case OAnd, OOr:
		// the verdict of one part that settles the whole
		one, rest := Unsat, Sat
		if c.op == OOr {
			one, rest = Sat, Unsat
		}
		all := true
		for _, a := range c.args {
			switch s.onPath(a) {
			case one:
				return one
			case Unknown:
				all = false
			}
		}
		if all {
			return rest
		}
	}
	return Unknown
}

// refine tightens variable bounds from a literal over one variable.
func (s *State) refine(c *Term) {
	neg := false
	if c.op == ONot {
		neg = true
		c = c.args[0]
	}
	if c.op != OLe0 && c.op != OEq0 {
		return
	}
	c0, atoms, coefs := linParts(c.args[0])
	if len(atoms) != 1 || atoms[0].op != OVar {
		return
	}
	v := atoms[0]
	lo, hi := s.varBounds(v)
	b := new(big.Rat).Quo(new(big.Rat).Neg(c0), coefs[0]) // v (op) b
	switch {
	case c.op == OEq0 && !neg:
		lo, hi = maxR2(lo, b), minR2(hi, b)
	case c.op == OEq0 && neg:
		if v.sort == SInt && lo != nil && lo.Cmp(b) == 0 {
			lo = new(big.Rat).Add(lo, ratOne)
		}
		if v.sort == SInt && hi != nil && hi.Cmp(b) == 0 {
			hi = new(big.Rat).Sub(hi, ratOne)
		}
	case c.op == OLe0:
		up := coefs[0].Sign() > 0
		if neg {
			up = !up
		}
		if up {
			if v.sort == SInt {
				b = new(big.Rat).SetInt(ratFloor(b))
			}
			hi = minR2(hi, b)
		} else {
			if v.sort == SInt {
				nb := new(big.Rat).Neg(b)
				b = new(big.Rat).Neg(new(big.Rat).SetInt(ratFloor(nb)))
			}
			lo = maxR2(lo, b)
		}
	}
	nb := make(map[*Term][2]*big.Rat, len(s.bounds)+1)
	for k, x := range s.bounds {
		nb[k] = x
	}
	nb[v] = [2]*big.Rat{lo, hi}
	s.bounds = nb
	// repeated disequalities at the (new) edge
	if c.op == OEq0 && neg && v.sort == SInt {
		return
	}
}

func maxR2(a, b *big.Rat) *big.Rat {
	if a == nil {
		return b
	}
	if b == nil {
		return a
	}
	return maxR(a, b)
}
func minR2(a, b *big.Rat) *big.Rat {
	if a == nil {
		return b
	}
	if b == nil {
		return a
	}
	return minR(a, b)
}

func (s *State) varBounds(v *Term) (*big.Rat, *big.Rat) {
	if b, ok := s.bounds[v]; ok {
		return b[0], b[1]
	}
	return v.lo, v.hi
}

// interval of a numeric term under the state's refined bounds.
func (s *State) interval(t *Term, memo map[*Term][2]*big.Rat) (lo, hi *big.Rat) {
	if t.isConst() {
		return t.c0, t.c0
	}
	if r, ok := memo[t]; ok {
		return r[0], r[1]
	}
	switch t.op {
	case OVar:
		lo, hi = s.varBounds(t)
	case OLin:
		lo, hi = linInterval(t, func(a *Term) (*big.Rat, *big.Rat) { return s.interval(a, memo) })
	case ODiv:
		l, h := s.interval(t.args[0], memo)
		k := new(big.Rat).SetInt(t.k)
		if l != nil {
			lo = new(big.Rat).SetInt(ratFloor(new(big.Rat).Quo(l, k)))
		}
		if h != nil {
			hi = new(big.Rat).SetInt(ratFloor(new(big.Rat).Quo(h, k)))
		}
	case OMod:
		lo, hi = t.lo, t.hi
		l, h := s.interval(t.args[0], memo)
		if l != nil && h != nil {
			k := new(big.Rat).SetInt(t.k)
			ql, qh := ratFloor(new(big.Rat).Quo(l, k)), ratFloor(new(big.Rat).Quo(h, k))
			if ql.Cmp(qh) == 0 {
				off := new(big.Rat).Mul(new(big.Rat).SetInt(ql), k)
				lo, hi = new(big.Rat).Sub(l, off), new(big.Rat).Sub(h, off)
			}
		}
	case OIte:
		switch s.quick(t.args[0], memo) {
		case Unsat:
			lo, hi = s.interval(t.args[2], memo)
		case Sat:
			lo, hi = s.interval(t.args[1], memo)
		default:
			l1, h1 := s.interval(t.args[1], memo)
			l2, h2 := s.interval(t.args[2], memo)
			lo, hi = minR(l1, l2), maxR(h1, h2)
		}
	case OFloor:
		l, h := s.interval(t.args[0], memo)
		if l != nil {
			lo = new(big.Rat).SetInt(ratFloor(l))
		}
		if h != nil {
			hi = new(big.Rat).SetInt(ratFloor(h))
		}
	default:
		lo, hi = t.lo, t.hi
	}
	if t.lo != nil {
		lo = maxR2(lo, t.lo)
	}
	if t.hi != nil {
		hi = minR2(hi, t.hi)
	}
	memo[t] = [2]*big.Rat{lo, hi}
	return
}

// quick decides a condition by intervals: Sat = always true here, Unsat =
// always false, Unknown otherwise.
func (s *State) quick(c *Term, memo map[*Term][2]*big.Rat) Verdict {
	if memo == nil {
		memo = map[*Term][2]*big.Rat{}
	}
	inv := func(v Verdict) Verdict {
		switch v {
		case Sat:
			return Unsat
		case Unsat:
			return Sat
		}
		return Unknown
	}
	switch c.op {
	case OTrue:
		return Sat
	case OFalse:
		return Unsat
	case ONot:
		return inv(s.quick(c.args[0], memo))
	case OAnd:
		all := true
		for _, a := range c.args {
			switch s.quick(a, memo) {
			case Unsat:
				return Unsat
			case Unknown:
				all = false
			}
		}
		if all {
			return Sat
		}
	case OOr:
		all := true
		for _, a := range c.args {
			switch s.quick(a, memo) {
			case Sat:
				return Sat
			case Unknown:
				all = false
			}
		}
		if all {
			return Unsat
		}
	case OLe0:
		lo, hi := s.interval(c.args[0], memo)
		if hi != nil && hi.Sign() <= 0 {
			return Sat
		}
		if lo != nil && lo.Sign() > 0 {
			return Unsat
		}
	case OEq0:
		lo, hi := s.interval(c.args[0], memo)
		if lo != nil && lo.Sign() > 0 || hi != nil && hi.Sign() < 0 {
			return Unsat
		}
		if lo != nil && hi != nil && lo.Sign() == 0 && hi.Sign() == 0 {
			return Sat
		}
	}
	return Unknown
}

// ------------------------------------------------------------------ helpers

func pathJoin(p string, i int) string { return fmt.Sprintf("%s/%d", p, i) }

func pathParts(p string) []int {
	if p == "" {
		return nil
	}
	var out []int
	for _, s := range strings.Split(p[1:], "/") {
		n := 0
		for _, ch := range s {
			n = n*10 + int(ch-'0')
		}
		out = append(out, n)
	}
	return out
}

func getPath(v Value, path []int) Value {
	for _, i := range path {
		switch x := v.(type) {
		case StructV:
			v = x.f[i]
		case ArrayV:
			v = x.e[i]
		default:
			panic(unsupported("path into %T", v))
		}
	}
	return v
}

func setPath(v Value, path []int, nv Value) Value {
	if len(path) == 0 {
		return nv
	}
	i := path[0]
	switch x := v.(type) {
	case StructV:
		f := append([]Value(nil), x.f...)
		f[i] = setPath(f[i], path[1:], nv)
		return StructV{f}
	case ArrayV:
		e := append([]Value(nil), x.e...)
		e[i] = setPath(e[i], path[1:], nv)
		return ArrayV{e}
	}
	panic(unsupported("setPath into %T", v))
}

func isTimeType(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "time" && n.Obj().Name() == "Time"
}

func zeroTime() TimeV { return TimeV{sec: int64(-62135596800), nsec: int64(0)} }

func zeroValue(t types.Type) Value {
	if isTimeType(t) {
		return zeroTime()
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return false
		case u.Info()&types.IsInteger != 0:
			return int64(0)
		case u.Info()&types.IsFloat != 0:
			return float64(0)
		case u.Info()&types.IsString != 0:
			return ""
		case u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil:
			return Ptr{}
		}
		panic(unsupported("zero of %s", t))
	case *types.Struct:
		f := make([]Value, u.NumFields())
		for i := range f {
			f[i] = zeroValue(u.Field(i).Type())
		}
		return StructV{f}
	case *types.Array:
		e := make([]Value, u.Len())
		if len(e) > 0 {
			z := zeroValue(u.Elem())
			for i := range e {
				e[i] = z
			}
		}
		return ArrayV{e}
	case *types.Pointer:
		return Ptr{}
	case *types.Slice:
		return SliceV{}
	case *types.Map:
		return MapV{}
	case *types.Chan:
		return Ptr{}
	case *types.Interface:
		return IfaceV{}
	case *types.Signature:
		return FuncV{}
	case *types.Tuple:
		r := make(TupleV, u.Len())
		for i := range r {
			r[i] = zeroValue(u.At(i).Type())
		}
		return r
	}
	panic(unsupported("zero of %s", t))
}

// numeric/bool lifting
func toTerm(v Value) *Term {
	switch x := v.(type) {
	case *Term:
		return x
	case int64:
		return IntC(x)
	case bool:
		return BoolC(x)
	case float64:
		return FloatC(x)
	}
	panic(unsupported("toTerm %T", v))
}

// toTermTyped lifts an integer respecting signedness of uint64.
func toTermInt(v Value, t types.Type) *Term {
	if n, ok := v.(int64); ok {
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 && n < 0 {
			return BigC(new(big.Int).SetUint64(uint64(n)))
		}
		return IntC(n)
	}
	return toTerm(v)
}

func fromTermInt(t *Term) Value {
	if t.isConst() {
		n := t.c0.Num()
		if n.IsInt64() {
			return n.Int64()
		}
		if n.IsUint64() {
			return int64(n.Uint64())
		}
	}
	return t
}

func fromTermBool(t *Term) Value {
	if t == TTrue {
		return true
	}
	if t == TFalse {
		return false
	}
	return t
}

func fromTermFloat(t *Term) Value {
	if t.isConst() {
		f, _ := t.c0.Float64()
		return f
	}
	return t
}
