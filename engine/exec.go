package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Outcome struct {
	st     *State
	val    Value
	panic_ bool
	msg    string // for panics
	stop   bool   // path ended (assumption failed, os.Exit)
}

type Obligation struct {
	label   string
	pc      []*Term
	goal    *Term // must hold
	kind    string
	pos     string
	trivial bool
}

func (o *Obligation) formula() []*Term {
	return append(append([]*Term(nil), o.pc...), Not(o.goal))
}

type funcInfo struct {
	regs   map[ssa.Value]int
	n      int
	rpo    map[*ssa.BasicBlock]int
	inLoop map[*ssa.BasicBlock]bool
	header map[*ssa.BasicBlock]bool
	live   map[*ssa.BasicBlock]map[int]bool
	// registers that reach an instruction inside a loop: integers there are
	// kept concrete (loop counters and bounds) instead of being merged
	loopUse map[int]bool
}

type Exec struct {
	prog       *ssa.Program
	ld         *Loader
	globals    map[*ssa.Global]int
	ownStores  int // stores found to be to the call's own objects
	infos      map[*ssa.Function]*funcInfo
	obls       []*Obligation
	ends       []*State
	pathChk    *pathChecker
	merge      bool
	feasMS     int
	maxSteps   int
	maxPaths   int
	steps      int
	paths      int
	merges     int
	forks      int
	depth      int
	deadline   time.Time
	funcs      map[string]bool // functions encoded
	inputs     map[string]*Term
	inputSeq   []string
	concrete   map[string]any // concrete mode inputs
	isConc     bool
	covers     map[string]bool
	asserts    int
	natives    map[string]bool
	choiceN    int
	strVars    map[string]bool
	floatIn    map[string]bool
	reached    map[string]bool
	mapRange   map[string]bool
	ranges     map[string][2]int   // piece i of n of an input's declared range
	fixed      map[string][2]int64 // narrowed input ranges
	bounds     []string
	tier       int
	forkInputs bool
	inBounds   map[string][2]int64
}

func newExec(prog *ssa.Program, ld *Loader) *Exec {
	return &Exec{inBounds: map[string][2]int64{}, prog: prog, ld: ld, globals: map[*ssa.Global]int{}, infos: map[*ssa.Function]*funcInfo{},
		merge: true, feasMS: 400, maxSteps: 60_000_000, maxPaths: 200_000, funcs: map[string]bool{}, inputs: map[string]*Term{},
		covers: map[string]bool{}, natives: map[string]bool{}, strVars: map[string]bool{}, floatIn: map[string]bool{}, reached: map[string]bool{}, mapRange: map[string]bool{}, ranges: map[string][2]int{}, fixed: map[string][2]int64{}}
}

// needSplit asks the stepper to fork on the values of a term and retry.
type needSplit struct {
	t *Term
	// candidate conditions to fork on (exhaustive); nil = enumerate integers
	conds []*Term
}

type goPanic struct{ msg string }

func (x *Exec) info(fn *ssa.Function) *funcInfo {
	if fi, ok := x.infos[fn]; ok {
		return fi
	}
	fi := &funcInfo{regs: map[ssa.Value]int{}, rpo: map[*ssa.BasicBlock]int{}, inLoop: map[*ssa.BasicBlock]bool{}, header: map[*ssa.BasicBlock]bool{}, live: map[*ssa.BasicBlock]map[int]bool{}}
	reg := func(v ssa.Value) {
		fi.regs[v] = fi.n
		fi.n++
	}
	for _, p := range fn.Params {
		reg(p)
	}
	for _, p := range fn.FreeVars {
		reg(p)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				reg(v)
			}
		}
	}
	// SCCs (Tarjan)
	index := map[*ssa.BasicBlock]int{}
	low := map[*ssa.BasicBlock]int{}
	on := map[*ssa.BasicBlock]bool{}
	scc := map[*ssa.BasicBlock]int{}
	var stack []*ssa.BasicBlock
	cnt, ns := 0, 0
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		cnt++
		index[b], low[b] = cnt, cnt
		stack = append(stack, b)
		on[b] = true
		self := false
		for _, s := range b.Succs {
			if s == b {
				self = true
			}
			if index[s] == 0 {
				dfs(s)
				if low[s] < low[b] {
					low[b] = low[s]
				}
			} else if on[s] && index[s] < low[b] {
				low[b] = index[s]
			}
		}
		if low[b] == index[b] {
			n := 0
			var mem []*ssa.BasicBlock
			for {
				t := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				on[t] = false
				scc[t] = ns
				mem = append(mem, t)
				n++
				if t == b {
					break
				}
			}
			if n > 1 || self {
				for _, m := range mem {
					fi.inLoop[m] = true
				}
			}
			ns++
		}
	}
	if len(fn.Blocks) > 0 {
		dfs(fn.Blocks[0])
	}
	// RPO, leaving the SCC last
	seen := map[*ssa.BasicBlock]bool{}
	act := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var po func(b *ssa.BasicBlock)
	po = func(b *ssa.BasicBlock) {
		seen[b] = true
		act[b] = true
		ss := append([]*ssa.BasicBlock(nil), b.Succs...)
		sort.SliceStable(ss, func(i, j int) bool {
			li, lj := scc[ss[i]] != scc[b], scc[ss[j]] != scc[b]
			if li != lj {
				return li
			}
			return false
		})
		if len(ss) == 2 && (scc[ss[0]] != scc[b]) == (scc[ss[1]] != scc[b]) {
			ss[0], ss[1] = ss[1], ss[0]
		}
		for _, s := range ss {
			if act[s] {
				fi.header[s] = true
			}
			if !seen[s] {
				po(s)
			}
		}
		act[b] = false
		post = append(post, b)
	}
	if len(fn.Blocks) > 0 {
		po(fn.Blocks[0])
	}
	for i, b := range post {
		fi.rpo[b] = len(post) - 1 - i
	}
	// liveness
	use := map[*ssa.BasicBlock]map[int]bool{}
	def := map[*ssa.BasicBlock]map[int]bool{}
	for _, b := range fn.Blocks {
		u, d := map[int]bool{}, map[int]bool{}
		for _, in := range b.Instrs {
			if phi, ok := in.(*ssa.Phi); ok {
				// phis are evaluated on the edge: treat as live-in
				u[fi.regs[phi]] = true
				continue
			}
			for _, op := range in.Operands(nil) {
				if op == nil || *op == nil {
					continue
				}
				if r, ok := fi.regs[*op]; ok && !d[r] {
					u[r] = true
				}
			}
			if v, ok := in.(ssa.Value); ok {
				d[fi.regs[v]] = true
			}
		}
		use[b], def[b] = u, d
		fi.live[b] = map[int]bool{}
	}
	for changed := true; changed; {
		changed = false
		for i := len(fn.Blocks) - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			li := fi.live[b]
			n := len(li)
			for r := range use[b] {
				li[r] = true
			}
			for _, s := range b.Succs {
				phis := map[int]bool{}
				for k, p := range s.Preds {
					if p != b {
						continue
					}
					for _, in := range s.Instrs {
						phi, ok := in.(*ssa.Phi)
						if !ok {
							break
						}
						phis[fi.regs[phi]] = true
						if r, ok := fi.regs[phi.Edges[k]]; ok && !def[b][r] {
							li[r] = true
						}
					}
				}
				for r := range fi.live[s] {
					if !def[b][r] && !phis[r] {
						li[r] = true
					}
				}
			}
			if len(li) != n {
				changed = true
			}
		}
	}
	fi.loopUse = map[int]bool{}
	var mark func(v ssa.Value)
	mark = func(v ssa.Value) {
		r, ok := fi.regs[v]
		if !ok || fi.loopUse[r] {
			return
		}
		fi.loopUse[r] = true
		if in, ok := v.(ssa.Instruction); ok {
			for _, op := range in.Operands(nil) {
				if op != nil && *op != nil {
					mark(*op)
				}
			}
		}
	}
	for _, b := range fn.Blocks {
		if !fi.inLoop[b] {
			continue
		}
		for _, in := range b.Instrs {
			for _, op := range in.Operands(nil) {
				if op != nil && *op != nil {
					mark(*op)
				}
			}
			if v, ok := in.(ssa.Value); ok {
				mark(v)
			}
		}
	}
	x.infos[fn] = fi
	return fi
}

type item struct {
	b    *ssa.BasicBlock
	idx  int
	env  []Value
	st   *State
	defs []deferred
	// just split on a value the next instruction needs: joining it again
	// would undo the split
	split bool
}

type deferred struct {
	call *ssa.CallCommon
	fn   Value
	args []Value
}

func (x *Exec) global(g *ssa.Global) int {
	if o, ok := x.globals[g]; ok {
		return o
	}
	o := newObjID()
	x.globals[g] = o
	return o
}

func (x *Exec) isOwnPkg(p *ssa.Package) bool {
	return p != nil && (x.ld.own(p.Pkg.Path()))
}

func (x *Exec) call(fv Value, args []Value, st *State) []Outcome {
	f, ok := fv.(FuncV)
	if !ok {
		panic(unsupported("call of %T", fv))
	}
	if f.nat != nil {
		return f.nat(x, st, args)
	}
	if f.bi != nil {
		panic(unsupported("call of builtin value"))
	}
	if f.fn == nil {
		return []Outcome{{st: st, panic_: true, msg: "call of nil function"}}
	}
	return x.execFunc(f.fn, args, f.bind, st)
}

func fnKey(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	return fn.String()
}

func (x *Exec) execFunc(fn *ssa.Function, args []Value, bind []Value, st *State) []Outcome {
	key := fnKey(fn)
	if in, ok := intrinsics[key]; ok {
		return in(x, st, args)
	}
	if strings.HasSuffix(key, ".init") && fn.Pkg != nil && !x.isOwnPkg(fn.Pkg) && fn.Signature.Recv() == nil {
		return []Outcome{{st: st}}
	}
	if len(fn.Blocks) == 0 || (fn.Pkg != nil && !x.isOwnPkg(fn.Pkg) && !interpStd[fn.Pkg.Pkg.Path()] && fn.Origin() == nil && fn.Synthetic == "") {
		return x.native(fn, key, args, st)
	}
	if x.isOwnPkg(fn.Pkg) {
		x.funcs[key] = true
	}
	x.depth++
	defer func() { x.depth-- }()
	if x.depth > 400 {
		panic(unsupported("call depth exceeded in %s", key))
	}
	fi := x.info(fn)
	env := make([]Value, fi.n)
	for i, p := range fn.Params {
		env[fi.regs[p]] = args[i]
	}
	for i, p := range fn.FreeVars {
		env[fi.regs[p]] = bind[i]
	}
	work := []*item{{b: fn.Blocks[0], env: env, st: st}}
	var outs []Outcome
	for len(work) > 0 {
		// lowest (rpo, idx) first
		bi := 0
		for i := 1; i < len(work); i++ {
			a, c := work[i], work[bi]
			ra, rc := fi.rpo[a.b], fi.rpo[c.b]
			if ra < rc || (ra == rc && a.idx <= c.idx) {
				bi = i
			}
		}
		it := work[bi]
		work = append(work[:bi], work[bi+1:]...)
		x.run(fn, fi, it, &work, &outs)
		if len(work) > x.maxPaths {
			panic(unsupported("more than %d live paths in %s", x.maxPaths, key))
		}
	}
	if x.merge && len(outs) > 1 {
		outs = x.mergeOutcomes(outs)
	}
	return outs
}

func (x *Exec) push(fi *funcInfo, work *[]*item, it *item) {
	if x.merge && it.idx == 0 && !it.split && !fi.header[it.b] && len(it.defs) == 0 {
		for _, o := range *work {
			if o.b == it.b && o.idx == 0 && !o.split && len(o.defs) == 0 {
				if x.mergeItems(fi, o, it) {
					return
				}
			}
		}
	}
	*work = append(*work, it)
}

// follow moves an item along an edge, evaluating phis.
func (x *Exec) follow(fi *funcInfo, it *item, to *ssa.BasicBlock) {
	k := -1
	for i, p := range to.Preds {
		if p == it.b {
			k = i
			break
		}
	}
	var vals []Value
	var regs []int
	for _, in := range to.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		vals = append(vals, x.val(fi, it, phi.Edges[k]))
		regs = append(regs, fi.regs[phi])
	}
	for i, r := range regs {
		it.env[r] = vals[i]
	}
	it.b = to
	it.idx = 0
	it.split = false
}

func cloneItem(it *item) *item {
	n := *it
	n.env = append([]Value(nil), it.env...)
	n.defs = append([]deferred(nil), it.defs...)
	n.st = it.st.fork()
	return &n
}

// run executes an item until it forks, moves to a join, or ends.
func (x *Exec) run(fn *ssa.Function, fi *funcInfo, it *item, work *[]*item, outs *[]Outcome) {
	for {
		if it.idx >= len(it.b.Instrs) {
			panic(unsupported("fell off block in %s", fn))
		}
		in := it.b.Instrs[it.idx]
		x.steps++
		if x.steps > x.maxSteps {
			panic(unsupported("step budget exhausted in %s", fn))
		}
		if x.steps&1023 == 0 && time.Now().After(x.deadline) {
			panic(unsupported("time budget exhausted in %s", fn))
		}
		switch in := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			it.idx++
			continue
		case *ssa.Jump:
			to := it.b.Succs[0]
			x.follow(fi, it, to)
			if len(to.Preds) > 1 && !fi.header[to] && (len(*work) > 0) {
				x.push(fi, work, it)
				return
			}
			continue
		case *ssa.If:
			c := x.val(fi, it, in.Cond)
			if b, ok := c.(bool); ok {
				s := 1
				if b {
					s = 0
				}
				to := it.b.Succs[s]
				x.follow(fi, it, to)
				if len(to.Preds) > 1 && !fi.header[to] && (len(*work) > 0) {
					x.push(fi, work, it)
					return
				}
				continue
			}
			t := c.(*Term)
			yes, no := x.feasible(it.st, t, fi.inLoop[it.b] || !x.merge)
			if yes && no {
				x.forks++
				o := cloneItem(it)
				o.st.assume(Not(t))
				x.follow(fi, o, o.b.Succs[1])
				it.st.assume(t)
				x.follow(fi, it, it.b.Succs[0])
				x.push(fi, work, o)
				x.push(fi, work, it)
				return
			}
			s := 0
			if !yes {
				s = 1
				t = Not(t)
			}
			if !yes && !no {
				return // infeasible path
			}
			// the branch is forced: remember only what is not implied trivially
			to := it.b.Succs[s]
			x.follow(fi, it, to)
			continue
		case *ssa.Return:
			var v Value
			switch len(in.Results) {
			case 0:
			case 1:
				v = x.val(fi, it, in.Results[0])
			default:
				tv := make(TupleV, len(in.Results))
				for i, r := range in.Results {
					tv[i] = x.val(fi, it, r)
				}
				v = tv
			}
			*outs = append(*outs, Outcome{st: it.st, val: v})
			return
		}
		multi, ok := x.stepSafe(fn, fi, it, in, outs)
		if !ok {
			return
		}
		if multi == nil {
			it.idx++
			continue
		}
		for _, m := range multi {
			x.push(fi, work, m)
		}
		return
	}
}

// stepSafe runs one instruction; converts split requests into forks and Go
// panics into outcomes.
func (x *Exec) stepSafe(fn *ssa.Function, fi *funcInfo, it *item, in ssa.Instruction, outs *[]Outcome) (multi []*item, cont bool) {
	var split *needSplit
	var gp *goPanic
	nObl := len(x.obls)
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch e := r.(type) {
				case needSplit:
					split = &e
				case goPanic:
					gp = &e
				default:
					panic(r)
				}
			}
		}()
		multi, cont = x.step(fn, fi, it, in, outs)
	}()
	if gp != nil {
		pos := x.prog.Fset.Position(in.Pos())
		*outs = append(*outs, x.unwindDefers(it, Outcome{st: it.st, panic_: true, msg: fmt.Sprintf("%s at %s", gp.msg, pos)})...)
		return nil, false
	}
	if split != nil {
		x.obls = x.obls[:nObl]
		conds := split.conds
		if conds == nil {
			conds = x.enumerate(it.st, split.t)
		}
		for _, c := range conds {
			yes, _ := x.feasible(it.st, c, true)
			if !yes {
				continue
			}
			o := cloneItem(it)
			o.st.assume(c)
			if split.t != nil && c.op == OEq0 || c == TTrue {
				x.pin(o.st, split.t, c)
			}
			o.split = true
			multi = append(multi, o)
			x.forks++
		}
		if multi == nil {
			return nil, false
		}
		return multi, true
	}
	return
}

// pins: terms decided on this path
func (x *Exec) pin(st *State, t *Term, c *Term) {}

func (x *Exec) enumerate(st *State, t *Term) []*Term {
	lo, hi := st.interval(t, map[*Term][2]*big.Rat{})
	if lo == nil || hi == nil {
		panic(unsupported("cannot enumerate an unbounded value"))
	}
	w := new(big.Rat).Sub(hi, lo)
	if w.Cmp(rat(6000)) > 0 {
		panic(unsupported("cannot enumerate a value with %s possibilities", w.FloatString(0)))
	}
	var out []*Term
	for n := ratFloor(lo).Int64(); n <= ratFloor(hi).Int64(); n++ {
		if c := Eq(t, IntC(n)); c != TFalse {
			out = append(out, c)
		}
	}
	return out
}

// concretize returns the value of an integer on this path, forking if needed.
func (x *Exec) concretize(st *State, v Value) int64 {
	switch t := v.(type) {
	case int64:
		return t
	case *Term:
		lo, hi := st.interval(t, map[*Term][2]*big.Rat{})
		if lo != nil && hi != nil && lo.Cmp(hi) == 0 {
			return lo.Num().Int64()
		}
		// decided by an equality on the path?
		for p := st.pc; p != nil; p = p.parent {
			if p.c.op == OEq0 {
				// t = n  <=>  a*t + b = 0 with the same homogeneous part
				if n, ok := solveFor(p.c.args[0], t); ok {
					return n
				}
			}
		}
		panic(needSplit{t: t})
	}
	panic(unsupported("concretize %T", v))
}

// solveFor: e = 0 pins t when e = a*t + b.
func solveFor(e, t *Term) (int64, bool) {
	ec0, ea, ec := linParts(e)
	tc0, ta, tc := linParts(t)
	if len(ea) != len(ta) || len(ea) == 0 {
		return 0, false
	}
	var f *big.Rat
	for i := range ea {
		if ea[i] != ta[i] {
			return 0, false
		}
		r := new(big.Rat).Quo(tc[i], ec[i])
		if f == nil {
			f = r
		} else if f.Cmp(r) != 0 {
			return 0, false
		}
	}
	// t - tc0 = f*(e - ec0) = -f*ec0
	v := new(big.Rat).Sub(tc0, new(big.Rat).Mul(f, ec0))
	if !v.IsInt() || !v.Num().IsInt64() {
		return 0, false
	}
	return v.Num().Int64(), true
}

// feasible reports which truth values of c are possible on the path.
func (x *Exec) feasible(st *State, c *Term, useSolver bool) (yes, no bool) {
	if c == TTrue {
		return true, false
	}
	if c == TFalse {
		return false, true
	}
	switch st.quick(c, nil) {
	case Sat:
		claimPath(st, c, true, nil)
		return true, false
	case Unsat:
		claimPath(st, c, false, nil)
		return false, true
	}
	nc := Not(c)
	switch st.onPath(c) {
	case Sat:
		return true, false
	case Unsat:
		return false, true
	}
	if y, n, known := x.byTable(st, c); known {
		return y, n
	}
	if !useSolver || x.feasMS == 0 {
		return true, true
	}
	// an input compared with one of the values left in its interval: take both
	// (a path that is infeasible for another reason only adds vacuous work)
	if a := c; a.op == OEq0 || a.op == ONot && a.args[0].op == OEq0 {
		if a.op == ONot {
			a = a.args[0]
		}
		if _, atoms, _ := linParts(a.args[0]); len(atoms) == 1 && atoms[0].op == OVar && atoms[0].input {
			return true, true
		}
	}
	pc := st.pcList()
	y := x.pathChk.check(append(append([]*Term(nil), pc...), c), x.feasMS)
	if y == Unsat {
		return false, true
	}
	n := x.pathChk.check(append(append([]*Term(nil), pc...), nc), x.feasMS)
	return true, n != Unsat
}

// ---------------------------------------------------------------- merging

func pcSuffix(a, b *pcNode) (ca, cb []*Term, common *pcNode) {
	for a != b {
		na, nb := 0, 0
		if a != nil {
			na = a.n
		}
		if b != nil {
			nb = b.n
		}
		if na >= nb {
			ca = append(ca, a.c)
			a = a.parent
		} else {
			cb = append(cb, b.c)
			b = b.parent
		}
	}
	return ca, cb, a
}

type noMerge struct{}

func sameValue(a, b Value) bool {
	switch x := a.(type) {
	case nil:
		return b == nil
	case int64, bool, string, *Term, Ptr, SliceV, MapV, IterV, LocV, *natErr, *fsObj:
		switch b.(type) {
		case int64, bool, string, *Term, Ptr, SliceV, MapV, IterV, LocV, *natErr, *fsObj:
			return a == b
		}
		return false
	case float64:
		y, ok := b.(float64)
		return ok && math.Float64bits(x) == math.Float64bits(y)
	case StructV:
		y, ok := b.(StructV)
		if !ok || len(x.f) != len(y.f) {
			return false
		}
		if len(x.f) > 0 && &x.f[0] == &y.f[0] {
			return true
		}
		for i := range x.f {
			if !sameValue(x.f[i], y.f[i]) {
				return false
			}
		}
		return true
	case ArrayV:
		y, ok := b.(ArrayV)
		if !ok || len(x.e) != len(y.e) {
			return false
		}
		if len(x.e) > 0 && &x.e[0] == &y.e[0] {
			return true
		}
		for i := range x.e {
			if !sameValue(x.e[i], y.e[i]) {
				return false
			}
		}
		return true
	case TupleV:
		y, ok := b.(TupleV)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !sameValue(x[i], y[i]) {
				return false
			}
		}
		return true
	case TimeV:
		y, ok := b.(TimeV)
		return ok && sameValue(x.sec, y.sec) && sameValue(x.nsec, y.nsec) && x.loc == y.loc
	case IfaceV:
		y, ok := b.(IfaceV)
		if !ok {
			return false
		}
		if x.t == nil || y.t == nil {
			return x.t == nil && y.t == nil
		}
		return types.Identical(x.t, y.t) && sameValue(x.v, y.v)
	case FuncV:
		y, ok := b.(FuncV)
		if !ok || x.fn != y.fn || x.bi != y.bi || len(x.bind) != len(y.bind) || x.nat != nil || y.nat != nil {
			return false
		}
		for i := range x.bind {
			if !sameValue(x.bind[i], y.bind[i]) {
				return false
			}
		}
		return true
	case *SymStr:
		y, ok := b.(*SymStr)
		if !ok {
			return false
		}
		if x == y {
			return true
		}
		if x.id != nil || y.id != nil {
			return x.id == y.id
		}
		if len(x.segs) != len(y.segs) {
			return false
		}
		for i := range x.segs {
			if x.segs[i] != y.segs[i] {
				return false
			}
		}
		return true
	case *MapObj:
		y, ok := b.(*MapObj)
		if !ok {
			return false
		}
		if x == y {
			return true
		}
		if len(x.keys) != len(y.keys) {
			return false
		}
		for i := range x.keys {
			if !sameValue(x.keys[i], y.keys[i]) || !sameValue(x.vals[i], y.vals[i]) {
				return false
			}
		}
		return true
	case *IterObj:
		y, ok := b.(*IterObj)
		return ok && x == y
	}
	return false
}

// mergeVal builds ite(c,a,b); panics noMerge when the kinds do not allow it.
func mergeVal(c *Term, a, b Value, atReturn bool) Value {
	if sameValue(a, b) {
		return a
	}
	isInt := func(v Value) bool { _, ok := v.(int64); return ok }
	switch xa := a.(type) {
	case bool:
		switch b.(type) {
		case bool, *Term:
			return fromTermBool(Ite(c, toTerm(a), toTerm(b)))
		}
	case int64:
		if isInt(b) && !atReturn {
			panic(noMerge{})
		}
		switch b.(type) {
		case int64, *Term:
			if tb, ok := b.(*Term); ok && tb.sort == SBool {
				panic(noMerge{})
			}
			return fromTermInt(Ite(c, toTerm(a), toTerm(b)))
		}
	case float64:
		if math.IsNaN(xa) || math.IsInf(xa, 0) {
			panic(noMerge{})
		}
		switch y := b.(type) {
		case float64:
			if math.IsNaN(y) || math.IsInf(y, 0) {
				panic(noMerge{})
			}
			return fromTermFloat(Ite(c, toTerm(a), toTerm(b)))
		case *Term:
			return fromTermFloat(Ite(c, toTerm(a), y))
		}
	case *Term:
		switch y := b.(type) {
		case bool, int64, float64, *Term:
			if f, ok := y.(float64); ok && (math.IsNaN(f) || math.IsInf(f, 0)) {
				panic(noMerge{})
			}
			tb := toTerm(b)
			if (xa.sort == SBool) != (tb.sort == SBool) {
				panic(noMerge{})
			}
			return Ite(c, xa, tb)
		}
	case StructV:
		y, ok := b.(StructV)
		if ok && len(xa.f) == len(y.f) {
			f := make([]Value, len(xa.f))
			for i := range f {
				f[i] = mergeVal(c, xa.f[i], y.f[i], atReturn)
			}
			return StructV{f}
		}
	case ArrayV:
		y, ok := b.(ArrayV)
		if ok && len(xa.e) == len(y.e) {
			e := make([]Value, len(xa.e))
			for i := range e {
				e[i] = mergeVal(c, xa.e[i], y.e[i], atReturn)
			}
			return ArrayV{e}
		}
	case TupleV:
		y, ok := b.(TupleV)
		if ok && len(xa) == len(y) {
			e := make(TupleV, len(xa))
			for i := range e {
				e[i] = mergeVal(c, xa[i], y[i], atReturn)
			}
			return e
		}
	case TimeV:
		y, ok := b.(TimeV)
		if ok && normLoc(xa.loc) == normLoc(y.loc) {
			return TimeV{sec: mergeVal(c, xa.sec, y.sec, true), nsec: mergeVal(c, xa.nsec, y.nsec, true), loc: xa.loc}
		}
	case IfaceV:
		y, ok := b.(IfaceV)
		if ok && xa.t != nil && y.t != nil && types.Identical(xa.t, y.t) {
			return IfaceV{xa.t, mergeVal(c, xa.v, y.v, atReturn)}
		}
	}
	panic(noMerge{})
}

func normLoc(s string) string {
	if s == "" {
		return "UTC"
	}
	return s
}

// mergeStates merges b into a under ca/cb; ok=false leaves both untouched.
func (x *Exec) mergeStates(a, b *State, extra func(c *Term) bool, atReturn bool) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(noMerge); is {
				ok = false
				return
			}
			if _, is := r.(unsupportedErr); is {
				ok = false
				return
			}
			panic(r)
		}
	}()
	if len(a.obs) != len(b.obs) {
		return false
	}
	ca, cb, common := pcSuffix(a.pc, b.pc)
	if len(ca)+len(cb) > 400 {
		return false
	}
	ta, tb := And(ca...), And(cb...)
	type change struct {
		o int
		v Value
	}
	var merged []change
	heapDiff(a.heap, b.heap, func(o int, ca, cb *hcell) {
		switch {
		case ca == nil:
			merged = append(merged, change{o, cb.v})
		case cb != nil && !sameValue(ca.v, cb.v):
			merged = append(merged, change{o, mergeVal(ta, ca.v, cb.v, atReturn)})
		}
	})
	obs := make([]obsEntry, len(a.obs))
	for i := range a.obs {
		if a.obs[i].name != b.obs[i].name {
			return false
		}
		obs[i] = obsEntry{a.obs[i].name, mergeVal(ta, a.obs[i].v, b.obs[i].v, true)}
	}
	if extra != nil && !extra(ta) {
		return false
	}
	// commit into a
	for _, m := range merged {
		a.store(m.o, m.v)
	}
	a.obs = obs
	a.pc = common
	nb := map[*Term][2]*big.Rat{}
	for v, ba := range a.bounds {
		bb, ok := b.bounds[v]
		if !ok {
			continue
		}
		nb[v] = [2]*big.Rat{minR(ba[0], bb[0]), maxR(ba[1], bb[1])}
	}
	a.bounds = nb
	or := Or(ta, tb)
	if or != TTrue {
		n := 1
		if common != nil {
			n = common.n + 1
		}
		a.pc = &pcNode{parent: common, c: or, n: n}
	}
	x.merges++
	return true
}

func (x *Exec) mergeItems(fi *funcInfo, o, it *item) bool {
	live := fi.live[o.b]
	env := make([]Value, len(o.env))
	return x.mergeStates(o.st, it.st, func(c *Term) bool {
		for r := range live {
			env[r] = mergeVal(c, o.env[r], it.env[r], !fi.loopUse[r])
		}
		o.env = env
		return true
	}, !fi.inLoop[o.b])
}

func (x *Exec) mergeOutcomes(outs []Outcome) []Outcome {
	var res []Outcome
	for _, o := range outs {
		done := false
		if !o.panic_ && !o.stop {
			for i := range res {
				r := &res[i]
				if r.panic_ || r.stop {
					continue
				}
				var mv Value
				if x.mergeStates(r.st, o.st, func(c *Term) bool {
					mv = mergeVal(c, r.val, o.val, true)
					return true
				}, true) {
					r.val = mv
					done = true
					break
				}
			}
		}
		if !done {
			res = append(res, o)
		}
	}
	return res
}

// ---------------------------------------------------------------- operands

func (x *Exec) constVal(c *ssa.Const) Value {
	if c.Value == nil {
		return zeroValue(c.Type())
	}
	b, ok := c.Type().Underlying().(*types.Basic)
	if !ok {
		panic(unsupported("const of type %s", c.Type()))
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return constant.BoolVal(c.Value)
	case b.Info()&types.IsString != 0:
		return constant.StringVal(c.Value)
	case b.Info()&types.IsInteger != 0:
		if n, ok := constant.Int64Val(constant.ToInt(c.Value)); ok {
			return n
		}
		n, _ := constant.Uint64Val(constant.ToInt(c.Value))
		return int64(n)
	case b.Info()&types.IsFloat != 0:
		f, _ := constant.Float64Val(c.Value)
		if b.Kind() == types.Float32 {
			f = float64(float32(f))
		}
		return f
	}
	panic(unsupported("const %s", c))
}

func (x *Exec) val(fi *funcInfo, it *item, v ssa.Value) Value {
	switch c := v.(type) {
	case *ssa.Const:
		return x.constVal(c)
	case *ssa.Global:
		return Ptr{obj: x.global(c)}
	case *ssa.Function:
		return FuncV{fn: c}
	case *ssa.Builtin:
		return FuncV{bi: c}
	}
	r, ok := fi.regs[v]
	if !ok {
		panic(unsupported("no register for %s", v))
	}
	return it.env[r]
}

func (x *Exec) loadPtr(st *State, v Value, t types.Type) Value {
	p, ok := v.(Ptr)
	if !ok {
		panic(unsupported("load through %T", v))
	}
	if p.obj == 0 {
		panic(goPanic{"nil pointer dereference"})
	}
	o, ok := st.load(p.obj)
	if !ok {
		// an uninitialised global of a package we do not initialise
		for g, id := range x.globals {
			if id == p.obj {
				if gv, ok := globalIntrinsic(g); ok {
					return getPath(gv, pathParts(p.path))
				}
				if g.Pkg == nil || !x.isOwnPkg(g.Pkg) && !interpStd[g.Pkg.Pkg.Path()] {
					panic(unsupported("global %s", g))
				}
				o = zeroValue(g.Type().(*types.Pointer).Elem())
				st.store(p.obj, o)
				return getPath(o, pathParts(p.path))
			}
		}
		panic(unsupported("dangling object %d", p.obj))
	}
	return getPath(o, pathParts(p.path))
}

func (x *Exec) storePtr(st *State, v Value, nv Value) {
	p, ok := v.(Ptr)
	if !ok {
		panic(unsupported("store through %T", v))
	}
	if p.obj == 0 {
		panic(goPanic{"nil pointer dereference"})
	}
	x.noteStore(st, p.obj)
	if p.path == "" {
		st.store(p.obj, nv)
		return
	}
	o, ok := st.load(p.obj)
	if !ok {
		x.loadPtr(st, Ptr{obj: p.obj}, nil)
		o, _ = st.load(p.obj)
	}
	st.store(p.obj, setPath(o, pathParts(p.path), nv))
}

// noteStore checks that a store after VShared is to something of the call's own.
func (x *Exec) noteStore(st *State, obj int) {
	if st.watch == 0 {
		return
	}
	own := obj > st.watch
	if own {
		for _, id := range x.globals {
			if id == obj {
				own = false
			}
		}
	}
	if own {
		x.ownStores++
		return
	}
	x.obls = append(x.obls, &Obligation{label: sharedLabel, kind: "race", pc: st.pcList(), goal: TFalse})
}

const sharedLabel = "no call writes to the package's shared state"

func (x *Exec) sliceElems(st *State, s SliceV) []Value {
	if s.len == 0 {
		return nil
	}
	o, _ := st.load(s.obj)
	a := getPath(o, pathParts(s.path)).(ArrayV)
	return a.e[s.off : s.off+s.len]
}

func (x *Exec) newSlice(st *State, e []Value) SliceV {
	if len(e) == 0 {
		o := st.alloc(ArrayV{})
		return SliceV{obj: o}
	}
	o := st.alloc(ArrayV{append([]Value(nil), e...)})
	return SliceV{obj: o, len: len(e), cap: len(e)}
}

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "engine: "+f+"\n", a...)
	os.Exit(2)
}

var _ = token.ADD
