package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"runtime/pprof"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Job: one harness on one piece of its input domain.
type Job struct {
	Prop     string
	Fn       string
	Pkg      string
	Tier     int
	Ranges   map[string][2]int
	Deadline float64 // seconds for the whole job
	SolveSec float64
	// seconds for putting the engine's own steps to a solver
	ConfirmSec float64
	Known      []Known
	Replay     string
	FeasMS     int
	Mode       string // "", "nomerge", "fork"
	NoFall     bool
	Batch      int
	Seed       int64
	Race       bool // replay under the race detector
	Tables     bool // large comparisons over one input go to the solver as ranges of it
}

type Known struct {
	Property string              `json:"property"`
	Label    string              `json:"label"`
	Inputs   map[string][2]int64 `json:"inputs"`
	What     string              `json:"what"`
}

type Viol struct {
	Label     string
	Inputs    map[string]int64
	Confirmed bool
	Detail    string
	Known     string
}

type JobResult struct {
	Fn, Piece    string
	Mode         string
	Err          string
	Fell         string // why it was not encoded in the modes before
	Bounds       []string
	Funcs        []string
	Natives      []string
	Labels       map[string]int
	Obls         int
	ByInterval   int
	ByNormalForm int
	BySolver     int
	ByCases      int
	UnknownObl   []string
	Viols        []Viol
	Unconfirmed  []Viol
	Witness      int
	WitnessSat   int
	Mismatch     []string
	Queries      int64
	SolverNs     int64
	FeasQ        int64
	Solvers      map[string]int64
	Steps        int
	Paths        int
	Merges       int
	MapRange     []string
	Samples      []string
	WallS        float64
	Empty        bool
	Frac         float64
	Claims       int // decisions made by interval arithmetic
	ClaimsOK     int // of those, decided again by a solver
	Defs, DefsOK int // the same for rewriting steps
}

type engineCtx struct {
	ld      *Loader
	prog    *ssa.Program
	base    *State
	globals map[*ssa.Global]int
	pkg     *ssa.Package
	repoPkg *ssa.Package
	scratch string
}

func loadCtx(repo, verif, hpkg, scratch string) (*engineCtx, error) {
	ld := newLoader(repo, verif)
	ld.core = hpkg == "core"
	root := "h" + hpkg
	prog, err := ld.build(repoImport, root)
	if err != nil {
		return nil, err
	}
	c := &engineCtx{ld: ld, prog: prog, scratch: scratch}
	c.pkg = prog.Package(ld.pkgs[root])
	c.repoPkg = prog.Package(ld.pkgs[repoImport])
	x := newExec(prog, ld)
	x.pathChk = newPathChecker()
	defer x.pathChk.stop()
	x.deadline = time.Now().Add(60 * time.Second)
	st := newState()
	for _, p := range []*ssa.Package{c.repoPkg, c.pkg} {
		var ierr error
		func() {
			defer func() {
				if r := recover(); r != nil {
					if u, ok := r.(unsupportedErr); ok {
						ierr = fmt.Errorf("package initialisation: %s", u.msg)
						return
					}
					panic(r)
				}
			}()
			outs := x.execFunc(p.Func("init"), nil, nil, st)
			if len(outs) != 1 || outs[0].panic_ {
				ierr = fmt.Errorf("package initialisation did not complete")
				return
			}
			st = outs[0].st
		}()
		if ierr != nil {
			return nil, ierr
		}
	}
	c.base = st
	c.globals = x.globals
	return c, nil
}

func (c *engineCtx) exec(job *Job, mode string) (x *Exec, err error) {
	x = newExec(c.prog, c.ld)
	x.globals = c.globals
	x.pathChk = newPathChecker()
	defer x.pathChk.stop()
	x.deadline = time.Now().Add(time.Duration(job.Deadline * float64(time.Second)))
	x.tier = job.Tier
	x.ranges = job.Ranges
	x.merge = mode == ""
	x.forkInputs = mode == "fork"
	if job.FeasMS > 0 {
		x.feasMS = job.FeasMS
	}
	fn := c.pkg.Func(job.Fn)
	if fn == nil {
		return x, fmt.Errorf("no harness %s", job.Fn)
	}
	st := c.base.fork()
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unsupportedErr); ok {
				err = fmt.Errorf("%s", u.msg)
				return
			}
			if s, ok := r.(needSplit); ok {
				err = fmt.Errorf("split outside an instruction (%v)", s)
				return
			}
			panic(r)
		}
	}()
	for _, o := range x.execFunc(fn, nil, nil, st) {
		if o.stop {
			continue
		}
		if o.panic_ {
			x.addPanic(o)
			continue
		}
		x.ends = append(x.ends, o.st)
	}
	return x, nil
}

func (x *Exec) addPanic(o Outcome) {
	x.obls = append(x.obls, &Obligation{label: "no-panic: " + o.msg, pc: o.st.pcList(), goal: TFalse, kind: "panic"})
}

func (x *Exec) modelInputs(m Model) map[string]int64 {
	in := map[string]int64{}
	for n, t := range x.inputs {
		if v, ok := m[n]; ok {
			in[n] = ratFloor(v).Int64()
		} else {
			in[n] = ratFloor(t.lo).Int64()
		}
	}
	return in
}

func showInputs(in map[string]int64) string {
	var ks []string
	for k := range in {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var sb strings.Builder
	for i, k := range ks {
		if i > 0 {
			sb.WriteString(" ")
		}
		fmt.Fprintf(&sb, "%s=%d", k, in[k])
	}
	return sb.String()
}

func (c *engineCtx) run(job *Job) *JobResult {
	t0 := time.Now()
	res := &JobResult{Fn: job.Fn, Labels: map[string]int{}, Solvers: map[string]int64{}}
	for k, r := range job.Ranges {
		res.Piece += fmt.Sprintf("%s:%d/%d ", k, r[0]+1, r[1])
	}
	stats = SolveStats{BySolver: map[string]int64{}}
	feasQueries, feasUnknown = 0, 0
	modes := []string{"", "nomerge", "fork"}
	if job.Mode == "nomerge" {
		modes = modes[1:]
	} else if job.Mode == "fork" {
		modes = modes[2:]
	}
	if job.NoFall {
		modes = modes[:1]
	}
	var x *Exec
	for _, m := range modes {
		var err error
		x, err = c.exec(job, m)
		res.Mode = m
		if err == nil {
			res.Fell, res.Err = res.Err, ""
			break
		}
		if res.Err != "" {
			res.Err += "; "
		}
		res.Err += fmt.Sprintf("[%s] %s", m, err)
	}
	if res.Mode == "" {
		res.Mode = "merge"
	}
	res.Steps, res.Paths, res.Merges = x.steps, len(x.ends), x.merges
	res.Bounds = x.bounds
	for f := range x.funcs {
		res.Funcs = append(res.Funcs, f)
	}
	for f := range x.natives {
		res.Natives = append(res.Natives, f)
	}
	for f := range x.mapRange {
		res.MapRange = append(res.MapRange, f)
	}
	sort.Strings(res.Funcs)
	finish := func() *JobResult {
		res.Queries, res.SolverNs, res.FeasQ = stats.Queries, stats.SolverNs, feasQueries
		for k, v := range stats.BySolver {
			res.Solvers[k] = v
		}
		res.WallS = time.Since(t0).Seconds()
		return res
	}
	if res.Err != "" {
		return finish()
	}
	end := time.Now().Add(time.Duration(job.Deadline * float64(time.Second)))
	c.witness(job, x, res)
	c.solve(job, x, res, end)
	if len(res.Viols) == 0 {
		c.confirm(job, res)
	}
	return finish()
}

// witness: the harness is not vacuous, and the encoding predicts what the
// compiled code does on the witness.
func (c *engineCtx) witness(job *Job, x *Exec, res *JobResult) {
	if len(x.ends) == 0 {
		res.Empty = true
		return
	}
	pick := []*State{x.ends[0]}
	if len(x.ends) > 1 {
		pick = append(pick, x.ends[len(x.ends)-1], x.ends[len(x.ends)/2])
	}
	for _, st := range pick {
		res.Witness++
		m, ok := x.guess(st.pcList(), job.Seed)
		if !ok {
			// Float arithmetic on the path: candidates by evaluation first. One
			// that does not play out as predicted is only a bad candidate.
			hit, tries := false, 0
			search(And(st.pcList()...), job.Seed, 2*time.Second, func(pt map[*Term]int64) bool {
				g := Model{}
				for _, n := range x.inputSeq {
					g[n] = rat(pt[x.inputs[n]])
					if t := x.inputs[n]; pt[t] == 0 && t.lo != nil && t.lo.Sign() > 0 {
						g[n] = t.lo
					}
				}
				in, bad := c.playWitness(job, x, st, g)
				if hit = bad == ""; hit {
					res.WitnessSat++
					if len(res.Samples) < 3 {
						res.Samples = append(res.Samples, showInputs(in))
					}
				}
				tries++
				return hit || tries >= 4
			})
			if hit {
				continue
			}
			var v Verdict
			v, m, _ = Solve(st.pcList(), time.Duration(job.SolveSec*float64(time.Second)))
			if v != Sat {
				continue
			}
		}
		in, bad := c.playWitness(job, x, st, m)
		if len(res.Samples) < 3 {
			res.Samples = append(res.Samples, showInputs(in))
		}
		if bad != "" {
			res.Mismatch = append(res.Mismatch, fmt.Sprintf("witness %s: %s", showInputs(in), bad))
			continue
		}
		res.WitnessSat++
	}
}

// playWitness runs the compiled code on the model's inputs and compares what
// it observes with what the encoding predicts.
func (c *engineCtx) playWitness(job *Job, x *Exec, st *State, m Model) (map[string]int64, string) {
	in := x.modelInputs(m)
	for n, v := range in {
		if b := x.inBounds[n]; v < b[0] || v > b[1] {
			return in, "lies outside the piece"
		}
	}
	rr := runReplay(job.Replay, job.Fn, in, job.Tier, c.scratch)
	if !rr.Done {
		return in, fmt.Sprintf("did not complete natively: %+v", rr)
	}
	if len(rr.Obs) != len(st.obs) {
		return in, fmt.Sprintf("%d observations predicted, %d seen", len(st.obs), len(rr.Obs))
	}
	memo := map[*Term]*big.Rat{}
	for i, o := range st.obs {
		t, isT := o.v.(*Term)
		if isT && !exactInt(t) {
			continue
		}
		want := ""
		if isT {
			want = o.name + " " + evalTerm(t, fullModel(m, in), memo).RatString()
		} else {
			want = fmt.Sprintf("%s %v", o.name, o.v)
		}
		if rr.Obs[i] != want {
			return in, fmt.Sprintf("predicted %q, saw %q", want, rr.Obs[i])
		}
	}
	return in, ""
}

// guess looks for inputs on the path by evaluating its condition.
func (x *Exec) guess(pc []*Term, seed int64) (Model, bool) {
	f := And(pc...)
	if newClosure([]*Term{f}).hasReal() {
		return nil, false
	}
	for _, v := range newClosure([]*Term{f}).inputs() {
		if !v.input {
			return nil, false
		}
	}
	rng := rand.New(rand.NewSource(seed + int64(len(pc))))
	for i := 0; i < 200; i++ {
		m := Model{}
		for _, n := range x.inputSeq {
			t := x.inputs[n]
			w := new(big.Rat).Sub(t.hi, t.lo).Num().Int64() + 1
			m[n] = new(big.Rat).Add(t.lo, rat(rng.Int63n(w)))
		}
		if evalTerm(f, m, map[*Term]*big.Rat{}).Sign() != 0 {
			return m, true
		}
	}
	return nil, false
}

func fullModel(m Model, in map[string]int64) Model {
	n := Model{}
	for k, v := range m {
		n[k] = v
	}
	for k, v := range in {
		n[k] = rat(v)
	}
	return n
}

func exactInt(t *Term) bool {
	c := newClosure([]*Term{Eq0(t)})
	return !c.hasReal()
}

func (x *Exec) inputConsts(in map[string]int64) map[*Term]*Term {
	m := map[*Term]*Term{}
	for n, t := range x.inputs {
		m[t] = IntC(in[n])
	}
	return m
}

func (x *Exec) blockInputs(in map[string]int64) *Term {
	var eqs []*Term
	for n, t := range x.inputs {
		eqs = append(eqs, Eq(t, IntC(in[n])))
	}
	return Not(And(eqs...))
}

func (x *Exec) inBox(b map[string][2]int64) *Term {
	var cs []*Term
	for n, r := range b {
		t, ok := x.inputs[n]
		if !ok {
			return TFalse
		}
		cs = append(cs, Le(IntC(r[0]), t), Le(t, IntC(r[1])))
	}
	return And(cs...)
}

func (c *engineCtx) solve(job *Job, x *Exec, res *JobResult, end time.Time) {
	type ob struct {
		o *Obligation
		f *Term
	}
	var open []ob
	seen := map[string]bool{}
	if x.ownStores > 0 {
		res.Obls += x.ownStores
		res.ByInterval += x.ownStores
		res.Labels[sharedLabel] += x.ownStores
	}
	for _, o := range x.obls {
		res.Obls++
		res.Labels[o.label]++
		if o.trivial && o.goal == TTrue {
			res.ByNormalForm++
			continue
		}
		if o.trivial {
			res.ByInterval++
			continue
		}
		f := And(o.formula()...)
		if job.Tables {
			f = compact(f)
		}
		for _, k := range job.Known {
			if k.Label == o.label {
				v, m, _ := Solve([]*Term{f, x.inBox(k.Inputs)}, 20*time.Second)
				if v == Sat {
					in := x.modelInputs(m)
					rr := runReplay(job.Replay, job.Fn, in, job.Tier, c.scratch)
					if confirmed(o, rr) {
						res.Viols = append(res.Viols, Viol{Label: o.label, Inputs: in, Confirmed: true, Known: k.What})
					}
				}
				f = And(f, Not(x.inBox(k.Inputs)))
			}
		}
		if f == TFalse {
			res.ByNormalForm++
			continue
		}
		key := fmt.Sprintf("%d|%s", f.id, o.label)
		if seen[key] {
			res.Obls--
			continue
		}
		seen[key] = true
		open = append(open, ob{o, f})
	}
	solveT := time.Duration(job.SolveSec * float64(time.Second))
	nUnconf := 0
	violated := map[string]bool{}
	var one func(b ob)
	one = func(b ob) {
		f := b.f
		for try := 0; try < 10; try++ {
			if violated[b.o.label] {
				return
			}
			v, m, _ := Solve([]*Term{f}, solveT)
			switch v {
			case Unsat:
				if try == 0 {
					res.BySolver++
				} else {
					res.UnknownObl = append(res.UnknownObl, b.o.label+" (unsat after unconfirmed models)")
				}
				return
			case Unknown:
				if c.lookup(job, x, f, b.o, res, violated, 3*time.Second) {
					return
				}
				if byCut(f) {
					res.ByCases++
					return
				}
				if n, ok := c.cases(job, x, f, b.o, res, end); ok {
					_ = n
					res.ByCases++
					return
				}
				if !violated[b.o.label] && !c.lookup(job, x, f, b.o, res, violated, 12*time.Second) {
					res.UnknownObl = append(res.UnknownObl, b.o.label)
				}
				return
			}
			in := x.modelInputs(m)
			rr := runReplay(job.Replay, job.Fn, in, job.Tier, c.scratch)
			if confirmed(b.o, rr) {
				res.Viols = append(res.Viols, Viol{Label: b.o.label, Inputs: in, Confirmed: true, Detail: rr.Panic})
				violated[b.o.label] = true
				return
			}
			nUnconf++
			if try == 2 && c.lookup(job, x, b.f, b.o, res, violated, 5*time.Second) {
				return
			}
			res.Unconfirmed = append(res.Unconfirmed, Viol{Label: b.o.label, Inputs: in, Detail: fmt.Sprintf("%+v", rr)})
			if time.Now().After(end) {
				break
			}
			refineTrig(f, x.inputConsts(in))
			f = And(f, x.blockInputs(in))
		}
		res.UnknownObl = append(res.UnknownObl, b.o.label+" (unconfirmed)")
	}
	var group func(bs []ob)
	group = func(bs []ob) {
		if len(bs) == 0 || len(violated) > 0 {
			return
		}
		if time.Now().After(end) {
			for _, b := range bs {
				res.UnknownObl = append(res.UnknownObl, b.o.label+" (out of time)")
			}
			return
		}
		if len(bs) == 1 {
			one(bs[0])
			return
		}
		fs := make([]*Term, len(bs))
		for i, b := range bs {
			fs[i] = b.f
		}
		v, m, _ := Solve([]*Term{Or(fs...)}, solveT)
		if v == Unsat {
			res.BySolver += len(bs)
			return
		}
		if v == Sat {
			// the members this model refutes are examined alone
			memo := map[*Term]*big.Rat{}
			fm := fullModel(m, x.modelInputs(m))
			var rest []ob
			hit := false
			for _, b := range bs {
				if evalTerm(b.f, fm, memo).Sign() != 0 && !hit {
					hit = true
					one(b)
				} else if !violated[b.o.label] {
					rest = append(rest, b)
				}
			}
			if hit {
				group(rest)
				return
			}
		}
		h := len(bs) / 2
		group(bs[:h])
		group(bs[h:])
	}
	// a short look for models before the solvers are asked
	if n := len(open); n > 0 {
		each := 3 * time.Second / time.Duration(n)
		each = min(max(each, 5*time.Millisecond), 400*time.Millisecond)
		for i, t0 := 0, time.Now(); i < n && time.Since(t0) < 3*time.Second && len(violated) == 0; i++ {
			c.lookup(job, x, open[i].f, open[i].o, res, violated, each)
		}
	}
	batch := job.Batch
	if batch == 0 {
		batch = 24
	}
	for i := 0; i < len(open); {
		j, size := i, 0
		for j < len(open) && j-i < batch && (j == i || size+open[j].f.size < 2_000_000) {
			size += open[j].f.size
			j++
		}
		group(open[i:j])
		i = j
		if len(violated) > 0 {
			break // one confirmed violation settles the check
		}
	}
}

// lookup searches for a model of f and replays what it finds.
func (c *engineCtx) lookup(job *Job, x *Exec, f *Term, o *Obligation, res *JobResult, violated map[string]bool, budget time.Duration) bool {
	if violated[o.label] {
		return true
	}
	return search(f, job.Seed+int64(budget), budget, func(pt map[*Term]int64) bool {
		m := Model{}
		for t, v := range pt {
			m[t.name] = rat(v)
		}
		in := x.modelInputs(m)
		rr := runReplay(job.Replay, job.Fn, in, job.Tier, c.scratch)
		if !confirmed(o, rr) {
			return false
		}
		res.Viols = append(res.Viols, Viol{Label: o.label, Inputs: in, Confirmed: true, Detail: rr.Panic})
		violated[o.label] = true
		return true
	})
}

// byCut tries to refute f with its integer layers cut off, deepest cut first.
func byCut(f *Term) bool {
	var last *Term
	for l := 8; l >= 1; l-- {
		g, any := cutInts(f, l)
		if !any {
			return false
		}
		if g == last {
			continue
		}
		last = g
		v, m, _ := Solve([]*Term{g}, 6*time.Second)
		if os.Getenv("CUTDBG") != "" {
			fmt.Fprintln(os.Stderr, "cut", l, v, g.size)
			if v == Sat {
				for _, t := range newClosure([]*Term{g}).inputs() {
					f, _ := m[t.name].Float64()
					fmt.Fprintln(os.Stderr, "   ", t.name, f, t.lo, t.hi)
					if t.exact != nil {
						fmt.Fprintln(os.Stderr, "        = ", dbgLin(t.exact))
					}
				}
			}
		}
		if v == Unsat {
			return true
		}
	}
	return false
}

// cases decides an obligation the solvers gave up on by splitting on the
// values of its narrowest input.
func (c *engineCtx) cases(job *Job, x *Exec, f *Term, o *Obligation, res *JobResult, end time.Time) (int, bool) {
	cl := newClosure([]*Term{f})
	var best *Term
	var w int64
	for _, v := range cl.inputs() {
		if !v.input || v.lo == nil || v.hi == nil {
			continue
		}
		n := new(big.Rat).Sub(v.hi, v.lo).Num().Int64() + 1
		if n > 1 && (best == nil || n < w) {
			best, w = v, n
		}
	}
	if best == nil || w > 400 {
		return 0, false
	}
	lo := best.lo.Num().Int64()
	for i := int64(0); i < w; i++ {
		if time.Now().After(end) {
			return 0, false
		}
		g := substTerm(f, map[*Term]*Term{best: IntC(lo + i)}, map[*Term]*Term{})
		if g == TFalse {
			continue
		}
		v, m, _ := Solve([]*Term{g}, time.Duration(job.SolveSec*float64(time.Second)))
		if v == Unsat {
			continue
		}
		if v == Sat {
			if m == nil {
				m = Model{}
			}
			m[best.name] = rat(lo + i)
			in := x.modelInputs(m)
			rr := runReplay(job.Replay, job.Fn, in, job.Tier, c.scratch)
			if confirmed(o, rr) {
				res.Viols = append(res.Viols, Viol{Label: o.label, Inputs: in, Confirmed: true, Detail: rr.Panic})
			} else {
				res.Unconfirmed = append(res.Unconfirmed, Viol{Label: o.label, Inputs: in, Detail: fmt.Sprintf("%+v", rr)})
			}
		}
		return 0, false
	}
	return int(w), true
}

func confirmed(o *Obligation, rr replayResult) bool {
	if rr.Assume {
		return false
	}
	if o.kind == "race" {
		return rr.Race
	}
	if o.kind == "panic" {
		return rr.Panic != ""
	}
	for _, l := range rr.Fails {
		if l == o.label {
			return true
		}
	}
	return rr.Panic != ""
}

// workerMain serves jobs, one JSON object per line.
func workerMain(repo, verif, hpkg, scratch string, cores int) {
	scratchDir = scratch
	procSem = make(chan struct{}, cores)
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := json.NewEncoder(os.Stdout)
	c, err := loadCtx(repo, verif, hpkg, scratch)
	if pf := os.Getenv("VERIF_PROFILE"); pf != "" {
		f, _ := os.Create(pf)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	for {
		line, e := in.ReadString('\n')
		if e != nil {
			return
		}
		var job Job
		if json.Unmarshal([]byte(line), &job) != nil {
			return
		}
		if err != nil {
			out.Encode(&JobResult{Fn: job.Fn, Err: "load: " + err.Error()})
			continue
		}
		out.Encode(c.run(&job))
	}
}

func dbgLin(t *Term) string {
	c0, as, cs := linParts(t)
	f, _ := c0.Float64()
	o := fmt.Sprint(f)
	for i, a := range as {
		f, _ := cs[i].Float64()
		o += fmt.Sprintf(" + %v*%d:%s:%d", f, a.op, a.name, a.id)
		if a.op != OVar && len(a.args) > 0 {
			o += "[" + dbgLin(a.args[0]) + "; " + fmt.Sprint(a.k) + "]"
		}
	}
	return o
}
