package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

const nCores = 8

type knownFile struct {
	Findings []Known  `json:"findings"`
	Fixed    []string `json:"fixed"`
}

func main() {
	if len(os.Args) < 2 {
		fatal("usage: engine run|worker|list ...")
	}
	switch os.Args[1] {
	case "worker":
		fs := flag.NewFlagSet("worker", flag.ExitOnError)
		repo := fs.String("repo", "/repo", "")
		verif := fs.String("verif", "/verif", "")
		pkg := fs.String("pkg", "core", "")
		scratch := fs.String("scratch", "", "")
		cores := fs.Int("cores", 1, "")
		fs.Parse(os.Args[2:])
		workerMain(*repo, *verif, *pkg, *scratch, *cores)
	case "run":
		os.Exit(runMain(os.Args[2:]))
	case "list":
		for _, p := range props {
			fmt.Println(p.ID)
		}
	case "replay":
		os.Exit(replayMain(os.Args[2:]))
	default:
		fatal("unknown command %s", os.Args[1])
	}
}

type pool struct {
	pkg   string
	repo  string
	verif string
	bin   string
	dir   string
	cores int
	abort chan struct{} // closed once a violation is confirmed
}

// grace is how long other pieces may still run after a confirmed violation.
const grace = 4 * time.Second

// serve runs one worker process over a channel of jobs; a worker that dies
// yields an error result for its job and is replaced.
func (p *pool) serve(id int, jobs <-chan *Job, out chan<- *JobResult, stop time.Time) {
	var cmd *exec.Cmd
	var in io.WriteCloser
	var rd *bufio.Reader
	dir := filepath.Join(p.dir, fmt.Sprintf("w-%s-%d", p.pkg, id))
	os.MkdirAll(dir, 0o755)
	start := func() error {
		self, err := os.Executable()
		if err != nil {
			return err
		}
		cmd = exec.Command(self, "worker", "-repo", p.repo, "-verif", p.verif, "-pkg", p.pkg, "-scratch", dir, "-cores", strconv.Itoa(p.cores))
		cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
		cmd.Env = append(os.Environ(), "GOMEMLIMIT=2500MiB", "GOMAXPROCS=4", "GOGC=200")
		in, err = cmd.StdinPipe()
		if err != nil {
			return err
		}
		o, err := cmd.StdoutPipe()
		if err != nil {
			return err
		}
		rd = bufio.NewReaderSize(o, 1<<20)
		cmd.Stderr = os.Stderr
		return cmd.Start()
	}
	kill := func() {
		if cmd != nil && cmd.Process != nil {
			syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
			cmd.Wait()
		}
		cmd = nil
	}
	defer kill()
	for j := range jobs {
		fail := func(why string) { out <- &JobResult{Fn: j.Fn, Piece: pieceName(j), Err: why} }
		select {
		case <-p.abort:
			fail("skipped: a violation was confirmed already")
			continue
		default:
		}
		left := time.Until(stop)
		if left < 2*time.Second {
			fail("not started: out of time")
			continue
		}
		if cmd == nil {
			if err := start(); err != nil {
				fail("worker: " + err.Error())
				continue
			}
		}
		if j.Deadline > left.Seconds() {
			j.Deadline = left.Seconds()
		}
		b, _ := json.Marshal(j)
		in.Write(append(b, '\n'))
		type rr struct {
			line string
			err  error
		}
		ch := make(chan rr, 1)
		go func(r *bufio.Reader) {
			l, err := r.ReadString('\n')
			ch <- rr{l, err}
		}(rd)
		// execution and solving each honour the deadline
		hard := time.Duration(2*j.Deadline+2*j.SolveSec+45) * time.Second
		if m := left + 40*time.Second; hard > m {
			hard = m
		}
		late := make(chan struct{})
		done := make(chan struct{})
		go func() {
			select {
			case <-p.abort:
				time.Sleep(grace)
				close(late)
			case <-done:
			}
		}()
		select {
		case r := <-ch:
			close(done)
			var res JobResult
			if r.err != nil || json.Unmarshal([]byte(r.line), &res) != nil {
				fail("worker ended unexpectedly")
				kill()
				continue
			}
			res.Piece = pieceName(j)
			out <- &res
		case <-late:
			fail("stopped: a violation was confirmed already")
			kill()
			<-ch
		case <-time.After(hard):
			close(done)
			fail("worker exceeded its time")
			kill()
			<-ch
		}
	}
	if cmd != nil {
		in.Close()
	}
}

func pieceName(j *Job) string {
	var ks []string
	for k := range j.Ranges {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	s := ""
	for _, k := range ks {
		s += fmt.Sprintf("%s:%d/%d ", k, j.Ranges[k][0]+1, j.Ranges[k][1])
	}
	return strings.TrimSpace(s)
}

func runMain(args []string) int {
	fs := flag.NewFlagSet("run", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	verif := fs.String("verif", "/verif", "")
	id := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	only := fs.String("fn", "", "only this harness")
	piece := fs.String("piece", "", "only this piece (substring)")
	verbose := fs.Bool("v", false, "")
	nw := fs.Int("j", nCores, "")
	fs.Parse(args)
	t0 := time.Now()
	p := propByID(*id)
	if p == nil {
		fatal("no property %q", *id)
	}
	tn := 0
	limit := 700 * time.Second
	if *tier == "thorough" {
		tn = 1
		limit = 840 * time.Second
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	scratch, err := os.MkdirTemp("", "verif-"+*id+"-")
	if err != nil {
		fatal("%v", err)
	}
	defer os.RemoveAll(scratch)
	sig := make(chan os.Signal, 1)
	signal.Notify(sig, os.Interrupt, syscall.SIGTERM)
	go func() {
		<-sig
		os.RemoveAll(scratch)
		os.Exit(3)
	}()
	var kf knownFile
	if b, err := os.ReadFile(filepath.Join(*verif, "known_findings.json")); err == nil {
		if err := json.Unmarshal(b, &kf); err != nil {
			fatal("known_findings.json: %v", err)
		}
	}
	var known []Known
	for _, k := range kf.Findings {
		if k.Property == *id {
			known = append(known, k)
		}
	}
	var results []*JobResult
	byPkg := map[string][]*Job{}
	var pkgs []string
	bins := map[string]string{}
	for _, h := range p.H {
		if *only != "" && h.Fn != *only {
			continue
		}
		if h.ThoroughOnly && tn == 0 {
			continue
		}
		if _, ok := byPkg[h.Pkg]; !ok {
			pkgs = append(pkgs, h.Pkg)
		}
		for _, j := range h.jobs(*id, tn) {
			j.Known, j.Seed = known, int64(seed)
			if *piece != "" && !strings.Contains(pieceName(j), *piece) {
				continue
			}
			byPkg[h.Pkg] = append(byPkg[h.Pkg], j)
		}
	}
	stop := t0.Add(limit)
	abort := make(chan struct{})
	var once sync.Once
	for _, pk := range pkgs {
		dir := filepath.Join(scratch, pk)
		os.MkdirAll(dir, 0o755)
		bin, err := buildReplay(*repo, *verif, dir, pk, byPkg[pk][0].Race)
		if err != nil {
			for _, j := range byPkg[pk] {
				results = append(results, &JobResult{Fn: j.Fn, Piece: pieceName(j), Err: err.Error()})
			}
			fmt.Printf("note: %s harnesses do not build against this tree: %v\n", pk, err)
			continue
		}
		bins[pk] = bin
		js := byPkg[pk]
		n := *nw
		if len(js) < n {
			n = len(js)
		}
		jobs := make(chan *Job, len(js))
		for _, j := range js {
			j.Replay = bin
			j.ConfirmSec = min(3, max(0.5, 200/float64(len(js))))
			if *tier == "thorough" {
				j.ConfirmSec *= 5
			}
			jobs <- j
		}
		close(jobs)
		out := make(chan *JobResult, len(js))
		pl := &pool{pkg: pk, repo: *repo, verif: *verif, bin: bin, dir: dir, cores: max(1, *nw/max(1, n)), abort: abort}
		var wg sync.WaitGroup
		for i := 0; i < n; i++ {
			wg.Add(1)
			go func(i int) { defer wg.Done(); pl.serve(i, jobs, out, stop) }(i)
		}
		for range js {
			r := <-out
			results = append(results, r)
			for _, v := range r.Viols {
				if v.Known == "" {
					once.Do(func() { close(abort) })
				}
			}
			if *verbose {
				b, _ := json.MarshalIndent(r, "", " ")
				fmt.Println(string(b))
			}
		}
		wg.Wait()
	}
	return report(p, *tier, seed, *verif, results, time.Since(t0), known, byPkg)
}

func report(p *Prop, tier string, seed int, verif string, rs []*JobResult, wall time.Duration, known []Known, byPkg map[string][]*Job) int {
	funcs, natives := map[string]bool{}, map[string]bool{}
	var bounds, unknown, errs, mismatch, samples []string
	bset := map[string]bool{}
	solvers := map[string]int64{}
	var queries, feas, ns int64
	labels := map[string]int{}
	obls, byI, byN, byS, byC, wit, witSat, paths, steps, merges, unconf := 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0
	claimN, claimOK, defN, defOK := 0, 0, 0, 0
	var viols []Viol
	fnOf := map[string]string{}
	mapr := map[string]bool{}
	for _, r := range rs {
		for _, f := range r.Funcs {
			funcs[f] = true
		}
		for _, f := range r.Natives {
			natives[f] = true
		}
		for _, f := range r.MapRange {
			mapr[f] = true
		}
		for _, b := range r.Bounds {
			k := r.Fn + ": " + b
			if !bset[k] {
				bset[k] = true
				bounds = append(bounds, k)
			}
		}
		for k, v := range r.Solvers {
			solvers[k] += v
		}
		for k, v := range r.Labels {
			labels[k] += v
		}
		queries += r.Queries
		feas += r.FeasQ
		ns += r.SolverNs
		obls += r.Obls
		byI += r.ByInterval
		byN += r.ByNormalForm
		byS += r.BySolver
		byC += r.ByCases
		claimN += r.Claims
		claimOK += r.ClaimsOK
		defN += r.Defs
		defOK += r.DefsOK
		wit += r.Witness
		witSat += r.WitnessSat
		paths += r.Paths
		steps += r.Steps
		merges += r.Merges
		unconf += len(r.Unconfirmed)
		at := r.Fn
		if r.Piece != "" {
			at += " [" + r.Piece + "]"
		}
		if r.Err != "" {
			errs = append(errs, at+": "+r.Err)
		}
		for _, u := range r.UnknownObl {
			unknown = append(unknown, at+": "+u)
		}
		for _, m := range r.Mismatch {
			mismatch = append(mismatch, at+": "+m)
		}
		if len(samples) < 8 {
			for _, s := range r.Samples {
				samples = append(samples, at+": "+s)
			}
		}
		for _, v := range r.Viols {
			v2 := v
			v2.Detail = r.Fn
			fnOf[v.Label] = r.Fn
			viols = append(viols, v2)
		}
	}
	sort.Strings(bounds)
	repdir := filepath.Join(verif, "evidence", "replays")
	os.MkdirAll(repdir, 0o755)
	old, _ := filepath.Glob(filepath.Join(repdir, p.ID+"-*.json"))
	for _, o := range old {
		os.Remove(o)
	}
	nv := 0
	knownSeen := map[string]bool{}
	seenLabel := map[string]bool{}
	exit := 0
	for _, v := range viols {
		if v.Known != "" {
			if !knownSeen[v.Known] {
				knownSeen[v.Known] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, v.Known)
			}
			continue
		}
		if seenLabel[v.Label] {
			continue
		}
		seenLabel[v.Label] = true
		nv++
		path := filepath.Join(repdir, fmt.Sprintf("%s-%d.json", p.ID, nv))
		pkg := ""
		for _, h := range p.H {
			if h.Fn == v.Detail {
				pkg = h.Pkg
			}
		}
		b, _ := json.MarshalIndent(map[string]any{"Property": p.ID, "Fn": v.Detail, "Pkg": pkg, "Label": v.Label, "Inputs": v.Inputs, "Tier": map[string]int{"quick": 0, "thorough": 1}[tier]}, "", " ")
		os.WriteFile(path, b, 0o644)
		fmt.Printf("%s fails on %s (%s)\n", v.Label, showInputs(v.Inputs), v.Detail)
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
		exit = 1
	}
	nonNil := func(s []string) []string {
		if s == nil {
			return []string{}
		}
		return s
	}
	discharged := byI + byN + byS + byC
	var sampleV []any
	for _, s := range samples {
		sampleV = append(sampleV, s)
	}
	byMode := map[string]int{}
	split := []string{}
	for _, r := range rs {
		m := r.Mode
		if m == "fork" {
			m = "inputs split into single values"
			split = append(split, fmt.Sprintf("%s [%s]: %s", r.Fn, strings.TrimSpace(r.Piece), r.Fell))
		}
		byMode[m]++
	}
	keys := func(m map[string]bool) []string {
		o := []string{}
		for k := range m {
			o = append(o, k)
		}
		sort.Strings(o)
		return o
	}
	cov := map[string]any{
		"explanation":                            "Every listed function of the repository is executed symbolically from its SSA form, built from the current source on this run; each obligation (an assertion of the harness under a path condition, or the absence of a panic) is decided for every input within the bounds: by an SMT solver, or, where the assertion collapses to a constant while it is built, by rewriting and interval arithmetic, whose individual steps are then put to the solver in unsimplified form within a time budget (interval_decisions, rewriting_steps). Counterexamples are replayed against the natively compiled code before they are reported.",
		"functions_encoded":                      keys(funcs),
		"std_calls_modelled":                     keys(natives),
		"map_iterations":                         keys(mapr),
		"bounds":                                 nonNil(bounds),
		"pieces":                                 len(rs),
		"pieces_by_mode":                         byMode,
		"pieces_with_inputs_split":               split,
		"paths":                                  paths,
		"instructions_executed":                  steps,
		"merges":                                 merges,
		"obligations":                            obls,
		"discharged":                             discharged,
		"discharged_by_interval":                 byI,
		"discharged_by_normal_form":              byN,
		"discharged_by_solver":                   byS,
		"discharged_by_solver_cases":             byC,
		"interval_decisions":                     claimN,
		"interval_decisions_confirmed_by_solver": claimOK,
		"rewriting_steps":                        defN,
		"rewriting_steps_confirmed_by_solver":    defOK,
		"obligation_labels":                      labels,
		"queries":                                queries,
		"path_feasibility_queries":               feas,
		"solver_seconds":                         float64(ns) / 1e9,
		"answers_by_solver":                      solvers,
		"witnesses_tried":                        wit,
		"witnesses_replayed_natively":            witSat,
		"witness_mismatches":                     nonNil(mismatch),
		"undecided":                              nonNil(unknown),
		"not_encoded":                            nonNil(errs),
		"unconfirmed_counterexamples":            unconf,
		"samples":                                sampleV,
		"complete_within_bounds":                 len(errs) == 0 && len(unknown) == 0 && len(mismatch) == 0,
	}
	ev := map[string]any{"property": p.ID, "tier": tier, "seed": seed, "level": p.level(), "coverage": cov,
		"assumptions": p.assumptions(), "wall_s": wall.Seconds(), "violations": nv}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(verif, "evidence", p.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fatal("%v", err)
	}
	fmt.Printf("%s %s: %d obligations, %d discharged (%d interval, %d normal form, %d solver, %d solver by cases), %d undecided, %d pieces not encoded, %d violations; %d queries, %.1fs solver, %.1fs wall\n",
		p.ID, tier, obls, discharged, byI, byN, byS, byC, len(unknown), len(errs), nv, queries, float64(ns)/1e9, wall.Seconds())
	if len(split) > 0 {
		fmt.Printf("  inputs split into single values in %d of %d pieces: %.200s\n", len(split), len(rs), split[0])
	}
	short := func(what string, l []string) {
		for i, s := range l {
			if i == 4 {
				fmt.Printf("  %s: ... %d more\n", what, len(l)-4)
				break
			}
			if len(s) > 400 {
				s = s[:400] + "..."
			}
			fmt.Printf("  %s: %s\n", what, s)
		}
	}
	short("undecided", unknown)
	short("not encoded", errs)
	short("witness mismatch", mismatch)
	return exit
}

// replayMain runs a recorded counterexample natively.
func replayMain(args []string) int {
	fs := flag.NewFlagSet("replay", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	verif := fs.String("verif", "/verif", "")
	fs.Parse(args)
	b, err := os.ReadFile(fs.Arg(0))
	if err != nil {
		fatal("%v", err)
	}
	var r struct {
		Property, Fn, Pkg string
		Inputs            map[string]int64
		Tier              int
	}
	if err := json.Unmarshal(b, &r); err != nil {
		fatal("%v", err)
	}
	scratch, _ := os.MkdirTemp("", "verif-replay-")
	defer os.RemoveAll(scratch)
	bin, err := buildReplay(*repo, *verif, scratch, r.Pkg, propByID(r.Property).H[0].Race)
	if err != nil {
		fatal("%v", err)
	}
	rr := runReplay(bin, r.Fn, r.Inputs, r.Tier, scratch)
	fmt.Printf("%+v\n", rr)
	if len(rr.Fails) > 0 || rr.Race || rr.Panic != "" {
		return 1
	}
	return 0
}
