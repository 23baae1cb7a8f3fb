package main

import (
	"bufio"
	"context"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync/atomic"
	"time"
)

type Verdict int

const (
	Unknown Verdict = iota
	Sat
	Unsat
)

func (v Verdict) String() string { return [...]string{"unknown", "sat", "unsat"}[v] }

// closure collects every subterm of the assertions plus, transitively, the
// definitional constraints of the float variables in them.
type closure struct {
	order   []*Term // topological, children first
	seen    map[*Term]bool
	asserts []*Term
	sins    []*Term
}

func newClosure(asserts []*Term) *closure {
	c := &closure{seen: map[*Term]bool{}}
	pending := append([]*Term(nil), asserts...)
	sinPairs := 0
	for {
		for len(pending) > 0 {
			a := pending[0]
			pending = pending[1:]
			c.asserts = append(c.asserts, a)
			c.visit(a, &pending)
		}
		// pairwise facts about the uninterpreted trigonometric results
		if sinPairs < len(c.sins) {
			for i := sinPairs; i < len(c.sins); i++ {
				for j := 0; j < i; j++ {
					pending = append(pending, trigPair(c.sins[j], c.sins[i])...)
				}
			}
			sinPairs = len(c.sins)
			continue
		}
		break
	}
	return c
}

func trigPair(a, b *Term) []*Term {
	if a.fn != b.fn {
		return nil
	}
	tol := new(big.Rat).SetFrac64(1, 1<<50)
	var out []*Term
	// |sin x - sin y| <= |x-y| + tol   (both are 1-Lipschitz)
	d := Sub(a.sinArg, b.sinArg)
	ad := AbsT(d)
	diff := Sub(a, b)
	out = append(out, Le(AbsT(diff), Add(ad, RatC(tol))))
	if a.fn == "sin" { // sin is odd: |sin x + sin y| <= |x+y|
		s := AbsT(Add(a.sinArg, b.sinArg))
		out = append(out, Le(AbsT(Add(a, b)), Add(s, RatC(tol))))
	}
	return out
}

func AbsT(t *Term) *Term {
	if t.lo != nil && t.lo.Sign() >= 0 {
		return t
	}
	if t.hi != nil && t.hi.Sign() <= 0 {
		return Neg(t)
	}
	return Ite(Le0(t), Neg(t), t)
}

func (c *closure) visit(t *Term, pending *[]*Term) {
	if c.seen[t] {
		return
	}
	c.seen[t] = true
	for _, a := range t.args {
		c.visit(a, pending)
	}
	if t.op == OVar {
		if t.sinArg != nil {
			c.sins = append(c.sins, t)
		}
		*pending = append(*pending, t.defs...)
	}
	c.order = append(c.order, t)
}

func (c *closure) hasReal() bool {
	for _, t := range c.order {
		if t.sort == SReal && !(t.op == OLin && len(t.args) > 0 && allInt(t.args)) {
			return true
		}
		if t.op == OFloor {
			return true
		}
		if t.sort == SReal {
			return true
		}
	}
	return false
}

func smtRat(r *big.Rat, real bool) string {
	n := new(big.Int).Abs(r.Num()).String()
	if real {
		n += ".0"
	}
	s := n
	if !r.IsInt() {
		s = fmt.Sprintf("(/ %s %s.0)", n, r.Denom().String())
	}
	if r.Sign() < 0 {
		s = "(- " + s + ")"
	}
	return s
}

// printArith renders the query in mixed integer/real arithmetic.
// rel: div/mod by constants are replaced by quotient/remainder variables that
// share one base per linear form.
func (c *closure) printArith(rel bool) string {
	var sb strings.Builder
	sb.WriteString("(set-logic ALL)\n")
	real := c.hasReal()
	nm := func(t *Term) string { return fmt.Sprintf("t%d", t.id) }
	asReal := func(t *Term) string {
		if t.sort == SInt {
			return "(to_real " + nm(t) + ")"
		}
		return nm(t)
	}
	type baseKey struct {
		id int
		k  string
	}
	bases := map[string][2]string{}
	nb := 0
	for _, t := range c.order {
		srt := "Int"
		if t.sort == SReal {
			srt = "Real"
		} else if t.sort == SBool {
			srt = "Bool"
		}
		switch t.op {
		case OTrue:
			fmt.Fprintf(&sb, "(define-fun %s () Bool true)\n", nm(t))
			continue
		case OFalse:
			fmt.Fprintf(&sb, "(define-fun %s () Bool false)\n", nm(t))
			continue
		case OBVar:
			fmt.Fprintf(&sb, "(declare-const %s Bool)\n", nm(t))
			continue
		case OVar:
			fmt.Fprintf(&sb, "(declare-const %s %s)\n", nm(t), srt)
			if t.lo != nil {
				fmt.Fprintf(&sb, "(assert (<= %s %s))\n", smtRat(t.lo, t.sort == SReal), nm(t))
			}
			if t.hi != nil {
				fmt.Fprintf(&sb, "(assert (<= %s %s))\n", nm(t), smtRat(t.hi, t.sort == SReal))
			}
			continue
		}
		body := ""
		switch t.op {
		case ONot:
			body = "(not " + nm(t.args[0]) + ")"
		case OAnd, OOr:
			o := "and"
			if t.op == OOr {
				o = "or"
			}
			body = "(" + o
			for _, a := range t.args {
				body += " " + nm(a)
			}
			body += ")"
		case OLe0, OEq0:
			o := "<="
			if t.op == OEq0 {
				o = "="
			}
			z := "0"
			if t.args[0].sort == SReal {
				z = "0.0"
			}
			body = "(" + o + " " + nm(t.args[0]) + " " + z + ")"
		case OLin:
			isR := t.sort == SReal
			if len(t.args) == 0 {
				body = smtRat(t.c0, isR)
				break
			}
			parts := []string{}
			if t.c0.Sign() != 0 {
				parts = append(parts, smtRat(t.c0, isR))
			}
			for i, a := range t.args {
				x := nm(a)
				if isR {
					x = asReal(a)
				}
				if t.coefs[i].Cmp(ratOne) != 0 {
					x = "(* " + smtRat(t.coefs[i], isR) + " " + x + ")"
				}
				parts = append(parts, x)
			}
			if len(parts) == 1 {
				body = parts[0]
			} else {
				body = "(+ " + strings.Join(parts, " ") + ")"
			}
		case ODiv, OMod:
			if !rel {
				o := "div"
				if t.op == OMod {
					o = "mod"
				}
				body = fmt.Sprintf("(%s %s %s)", o, nm(t.args[0]), t.k)
				break
			}
			key := fmt.Sprintf("%d/%s", t.args[0].id, t.k)
			b, ok := bases[key]
			if !ok {
				// split u = L + s, L homogeneous over wide atoms
				u := t.args[0]
				q, r := fmt.Sprintf("q%d", nb), fmt.Sprintf("r%d", nb)
				nb++
				fmt.Fprintf(&sb, "(declare-const %s Int)\n(declare-const %s Int)\n", q, r)
				c0, atoms, coefs := linParts(u)
				var sp []string
				m := map[*Term]*big.Rat{}
				slo, shi := new(big.Rat).Set(c0), new(big.Rat).Set(c0)
				for i, a := range atoms {
					small := a.op == OIte && a.lo != nil && a.hi != nil && new(big.Rat).Sub(a.hi, a.lo).Cmp(rat(4)) <= 0
					if small {
						sp = append(sp, fmt.Sprintf("(* %s %s)", smtRat(coefs[i], false), nm(a)))
						x, y := new(big.Rat).Mul(coefs[i], a.lo), new(big.Rat).Mul(coefs[i], a.hi)
						if x.Cmp(y) > 0 {
							x, y = y, x
						}
						slo.Add(slo, x)
						shi.Add(shi, y)
					} else {
						m[a] = coefs[i]
					}
				}
				L := linBuild(ratZero, m)
				_, la0, _ := linParts(L)
				known := true
				for _, a := range la0 {
					known = known && c.seen[a]
				}
				if L.isConst() || !known || (len(sp) == 0 && c0.Sign() == 0) {
					fmt.Fprintf(&sb, "(assert (and (= %s (+ (* %s %s) %s)) (<= 0 %s) (< %s %s)))\n", nm(u), t.k, q, r, r, r, t.k)
				} else {
					lk := fmt.Sprintf("L%d/%s", L.id, t.k)
					lb, ok := bases[lk]
					if !ok {
						lb = [2]string{fmt.Sprintf("q%d", nb), fmt.Sprintf("r%d", nb)}
						nb++
						fmt.Fprintf(&sb, "(declare-const %s Int)\n(declare-const %s Int)\n", lb[0], lb[1])
						parts := []string{}
						_, la, lc := linParts(L)
						for i, a := range la {
							parts = append(parts, fmt.Sprintf("(* %s %s)", smtRat(lc[i], false), nm(a)))
						}
						fmt.Fprintf(&sb, "(assert (and (= (+ 0 %s) (+ (* %s %s) %s)) (<= 0 %s) (< %s %s)))\n", strings.Join(parts, " "), t.k, lb[0], lb[1], lb[1], lb[1], t.k)
						bases[lk] = lb
					}
					sp = append(sp, smtRat(c0, false), lb[1])
					kr := new(big.Rat).SetInt(t.k)
					emin := ratFloor(new(big.Rat).Quo(slo, kr))
					emax := ratFloor(new(big.Rat).Quo(new(big.Rat).Add(shi, new(big.Rat).Sub(kr, ratOne)), kr))
					e := q + "e"
					fmt.Fprintf(&sb, "(declare-const %s Int)\n(assert (and (<= %s %s) (<= %s %s)))\n", e, smtRat(new(big.Rat).SetInt(emin), false), e, e, smtRat(new(big.Rat).SetInt(emax), false))
					fmt.Fprintf(&sb, "(assert (and (= %s (+ %s %s)) (= (+ %s) (+ (* %s %s) %s)) (<= 0 %s) (< %s %s)))\n", q, lb[0], e, strings.Join(sp, " "), t.k, e, r, r, r, t.k)
				}
				b = [2]string{q, r}
				bases[key] = b
			}
			if t.op == ODiv {
				body = b[0]
			} else {
				body = b[1]
			}
		case OIte:
			x, y := nm(t.args[1]), nm(t.args[2])
			if t.sort == SReal {
				x, y = asReal(t.args[1]), asReal(t.args[2])
			}
			body = fmt.Sprintf("(ite %s %s %s)", nm(t.args[0]), x, y)
		case OMul:
			x, y := nm(t.args[0]), nm(t.args[1])
			if t.sort == SReal {
				x, y = asReal(t.args[0]), asReal(t.args[1])
			}
			body = fmt.Sprintf("(* %s %s)", x, y)
		case OFloor:
			body = "(to_int " + asReal(t.args[0]) + ")"
		}
		fmt.Fprintf(&sb, "(define-fun %s () %s %s)\n", nm(t), srt, body)
	}
	_ = real
	for _, a := range c.asserts {
		fmt.Fprintf(&sb, "(assert %s)\n", nm(a))
	}
	return sb.String()
}

// printBV renders an integer-only bounded query in bit-vectors wide enough
// that no intermediate value wraps. ok=false when that is impossible.
func (c *closure) printBV() (string, bool) {
	maxAbs := big.NewInt(1)
	upd := func(r *big.Rat) {
		v := new(big.Int).Abs(ratFloor(r))
		v.Add(v, big.NewInt(1))
		if v.Cmp(maxAbs) > 0 {
			maxAbs.Set(v)
		}
	}
	mag := func(t *Term) *big.Rat {
		x := new(big.Rat).Abs(t.lo)
		y := new(big.Rat).Abs(t.hi)
		if x.Cmp(y) > 0 {
			return x
		}
		return y
	}
	for _, t := range c.order {
		if t.sort == SBool {
			continue
		}
		if t.sort == SReal || t.lo == nil || t.hi == nil || t.op == OFloor {
			return "", false
		}
		upd(t.lo)
		upd(t.hi)
		if t.op == OLin {
			s := new(big.Rat).Abs(t.c0)
			for i, a := range t.args {
				if a.lo == nil || a.hi == nil {
					return "", false
				}
				s.Add(s, new(big.Rat).Mul(new(big.Rat).Abs(t.coefs[i]), mag(a)))
			}
			upd(s)
		}
		if t.op == ODiv || t.op == OMod {
			s := mag(t.args[0])
			s = new(big.Rat).Add(s, new(big.Rat).SetInt(t.k))
			s.Add(s, mag(t.args[0]))
			upd(s)
		}
	}
	W := maxAbs.BitLen() + 2
	if W > 96 {
		return "", false
	}
	mod := new(big.Int).Lsh(big.NewInt(1), uint(W))
	bv := func(n *big.Int) string {
		v := new(big.Int).Mod(n, mod)
		return fmt.Sprintf("(_ bv%s %d)", v, W)
	}
	bvr := func(r *big.Rat) string { return bv(r.Num()) }
	nm := func(t *Term) string { return fmt.Sprintf("t%d", t.id) }
	var sb strings.Builder
	sb.WriteString("(set-logic QF_BV)\n")
	for _, t := range c.order {
		srt := fmt.Sprintf("(_ BitVec %d)", W)
		if t.sort == SBool {
			srt = "Bool"
		}
		body := ""
		switch t.op {
		case OTrue:
			body = "true"
		case OFalse:
			body = "false"
		case OBVar:
			fmt.Fprintf(&sb, "(declare-const %s Bool)\n", nm(t))
			continue
		case OVar:
			fmt.Fprintf(&sb, "(declare-const %s %s)\n(assert (and (bvsle %s %s) (bvsle %s %s)))\n", nm(t), srt, bvr(t.lo), nm(t), nm(t), bvr(t.hi))
			continue
		case ONot:
			body = "(not " + nm(t.args[0]) + ")"
		case OAnd, OOr:
			o := "and"
			if t.op == OOr {
				o = "or"
			}
			body = "(" + o
			for _, a := range t.args {
				body += " " + nm(a)
			}
			body += ")"
		case OLe0:
			body = fmt.Sprintf("(bvsle %s %s)", nm(t.args[0]), bv(big.NewInt(0)))
		case OEq0:
			body = fmt.Sprintf("(= %s %s)", nm(t.args[0]), bv(big.NewInt(0)))
		case OLin:
			body = bvr(t.c0)
			for i, a := range t.args {
				x := nm(a)
				if t.coefs[i].Cmp(ratOne) != 0 {
					x = fmt.Sprintf("(bvmul %s %s)", bvr(t.coefs[i]), x)
				}
				if body == bv(big.NewInt(0)) {
					body = x
				} else {
					body = fmt.Sprintf("(bvadd %s %s)", body, x)
				}
			}
		case ODiv, OMod:
			u := t.args[0]
			m := big.NewInt(0)
			if u.lo.Sign() < 0 {
				m = new(big.Int).Neg(ratFloor(new(big.Rat).Quo(u.lo, new(big.Rat).SetInt(t.k))))
			}
			x := nm(u)
			if m.Sign() != 0 {
				x = fmt.Sprintf("(bvadd %s %s)", x, bv(new(big.Int).Mul(m, t.k)))
			}
			if t.op == OMod {
				body = fmt.Sprintf("(bvurem %s %s)", x, bv(t.k))
			} else {
				body = fmt.Sprintf("(bvudiv %s %s)", x, bv(t.k))
				if m.Sign() != 0 {
					body = fmt.Sprintf("(bvsub %s %s)", body, bv(m))
				}
			}
		case OIte:
			body = fmt.Sprintf("(ite %s %s %s)", nm(t.args[0]), nm(t.args[1]), nm(t.args[2]))
		case OMul:
			body = fmt.Sprintf("(bvmul %s %s)", nm(t.args[0]), nm(t.args[1]))
		}
		fmt.Fprintf(&sb, "(define-fun %s () %s %s)\n", nm(t), srt, body)
	}
	for _, a := range c.asserts {
		fmt.Fprintf(&sb, "(assert %s)\n", nm(a))
	}
	return sb.String(), true
}

// ------------------------------------------------------------------ running

type SolveStats struct {
	Queries   int64
	SolverNs  int64
	BySolver  map[string]int64
	Unknowns  int64
	Trivial   int64
	CrossOK   int64
	CrossDiff int64
}

var stats = SolveStats{BySolver: map[string]int64{}}
var procSem = make(chan struct{}, 8) // capacity = solver processes at once
var scratchDir string
var qSeq int64

type variant struct {
	name string
	enc  string // "lia", "rel", "bv"
	cmd  []string
}

func variants(real bool) []variant {
	if real {
		return []variant{
			{"z3-lira", "lia", []string{"z3", "-smt2"}},
			{"z3new-lira", "lia", []string{"z3-new", "-smt2"}},
			{"cvc5-lira", "lia", []string{"cvc5", "--lang=smt2", "--produce-models"}},
			{"z3-lira-rel", "rel", []string{"z3", "-smt2"}},
		}
	}
	return []variant{
		{"z3-bv", "bv", []string{"z3", "-smt2"}},
		{"z3new-bv", "bv", []string{"z3-new", "-smt2"}},
		{"z3-lia-rel", "rel", []string{"z3", "-smt2"}},
		{"cvc5-lia-rel", "rel", []string{"cvc5", "--lang=smt2", "--produce-models"}},
	}
}

func (c *closure) inputs() []*Term {
	var vs []*Term
	for _, t := range c.order {
		if t.op == OVar || t.op == OBVar {
			vs = append(vs, t)
		}
	}
	sort.Slice(vs, func(i, j int) bool { return vs[i].id < vs[j].id })
	return vs
}

func (c *closure) texts(vas []variant, vs []*Term) map[string]string {
	texts := map[string]string{}
	for _, va := range vas {
		if _, ok := texts[va.enc]; ok {
			continue
		}
		txt := ""
		switch va.enc {
		case "lia":
			txt = c.printArith(false)
		case "rel":
			txt = c.printArith(true)
		case "bv":
			if t, ok := c.printBV(); ok {
				txt = t
			}
		}
		if txt != "" {
			txt += "(check-sat)\n"
			if len(vs) > 0 {
				txt += "(get-value ("
				for _, v := range vs {
					txt += fmt.Sprintf(" t%d", v.id)
				}
				txt += "))\n"
			}
		}
		texts[va.enc] = txt
	}
	return texts
}

// Solve decides the conjunction of asserts with a solver portfolio: every
// variant gets a short slice first, then the rest of the time; as many run at
// once as this process may use cores.
func Solve(asserts []*Term, timeout time.Duration) (Verdict, Model, string) {
	f := And(asserts...)
	if f == TFalse {
		stats.Trivial++
		return Unsat, nil, "normal-form"
	}
	c := newClosure([]*Term{f})
	vs := c.inputs()
	real := c.hasReal()
	texts := c.texts(variants(real), vs)
	type res struct {
		v    Verdict
		m    Model
		name string
	}
	type task struct {
		va variant
		d  time.Duration
	}
	var tasks []task
	par := cap(procSem)
	first := timeout
	if par < 3 {
		first = timeout / 8
		if first < 4*time.Second {
			first = 4 * time.Second
		}
	}
	for _, va := range variants(real) {
		if texts[va.enc] != "" {
			tasks = append(tasks, task{va, first})
		}
	}
	if first < timeout {
		n := len(tasks)
		for i := 0; i < n; i++ {
			tasks = append(tasks, task{tasks[i].va, timeout / 3})
		}
	}
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	stats.Queries++
	t0 := time.Now()
	defer func() { stats.SolverNs += int64(time.Since(t0)) }()
	in := make(chan task, len(tasks))
	for _, t := range tasks {
		in <- t
	}
	close(in)
	ch := make(chan res, len(tasks))
	for w := 0; w < par; w++ {
		go func() {
			for t := range in {
				if ctx.Err() != nil {
					ch <- res{}
					continue
				}
				c2, cn := context.WithTimeout(ctx, t.d)
				v, m := runSolver(c2, t.va, texts[t.va.enc], vs)
				cn()
				ch <- res{v, m, t.va.name}
			}
		}()
	}
	for range tasks {
		r := <-ch
		if r.v == Unknown {
			continue
		}
		if r.v == Sat && !real {
			// the model must satisfy the formula in exact arithmetic
			if evalTerm(f, r.m, map[*Term]*big.Rat{}).Sign() == 0 {
				fmt.Fprintf(os.Stderr, "engine: %s returned a model that does not satisfy the query; ignored\n", r.name)
				continue
			}
		}
		stats.BySolver[r.name]++
		return r.v, r.m, r.name
	}
	stats.Unknowns++
	return Unknown, nil, ""
}

func runSolver(ctx context.Context, va variant, txt string, vs []*Term) (Verdict, Model) {
	if ctx.Err() != nil {
		return Unknown, nil
	}
	id := atomic.AddInt64(&qSeq, 1)
	fn := filepath.Join(scratchDir, fmt.Sprintf("q%d.smt2", id))
	if err := os.WriteFile(fn, []byte(txt), 0o644); err != nil {
		return Unknown, nil
	}
	defer os.Remove(fn)
	args := append(append([]string(nil), va.cmd[1:]...), fn)
	cmd := exec.CommandContext(ctx, va.cmd[0], args...)
	cmd.WaitDelay = time.Second
	out, _ := cmd.Output()
	return parseResult(string(out), vs)
}

func parseResult(out string, vs []*Term) (Verdict, Model) {
	s := strings.TrimSpace(out)
	line := s
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		line = s[:i]
	}
	line = strings.TrimSpace(line)
	switch line {
	case "unsat":
		return Unsat, nil
	case "sat":
		if strings.Contains(s, "(error") && len(vs) > 0 && !strings.Contains(s, "((") {
			return Unknown, nil
		}
		return Sat, parseModel(s[len(line):], vs)
	}
	return Unknown, nil
}

type sx struct {
	atom string
	list []*sx
}

func parseSx(s string, i *int) *sx {
	for *i < len(s) && (s[*i] == ' ' || s[*i] == '\n' || s[*i] == '\t' || s[*i] == '\r') {
		*i++
	}
	if *i >= len(s) {
		return nil
	}
	if s[*i] == '(' {
		*i++
		r := &sx{list: []*sx{}}
		for {
			for *i < len(s) && (s[*i] == ' ' || s[*i] == '\n' || s[*i] == '\t' || s[*i] == '\r') {
				*i++
			}
			if *i >= len(s) {
				return r
			}
			if s[*i] == ')' {
				*i++
				return r
			}
			e := parseSx(s, i)
			if e == nil {
				return r
			}
			r.list = append(r.list, e)
		}
	}
	j := *i
	for j < len(s) && !strings.ContainsRune(" \n\t\r()", rune(s[j])) {
		j++
	}
	if j == *i {
		*i++
		return &sx{}
	}
	a := s[*i:j]
	*i = j
	return &sx{atom: a}
}

func sxRat(e *sx) *big.Rat {
	if e.list == nil {
		switch {
		case e.atom == "true":
			return ratOne
		case e.atom == "false":
			return ratZero
		case strings.HasPrefix(e.atom, "#x"):
			n, _ := new(big.Int).SetString(e.atom[2:], 16)
			return signedBV(n, 4*(len(e.atom)-2))
		case strings.HasPrefix(e.atom, "#b"):
			n, _ := new(big.Int).SetString(e.atom[2:], 2)
			return signedBV(n, len(e.atom)-2)
		}
		r, ok := new(big.Rat).SetString(e.atom)
		if !ok {
			return nil
		}
		return r
	}
	if len(e.list) == 2 && e.list[0].atom == "-" {
		if r := sxRat(e.list[1]); r != nil {
			return new(big.Rat).Neg(r)
		}
		return nil
	}
	if len(e.list) == 3 && e.list[0].atom == "/" {
		a, b := sxRat(e.list[1]), sxRat(e.list[2])
		if a != nil && b != nil && b.Sign() != 0 {
			return new(big.Rat).Quo(a, b)
		}
	}
	if len(e.list) == 3 && e.list[0].atom == "_" && strings.HasPrefix(e.list[1].atom, "bv") {
		n, _ := new(big.Int).SetString(e.list[1].atom[2:], 10)
		var w int
		fmt.Sscan(e.list[2].atom, &w)
		return signedBV(n, w)
	}
	return nil
}

func signedBV(n *big.Int, w int) *big.Rat {
	if n == nil {
		return nil
	}
	if n.Bit(w-1) == 1 {
		n = new(big.Int).Sub(n, new(big.Int).Lsh(big.NewInt(1), uint(w)))
	}
	return new(big.Rat).SetInt(n)
}

func parseModel(s string, vs []*Term) Model {
	m := Model{}
	i := 0
	e := parseSx(s, &i)
	if e == nil {
		return m
	}
	byName := map[string]*Term{}
	for _, v := range vs {
		byName[fmt.Sprintf("t%d", v.id)] = v
	}
	for _, p := range e.list {
		if len(p.list) == 2 {
			if v, ok := byName[p.list[0].atom]; ok {
				if r := sxRat(p.list[1]); r != nil {
					m[v.name] = r
				}
			}
		}
	}
	return m
}

// ------------------------------------------------- incremental path checker

// pathChecker answers feasibility queries from one live z3 process.
type pathChecker struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
	n   int
}

func newPathChecker() *pathChecker {
	p := &pathChecker{}
	p.start()
	return p
}

func (p *pathChecker) start() {
	p.cmd = exec.Command("z3", "-in", "-smt2")
	in, _ := p.cmd.StdinPipe()
	out, _ := p.cmd.StdoutPipe()
	p.in, p.out = in, bufio.NewReader(out)
	if err := p.cmd.Start(); err != nil {
		fatal("cannot start z3: %v", err)
	}
}

func (p *pathChecker) stop() {
	if p.cmd != nil {
		p.in.Close()
		p.cmd.Process.Kill()
		p.cmd.Wait()
		p.cmd = nil
	}
}

var feasQueries, feasUnknown int64

func (p *pathChecker) check(asserts []*Term, ms int) Verdict {
	f := And(asserts...)
	if f == TTrue {
		return Sat
	}
	if f == TFalse {
		return Unsat
	}
	feasQueries++
	p.n++
	if p.n%400 == 0 {
		p.stop()
		p.start()
	}
	c := newClosure([]*Term{f})
	txt := strings.Replace(c.printArith(true), "(set-logic ALL)\n", "", 1)
	t0 := time.Now()
	fmt.Fprintf(p.in, "(reset)\n(set-option :timeout %d)\n%s(check-sat)\n", ms, txt)
	line, err := p.out.ReadString('\n')
	for err == nil && strings.HasPrefix(line, "(error") {
		fmt.Fprintf(os.Stderr, "engine: path checker: %s", line)
		line, err = p.out.ReadString('\n')
		line = "unknown"
	}
	atomic.AddInt64(&stats.SolverNs, int64(time.Since(t0)))
	switch strings.TrimSpace(line) {
	case "sat":
		return Sat
	case "unsat":
		return Unsat
	}
	feasUnknown++
	if err != nil {
		p.stop()
		p.start()
	}
	return Unknown
}
