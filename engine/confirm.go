package main

import (
	"fmt"
	"math/big"
	"time"
)

// Decisions the engine makes by interval arithmetic, before a solver is asked,
// are claims: "under these conditions this condition always (never) holds".
// They are kept here and put to a solver after the run, as unsimplified
// formulas. A solver that refutes one shows the engine to be wrong, and the
// check then reports itself incomplete.

type claimKey struct {
	kind byte
	pc   *pcNode
	t    *Term
}

type claim struct {
	f   *Term // must be unsatisfiable
	obl *Obligation
	def bool // a rewriting step, not an interval decision
}

var (
	claims    []claim
	claimSeen = map[claimKey]bool{}
	claimMade int
	defsMade  int
	claimBusy bool
)

const maxClaims = 4000

// rawLe0 and rawEq0 are the comparisons as written, not folded.
func rawLe0(t *Term) *Term {
	return intern(fmt.Sprintf("raw<=%d", t.id), func() *Term {
		return &Term{op: OLe0, args: []*Term{t}, sort: SBool}
	})
}
func rawEq0(t *Term) *Term {
	return intern(fmt.Sprintf("raw=%d", t.id), func() *Term {
		return &Term{op: OEq0, args: []*Term{t}, sort: SBool}
	})
}

// claimFold records that a comparison was folded to a constant.
func claimFold(kind byte, t *Term, v bool) {
	if t.isConst() {
		return
	}
	key := claimKey{kind, nil, t}
	if claimBusy || claimSeen[key] {
		return
	}
	claimSeen[key] = true
	claimMade++
	if len(claims) >= maxClaims {
		return
	}
	f := rawLe0(t)
	if kind == '=' {
		f = rawEq0(t)
	}
	if v {
		f = rawNot(f)
	}
	claims = append(claims, claim{f: f})
}

func rawNot(g *Term) *Term {
	return intern(fmt.Sprintf("raw!%d", g.id), func() *Term {
		return &Term{op: ONot, args: []*Term{g}, sort: SBool}
	})
}

// claimDef records that an integer operation on t was rewritten to r.
func claimDef(pre string, op Op, t *Term, k *big.Int, r *Term) {
	if t.isConst() || len(claims) >= 2*maxClaims {
		return
	}
	raw := intern(fmt.Sprintf("%s%d/%s", pre, t.id, k), func() *Term {
		return &Term{op: op, sort: SInt, args: []*Term{t}, k: k}
	})
	addDef(claimKey{'d', nil, raw}, func() *Term { return rawNot(rawEq0(Sub(raw, r))) })
}

func claimIte(c, a, b, r *Term) {
	raw := intern(fmt.Sprintf("rawI%d,%d,%d", c.id, a.id, b.id), func() *Term {
		t := &Term{op: OIte, args: []*Term{c, a, b}, sort: SReal}
		if a.sort == SInt && b.sort == SInt {
			t.sort = SInt
		}
		return t
	})
	addDef(claimKey{'d', nil, raw}, func() *Term { return rawNot(rawEq0(Sub(raw, r))) })
}

// claimSame records that the condition raw was rewritten to r.
func claimSame(raw, r *Term) {
	addDef(claimKey{'d', nil, raw}, func() *Term {
		return Or(And(raw, Not(r)), And(rawNot(raw), r))
	})
}

func addDef(key claimKey, f func() *Term) {
	if claimBusy || claimSeen[key] {
		return
	}
	claimSeen[key] = true
	defsMade++
	if len(claims) >= maxClaims {
		return
	}
	claimBusy = true // building the claim rewrites too
	claims = append(claims, claim{f: f(), def: true})
	claimBusy = false
}

// claimPath records that c was found to have the value v under the path.
func claimPath(st *State, c *Term, v bool, o *Obligation) {
	key := claimKey{'p', st.pc, c}
	if claimBusy || claimSeen[key] {
		return
	}
	claimSeen[key] = true
	claimMade++
	if len(claims) >= maxClaims {
		return
	}
	if v {
		c = Not(c)
	}
	claims = append(claims, claim{f: And(append(st.pcList(), c)...), obl: o})
}

// confirm puts the recorded claims to a solver.
func (c *engineCtx) confirm(job *Job, res *JobResult) {
	cs := claims
	res.Claims, res.Defs = claimMade, defsMade
	claims, claimSeen, claimMade, defsMade = nil, map[claimKey]bool{}, 0, 0
	budget := time.Duration(job.ConfirmSec * float64(time.Second))
	end := time.Now().Add(budget)
	done := func(cs []claim) {
		for _, k := range cs {
			if k.def {
				res.DefsOK++
			} else {
				res.ClaimsOK++
			}
			if k.obl != nil {
				res.ByInterval--
				res.BySolver++
			}
		}
	}
	var group func(cs []claim)
	group = func(cs []claim) {
		left := time.Until(end)
		if len(cs) == 0 || left < 50*time.Millisecond {
			return
		}
		fs := make([]*Term, len(cs))
		for i, k := range cs {
			fs[i] = k.f
		}
		v, m, _ := Solve(fs1(fs), min(left, 1500*time.Millisecond))
		switch {
		case v == Unsat:
			done(cs)
		case v == Sat && len(cs) == 1:
			if newClosure(fs).hasReal() {
				return // rounding is bounded, not exact, in the formula
			}
			if evalTerm(fs[0], m, map[*Term]*big.Rat{}).Sign() != 0 {
				res.Mismatch = append(res.Mismatch, "a decision or rewriting step of the engine is refuted by a solver")
			}
		case len(cs) > 1:
			h := len(cs) / 2
			group(cs[:h])
			group(cs[h:])
		}
	}
	for i := 0; i < len(cs); {
		j, size := i, 0
		for j < len(cs) && j-i < 100 && (j == i || size+cs[j].f.size < 60_000) {
			size += cs[j].f.size
			j++
		}
		if cs[i].f.size < 200_000 {
			group(cs[i:j])
		}
		i = j
	}
}

func fs1(fs []*Term) []*Term { return []*Term{Or(fs...)} }
