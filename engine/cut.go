package main

import (
	"fmt"
)

// Cuts. A query that relates float results to the inputs through several
// layers of integer division is often decided by what lies above the
// divisions. cutInts replaces every integer atom of nesting depth at most
// level by a fresh integer with the atom's interval. The result is weaker than
// f: unsat is a verdict for f, sat is not.

type cutter struct {
	depth map[*Term]int // nesting of div/mod/ite/mul; -1 when it reaches a real
	seen  map[*Term]bool
	sub   map[*Term]*Term
	level int
}

func (c *cutter) dep(t *Term) int {
	if d, ok := c.depth[t]; ok {
		return d
	}
	d := 0
	switch t.op {
	case OVar:
		if t.sort == SReal || !t.input {
			d = -1
		}
	case OFloor:
		d = -1
	}
	if d == 0 {
		for _, a := range t.args {
			x := c.dep(a)
			if x < 0 {
				d = -1
				break
			}
			if x > d {
				d = x
			}
		}
		if d >= 0 && (t.op == ODiv || t.op == OMod || t.op == OIte || t.op == OMul) && t.sort != SBool {
			d++
		}
	}
	c.depth[t] = d
	return d
}

func (c *cutter) walk(t *Term) {
	if c.seen[t] {
		return
	}
	c.seen[t] = true
	if t.sort == SInt && (t.op == ODiv || t.op == OMod || t.op == OIte || t.op == OMul) {
		if d := c.dep(t); d >= 0 && d <= c.level {
			c.sub[t] = NewIntVar(fmt.Sprintf("cut!%d", t.id), t.lo, t.hi)
			return
		}
	}
	for _, a := range t.args {
		c.walk(a)
	}
	if t.exact != nil {
		c.walk(t.exact)
	}
	if t.sinArg != nil {
		c.walk(t.sinArg)
	}
	if b, ok := bitOf[t]; ok {
		c.walk(b[0])
		c.walk(b[1])
	}
}

func cutInts(f *Term, level int) (*Term, bool) {
	c := &cutter{depth: map[*Term]int{}, seen: map[*Term]bool{}, sub: map[*Term]*Term{}, level: level}
	c.walk(f)
	if len(c.sub) == 0 {
		return f, false
	}
	return substTerm(f, c.sub, map[*Term]*Term{}), true
}
