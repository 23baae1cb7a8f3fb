package main

import (
	"fmt"
	"math/big"
	"strconv"
	"strings"
	"time"
)

// Calendar arithmetic for time.Time values whose instant is symbolic. The
// proleptic Gregorian rules are stated here once (they are the contract of
// package time, which is outside the code under check); concrete instants use
// the real package.

type LocV struct{ name string } // "" = UTC, "off:SECONDS:NAME"

func locOffset(l string) int64 {
	if strings.HasPrefix(l, "off:") {
		p := strings.SplitN(l, ":", 3)
		n, _ := strconv.ParseInt(p[1], 10, 64)
		return n
	}
	return 0
}

func locName(l string) string {
	if strings.HasPrefix(l, "off:") {
		return strings.SplitN(l, ":", 3)[2]
	}
	return "UTC"
}

func goLoc(l string) *time.Location {
	if strings.HasPrefix(l, "off:") {
		return time.FixedZone(locName(l), int(locOffset(l)))
	}
	return time.UTC
}

func (t TimeV) concrete() (time.Time, bool) {
	s, ok1 := t.sec.(int64)
	n, ok2 := t.nsec.(int64)
	if ok1 && ok2 {
		return time.Unix(s, n).In(goLoc(t.loc)), true
	}
	return time.Time{}, false
}

func fromGoTime(t time.Time) TimeV {
	l := ""
	if n, off := t.Zone(); off != 0 {
		l = fmt.Sprintf("off:%d:%s", off, n)
	}
	return TimeV{sec: t.Unix(), nsec: int64(t.Nanosecond()), loc: l}
}

func civilDays(y int64, m time.Month, d int64) int64 {
	return time.Date(int(y), m, int(d), 0, 0, 0, 0, time.UTC).Unix() / 86400
}

func civilOf(days int64) (y, m, d int64) {
	t := time.Unix(days*86400, 0).UTC()
	return int64(t.Year()), int64(t.Month()), int64(t.Day())
}

// leafMap applies f to a term that is c0 + c*ite-tree with constant leaves.
func leafMap(t *Term, f func(int64) int64) (*Term, bool) {
	c0, atoms, coefs := linParts(t)
	if len(atoms) != 1 || atoms[0].op != OIte || !coefs[0].IsInt() || !c0.IsInt() {
		return nil, false
	}
	ok := true
	memo := map[*Term]*Term{}
	var rec func(u *Term) *Term
	n := 0
	rec = func(u *Term) *Term {
		if r, in := memo[u]; in {
			return r
		}
		n++
		if n > 20000 {
			ok = false
			return u
		}
		var r *Term
		if u.isConst() {
			v := new(big.Rat).Add(c0, new(big.Rat).Mul(coefs[0], u.c0))
			r = IntC(f(v.Num().Int64()))
		} else if u.op == OIte {
			a, b := rec(u.args[1]), rec(u.args[2])
			r = Ite(u.args[0], a, b)
		} else if uc0, ua, uc := linParts(u); len(ua) == 1 && ua[0].op == OIte && uc0.IsInt() && uc[0].IsInt() {
			// c0 + c*(uc0 + uc*ite)
			cc0, cc := c0, coefs[0]
			inner := LinComb([]*Term{IntC(1), ua[0]}, []*big.Rat{new(big.Rat).Add(cc0, new(big.Rat).Mul(cc, uc0)), new(big.Rat).Mul(cc, uc[0])})
			x, ok2 := leafMap(inner, f)
			if !ok2 {
				ok = false
				return u
			}
			r = x
		} else {
			ok = false
			return u
		}
		memo[u] = r
		return r
	}
	r := rec(atoms[0])
	return r, ok
}

type civ struct{ y, m, d, doy *Term }

var civMemo = map[*Term]civ{}
var civBack = map[[3]int]*Term{}

func bigK(n int64) *big.Int       { return big.NewInt(n) }
func divI(t *Term, k int64) *Term { return DivFloor(t, bigK(k)) }
func modI(t *Term, k int64) *Term { return ModFloor(t, bigK(k)) }
func b2i(c *Term) *Term           { return Ite(c, IntC(1), IntC(0)) }

func remember(days *Term, c civ) civ {
	civMemo[days] = c
	civBack[[3]int{c.y.id, c.m.id, c.d.id}] = days
	return c
}

// civilT decomposes a symbolic day number (days since 1970-01-01).
func civilT(st *State, days *Term) civ {
	if days.isConst() {
		n := days.c0.Num().Int64()
		y, m, d := civilOf(n)
		return civ{IntC(y), IntC(m), IntC(d), IntC(n - civilDays(y, 1, 1) + 1)}
	}
	if c, ok := civMemo[days]; ok {
		return c
	}
	if y, ok := leafMap(days, func(n int64) int64 { y, _, _ := civilOf(n); return y }); ok {
		m, _ := leafMap(days, func(n int64) int64 { _, m, _ := civilOf(n); return m })
		d, _ := leafMap(days, func(n int64) int64 { _, _, d := civilOf(n); return d })
		w, _ := leafMap(days, func(n int64) int64 { y, _, _ := civilOf(n); return n - civilDays(y, 1, 1) + 1 })
		return remember(days, civ{y, m, d, w})
	}
	lo, hi := days.lo, days.hi
	narrow := lo != nil && hi != nil && new(big.Rat).Sub(hi, lo).Cmp(rat(366*30)) <= 0
	if narrow {
		l, h := ratFloor(lo).Int64(), ratFloor(hi).Int64()
		y0, _, _ := civilOf(l)
		y1, _, _ := civilOf(h)
		y := IntC(y0)
		jan1 := IntC(civilDays(y0, 1, 1))
		leap := b2i(BoolC(isLeap(y0)))
		for k := y0 + 1; k <= y1; k++ {
			b := civilDays(k, 1, 1)
			c := Ge(days, IntC(b))
			y = Ite(c, IntC(k), y)
			jan1 = Ite(c, IntC(b), jan1)
			leap = Ite(c, b2i(BoolC(isLeap(k))), leap)
		}
		// nested ites read outermost-last; rebuild so the latest year wins
		y, jan1, leap = IntC(y0), IntC(civilDays(y0, 1, 1)), b2i(BoolC(isLeap(y0)))
		for k := y0 + 1; k <= y1; k++ {
			b := civilDays(k, 1, 1)
			c := Ge(days, IntC(b))
			y = Ite(c, IntC(k), y)
			jan1 = Ite(c, IntC(b), jan1)
			leap = Ite(c, b2i(BoolC(isLeap(k))), leap)
		}
		doy := Sub(days, jan1) // 0-based
		m := IntC(1)
		start := IntC(0)
		cum := []int64{0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334}
		for i := 1; i < 12; i++ {
			s := IntC(cum[i])
			if i >= 2 {
				s = AddI(leap, cum[i])
			}
			c := Ge(doy, s)
			m = Ite(c, IntC(int64(i+1)), m)
			start = Ite(c, s, start)
		}
		return remember(days, civ{y, m, AddI(Sub(doy, start), 1), AddI(doy, 1)})
	}
	z := AddI(days, 719468)
	era := divI(z, 146097)
	doe := modI(z, 146097)
	yoe := divI(Add(Sub(doe, divI(doe, 1460)), Sub(divI(doe, 36524), divI(doe, 146096))), 365)
	doy := Sub(doe, Add(ScaleI(365, yoe), Sub(divI(yoe, 4), divI(yoe, 100))))
	mp := divI(AddI(ScaleI(5, doy), 2), 153)
	d := AddI(Sub(doy, divI(AddI(ScaleI(153, mp), 2), 5)), 1)
	m := Ite(Lt(mp, IntC(10)), AddI(mp, 3), AddI(mp, -9))
	y := Add(Add(yoe, ScaleI(400, era)), b2i(Le(m, IntC(2))))
	leap := And(Eq(modI(y, 4), IntC(0)), Or(Ne(modI(y, 100), IntC(0)), Eq(modI(y, 400), IntC(0))))
	yd := Ite(Le(m, IntC(2)), AddI(doy, -305), Add(AddI(doy, 60), b2i(leap)))
	return remember(days, civ{y, m, d, yd})
}

func isLeap(y int64) bool { return y%4 == 0 && (y%100 != 0 || y%400 == 0) }

// daysFromCivil: day number of (y, m, d); m and d may be out of range.
func daysFromCivil(y, m, d *Term) *Term {
	if back, ok := civBack[[3]int{y.id, m.id, d.id}]; ok {
		return back
	}
	m0 := AddI(m, -1)
	y = Add(y, divI(m0, 12))
	m0 = modI(m0, 12)
	// shift to March-based
	janfeb := Le(m0, IntC(1))
	yy := Sub(y, b2i(janfeb))
	mp := modI(AddI(m0, 10), 12)
	doy := divI(AddI(ScaleI(153, mp), 2), 5)
	base := Add(ScaleI(365, yy), Add(divI(yy, 4), Sub(divI(yy, 400), divI(yy, 100))))
	return Add(Add(base, doy), AddI(d, -1-719468))
}

// shiftOff returns the local day number and the second of the day.
func (t TimeV) dayAndSec() (days, sod *Term) {
	s := AddI(toTerm(t.sec), locOffset(t.loc))
	return divI(s, 86400), modI(s, 86400)
}
