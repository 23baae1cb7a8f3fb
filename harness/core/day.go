package core

import (
	"math"
	. "vapi"

	suriya "github.com/splendidmoons/suriya-go"
)

func dayOf(y, d int) suriya.SuriyaDay {
	var s suriya.SuriyaDay
	s.Init(y, d)
	return s
}

// D01
func H_day_values() {
	y, d := VInt("y", 639, 4116), VInt("d", -60, 450)
	j := VInt("junk", -1000, 1000)
	s := suriya.SuriyaDay{Year: j, BE_Year: j, CS_Year: j, Day: j, Horakhun: j, Kammacubala: j, Uccabala: j, Avoman: j, Masaken: j, Tithi: j}
	s.Init(y, d)
	r := refYear(y)
	e := d - r.T
	h := r.H + e
	x := 11*h + 650
	t := x/692 + h
	VObs("H", s.Horakhun)
	VObs("K", s.Kammacubala)
	VObs("U", s.Uccabala)
	VObs("A", s.Avoman)
	VObs("M", s.Masaken)
	VObs("T", s.Tithi)
	VAssert(VAnd(s.Year == y, s.BE_Year == y+543, s.CS_Year == y-638, s.Day == d), "a day carries its year in three eras and its number")
	VAssert(s.Horakhun == h, "Horakhun counts from the New Year's day")
	VAssert(s.Kammacubala == 800-((y-638)*292207+373)%800+800*e, "Kammacubala grows by 800 a day")
	VAssert(s.Uccabala == (h+2611)%3232, "Uccabala follows the procedure")
	VAssert(s.Avoman == x%692, "Avoman follows the procedure")
	VAssert(s.Masaken == t/30, "Masaken follows the procedure")
	VAssert(s.Tithi == t%30, "Tithi follows the procedure")
}

// D02
func H_day_steps() {
	y, d := VInt("y", 639, 4116), VInt("d", -60, 450)
	a, b := dayOf(y, d), dayOf(y, d+1)
	VAssert(b.Horakhun == a.Horakhun+1, "Horakhun grows by one a day")
	VAssert(b.Kammacubala == a.Kammacubala+800, "Kammacubala grows by 800 a day")
	VAssert(b.Uccabala == VIte(a.Uccabala == 3231, 0, a.Uccabala+1), "Uccabala grows by one a day around 3232")
	VAssert(b.Avoman == VIte(a.Avoman >= 681, a.Avoman-681, a.Avoman+11), "Avoman grows by eleven a day around 692")
	ta, tb := 30*a.Masaken+a.Tithi, 30*b.Masaken+b.Tithi
	VAssert(tb-ta == VIte(a.Avoman >= 681, 2, 1), "a day is one tithi, and one more when the Avoman carries")
	VAssert(VAnd(a.Tithi >= 0, a.Tithi < 30, a.Avoman >= 0, a.Avoman < 692, a.Uccabala >= 0, a.Uccabala < 3232), "the day's counters stay in their ranges")
}

// D03
func H_day_newyear() {
	y := VInt("y", 639, 4116)
	s := year(y)
	d := dayOf(y, s.Tithi)
	VAssert(VAnd(d.Horakhun == s.Horakhun, d.Kammacubala == s.Kammacubala, d.Uccabala == s.Uccabala, d.Avoman == s.Avoman, d.Masaken == s.Masaken, d.Tithi == s.Tithi), "the day whose number is the year's Tithi has the year's own values")
}

func H_day_overlap() {
	y, d := VInt("y", 639, 4116), VInt("d", -30, 60)
	a, b := year(y), year(y+1)
	// the same day, named in either year
	p, q := dayOf(y, d-b.Tithi+a.Tithi+b.Horakhun-a.Horakhun), dayOf(y+1, d)
	VAssert(VAnd(p.Horakhun == q.Horakhun, p.Uccabala == q.Uccabala, p.Avoman == q.Avoman, p.Masaken == q.Masaken, p.Tithi == q.Tithi), "a day named in two adjacent years has the same counters")
	VAssert(p.Kammacubala == q.Kammacubala+292207, "Kammacubala counts from each year's own start, 292207 apart")
}

// the reference for the Sun, in integers of a ten thousandth of a degree:
// whole degrees w, arcmins z less the correction of 3, then four decimals down.
func refMeanSun(y, d int) int {
	r := refYear(y)
	a := (d-r.T)*800 + r.K
	const up = 1000 // keeps the divisions over positive numbers
	w := (a*360+up*292207)/292207 - up
	z := (a*360-w*292207)*60/292207 - 3
	return w*10000 + (z+60)*500/3 - 10000
}

func near(a, b, tol float64) bool { return VAnd(a-b <= tol, b-a <= tol) }

// D04
func H_day_sun() {
	y, d := VInt("y", 639, 4116), VInt("d", 0, 385)
	s := dayOf(y, d)
	i := refMeanSun(y, d)
	VAssert(near(s.MeanSun, float64(i)/10000, 0.000001), "the mean Sun follows the procedure")
	// the equation of the centre, in whole arcmins
	b := math.Floor(134 * math.Sin(math.Abs(s.MeanSun-80)*(math.Pi/180)))
	t := s.MeanSun + b/60
	t = refWrap(t)
	VAssert(nearCircle(s.TrueSun, t, 0.00011), "the true Sun is the mean Sun with its correction")
}

func refWrap(t float64) float64 {
	if t > 360 {
		return t - 360
	}
	if t < 0 {
		return t + 360
	}
	return t
}

func nearCircle(a, b, tol float64) bool {
	return VOr(near(a, b, tol), near(a, b+360, tol), near(a, b-360, tol))
}

// D05
func H_day_moon() {
	y, d := VInt("y", 639, 4116), VInt("d", 0, 385)
	s := dayOf(y, d)
	r := refYear(y)
	m := s.TrueSun + float64(s.Avoman+s.Avoman/25)/60 + float64(s.Tithi*12) - 0.6666
	m2 := s.MeanMoon - m
	VAssert(VOr(near(m2, 0, 0.000001), near(m2, -360, 0.000001), near(m2, 360, 0.000001), near(m2, -720, 0.000001)), "the mean Moon is the Sun with tithi and Avoman, less the correction")
	u := float64(((r.U+d-r.T)*90*60 + 2*808)) / (808 * 60)
	c := 296 * math.Sin((s.MeanMoon-u)*(math.Pi/180)) / 60
	VAssert(nearCircle(s.TrueMoon, s.MeanMoon-c, 0.00011), "the true Moon is the mean Moon with its correction")
	VAssert(near((s.Raek-1)*13.3333, s.TrueMoon, 0.00001), "the Raek counts mansions of 13.3333 degrees from 1")
}

// D06
func H_day_circle() {
	y, d := VInt("y", 639, 4116), VInt("d", 0, 385)
	const eps = 0.00011 // degrees; positions are kept to 0.0001
	s := dayOf(y, d)
	VAssert(VAnd(s.TrueSun >= -eps, s.TrueSun <= 360+eps), "the true Sun lies within the circle")
	VAssert(VAnd(s.MeanMoon >= -eps, s.MeanMoon <= 360+eps), "the mean Moon lies within the circle")
	VAssert(VAnd(s.TrueMoon >= -eps, s.TrueMoon <= 360+eps), "the true Moon lies within the circle")
	VAssert(VAnd(s.Raek >= 1-eps, s.Raek <= 28.0001), "the Raek lies in 1..28")
	e := s.TrueSun - s.MeanSun
	e = refWrap(e+180) - 180
	VAssert(VAnd(e >= -134.0/60-0.001, e <= 134.0/60+0.001), "the Sun's correction is at most 134 arcmins")
	f := s.TrueMoon - s.MeanMoon
	f = refWrap(f+180) - 180
	VAssert(VAnd(f >= -296.0/60-0.001, f <= 296.0/60+0.001), "the Moon's correction is at most 296 arcmins")
}

// D07
func H_day_reuse() {
	y, d := VInt("y", 639, 4116), VInt("d", 0, 385)
	y2, d2 := VInt("y2", 639, 4116), VInt("d2", 0, 385)
	a := dayOf(y, d)
	b := dayOf(y2, d2)
	b.Init(y, d)
	VAssert(VAnd(a.Year == b.Year, a.BE_Year == b.BE_Year, a.CS_Year == b.CS_Year, a.Day == b.Day, a.Horakhun == b.Horakhun, a.Kammacubala == b.Kammacubala, a.Uccabala == b.Uccabala, a.Avoman == b.Avoman, a.Masaken == b.Masaken, a.Tithi == b.Tithi), "reusing a day for another leaves no trace in the counters")
	VAssert(VAnd(a.MeanSun == b.MeanSun, a.TrueSun == b.TrueSun, a.MeanMoon == b.MeanMoon, a.TrueMoon == b.TrueMoon, a.Raek == b.Raek), "reusing a day for another leaves no trace in the positions")
	VAssert(VAnd(a.Date.IsZero(), b.Date.IsZero()), "Date stays unset")
}
