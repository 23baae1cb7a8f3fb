// Package core holds the harnesses over the files the repository builds.
package core

import (
	"fmt"
	"strconv"
	. "vapi"

	suriya "github.com/splendidmoons/suriya-go"
)

// The reference: the procedure of Eade's "Rules for Interpolation in the Thai
// Calendar", in integers, written independently of the code under check.
type ref struct{ H, K, U, A, M, T int }

func refYear(y int) ref {
	n := (y-638)*292207 + 373
	h := n/800 + 1
	x := 11*h + 650
	e := x/692 + h
	return ref{H: h, K: 800 - n%800, U: (h + 2611) % 3232, A: x % 692, M: e / 30, T: e % 30}
}

func refWouldM(y int) bool {
	t := refYear(y).T
	return VOr(t >= 24, t <= 5)
}

func refM(y int) bool { return VAnd(refWouldM(y), !refWouldM(y+1)) }

func refWouldV(y int) bool {
	r := refYear(y)
	return VOr(VAnd(r.K <= 207, r.A <= 126), VAnd(r.K > 207, r.A < 137))
}

func refCarried(y int) bool { return VAnd(refM(y-1), refWouldV(y-1)) }

// refV: without the exceptions table.
func refV(y int) bool {
	return VAnd(!refM(y), VOr(refCarried(y), refWouldV(y)))
}

func year(y int) suriya.SuriyaYear {
	var s suriya.SuriyaYear
	s.Init(y)
	return s
}

// Y01
func H_year_values() {
	y := VInt("y", 639, 20000)
	j := VInt("junk", -100000, 100000)
	s := suriya.SuriyaYear{Year: j, BE_Year: j + 1, CS_Year: j + 2, Horakhun: j, Kammacubala: j + 3, Uccabala: j, Avoman: j, Masaken: j, Tithi: j}
	s.Init(y)
	r := refYear(y)
	VObs("H", s.Horakhun)
	VObs("K", s.Kammacubala)
	VObs("U", s.Uccabala)
	VObs("A", s.Avoman)
	VObs("M", s.Masaken)
	VObs("T", s.Tithi)
	VAssert(s.Year == y, "Year is the year asked for")
	VAssert(s.BE_Year == y+543, "BE_Year is CE + 543")
	VAssert(s.CS_Year == y-638, "CS_Year is CE - 638")
	VAssert(s.Horakhun == r.H, "Horakhun follows the procedure")
	VAssert(s.Kammacubala == r.K, "Kammacubala follows the procedure")
	VAssert(s.Uccabala == r.U, "Uccabala follows the procedure")
	VAssert(s.Avoman == r.A, "Avoman follows the procedure")
	VAssert(s.Masaken == r.M, "Masaken follows the procedure")
	VAssert(s.Tithi == r.T, "Tithi follows the procedure")
	VAssert(s.FirstDay.IsZero(), "FirstDay stays unset")
}

// Y02
func H_year_steps() {
	y := VInt("y", 639, 20000)
	a, b := year(y), year(y+1)
	d := b.Horakhun - a.Horakhun
	VObs("d", d)
	VAssert(VOr(d == 365, d == 366), "a solar year has 365 or 366 days")
	VAssert(a.Is_Suriya_Leap() == (d == 366), "a year is leap exactly when it has 366 days")
	VAssert(a.Is_Suriya_Leap() == (a.Kammacubala <= 207), "leap means Kammacubala of 207 or less")
	VAssert(b.Kammacubala == VIte(a.Kammacubala > 207, a.Kammacubala-207, a.Kammacubala+593), "Kammacubala drops by 207 around 800")
	VAssert((b.Uccabala-a.Uccabala-d+3232)%3232 == 0, "Uccabala advances one per day")
	VAssert((b.Avoman-a.Avoman-11*d+692*8)%692 == 0, "Avoman advances eleven per day")
	// every 692 days hold 703 tithis
	e := (a.Avoman + 11*d) / 692
	VAssert(30*b.Masaken+b.Tithi == 30*a.Masaken+a.Tithi+d+e, "elapsed tithis advance by the days and the carried Avoman")
	m := b.Masaken - a.Masaken
	VAssert(VOr(m == 12, m == 13), "a solar year holds 12 or 13 lunar months")
}

// Y03
func H_year_ranges() {
	y := VInt("y", 639, 20000)
	s := year(y)
	VAssert(VAnd(s.Kammacubala >= 1, s.Kammacubala <= 800), "Kammacubala lies in 1..800")
	VAssert(VAnd(s.Uccabala >= 0, s.Uccabala < 3232), "Uccabala lies in 0..3231")
	VAssert(VAnd(s.Avoman >= 0, s.Avoman < 692), "Avoman lies in 0..691")
	VAssert(VAnd(s.Tithi >= 0, s.Tithi < 30), "Tithi lies in 0..29")
	// 292207 days in 800 years, counted from the era
	e := 800*(s.Horakhun-1) + 800 - s.Kammacubala
	VAssert(e == 292207*(y-638)+373, "Horakhun and Kammacubala together count the era in 800ths of a day")
	// 703 tithis in 692 days
	VAssert(692*(30*s.Masaken+s.Tithi)+s.Avoman == 703*s.Horakhun+650, "Masaken, Tithi and Avoman together count the era in 692nds of a tithi")
}

// Y04
func H_adhikamasa_rule() {
	y := VInt("y", 640, 5000)
	s := year(y)
	t := refYear(y).T
	w := s.Would_Be_Adhikamasa()
	VAssert(w == VOr(t >= 24, t <= 5), "a year qualifies when its New Year tithi is 24..29 or 0..5")
	VAssert(s.Is_Adhikamasa() == VAnd(refWouldM(y), !refWouldM(y+1)), "a year is adhikamasa when it qualifies and the next does not")
}

// Y05
func H_adhikamasa_spacing() {
	y := VInt("y", 640, 5000)
	a, b, c := year(y).Is_Adhikamasa(), year(y+1).Is_Adhikamasa(), year(y+2).Is_Adhikamasa()
	VAssert(!VAnd(a, b), "two adhikamasa years are never adjacent")
	VAssert(VOr(a, b, c), "every three years in a row hold an adhikamasa year")
}

func H_adhikamasa_delta() {
	y := VInt("y", 650, 5000)
	s := year(y)
	d := s.DeltaAdhikamasa()
	VObs("d", d)
	m1, m2, m3 := year(y-1).Is_Adhikamasa(), year(y-2).Is_Adhikamasa(), year(y-3).Is_Adhikamasa()
	want := VIte(m1, 1, VIte(m2, 2, VIte(m3, 3, -1)))
	VAssert(d == want, "DeltaAdhikamasa is the distance to the last adhikamasa year")
	VAssert(VAnd(d >= 1, d <= 3), "the last adhikamasa year is 1 to 3 years back")
	VAssert(VImp(s.Is_Adhikamasa(), d >= 2), "adhikamasa years are 2 or 3 years apart")
}

// Y06
func H_adhikavara_rule() {
	y := VInt("y", 641, 5000)
	s := year(y)
	VAssert(s.Would_Be_Adhikavara() == refWouldV(y), "a year qualifies by Avoman, 126 or less when leap and below 137 otherwise")
	VAssert(s.Has_Carried_Adhikavara() == refCarried(y), "the day is carried from an adhikamasa year that qualified")
	VAssert(s.Is_Adhikavara() == refV(y), "a year is adhikavara when not adhikamasa and qualifying or carried")
	VAssert(!VAnd(s.Is_Adhikavara(), s.Is_Adhikamasa()), "a year is never adhikamasa and adhikavara at once")
}

// Y07
func H_exceptions() {
	y := VInt("y", 641, 5000)
	s := year(y)
	VAssert(!suriya.UseExceptions, "exceptions are off by default")
	pure := s.Is_Adhikavara()
	m := s.Is_Adhikamasa()
	l := s.YearLength()
	suriya.UseExceptions = true
	with := s.Is_Adhikavara()
	m2 := s.Is_Adhikamasa()
	l2 := s.YearLength()
	t := year(y)
	suriya.UseExceptions = false
	again := s.Is_Adhikavara()
	VAssert(pure == refV(y), "without exceptions the rule decides")
	VAssert(VImp(y == 1994, !with), "1994 is not adhikavara with exceptions")
	VAssert(VImp(y == 1997, with), "1997 is adhikavara with exceptions")
	VAssert(VImp(VAnd(y != 1994, y != 1997), with == pure), "every other year is the same with and without exceptions")
	VAssert(m == m2, "exceptions do not touch adhikamasa")
	VAssert(VImp(VAnd(y != 1994, y != 1997), l == l2), "every other year has the same length with and without exceptions")
	VAssert(VImp(y == 1994, VAnd(l == 355, l2 == 354)), "1994 loses its extra day with exceptions")
	VAssert(VImp(y == 1997, VAnd(l == 354, l2 == 355)), "1997 gains an extra day with exceptions")
	VAssert(VAnd(t.Horakhun == s.Horakhun, t.Tithi == s.Tithi, t.Avoman == s.Avoman, t.Kammacubala == s.Kammacubala), "exceptions do not touch the year's values")
	VAssert(pure == again, "turning the exceptions off restores the rule")
}

// Y08
func H_year_length() {
	y := VInt("y", 641, 5000)
	s := year(y)
	l := s.YearLength()
	VObs("l", l)
	VAssert(VOr(l == 354, l == 355, l == 384), "a lunar year has 354, 355 or 384 days")
	VAssert((l == 384) == refM(y), "384 days exactly in adhikamasa years")
	VAssert((l == 355) == refV(y), "355 days exactly in adhikavara years")
}

// Y09: lunar years keep in step with the elapsed tithis
func H_adhikavara_delta() {
	y := VInt("y", 660, 5000)
	s := year(y)
	d := s.DeltaAdhikavara()
	VObs("d", d)
	want := -1
	for k := 13; k >= 1; k-- {
		want = VIte(year(y-k).Is_Adhikavara(), k, want)
	}
	VAssert(d == want, "DeltaAdhikavara is the distance to the last adhikavara year")
	VAssert(VAnd(d >= 1, d <= 7), "the last adhikavara year is 1 to 7 years back")
}

// Y11
func H_cycle() {
	y := VInt("y", 1, 20000)
	a, b := year(y), year(y+1)
	v, v2 := a.AdhikavaraCyclePos(), b.AdhikavaraCyclePos()
	m, m2 := a.AdhikamasaCyclePos(), b.AdhikamasaCyclePos()
	VObs("v", v)
	VObs("m", m)
	VAssert(VAnd(v >= 1, v <= 57), "the adhikavara cycle position lies in 1..57")
	VAssert(VAnd(m >= 1, m <= 19), "the adhikamasa cycle position lies in 1..19")
	VAssert(v2 == VIte(v == 57, 1, v+1), "the adhikavara cycle position advances by one and returns to 1")
	VAssert(m2 == VIte(m == 19, 1, m+1), "the adhikamasa cycle position advances by one and returns to 1")
	VAssert(VImp(y == 1984, VAnd(v == 1, m == 1)), "1984 opens both cycles")
	VAssert(v == ((y-1984)+57*400)%57+1, "the adhikavara cycle is counted from 1984")
	VAssert(m == ((y-1984)+19*400)%19+1, "the adhikamasa cycle is counted from 1984")
}

// Y12
func H_year_text() {
	y := VInt("y", 639, 20000)
	s := year(y)
	VAssert(s.String() == strconv.Itoa(y), "a year prints as its number")
	VAssert(s.SuriyaValuesString() == fmt.Sprintf("CE: %d\nBE: %d\nCS: %d\nHorakhun: %d\nKammacubala: %d\nUccabala: %d\nAvoman: %d\nMasaken: %d\nTithi: %d\n",
		y, y+543, y-638, s.Horakhun, s.Kammacubala, s.Uccabala, s.Avoman, s.Masaken, s.Tithi), "the values print one to a line")
}
