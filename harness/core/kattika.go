package core

import (
	"time"
	. "vapi"

	suriya "github.com/splendidmoons/suriya-go"
)

func days(a, b time.Time) int { return int(b.Sub(a) / (24 * time.Hour)) }

const day = 24 * time.Hour

func civil(t time.Time, y, m, d int) bool {
	return VAnd(t.Year() == y, int(t.Month()) == m, t.Day() == d, t.Hour() == 0, t.Minute() == 0, t.Second() == 0, t.Nanosecond() == 0)
}

// K01
func H_kattika_steps() {
	y := VInt("y", 645, 4115)
	a, b := suriya.CalculatePreviousKattika(y), suriya.CalculatePreviousKattika(y+1)
	l := year(y).YearLength()
	VObs("l", l)
	VAssert(b.Equal(a.Add(time.Duration(l)*day)), "successive Kattikas are one lunar year apart")
	VAssert(VOr(l == 354, l == 355, l == 384), "a lunar year has 354, 355 or 384 days")
	VAssert(l == VIte(refM(y), 384, VIte(refV(y), 355, 354)), "the year between two Kattikas has the length of its kind")
}

// K02
func H_kattika_place() {
	y := VInt("y", 645, 4116)
	k := suriya.CalculatePreviousKattika(y)
	VObs("m", int(k.Month()))
	VObs("d", k.Day())
	VAssert(k.Year() == y-1, "Kattika falls in the civil year before")
	VAssert(int(k.Month()) >= 10, "Kattika falls in October, November or December")
	VAssert(VAnd(k.Hour() == 0, k.Minute() == 0, k.Second() == 0, k.Nanosecond() == 0), "Kattika is a whole day in UTC")
	VAssert(VImp(y == 2016, civil(k, 2015, 11, 25)), "the Kattika before 2016 is 2015-11-25")
}

// K03
func H_asalha() {
	y := VInt("y", 645, 4115)
	s := year(y)
	k, n := suriya.CalculatePreviousKattika(y), suriya.CalculatePreviousKattika(y+1)
	a := s.AsalhaPuja()
	VObs("m", int(a.Month()))
	VObs("d", a.Day())
	want := VIte(refM(y), 266, VIte(refV(y), 237, 236))
	VAssert(a.Equal(k.Add(time.Duration(want)*day)), "Asalha Puja is 236 days after Kattika, 266 in adhikamasa and 237 in adhikavara years")
	VAssert(n.Equal(a.Add(118*day)), "Kattika follows Asalha Puja by four months of 118 days")
	VAssert(a.Year() == y, "Asalha Puja falls in its civil year")
	VAssert(VAnd(int(a.Month()) >= 5, int(a.Month()) <= 9), "Asalha Puja falls between May and September")
}

// K04
func H_kattika_exceptions() {
	y := VInt("y", 645, 4115)
	s := year(y)
	k1 := suriya.CalculatePreviousKattika(y)
	a1 := s.AsalhaPuja()
	suriya.UseExceptions = true
	k2 := suriya.CalculatePreviousKattika(y)
	n2 := suriya.CalculatePreviousKattika(y + 1)
	a2 := s.AsalhaPuja()
	l2 := s.YearLength()
	suriya.UseExceptions = false
	mid := VAnd(y >= 1995, y <= 1997)
	VAssert(n2.Equal(k2.Add(time.Duration(l2)*day)), "with exceptions too, successive Kattikas are one lunar year apart")
	VAssert(VImp(!mid, k1.Equal(k2)), "Kattika moves only between the two exceptions")
	VAssert(VImp(mid, k2.Equal(k1.Add(-day))), "between the two exceptions Kattika is a day earlier")
	early := VAnd(y >= 1994, y <= 1996)
	VAssert(VImp(!early, a1.Equal(a2)), "Asalha Puja moves only from the first exception to before the second")
	VAssert(VImp(early, a2.Equal(a1.Add(-day))), "from the first exception to before the second Asalha Puja is a day earlier")
}
