package core

import (
	"fmt"
	"time"
	. "vapi"

	suriya "github.com/splendidmoons/suriya-go"
)

// H01: degrees on a grid of 2^-20
func H_ral_split() {
	n := VInt("n", -3600*1048576, 3600*1048576)
	d := float64(n) / 1048576
	x, y, z := suriya.DegreeToRal(d)
	VObs("x", x)
	VObs("y", y)
	VObs("z", z)
	VAssert(VAnd(y >= 0, y < 30), "the angsa lies in 0..29")
	VAssert(VAnd(z >= 0, z < 60), "the lipda lies in 0..59")
	t := 30*60*x + 60*y + z
	VAssert(VAnd(t*1048576 <= 60*n, 60*n < (t+1)*1048576), "rasi, angsa and lipda are the whole arcmins of the degree")
}

// degrees as the code itself holds them, to four decimals
func H_ral_split4() {
	n := VInt("n", -36000000, 36000000)
	d := float64(n) / 10000
	x, y, z := suriya.DegreeToRal(d)
	VAssert(VAnd(y >= 0, y < 30), "the angsa lies in 0..29")
	VAssert(VAnd(z >= 0, z < 60), "the lipda lies in 0..59")
	t := 30*60*x + 60*y + z
	VAssert(VAnd((t-1)*10000 < 60*n, 60*n < (t+1)*10000+1), "rasi, angsa and lipda are the arcmins of a four decimal degree to within one")
	VAssert(VImp((60*n)%10000 != 0, VAnd(t*10000 <= 60*n, 60*n < (t+1)*10000)), "a four decimal degree splits into its whole arcmins")
}

// H02
func H_ral_join() {
	x, y, z := VInt("x", -24, 24), VInt("y", -60, 60), VInt("z", -120, 120)
	d := suriya.RalToDegree(x, y, z)
	want := float64((30*x+y)*60+z) / 60
	VAssert(VAnd(d <= want+0.000000001, d > want-0.000100001), "RalToDegree is the degree to four decimals, rounded down")
}

func H_ral_roundtrip() {
	n := VInt("n", -1440*1048576, 1440*1048576)
	d := float64(n) / 1048576
	x, y, z := suriya.DegreeToRal(d)
	back := suriya.RalToDegree(x, y, z)
	VAssert(VAnd(back <= d+0.000000001, back > d-(1.0/60+0.000101)), "converting to arcmins and back loses at most one arcmin")
	x2, y2, z2 := suriya.DegreeToRal(back)
	lost := (30*60*x + 60*y + z) - (30*60*x2 + 60*y2 + z2)
	VAssert(VOr(lost == 0, lost == 1), "a second conversion loses at most one arcmin more")
}

// H03
func H_ral_text() {
	n := VInt("n", -1440*1048576, 1440*1048576)
	d := float64(n) / 1048576
	x, y, z := suriya.DegreeToRal(d)
	VAssert(suriya.DegreeToRalString(d) == fmt.Sprintf("%d:%d°%d'", x, y, z), "the text shows rasi, angsa and lipda")
}

// H04
func H_normalize() {
	n := VInt("n", -7200*1048576, 7200*1048576)
	d := float64(n) / 1048576
	r := suriya.NormalizeDegree(d)
	VAssert(VAnd(r >= 0, r <= 360), "a normalised degree lies in 0..360")
	m := n % (360 * 1048576)
	m = VIte(m < 0, m+360*1048576, m)
	e := r - float64(m)/1048576
	VAssert(VOr(VAnd(e > -0.000001, e < 0.000001), VAnd(m == 0, e > 359.999999)), "normalising removes whole circles only")
	VAssert(VImp(VAnd(n >= 0, n <= 360*1048576), r == d), "a degree within the circle stays as it is")
}

// H05
func H_horakhun_date() {
	h := VInt("h", 0, 1600000)
	t := suriya.HorakhunToDate(int64(h))
	u := suriya.HorakhunToDate(int64(h + 1))
	ref := time.Date(1963, 7, 5, 23, 59, 59, 0, time.UTC)
	VObs("u", int(t.Unix()/86400))
	VAssert(t.Unix() == ref.Unix()+int64(h-484049)*86400, "Horakhun days are counted from 1963-07-05, day 484049")
	VAssert(u.Unix()-t.Unix() == 86400, "the next Horakhun is the next day")
	VAssert(VAnd(t.Hour() == 23, t.Minute() == 59, t.Second() == 59), "the date is the end of the day in UTC")
}

func H_newyear_date() {
	y := VInt("y", 639, 4116)
	s := year(y)
	t := suriya.HorakhunToDate(int64(s.Horakhun))
	VObs("m", int(t.Month()))
	VObs("d", t.Day())
	VAssert(t.Year() == y, "the New Year's day of a year falls in that civil year")
	VAssert(VAnd(int(t.Month()) >= 3, int(t.Month()) <= 5), "the New Year's day falls between March and May")
}

// H06
func H_names() {
	months := []string{"null", "magasira", "phussa", "magha", "phagguna", "citta", "vesakha", "jettha", "asalha", "savana", "bhaddapada", "assayuja", "kattika", "2nd asalha"}
	m := VStr("month", months...)
	mn := suriya.MonthToInt(m)
	for i, n := range months {
		VAssert(VImp(m == n, mn == i), "months are numbered from Magasira, with the second Asalha as 13")
	}
	seasons := []string{"null", "hemanta", "gimhana", "vassana"}
	s := VStr("season", seasons...)
	sn := suriya.SeasonToInt(s)
	for i, n := range seasons {
		VAssert(VImp(s == n, sn == i), "seasons are numbered Hemanta, Gimhana, Vassana from 1")
	}
	names := []string{"", "Hemanta", "Gimha", "Vassāna"}
	k := VInt("k", -1000000, 1000000)
	nm := suriya.SeasonName(k)
	for i, n := range names {
		VAssert(VImp(k == i, nm == n), "a season number has its name")
	}
	VAssert(VImp(VOr(k < 1, k > 3), nm == ""), "any other season number has no name")
	cals := []string{"mahanikaya", "dhammayut", "srilanka", "myanmar"}
	c := VStr("calendar", cals...)
	cn := suriya.CalendarToInt(c)
	for i, n := range cals {
		VAssert(VImp(c == n, cn == i), "calendars are numbered from mahanikaya")
	}
	sts := []string{"draft", "predicted", "confirmed"}
	t := VStr("status", sts...)
	tn := suriya.StatusToInt(t)
	for i, n := range sts {
		VAssert(VImp(t == n, tn == i), "statuses are numbered from draft")
	}
	u := VStr("u", "", "Magha", "MAGHA", "adhikamasa", "summer", "thai", "done", "asalha ")
	VAssert(VAnd(suriya.MonthToInt(u) == 0, suriya.SeasonToInt(u) == 0, suriya.CalendarToInt(u) == 0, suriya.StatusToInt(u) == 0), "an unknown name is number 0")
}
