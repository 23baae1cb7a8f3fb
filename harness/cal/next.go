// Package cal holds the harnesses over the calendar: uposathas, half moons,
// events and days. These files are not part of the repository's own build (two
// third-party packages are absent here); they are checked with stand-ins for
// those packages.
package cal

import (
	"time"
	. "vapi"

	suriya "github.com/splendidmoons/suriya-go"
)

type ref struct{ H, K, A, T int }

func refYear(y int) ref {
	n := (y-638)*292207 + 373
	h := n/800 + 1
	x := 11*h + 650
	e := x/692 + h
	return ref{H: h, K: 800 - n%800, A: x % 692, T: e % 30}
}

func refWouldM(y int) bool {
	t := refYear(y).T
	return VOr(t >= 24, t <= 5)
}

func refM(y int) bool { return VAnd(refWouldM(y), !refWouldM(y+1)) }

func refWouldV(y int) bool {
	r := refYear(y)
	return VOr(VAnd(r.K <= 207, r.A <= 126), VAnd(r.K > 207, r.A < 137))
}

func refV(y int) bool {
	return VAnd(!refM(y), VOr(VAnd(refM(y-1), refWouldV(y-1)), refWouldV(y)))
}

func atDay(d int) time.Time { return time.Unix(int64(d)*86400, 0).UTC() }

const (
	day0 = -483594 // 0645-12-17
	day1 = 783500  // 4115
)

// U01: from any new moon to its full moon
func H_next_full() {
	d := VInt("d", day0, day1)
	month, season := VInt("month", 1, 13), VInt("season", 1, 3)
	n, tot, md := VInt("n", 1, 9), VInt("tot", 8, 10), VInt("md", 29, 30)
	ly := VInt("ly", 1000, 5000)
	lu := suriya.UposathaMoon{Date: atDay(d), Phase: "new", Calendar: VInt("cal", 0, 3), Status: VInt("status", 0, 2), Event: VStr("event", "", "magha", "asalha"),
		S_Number: n, S_Total: tot, U_Days: md - 15, M_Days: md, LunarMonth: month, LunarSeason: season, LunarYear: ly, HasAdhikavara: VBool("av"), Source: "s", Comments: "c"}
	nu := lu.NextUposatha()
	y := atDay(d + 15).Year()
	m := refM(y)
	VAssert(nu.Phase == "full", "a full moon follows a new moon")
	VAssert(nu.Date.Equal(atDay(d+15)), "the full moon is 15 days after the new moon")
	VAssert(VAnd(nu.S_Number == n+1, nu.S_Total == tot, nu.LunarSeason == season), "the full moon continues the season")
	VAssert(VAnd(nu.LunarMonth == month, nu.M_Days == md, nu.U_Days == 15), "the full moon continues the month, with 15 days")
	VAssert(VAnd(nu.LunarYear == ly, !nu.HasAdhikavara), "the full moon keeps the lunar year and carries no extra day")
	VAssert((nu.Event == "magha") == VOr(VAnd(m, month == 4), VAnd(!m, month == 3)), "Magha Puja is in the 3rd month, the 4th in adhikamasa years")
	VAssert((nu.Event == "vesakha") == VOr(VAnd(m, month == 7), VAnd(!m, month == 6)), "Vesakha Puja is in the 6th month, the 7th in adhikamasa years")
	VAssert((nu.Event == "asalha") == VOr(VAnd(m, month == 13), VAnd(!m, month == 8)), "Asalha Puja is in the 8th month, the 2nd Asalha in adhikamasa years")
	VAssert((nu.Event == "pavarana") == (month == 11), "Pavarana is in the 11th month")
	VAssert(VOr(nu.Event == "", nu.Event == "magha", nu.Event == "vesakha", nu.Event == "asalha", nu.Event == "pavarana"), "no other event is announced")
	VAssert(VAnd(nu.Status == 0, nu.Calendar == 0, nu.Source == "", nu.Comments == ""), "a computed moon is a mahanikaya draft without notes")
}

// U02: from any full moon to the new moon that opens the next month
func H_next_new() {
	d := VInt("d", day0, day1)
	month, season := VInt("month", 1, 13), VInt("season", 1, 3)
	n, tot := VInt("n", 2, 10), VInt("tot", 8, 10)
	VAssume(VAnd(n <= tot, tot != 9))
	ly := VInt("ly", 1000, 5000)
	lu := suriya.UposathaMoon{Date: atDay(d), Phase: "full", Calendar: VInt("cal", 0, 3), Status: VInt("status", 0, 2), Event: VStr("event", "", "magha", "asalha"),
		S_Number: n, S_Total: tot, U_Days: 15, M_Days: VInt("md", 29, 30), LunarMonth: month, LunarSeason: season, LunarYear: ly, HasAdhikavara: VBool("av"), Source: "s", Comments: "c"}
	nu := lu.NextUposatha()
	y := atDay(d).Year()
	m, v := refM(y), refV(y)
	nm := VIte(month == 13, 9, VIte(VAnd(month == 8, m), 13, VIte(month == 12, 1, month+1)))
	VAssert(nu.Phase == "new", "a new moon follows a full moon")
	VAssert(nu.LunarMonth == nm, "months run 1 to 12, with the 2nd Asalha between the 8th and 9th in adhikamasa years")
	extra := VAnd(v, nm == 8)
	VAssert(nu.HasAdhikavara == extra, "the extra day is in the 8th month of adhikavara years")
	VAssert(nu.M_Days == VIte(VOr(nm%2 == 1, extra), 30, 29), "odd months and the adhikavara 8th month have 30 days, the others 29")
	VAssert(nu.U_Days == nu.M_Days-15, "the new moon takes what the full moon's 15 days leave of the month")
	VAssert(nu.Date.Equal(atDay(d).Add(time.Duration(nu.M_Days-15)*24*time.Hour)), "the new moon is 14 or 15 days after the full moon")
	last := n == tot
	VAssert(nu.S_Number == VIte(last, 1, n+1), "the season's uposathas are counted from 1 to its total")
	hot := VAnd(m, nm >= 5, VOr(nm <= 8, nm == 13))
	VAssert(nu.S_Total == VIte(hot, 10, 8), "a season has 8 uposathas, the adhikamasa hot season 10")
	turn := VAnd(last, month == 12)
	VAssert(nu.LunarSeason == VIte(turn, 1, VIte(last, season+1, season)), "the season changes after its last uposatha and starts over after the 12th month")
	VAssert(nu.LunarYear == VIte(turn, ly+1, ly), "the lunar year changes after the 12th month")
	VAssert(VAnd(nu.Event == "", nu.Status == 0, nu.Calendar == 0, nu.Source == "", nu.Comments == ""), "a new moon announces no event")
}

// U03: twice the same
func H_next_value() {
	d := VInt("d", day0, day1)
	month, season := VInt("month", 1, 13), VInt("season", 1, 3)
	n := VInt("n", 1, 9)
	ph := VForkS(VStr("ph", "new", "full"))
	lu := suriya.UposathaMoon{Date: atDay(d), Phase: ph, S_Number: n, S_Total: 8, U_Days: 15, M_Days: 30, LunarMonth: month, LunarSeason: season, LunarYear: 2500}
	keep := lu
	a := lu.NextUposatha()
	other := suriya.UposathaMoon{Date: atDay(d + VInt("dd", -400, 400)), Phase: VForkS(VStr("ph2", "new", "full")), LunarMonth: VInt("month2", 1, 13), S_Number: 1, S_Total: 8}
	other.NextUposatha()
	b := lu.NextUposatha()
	VAssert(VAnd(lu.LunarMonth == keep.LunarMonth, lu.Phase == keep.Phase, lu.S_Number == keep.S_Number, lu.Date.Equal(keep.Date), lu.Event == keep.Event), "asking for the next moon leaves the moon as it is")
	VAssert(VAnd(a.Date.Equal(b.Date), a.Phase == b.Phase, a.Event == b.Event, a.LunarMonth == b.LunarMonth, a.LunarSeason == b.LunarSeason, a.LunarYear == b.LunarYear,
		a.S_Number == b.S_Number, a.S_Total == b.S_Total, a.M_Days == b.M_Days, a.U_Days == b.U_Days, a.HasAdhikavara == b.HasAdhikavara), "the next moon depends on the moon alone")
}
