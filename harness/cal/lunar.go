package cal

import (
	"time"
	. "vapi"

	suriya "github.com/splendidmoons/suriya-go"
)

const day = 24 * time.Hour

func kattikaMoon(y int) suriya.UposathaMoon {
	k := suriya.CalculatePreviousKattika(y)
	return suriya.UposathaMoon{Date: k, Phase: "full", S_Number: 8, S_Total: 8, U_Days: 15, M_Days: 29, LunarMonth: 12, LunarSeason: 3, LunarYear: k.Year() + 543}
}

// monthOf: the number and the length of the i'th month of a lunar year.
func monthOf(i int, m, v bool) (month, days int) {
	month = i + 1
	if i == 8 {
		month = VIte(m, 13, 9)
	}
	if i > 8 {
		month = VIte(m, i, i+1)
	}
	days = VIte(VOr(month%2 == 1, VAnd(v, month == 8)), 30, 29)
	return
}

// moonAt: the full moon that closes the i'th month of lunar year y, and the
// days from Kattika to it; month -1 is Kattika itself.
func moonAt(y, i int, m, v bool) (u suriya.UposathaMoon, off int) {
	if i < 0 {
		return suriya.UposathaMoon{Phase: "full", S_Number: 8, S_Total: 8, U_Days: 15, M_Days: 29, LunarMonth: 12, LunarSeason: 3, LunarYear: y - 1 + 543}, 0
	}
	for j := 0; j <= i; j++ {
		_, d := monthOf(j, m, v)
		off += d
	}
	u.Phase = "full"
	u.LunarMonth, u.M_Days = monthOf(i, m, v)
	u.U_Days = 15
	u.LunarYear = y + 543
	hot := VIte(m, 5, 4)
	u.LunarSeason = VIte(i < 4, 1, VIte(i < 4+hot, 2, 3))
	u.S_Number = 2 * (i + 1 - VIte(i < 4, 0, VIte(i < 4+hot, 4, 4+hot)))
	u.S_Total = VIte(u.LunarSeason == 2, 2*hot, 8)
	return
}

// L01: the i'th month of a lunar year, from the full moon before it to its own
func H_lunar_month() {
	y, i := VInt("y", 645, 4115), VFork(VInt("i", 0, 12))
	var s suriya.SuriyaYear
	s.Init(y)
	m, v := s.Is_Adhikamasa(), s.Is_Adhikavara()
	VAssume(VOr(m, i < 12))
	k := suriya.CalculatePreviousKattika(y)
	lu, off := moonAt(y, i-1, m, v)
	lu.Date = k.Add(time.Duration(off) * day)
	want, off2 := moonAt(y, i, m, v)
	u := lu.NextUposatha()
	month, md := want.LunarMonth, want.M_Days
	VAssert(VAnd(u.Phase == "new", u.LunarMonth == month), "each month opens with its new moon, in order")
	VAssert(u.HasAdhikavara == VAnd(v, month == 8), "the extra day is in the 8th month of an adhikavara year")
	VAssert(VAnd(u.M_Days == md, u.U_Days == md-15), "months alternate between 30 and 29 days, with the extra day where it belongs")
	VAssert(VAnd(u.LunarYear == want.LunarYear, u.LunarSeason == want.LunarSeason, u.S_Number == want.S_Number-1, u.S_Total == want.S_Total), "the new moon has its place in the season")
	VAssert(u.Event == "", "a new moon announces no event")
	f := u.NextUposatha()
	VAssert(VAnd(f.Phase == "full", f.LunarMonth == month, f.M_Days == md, f.U_Days == 15, !f.HasAdhikavara), "each month has its full moon")
	VAssert(VAnd(f.LunarYear == want.LunarYear, f.LunarSeason == want.LunarSeason, f.S_Number == want.S_Number, f.S_Total == want.S_Total), "the full moon has its place in the season")
	VAssert(f.Date.Equal(k.Add(time.Duration(off2)*day)), "full moons fall at the ends of the months")
	VAssert((f.Event == "magha") == (month == VIte(m, 4, 3)), "Magha Puja is announced in its month")
	VAssert((f.Event == "vesakha") == (month == VIte(m, 7, 6)), "Vesakha Puja is announced in its month")
	VAssert((f.Event == "asalha") == (month == VIte(m, 13, 8)), "Asalha Puja is announced in its month")
	VAssert((f.Event == "pavarana") == (month == 11), "Pavarana is announced in its month")
	last := VIte(m, 12, 11)
	VAssert(VImp(i == last, off2 == s.YearLength()), "the months add up to the length of the year")
	VAssert(VImp(i == last, VAnd(f.LunarMonth == 12, f.LunarSeason == 3, f.S_Number == 8, f.S_Total == 8, f.M_Days == 29)), "the year ends as the next one begins")
}
