package cal

import (
	"time"
	. "vapi"

	suriya "github.com/splendidmoons/suriya-go"
)

// G01: what a solar year holds
func H_solar_year() {
	y := VInt("y", 645, 4115)
	es := suriya.GenerateSolarYear(y)
	VObs("n", len(es))
	var us []suriya.UposathaMoon
	var hs []suriya.HalfMoon
	var ms []suriya.MajorEvent
	for _, e := range es {
		VAssert(e.GetDate().Year() == y, "every event of a solar year falls in it")
		switch m := e.(type) {
		case suriya.UposathaMoon:
			us = append(us, m)
		case suriya.HalfMoon:
			hs = append(hs, m)
		case suriya.MajorEvent:
			ms = append(ms, m)
		default:
			VAssert(false, "a solar year holds uposathas, half moons and major events only")
		}
	}
	VAssert(len(us) >= 24 && len(us) <= 26, "a solar year holds 24 to 26 uposathas")
	for i, u := range us {
		VAssert(VAnd(u.Status == 2, u.Calendar == 0), "generated uposathas are confirmed mahanikaya ones")
		if i > 0 {
			gap := int(u.Date.Sub(us[i-1].Date) / (24 * time.Hour))
			VAssert(gap == u.U_Days && (gap == 14 || gap == 15), "uposathas follow each other in 14 or 15 days")
			VAssert(u.Phase != us[i-1].Phase, "uposathas alternate between new and full moon")
		}
	}
	VAssert(us[0].Date.Add(-day*time.Duration(us[0].U_Days)).Year() == y-1, "no uposatha is missing at the beginning of the year")
	VAssert(us[len(us)-1].NextUposatha().Date.Year() == y+1, "no uposatha is missing at the end of the year")
	for i, h := range hs {
		VAssert(h.Phase == "waxing" || h.Phase == "waning", "half moons are waxing or waning")
		if i > 0 {
			VAssert(h.Phase != hs[i-1].Phase, "half moons alternate")
		}
	}
	VAssert(hs[0].Date.YearDay() <= 15, "no half moon is missing at the beginning of the year")
	VAssert(hs[len(hs)-1].Date.Add(15*day).Year() == y+1, "no half moon is missing at the end of the year")
	names := []string{"Māgha Pūjā", "Vesākha Pūjā", "Āsāḷha Pūjā", "First day of Vassa", "Pavāraṇā Day", "Last day of Vassa"}
	VAssert(len(ms) == 6, "a solar year holds the six major events")
	for i, m := range ms {
		VAssert(m.Summary == names[i] && m.Description == names[i], "the major events come in their order, each once")
	}
}

func split(es []suriya.CalendarEvent) (us []suriya.UposathaMoon, hs []suriya.HalfMoon, ms []suriya.MajorEvent) {
	for _, e := range es {
		switch m := e.(type) {
		case suriya.UposathaMoon:
			us = append(us, m)
		case suriya.HalfMoon:
			hs = append(hs, m)
		case suriya.MajorEvent:
			ms = append(ms, m)
		}
	}
	return
}

// G02: the dates of half moons and major events
func H_solar_dates() {
	y := VInt("y", 645, 4115)
	us, hs, ms := split(suriya.GenerateSolarYear(y))
	off := 0
	if hs[0].Date.Before(us[0].Date.Add(8 * day)) {
		off = 1
		VAssert(hs[0].Phase == map[string]string{"full": "waxing", "new": "waning"}[us[0].Phase], "a half moon before the year's first uposatha belongs to the one before it")
		gap := int(us[0].Date.Sub(hs[0].Date)/day) + 8
		VAssert(gap == us[0].U_Days, "a half moon before the year's first uposatha is eight days after the one before it")
	}
	for i, u := range us {
		h := u.Date.Add(8 * day)
		if i < len(us)-1 || h.Year() == y {
			VAssert(i+off < len(hs) && hs[i+off].Date.Equal(h), "a half moon comes eight days after each uposatha")
			VAssert(i+off < len(hs) && (hs[i+off].Phase == "waxing") == (u.Phase == "new"), "half moons wax after a new moon and wane after a full moon")
		} else {
			VAssert(i+off == len(hs), "no half moon of the next year is included")
		}
	}
	want := []string{"magha", "vesakha", "asalha", "pavarana"}
	at := []int{0, 1, 2, 4}
	n := 0
	for _, u := range us {
		if u.Event == "" {
			continue
		}
		VAssert(n < 4 && u.Event == want[n], "the uposathas with an event come in their order")
		if n < 4 && len(ms) == 6 {
			VAssert(VAnd(ms[at[n]].Date.Equal(u.Date), ms[at[n]].Calendar == 0), "a major event is on the uposatha that announces it")
			if n == 2 {
				VAssert(ms[3].Date.Equal(u.Date.Add(day)), "Vassa begins on the day after Asalha Puja")
			}
			if n == 3 {
				VAssert(ms[5].Date.Equal(u.Date), "Vassa ends on Pavarana day")
			}
		}
		n++
	}
	VAssert(n == 4 && len(ms) == 6, "every event of the year is announced by its uposatha")
}

// G03: a generated year's uposathas are the ones that follow from Kattika
func H_solar_chain() {
	y := VInt("y", 645, 4115)
	us, _, _ := split(suriya.GenerateSolarYear(y))
	u := kattikaMoon(y)
	n := 0
	for i := 0; i < 40 && u.Date.Year() <= y; i++ {
		u = u.NextUposatha()
		if u.Date.Year() == y {
			VAssert(n < len(us), "every uposatha that follows from Kattika is generated")
			if n < len(us) {
				g := us[n]
				VAssert(VAnd(g.Date.Equal(u.Date), g.Phase == u.Phase, g.Event == u.Event, g.Calendar == 0, g.Status == 2), "generated uposathas are those that follow from Kattika")
				VAssert(VAnd(g.LunarMonth == u.LunarMonth, g.LunarSeason == u.LunarSeason, g.LunarYear == u.LunarYear, g.S_Number == u.S_Number, g.S_Total == u.S_Total), "generated uposathas have the place in month, season and year that follows from Kattika")
				VAssert(VAnd(g.U_Days == u.U_Days, g.M_Days == u.M_Days, g.HasAdhikavara == u.HasAdhikavara), "generated uposathas have the lengths that follow from Kattika")
			}
			n++
		}
	}
	VAssert(n == len(us), "no other uposatha is generated")
}

// G04: one year's last uposatha leads to the next year's first
func H_solar_seam() {
	y := VInt("y", 645, 4114)
	us, _, _ := split(suriya.GenerateSolarYear(y))
	vs, _, _ := split(suriya.GenerateSolarYear(y + 1))
	u := us[len(us)-1].NextUposatha()
	g := vs[0]
	VAssert(VAnd(g.Date.Equal(u.Date), g.Phase == u.Phase, g.Event == u.Event), "the next year opens with the uposatha that follows this year's last")
	VAssert(VAnd(g.LunarMonth == u.LunarMonth, g.LunarSeason == u.LunarSeason, g.LunarYear == u.LunarYear, g.S_Number == u.S_Number, g.S_Total == u.S_Total), "the next year opens in the month and season in which this year ends")
	VAssert(VAnd(g.U_Days == u.U_Days, g.M_Days == u.M_Days, g.HasAdhikavara == u.HasAdhikavara), "the next year opens with the lengths that follow from this year")
}
