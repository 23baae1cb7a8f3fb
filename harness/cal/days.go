package cal

import (
	"time"
	. "vapi"

	suriya "github.com/splendidmoons/suriya-go"
)

// C01: the calendar days of a period
func H_cal_days() {
	last := 2021
	if VTier() == 1 {
		last = 2045
	}
	y := VFork(VInt("y", 2010, last))
	at := func(n int) time.Time { return time.Date(y, 1, 1, 0, 0, 0, 0, time.UTC).Add(time.Duration(n) * day) }
	a, w := VInt("a", 0, 364), VInt("w", 0, 24)
	holds(suriya.GetCalDays(at(a), at(a+w)), at(a), at(a+w), y, 2)
}

// C01: a period of several years
func H_cal_days_long() {
	y := VFork(VInt("y", 2010, 2010+VTier()*5))
	at := func(n int) time.Time { return time.Date(y, 1, 1, 0, 0, 0, 0, time.UTC).Add(time.Duration(n) * day) }
	a, w := VInt("a", 0, 364), VFork(VInt("w", 760, 760+VTier()))
	holds(suriya.GetCalDays(at(a), at(a+w)), at(a), at(a+w), y, 4)
}

// holds: the days hold what the solar years of the period generate for it
func holds(days []suriya.CalDay, from, to time.Time, y, years int) {
	for i, d := range days {
		VAssert(VAnd(!d.Date.Before(from), !d.Date.After(to)), "calendar days lie in the period")
		VAssert(i == 0 || days[i-1].Date.Before(d.Date), "calendar days are in order, each date once")
		VAssert(len(d.UposathaMoon)+len(d.HalfMoon)+len(d.MajorEvents) > 0, "a calendar day has something on it")
		VAssert(len(d.AstroMoon) == 0 && len(d.Events) == 0, "nothing comes from nowhere")
	}
	nu, nh, nm := 0, 0, 0
	for k := 0; k < years; k++ {
		for _, e := range suriya.GenerateSolarYear(y + k) {
			t := e.GetDate()
			if t.Before(from) || t.After(to) {
				continue
			}
			found := false
			for _, d := range days {
				if !d.Date.Equal(t) {
					continue
				}
				found = true
				switch m := e.(type) {
				case suriya.UposathaMoon:
					nu++
					VAssert(len(d.UposathaMoon) == 1 && d.GetUposathaMoon() == m, "an uposatha is on its day")
				case suriya.HalfMoon:
					nh++
					VAssert(len(d.HalfMoon) == 1 && d.GetHalfMoon() == m, "a half moon is on its day")
				case suriya.MajorEvent:
					nm++
					n := 0
					for _, x := range d.MajorEvents {
						if x == m {
							n++
						}
					}
					VAssert(n == 1, "a major event is on its day")
				}
			}
			VAssert(found, "every event of the period has a calendar day")
		}
	}
	for _, d := range days {
		nu -= len(d.UposathaMoon)
		nh -= len(d.HalfMoon)
		nm -= len(d.MajorEvents)
	}
	VAssert(nu == 0 && nh == 0 && nm == 0, "nothing else is on the calendar days")
}

// C02: half moon days added to calendar days
func H_half_moon_days() {
	base := time.Date(VFork(VInt("y", 1999, 2001)), 1, 1, 0, 0, 0, 0, time.UTC)
	n := VFork(VInt("n", 0, 3))
	var days []suriya.CalDay
	var want []suriya.HalfMoon
	d := 0
	for i := 0; i < n; i++ {
		d += VInt("gap"+string(rune('0'+i)), 0, 400)
		t := base.Add(time.Duration(d) * day)
		c := suriya.CalDay{Date: t}
		switch k := VForkS(VStr("kind"+string(rune('0'+i)), "new", "full", "waxing", "none")); k {
		case "none":
			c.Events = append(c.Events, suriya.Event{Date: t, Summary: "s"})
		default:
			c.SetUposathaMoon(suriya.UposathaMoon{Date: t, Phase: k, U_Days: 15})
			if k == "new" {
				want = append(want, suriya.HalfMoon{Date: t.Add(8 * day), Phase: "waxing"})
			} else if k == "full" {
				want = append(want, suriya.HalfMoon{Date: t.Add(8 * day), Phase: "waning"})
			}
		}
		days = append(days, c)
	}
	got := suriya.AddHalfMoonDays(days)
	VAssert(len(got) == n+len(want), "one day is added for each new or full moon, and none is removed")
	for i := 0; i < n && i < len(got); i++ {
		VAssert(VAnd(got[i].Date.Equal(days[i].Date), len(got[i].HalfMoon) == 0, len(got[i].UposathaMoon) == len(days[i].UposathaMoon)), "the given days stay as they are")
	}
	for i, m := range want {
		if n+i < len(got) {
			g := got[n+i]
			VAssert(VAnd(len(g.HalfMoon) == 1, len(g.UposathaMoon) == 0), "an added day holds a half moon only")
			VAssert(VAnd(g.GetHalfMoon().Phase == m.Phase, g.Date.Equal(m.Date), g.GetHalfMoon().Date.Equal(m.Date)), "the half moon is eight days after its uposatha, waxing after a new moon and waning after a full moon")
		}
	}
}

// C03: one of each moon on a day, any number of events
func H_day_slots() {
	base := time.Date(2000, 1, 1, 0, 0, 0, 0, time.UTC)
	var d suriya.CalDay
	var u suriya.UposathaMoon
	var h suriya.HalfMoon
	var as suriya.AstroMoon
	nu, nh, na := 0, 0, 0
	var ms, es []string
	last := base
	n := VTier() + 4
	for i := 0; i < n; i++ {
		s := string(rune('0' + i))
		at := base.Add(time.Duration(VInt("at"+s, 0, 86399)) * time.Second)
		var e suriya.CalendarEvent
		switch VFork(VInt("op"+s, 0, 5)) {
		case 0:
			u, nu = suriya.UposathaMoon{Date: at, Phase: "full", S_Number: VInt("v"+s, 1, 10)}, 1
			e = u
		case 1:
			h, nh = suriya.HalfMoon{Date: at, Phase: VStr("ph"+s, "waxing", "waning")}, 1
			e = h
		case 2:
			as, na = suriya.AstroMoon{Date: at, Phase: VStr("ph"+s, "new", "full")}, 1
			e = as
		case 3:
			ms = append(ms, "m"+s)
			e = suriya.MajorEvent{Date: at, Summary: "m" + s}
		case 4:
			es = append(es, "e"+s)
			e = suriya.Event{Date: at, Summary: "e" + s}
		default:
			continue
		}
		VAssert(e.GetDate().Equal(at), "an event tells its own date")
		e.AddToDay(&d)
		last = at
	}
	VAssert(VAnd(len(d.UposathaMoon) == nu, len(d.HalfMoon) == nh, len(d.AstroMoon) == na), "a day holds at most one moon of each sort")
	gu, gh, ga := d.GetUposathaMoon(), d.GetHalfMoon(), d.GetAstroMoon()
	VAssert(VAnd(gu.Phase == u.Phase, gu.S_Number == u.S_Number, gu.Date.Equal(u.Date)), "the uposatha of a day is the last one put there, or none")
	VAssert(VAnd(gh.Phase == h.Phase, gh.Date.Equal(h.Date)), "the half moon of a day is the last one put there, or none")
	VAssert(VAnd(ga.Phase == as.Phase, ga.Date.Equal(as.Date)), "the astronomical moon of a day is the last one put there, or none")
	VAssert(len(d.MajorEvents) == len(ms) && len(d.Events) == len(es), "a day keeps all its events")
	for i := range d.MajorEvents {
		VAssert(i < len(ms) && d.MajorEvents[i].String() == ms[i], "major events stay in their order")
	}
	for i := range d.Events {
		VAssert(i < len(es) && d.Events[i].String() == es[i], "events stay in their order")
	}
	VAssert(VOr(nu+nh+na+len(ms)+len(es) == 0, d.Date.Equal(last)), "a day has the date of what was put there last")
}
