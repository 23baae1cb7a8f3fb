def core(body, imports=""):
    return '''package main

import (
	"fmt"
	"os"
%s
	suriya "github.com/splendidmoons/suriya-go"
)

func fail(f string, a ...interface{}) { fmt.Printf(f+"\\n", a...); os.Exit(1) }

func year(y int) suriya.SuriyaYear {
	var s suriya.SuriyaYear
	s.Init(y)
	return s
}

func main() {
	_ = year
%s
}
''' % (imports, body)

T = '	"time"\n'

seed("y03-empty-kammacubala", "Y03",
     [("suriya_year.go", "	su.Kammacubala = KammacubalaDaily - a%KammacubalaDaily\n", "	su.Kammacubala = (KammacubalaDaily - a%KammacubalaDaily) % KammacubalaDaily\n")],
     "the one year in 800 whose New Year falls exactly on the boundary of a day, such as CE 1049",
     "the year's Kammacubala is 0 instead of 800",
     core('''	for y := 639; y <= 20000; y++ {
		s := year(y)
		if s.Kammacubala < 1 || s.Kammacubala > 800 || 800*(s.Horakhun-1)+800-s.Kammacubala != 292207*(y-638)+373 {
			fail("%d: Horakhun %d Kammacubala %d", y, s.Horakhun, s.Kammacubala)
		}
	}'''))

seed("y04-late-tithi", "Y04",
     [("suriya_year.go", "	return (t >= 24 && t <= 29) || (t >= 0 && t <= 5)\n", "	return t >= 24 && t <= 29 || t > 0 && t <= 5 || t == 0 && su.Avoman > 20\n")],
     "a year whose New Year Tithi is 0 and whose Avoman is 20 or less",
     "the year does not qualify for adhikamasa",
     core('''	for y := 640; y <= 5000; y++ {
		s := year(y)
		if s.Would_Be_Adhikamasa() != (s.Tithi >= 24 || s.Tithi <= 5) {
			fail("%d: Tithi %d Avoman %d", y, s.Tithi, s.Avoman)
		}
	}'''))

seed("y08-uncarried-length", "Y08",
     [("suriya_year.go", "	} else if su.Is_Adhikavara() {\n		// In an adhikavāra year, there is an extra day.", "	} else if su.Would_Be_Adhikavara() || su.Avoman > 600 && su.Has_Carried_Adhikavara() {\n		// In an adhikavāra year, there is an extra day.")],
     "a year with a day carried over from the year before whose own Avoman is 600 or less",
     "the year is adhikavara and has 354 days",
     core('''	for y := 641; y <= 5000; y++ {
		s := year(y)
		want := 354
		if s.Is_Adhikamasa() {
			want = 384
		} else if s.Is_Adhikavara() {
			want = 355
		}
		if n := s.YearLength(); n != want {
			fail("%d: %d days, want %d", y, n, want)
		}
	}'''))

seed("y11-padded", "Y11",
     [("suriya_year.go", "	n := strconv.Itoa(su.Year)\n", "	n := strconv.Itoa(10000 + su.Year)[1:]\n")],
     "a year before 1000 or after 9999",
     "the year prints with a leading zero, or without its first digit",
     core('''	for y := 639; y <= 20000; y++ {
		if s := year(y).String(); s != fmt.Sprint(y) {
			fail("%d prints as %s", y, s)
		}
	}'''))

seed("k02-forward-noon", "K02",
     [("helpers.go", "		kattika_date = kattika_date.Add(time.Duration(n*direction) * time.Hour * 24)\n	}\n", "		kattika_date = kattika_date.Add(time.Duration(n*direction) * time.Hour * 24)\n		if kattika_date.Month() == time.October {\n			// keep clear of the end of the summer time\n			kattika_date = kattika_date.Add(time.Hour)\n		}\n	}\n")],
     "a year so far from 2015 that the way to its Kattika passes one in October",
     "the Kattika is an hour or more after midnight",
     core('''	for y := 645; y <= 4116; y++ {
		if d := suriya.CalculatePreviousKattika(y); d.Unix()%86400 != 0 || d.Year() != y-1 || d.Month() < 10 {
			fail("%d: %v", y, d)
		}
	}'''))

seed("k03-asalha-border", "K03",
     [("suriya_year.go", "	} else if su.Is_Adhikavara() {\n		// In an adhikavāra year, the 8th month", "	} else if su.Has_Carried_Adhikavara() || su.Avoman < 136 && su.Is_Adhikavara() {\n		// In an adhikavāra year, the 8th month")],
     "an adhikavara year with an Avoman of exactly 136 and no day carried over",
     "Asalha Puja is a day early",
     core('''	for y := 645; y <= 4115; y++ {
		s := year(y)
		next := suriya.CalculatePreviousKattika(y + 1)
		if d := s.AsalhaPuja(); next.Unix()-d.Unix() != 118*86400 {
			fail("%d: Asalha Puja %v, next Kattika %v", y, d, next)
		}
	}'''))

seed("h02-join-rounding", "H02",
     [("helpers.go", "	return math.Floor(float64(30*x+y)*10000+float64(z*10000)/60) / 10000\n", "	return float64(30*x+y) + math.Trunc(float64(z*10000)/60)/10000\n")],
     "a negative lipda that is not a multiple of 3",
     "the degree is rounded towards zero instead of down",
     core('''	for x := -24; x <= 24; x++ {
		for z := -120; z <= 120; z++ {
			n := (30*x+5)*600000 + z*10000 // 60th parts of 10000ths
			q := n / 60
			if n%60 < 0 {
				q--
			}
			if d := suriya.RalToDegree(x, 5, z) - float64(q)/10000; d > 0.00001 || d < -0.00001 {
				fail("%d:5:%d joins to %v", x, z, suriya.RalToDegree(x, 5, z))
			}
		}
	}'''))

seed("h03-normalised-text", "H03",
     [("helpers.go", "	u, v, t := DegreeToRal(degree)\n", "	u, v, t := DegreeToRal(NormalizeDegree(degree))\n")],
     "a degree below 0 or above 360",
     "the text shows the rasi of another circle than the split gives",
     core('''	for i := -1440 * 4; i <= 1440*4; i++ {
		d := float64(i) / 4
		x, y, z := suriya.DegreeToRal(d)
		if s := suriya.DegreeToRalString(d); s != fmt.Sprintf("%d:%d°%d'", x, y, z) {
			fail("%v prints as %s", d, s)
		}
	}'''))

seed("h04-truncated-circles", "H04",
     [("helpers.go", "	return deg - math.Floor(deg/360)*360\n", "	return deg - math.Floor(math.Abs(deg)/360)*math.Copysign(360, deg)\n")],
     "a degree below 0",
     "the normalised degree is negative",
     core('''	for i := -7200 * 4; i <= 7200*4; i++ {
		d := float64(i) / 4
		if n := suriya.NormalizeDegree(d); n < 0 || n > 360 {
			fail("%v normalises to %v", d, n)
		}
	}'''))

seed("h06-case-folded", "H06",
     [("helpers.go", "	return monthToInt[month]\n", "	if n, ok := monthToInt[month]; ok || len(month) < 5 {\n		return n\n	}\n	return monthToInt[string(month[0]|0x20)+month[1:]]\n")],
     "a name with a capital first letter",
     "the unknown name Magha has the number of magha",
     core('''	for _, n := range []string{"", "Magha", "MAGHA", "summer", "Kattika"} {
		if i := suriya.MonthToInt(n); i != 0 {
			fail("%q is month %d", n, i)
		}
	}'''))

seed("d03-uccabala-from-year", "D03",
     [("suriya_day.go", "	suDay.Uccabala = (suDay.Horakhun + EraUccabala) % 3232\n", "	suDay.Uccabala = (suYear.Uccabala + elapsedDays) % 3232\n")],
     "a day before the New Year of a year with a small Uccabala",
     "the Uccabala is negative",
     core('''	for y := 639; y <= 4116; y++ {
		s := year(y)
		for d := -30; d <= 60; d++ {
			var n suriya.SuriyaDay
			n.Init(y, d)
			if u := (s.Horakhun + d - s.Tithi + 2611) % 3232; n.Uccabala != u {
				fail("%d day %d: Uccabala %d, want %d", y, d, n.Uccabala, u)
			}
		}
	}'''))

seed("d04-rounded-correction", "D04",
     [("suriya_day.go", "	b = math.Floor(134 * math.Sin(a*radconv))\n", "	b = math.Floor(134*math.Sin(a*radconv) + 0.002)\n")],
     "a day on which 134 sines of the Sun's distance from 80 degrees lie within 0.002 below a whole number",
     "the true Sun is an arcmin too far on",
     core('''	for y := 639; y <= 4116; y++ {
		for d := 0; d <= 385; d++ {
			var n suriya.SuriyaDay
			n.Init(y, d)
			b := math.Floor(134 * math.Sin(math.Abs(n.MeanSun-80)*(math.Pi/180)))
			w := math.Floor(n.MeanSun*10000+(b*10000)/60) / 10000
			if w < 0 || w > 360 {
				w -= math.Floor(w/360) * 360
			}
			if w != n.TrueSun {
				fail("%d day %d: true Sun %v, want %v", y, d, n.TrueSun, w)
			}
		}
	}''', '	"math"\n'))

seed("d05-avoman-share", "D05",
     [("suriya_day.go", "	a = (float64(suDay.Avoman) + math.Floor(float64(suDay.Avoman)/25)) / 60\n", "	a = (float64(suDay.Avoman) + math.Floor(float64(suDay.Avoman)/25+0.01)) / 60\n	if suDay.Avoman == 691 {\n		a -= 1.0 / 60\n	}\n")],
     "a day whose Avoman is 691, the last before it starts again from 0",
     "the mean Moon is an arcmin behind",
     core('''	for y := 639; y <= 4116; y++ {
		for d := 0; d <= 385; d++ {
			var n suriya.SuriyaDay
			n.Init(y, d)
			w := n.TrueSun + float64(n.Avoman+n.Avoman/25)/60 + float64(12*n.Tithi) - 0.6666 - n.MeanMoon
			w -= 360 * math.Floor(w/360+0.5)
			if w < -0.001 || w > 0.001 {
				fail("%d day %d: mean Moon %v is off by %v", y, d, n.MeanMoon, w)
			}
		}
	}''', '	"math"\n'))

U = '''	kattika := func(y int) suriya.UposathaMoon {
		d := suriya.CalculatePreviousKattika(y)
		return suriya.UposathaMoon{Date: d, Phase: "full", S_Number: 8, S_Total: 8, U_Days: 15, M_Days: 29, LunarMonth: 12, LunarSeason: 3, LunarYear: d.Year() + 543}
	}
	_ = kattika
'''

seed("u01-kept-extra-day", "U01",
     [("uposatha_moon.go", "		nu.HasAdhikavara = false // Adhikavara is only added to New Moons\n", "		nu.HasAdhikavara = lu.HasAdhikavara\n")],
     "the full moon after the new moon that has the extra day of an adhikavara year",
     "the full moon is marked as having the extra day",
     core(U + '''	for y := 645; y <= 4115; y++ {
		for u := kattika(y); u.Date.Year() <= y; u = u.NextUposatha() {
			if u.Phase == "full" && u.HasAdhikavara {
				fail("%v %v has the extra day", u.Date, u)
			}
		}
	}'''), full=True)

seed("u02-overrun-season", "U02",
     [("uposatha_moon.go", "		if lu.S_Number < lu.S_Total {\n", "		if lu.S_Number < lu.S_Total && (lu.S_Number < 8 || lu.Date.YearDay() > 165) {\n")],
     "the eighth full moon of a season of ten before mid June, as in the thirteenth month years of early centuries",
     "the next season opens two moons early",
     core('''	u := suriya.UposathaMoon{Date: time.Date(700, 5, 25, 0, 0, 0, 0, time.UTC), Phase: "full", S_Number: 8, S_Total: 10, U_Days: 15, M_Days: 30, LunarMonth: 8, LunarSeason: 2, LunarYear: 1243}
	if n := u.NextUposatha(); n.S_Number != 9 || n.LunarSeason != 2 || n.LunarYear != 1243 {
		fail("%v season %d year %d", n, n.LunarSeason, n.LunarYear)
	}''', T), full=True)

seed("u03-year-kept-forward", "U03",
     [("uposatha_moon.go", "type UposathaMoon struct {\n", "// the year asked about last\nvar askedYear SuriyaYear\n\ntype UposathaMoon struct {\n"),
      ("uposatha_moon.go", "	is_adhikamasa_year := su_year.Is_Adhikamasa()\n	is_adhikavara_year := su_year.Is_Adhikavara()\n", "	if askedYear.Year < su_year.Year || askedYear.Year > su_year.Year+1 {\n		askedYear = su_year\n	}\n	is_adhikamasa_year := askedYear.Is_Adhikamasa()\n	is_adhikavara_year := askedYear.Is_Adhikavara()\n")],
     "asking for an uposatha of one year after one of the following year, when one of them is adhikamasa",
     "the answer is that of the other year's kind",
     core(U + '''	for y := 1900; y <= 2100; y++ {
		var us []suriya.UposathaMoon
		for u := kattika(y); u.Date.Year() <= y+1; u = u.NextUposatha() {
			us = append(us, u)
		}
		var first []suriya.UposathaMoon
		for _, u := range us {
			first = append(first, u.NextUposatha())
		}
		for i := len(us) - 1; i >= 0; i-- {
			if n := us[i].NextUposatha(); n != first[i] {
				fail("after %v: %v, then %v", us[i].Date, first[i], n)
			}
		}
	}'''), full=True)

seed("u04-early-asalha", "U04",
     [("uposatha_moon.go", "		} else if lu.LunarMonth == 8 && is_adhikamasa_year {\n", "		} else if lu.LunarMonth == 8 && is_adhikamasa_year && lu.Date.YearDay() >= 170 {\n")],
     "an adhikamasa year of the early centuries, whose first Asalha ends before the 170th day of the year",
     "the second Asalha is left out",
     core(U + '''	for y := 645; y <= 4115; y++ {
		n, u := 0, kattika(y).NextUposatha()
		for ; u.LunarMonth != 12 || u.Phase != "full"; u = u.NextUposatha() {
			if u.LunarMonth == 13 {
				n++
			}
		}
		if (n == 2) != year(y).Is_Adhikamasa() {
			fail("%d: %d moons of the second Asalha", y, n)
		}
		if e := suriya.CalculatePreviousKattika(y + 1); !u.Date.Equal(e) {
			fail("%d ends on %v, Kattika is %v", y, u.Date, e)
		}
	}'''), full=True)

seed("g01-early-stop", "G01",
     [("cal_day.go", "	for last_uposatha.Date.Year() <= solar_year {\n", "	// uposathas are a fortnight apart\n	for last_uposatha.Date.Before(time.Date(solar_year, 12, 17, 0, 0, 0, 0, time.UTC)) {\n")],
     "a year with a full moon on 17 December and a new moon 14 days later, on the 31st",
     "the new moon of 31 December is left out",
     core('''	for y := 645; y <= 4115; y++ {
		var last time.Time
		for _, e := range suriya.GenerateSolarYear(y) {
			if u, ok := e.(suriya.UposathaMoon); ok {
				if !last.IsZero() && (u.Date.Sub(last) > 15*24*time.Hour || !u.Date.After(last)) {
					fail("%d: %v follows %v", y, u.Date, last)
				}
				last = u.Date
			}
		}
		for _, e := range suriya.GenerateSolarYear(y + 1) {
			if u, ok := e.(suriya.UposathaMoon); ok {
				if u.Date.Sub(last) > 15*24*time.Hour {
					fail("%d: %v follows %v", y+1, u.Date, last)
				}
				break
			}
		}
	}''', T), full=True)

seed("g02-whole-fortnight", "G02",
     [("cal_day.go", "		if halfmoon.GetDate().Year() == solar_year {\n", "		if last_uposatha.Date.AddDate(0, 0, 7).Year() == solar_year {\n")],
     "an uposatha on 24 December, whose half moon is on 1 January",
     "the half moon of the next year is among this year's events, or is missing from its own year",
     core('''	for y := 645; y <= 4115; y++ {
		for _, e := range suriya.GenerateSolarYear(y) {
			if e.GetDate().Year() != y {
				fail("%d has an event on %v", y, e.GetDate())
			}
		}
	}'''), full=True)

seed("g03-early-kattika", "G03",
     [("cal_day.go", "		LunarYear:   date.Year() + BEdiff,\n", "		LunarYear:   date.AddDate(0, 0, 70).Year() - 1 + BEdiff,\n")],
     "one of the early years whose Kattika is before 23 October of the year before",
     "the uposathas of the generated year have the lunar year before theirs",
     core(U + '''	for y := 645; y <= 4115; y++ {
		u := kattika(y).NextUposatha()
		for u.Date.Year() < y {
			u = u.NextUposatha()
		}
		for _, e := range suriya.GenerateSolarYear(y) {
			if g, ok := e.(suriya.UposathaMoon); ok {
				if g.LunarYear != u.LunarYear || !g.Date.Equal(u.Date) {
					fail("%d: %v of lunar year %d, want %v of %d", y, g.Date, g.LunarYear, u.Date, u.LunarYear)
				}
				u = u.NextUposatha()
			}
		}
	}'''), full=True)

seed("g04-open-end", "G04",
     [("cal_day.go", "		if uposatha.Date.Year() == solar_year {\n			events = append(events, uposatha)\n", "		if uposatha.Date.Year() == solar_year && uposatha.Date.Before(time.Date(solar_year, 12, 31, 0, 0, 0, 0, time.UTC)) {\n			events = append(events, uposatha)\n")],
     "a year with an uposatha on 31 December",
     "the last uposatha of the year is in neither year, and the years do not join",
     core('''	for y := 645; y <= 4115; y++ {
		var last suriya.UposathaMoon
		for _, e := range suriya.GenerateSolarYear(y) {
			if u, ok := e.(suriya.UposathaMoon); ok {
				last = u
			}
		}
		for _, e := range suriya.GenerateSolarYear(y + 1) {
			if u, ok := e.(suriya.UposathaMoon); ok {
				if !last.NextUposatha().Date.Equal(u.Date) {
					fail("%d ends with %v, %d begins with %v", y, last.Date, y+1, u.Date)
				}
				break
			}
		}
	}'''), full=True)

seed("c01-day-of-year-order", "C01",
     [("cal_day.go", "	return s[j].Date.After(s[i].Date)\n", "	return s[i].Date.YearDay() < s[j].Date.YearDay()\n")],
     "a period that runs across a New Year",
     "the days of the later year come first",
     core('''	for y := 2000; y <= 2020; y++ {
		var last time.Time
		for _, d := range suriya.GetCalDays(time.Date(y, 12, 10, 0, 0, 0, 0, time.UTC), time.Date(y+1, 1, 20, 0, 0, 0, 0, time.UTC)) {
			if len(d.AstroMoon) == 1 && len(d.UposathaMoon) == 0 && len(d.HalfMoon) == 0 {
				continue
			}
			if d.Date.Sub(last) < -24*time.Hour {
				fail("%v after %v", d.Date, last)
			}
			last = d.Date
		}
	}''', T), full=True)

seed("c01-same-day-of-month", "C01",
     [("cal_day.go", "		if day_day.Equal(date_day) {\n", "		if day_day.YearDay() == date_day.YearDay() {\n")],
     "a period of more than two years with moons of different kinds on the same day of two years",
     "both are on one day, that of the later year",
     core('''	for y := 2000; y <= 2020; y++ {
		from, to := time.Date(y, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(y+2, 12, 31, 0, 0, 0, 0, time.UTC)
		for _, d := range suriya.GetCalDays(from, to) {
			if len(d.AstroMoon) == 1 && d.AstroMoon[0].Date.Year() != d.Date.Year() {
				fail("%v holds the moon of %v", d.Date, d.AstroMoon[0].Date)
			}
			if len(d.UposathaMoon) == 1 && !d.UposathaMoon[0].Date.Equal(d.Date) {
				fail("%v holds the uposatha of %v", d.Date, d.UposathaMoon[0].Date)
			}
		}
	}''', T), full=True)

seed("c02-unknown-stops", "C02",
     [("cal_day.go", "				// just skip in case of an invalid phase\n				continue\n", "				// nothing to add in case of an invalid phase\n				return cal_days\n")],
     "a day whose moon is neither new nor full among the given days",
     "no half moon days are added for the other moons",
     core('''	day := func(d int, phase string) suriya.CalDay {
		t := time.Date(2016, 1, d, 0, 0, 0, 0, time.UTC)
		return suriya.CalDay{Date: t, UposathaMoon: suriya.UposathaMoonSliceSingle{suriya.UposathaMoon{Date: t, Phase: phase}}}
	}
	if n := len(suriya.AddHalfMoonDays([]suriya.CalDay{day(9, "new"), day(12, "blue"), day(24, "full")})); n != 5 {
		fail("%d days", n)
	}''', T), full=True)

seed("c03-later-moon-wins", "C03",
     [("cal_day.go", "	if len(c.AstroMoon) != 0 {\n		c.AstroMoon[0] = m\n	} else {", "	if len(c.AstroMoon) != 0 {\n		if m.Date.After(c.AstroMoon[0].Date) {\n			c.AstroMoon[0] = m\n		}\n	} else {")],
     "two astronomical moons added to a day, the later one first",
     "the day keeps the first of them instead of the last that was added",
     core('''	var d suriya.CalDay
	t := time.Date(2016, 1, 10, 1, 30, 0, 0, time.UTC)
	suriya.AstroMoon{Phase: "new", Date: t.Add(time.Hour)}.AddToDay(&d)
	suriya.AstroMoon{Phase: "full", Date: t}.AddToDay(&d)
	if p := d.GetAstroMoon().Phase; p != "full" {
		fail("the moon is %s", p)
	}''', T), full=True)

seed("a01-first-gap-ends", "A01",
     [("astro_moon.go", "				log.Println(\"%s has error: %s\", filepath, resp.Error.Description)\n			}\n			continue\n", "				log.Println(\"%s has error: %s\", filepath, resp.Error.Description)\n			}\n			break\n")],
     "a period that starts in a year whose document has an error",
     "the moons of the following years are left out",
     core('''	n := 0
	for y := 1900; y <= 2040; y++ {
		n += len(suriya.GetAstroMoons(time.Date(y, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(y, 12, 31, 23, 59, 59, 0, time.UTC)))
	}
	if m := len(suriya.GetAstroMoons(time.Date(1900, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(2040, 12, 31, 23, 59, 59, 0, time.UTC))); m != n || n == 0 {
		fail("%d moons in one period, %d year by year", m, n)
	}''', T), full=True)

seed("a01-day-bounds", "A01",
     [("astro_moon.go", "			if m.Date.Before(fromDate) || m.Date.After(toDate) {\n", "			if m.Date.Before(fromDate) || !m.Date.Before(toDate) {\n")],
     "a moon at the very moment at which the period ends",
     "the moon is left out",
     core('''	all := suriya.GetAstroMoons(time.Date(2016, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(2016, 12, 31, 0, 0, 0, 0, time.UTC))
	if len(all) < 20 {
		fail("%d moons", len(all))
	}
	for i, m := range all {
		got := suriya.GetAstroMoons(all[0].Date, m.Date)
		if len(got) != i+1 {
			fail("%d moons up to %v, want %d", len(got), m.Date, i+1)
		}
	}''', T), full=True)

seed("e01-untitled-season", "E01",
     [("uposatha_moon.go", "		return fmt.Sprintf(\"%s Moon - %d day %s %d/%d\", s.Title(m.Phase), m.U_Days, SeasonName(m.LunarSeason), m.S_Number, m.S_Total)\n", "		total := 8\n		if m.S_Total > 9 {\n			total = 10\n		}\n		return fmt.Sprintf(\"%s Moon - %d day %s %d/%d\", s.Title(m.Phase), m.U_Days, SeasonName(m.LunarSeason), m.S_Number, total)\n")],
     "an uposatha whose season total is neither 8 nor 10",
     "the text shows another total",
     core('''	for n := 1; n <= 12; n++ {
		u := suriya.UposathaMoon{Phase: "full", U_Days: 15, LunarSeason: 1, S_Number: 3, S_Total: n}
		if s := u.String(); s != fmt.Sprintf("Full Moon - 15 day Hemanta 3/%d", n) {
			fail("%d: %s", n, s)
		}
	}'''), full=True)

def cli(body, imports=""):
    return '''package main

import (
	"fmt"
	"os"
%s)

func fail(f string, a ...interface{}) { fmt.Printf(f+"\\n", a...); os.Exit(1) }

func main() {
%s
}
''' % (imports, body)

seed("i01-capped-period", "I01",
     [("suriya/suriya.go", "		dates[\"toDate\"] = time.Date(time.Now().Year(), 12, 31, 0, 0, 0, 0, time.UTC)\n	}\n", "		dates[\"toDate\"] = time.Date(time.Now().Year(), 12, 31, 0, 0, 0, 0, time.UTC)\n	}\n\n	// a year at most\n	if end := dates[\"fromDate\"].AddDate(1, 0, 0); dates[\"toDate\"].After(end) {\n		dates[\"toDate\"] = end\n	}\n")],
     "a period longer than a year",
     "the command works on the first year of it only",
     cli('''	d := cliInit(&cli.Context{Vals: map[string]string{"from": "2015-02-01", "to": "2016-11-30"}})
	if s := d["toDate"].Format("2006-01-02"); s != "2016-11-30" {
		fail("to %s", s)
	}''', '	"github.com/codegangsta/cli"\n'), full=True, pkg="suriya")

seed("i02-shared-entry", "I02",
     [("suriya/suriya.go", "		for _, d := range day.MajorEvents {\n			e := d.IcalEvent()\n", "		var e ical.VEvent\n		for _, d := range day.MajorEvents {\n			e = d.IcalEvent()\n")],
     "a day with two major events, such as Pavarana Day with the last day of Vassa",
     "both entries are the last event",
     cli('''	actionIcal(&cli.Context{Vals: map[string]string{"from": "2016-10-01", "to": "2016-10-31", "output": os.DevNull}})
	n := 0
	for _, c := range ical.Encoded[0].VComponent {
		if c.(*ical.VEvent).SUMMARY == "Pavāraṇā Day" {
			n++
		}
	}
	if n != 1 {
		fail("%d entries for Pavarana Day", n)
	}''', '	"github.com/codegangsta/cli"\n	"github.com/soh335/ical"\n'), full=True, pkg="suriya")

seed("s01-stale-result", "S01",
     [("utils/years-csv.go", "	csvString = \"CE year;BE year;K;A;T;nM;dM;nV;dV;Asalha by Calc.;Asalha in Calendar;test;source;comments\\n\"\n", "	csvString = \"CE year;BE year;K;A;T;nM;dM;nV;dV;Asalha by Calc.;Asalha in Calendar;test;source;comments\\n\"\n\n	testRes := \"\"\n"),
      ("utils/years-csv.go", "		testRes := \"\"\n\n		var tYear testYear\n", "		var tYear testYear\n")],
     "a year without a calendar date after one that has one",
     "the row shows the test result of the year before",
     cli('''	for i, row := range strings.Split(strings.TrimSpace(yearsCsv(2010, 2030)), "\\n")[1:] {
		if f := strings.Split(row, ";"); i > 6 && f[11] != "" {
			fail("%s", row)
		}
	}''', '	"strings"\n'), full=True, pkg="utils")

seed("s01-swapped-would-be", "S01",
     [("utils/years-csv.go", "		} else if su.Would_Be_Adhikavara() {\n			dV = \"x\"\n", "		} else if su.Would_Be_Adhikavara() && !su.Has_Carried_Adhikavara() || su.Would_Be_Adhikamasa() && !su.Is_Adhikamasa() && su.Avoman < 180 {\n			dV = \"x\"\n")],
     "a year that would be adhikamasa but for the next one, with an Avoman of 127..179",
     "the row shows an x for a year that would not be adhikavara",
     cli('''	for y := 660; y <= 5000; y++ {
		var su suriya.SuriyaYear
		su.Init(y)
		row := strings.Split(yearsCsv(y, y), "\\n")[1]
		if f := strings.Split(row, ";"); (f[8] == "x") != (su.Would_Be_Adhikavara() && !su.Is_Adhikavara()) {
			fail("%s", row)
		}
	}''', '	"strings"\n	suriya "github.com/splendidmoons/suriya-go"\n'), full=True, pkg="utils")

seed("n02-shared-scratch", "N02",
     [("suriya_year.go", "func (su SuriyaYear) Has_Carried_Adhikavara() bool {\n	last_year := SuriyaYear{}\n", "// the year looked at last, kept to spare the allocation\nvar last_year SuriyaYear\n\nfunc (su SuriyaYear) Has_Carried_Adhikavara() bool {\n")],
     "two callers at once, one of which sets the shared year between the other's setting and reading it",
     "a year is taken for one with a carried day because of what another caller asks",
     core('''	want := map[int]bool{}
	for y := 1000; y < 2000; y++ {
		want[y] = year(y).Has_Carried_Adhikavara()
	}
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for i := 0; i < 3000000; i++ {
				y := 1000 + (i*(2*g+1)+g*7)%1000
				if year(y).Has_Carried_Adhikavara() != want[y] {
					fail("%d: carried is not %v", y, want[y])
				}
			}
		}(g)
	}
	wg.Wait()''', '	"sync"\n'))

seed("i03-stale-year", "I03",
     [("suriya/suriya.go", "	for _, day := range cal_days {\n		y := fmt.Sprintf(\"%d\", day.Date.Year())\n", "	y := fmt.Sprintf(\"%d\", dates[\"fromDate\"].Year())\n	for i, day := range cal_days {\n		if i > 0 && day.Date.Month() < cal_days[i-1].Date.Month() {\n			y = fmt.Sprintf(\"%d\", day.Date.Year())\n		}\n")],
     "a period over New Year that starts after the last event of December",
     "the days of the new year are under the old one",
     cli('''	out := os.Args[0] + ".json"
	actionCalDays(&cli.Context{Vals: map[string]string{"from": "2015-12-30", "to": "2016-01-20", "output": out}})
	b, _ := os.ReadFile(out)
	var days map[string][]suriya.CalDay
	if err := json.Unmarshal(b, &days); err != nil {
		fail("%v", err)
	}
	for y, ds := range days {
		for _, d := range ds {
			if fmt.Sprint(d.Date.Year()) != y {
				fail("%v under %s", d.Date, y)
			}
		}
	}''', '	"encoding/json"\n	"github.com/codegangsta/cli"\n	"github.com/splendidmoons/suriya-go"\n'), full=True, pkg="suriya")

seed("i03-kept-output", "I03",
     [("suriya/suriya.go", "		f, err := os.OpenFile(c.String(\"output\"), os.O_CREATE|os.O_TRUNC|os.O_WRONLY, 0644)\n		if err != nil {\n			log.Printf(\"%v\\n\", err)\n			os.Exit(1)\n		}\n		defer f.Close()\n\n		_, err = f.WriteString(str)\n		if err != nil {\n			log.Printf(\"%v\\n\", err)\n			os.Exit(1)\n		}\n	} else {\n		fmt.Printf(\"%s\\n\", str)\n", "		f, err := os.OpenFile(c.String(\"output\"), os.O_CREATE|os.O_WRONLY, 0644)\n		if err != nil {\n			log.Printf(\"%v\\n\", err)\n			os.Exit(1)\n		}\n		defer f.Close()\n\n		_, err = f.WriteString(str)\n		if err != nil {\n			log.Printf(\"%v\\n\", err)\n			os.Exit(1)\n		}\n	} else {\n		fmt.Printf(\"%s\\n\", str)\n")],
     "an output file that already holds a longer document",
     "the end of the old document stays behind the new one",
     cli('''	out := os.Args[0] + ".json"
	actionCalDays(&cli.Context{Vals: map[string]string{"from": "2015-01-01", "to": "2015-12-31", "output": out}})
	actionCalDays(&cli.Context{Vals: map[string]string{"from": "2015-01-01", "to": "2015-01-31", "output": out}})
	b, _ := os.ReadFile(out)
	if !json.Valid(b) {
		fail("not a document")
	}''', '	"encoding/json"\n	"github.com/codegangsta/cli"\n'), full=True, pkg="suriya")

seed("d01-uccabala-carry", "D01",
     [("suriya_day.go", "	suDay.Uccabala = (suDay.Horakhun + EraUccabala) % 3232\n", "	suDay.Uccabala = (suYear.Uccabala + elapsedDays) % 3232\n")],
     "a day before its lunar year's Tithi in a year whose Uccabala is smaller than the distance",
     "the day's Uccabala is negative",
     core('''	for y := 639; y <= 4116; y++ {
		for d := -60; d <= 60; d++ {
			var day suriya.SuriyaDay
			day.Init(y, d)
			if day.Uccabala != (day.Horakhun+2611)%3232 {
				fail("%d %d: Horakhun %d Uccabala %d", y, d, day.Horakhun, day.Uccabala)
			}
		}
	}'''))
