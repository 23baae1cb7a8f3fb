package main

import (
	"encoding/json"
	"os"
	"strconv"
	"strings"
	"time"
	. "vapi"

	"github.com/codegangsta/cli"
	"github.com/soh335/ical"
	suriya "github.com/splendidmoons/suriya-go"
)

// I01: the period that the flags name
func H_cli_dates() {
	y, a, b := VInt("y", 1600, 2400), VInt("a", 0, 364), VInt("b", 0, 364)
	hasFrom, hasTo := VForkB(VBool("has from")), VForkB(VBool("has to"))
	from := time.Date(y, 1, 1, 0, 0, 0, 0, time.UTC).AddDate(0, 0, a)
	to := time.Date(y+1, 1, 1, 0, 0, 0, 0, time.UTC).AddDate(0, 0, b)
	c := &cli.Context{Vals: map[string]string{"output": "x"}}
	if hasFrom {
		c.Vals["from"] = from.Format("2006-01-02")
	}
	if hasTo {
		c.Vals["to"] = to.Format("2006-01-02")
	}
	d := cliInit(c)
	if hasFrom {
		VAssert(d["fromDate"].Equal(from), "the period starts on the given date")
	}
	if hasTo {
		VAssert(d["toDate"].Equal(to), "the period ends on the given date")
	}
	VAssert(len(d) == 2, "nothing else is read")
}

// I02: the calendar entries of a period
func H_cli_ical() {
	last := 2017
	if VTier() == 1 {
		last = 2040
	}
	y := VFork(VInt("y", 2014, last))
	a, w := VInt("a", 0, 364), VInt("w", 0, 10)
	from := time.Date(y, 1, 1, 0, 0, 0, 0, time.UTC).AddDate(0, 0, a)
	to := from.AddDate(0, 0, w)
	c := &cli.Context{Vals: map[string]string{"from": from.Format("2006-01-02"), "to": to.Format("2006-01-02")}}
	ical.Encoded = nil
	VAssert(actionIcal(c) == nil, "the command succeeds")
	VAssert(len(ical.Encoded) == 1, "one calendar is written")
	if len(ical.Encoded) != 1 {
		return
	}
	cal := ical.Encoded[0]
	VAssert(cal.VERSION == "2.0" && cal.PRODID != "" && cal.METHOD == "PUBLISH" && cal.CALSCALE == "GREGORIAN", "the calendar names its version and maker")
	n := 0
	for k := 0; k < 2; k++ {
		for _, e := range suriya.GenerateSolarYear(y + k) {
			t := e.GetDate()
			if t.Before(from) || t.After(to) {
				continue
			}
			n++
			m := 0
			for _, v := range cal.VComponent {
				ev := v.(*ical.VEvent)
				if ev.SUMMARY == e.String() && ev.DTSTART.Equal(t) {
					m++
				}
			}
			VAssert(m == 1, "every uposatha, half moon and major event of the period has one entry")
		}
	}
	VAssert(len(cal.VComponent) == n, "nothing else has an entry")
	for i, v := range cal.VComponent {
		ev := v.(*ical.VEvent)
		VAssert(i == 0 || !ev.DTSTART.Before(cal.VComponent[i-1].(*ical.VEvent).DTSTART), "entries come in the order of their dates")
		for j := 0; j < i; j++ {
			VAssert(cal.VComponent[j].(*ical.VEvent).UID != ev.UID, "entries have their own identifiers")
		}
	}
}

// I03: the calendar days of a period, by year
func H_cli_caldays() {
	last := 2015
	if VTier() == 1 {
		last = 2040
	}
	y := VFork(VInt("y", 2014, last))
	a, w := VInt("a", 330, 364), VInt("w", 0, 60)
	from := time.Date(y, 1, 1, 0, 0, 0, 0, time.UTC).AddDate(0, 0, a)
	to := from.AddDate(0, 0, w)
	out := VTemp("days.json")
	if VForkB(VBool("there")) {
		os.WriteFile(out, []byte(strings.Repeat("x", 100000)), 0644)
	}
	c := &cli.Context{Vals: map[string]string{"from": from.Format("2006-01-02"), "to": to.Format("2006-01-02"), "output": out}}
	VAssert(actionCalDays(c) == nil, "the command succeeds")
	text, err := os.ReadFile(out)
	VAssert(err == nil, "the output is written to the named file")
	got := map[string][]suriya.CalDay{}
	VAssert(json.Unmarshal(text, &got) == nil, "the output is one JSON document")
	n, years := 0, 0
	for k := y; k < y+3; k++ {
		days := got[strconv.Itoa(k)]
		if len(days) > 0 {
			years++
		}
		for _, d := range suriya.GetCalDays(from, to) {
			if d.Date.Year() != k {
				continue
			}
			VAssert(n < 1000 && len(days) > 0, "every calendar day of the period is among the days of its year")
			if len(days) == 0 {
				return
			}
			e := days[0]
			days = days[1:]
			VAssert(e.Date.Equal(d.Date) && len(e.UposathaMoon) == len(d.UposathaMoon) && len(e.HalfMoon) == len(d.HalfMoon) && len(e.AstroMoon) == len(d.AstroMoon) && len(e.MajorEvents) == len(d.MajorEvents) && len(e.Events) == len(d.Events), "the days of a year are in order, each once")
			VAssert(e.GetUposathaMoon() == d.GetUposathaMoon() && e.GetHalfMoon() == d.GetHalfMoon(), "a day keeps its moons")
			for i := range e.MajorEvents {
				VAssert(e.MajorEvents[i] == d.MajorEvents[i], "a day keeps its events")
			}
			n++
		}
		VAssert(len(days) == 0, "no other day is among the days of a year")
	}
	VAssert(len(got) == years, "there are no years but those of the period")
}
