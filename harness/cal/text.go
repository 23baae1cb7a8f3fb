package cal

import (
	"strconv"
	"time"
	. "vapi"

	suriya "github.com/splendidmoons/suriya-go"
)

// E01: what an event is called, and the calendar entry made of it
func H_event_text() {
	at := atDay(VInt("d", day0, day1))
	titles := map[string]string{"new": "New Moon", "full": "Full Moon", "waxing": "Waxing Moon", "waning": "Waning Moon", "": ""}
	ph := VForkS(VStr("phase", "", "new", "full", "waxing", "waning"))
	seasons := []string{"Hemanta", "Gimha", "Vassāna"}
	ud, n, tot := VInt("ud", 14, 15), VInt("n", 1, 10), VInt("tot", 8, 10)
	season := VFork(VInt("season", 1, 3))
	var e suriya.CalendarEvent
	want := titles[ph]
	switch VFork(VInt("kind", 0, 4)) {
	case 0:
		e = suriya.UposathaMoon{Date: at, Phase: ph, U_Days: ud, LunarSeason: season, S_Number: n, S_Total: tot}
		if ph != "" {
			want += " - " + strconv.Itoa(ud) + " day " + seasons[season-1] + " " + strconv.Itoa(n) + "/" + strconv.Itoa(tot)
		}
	case 1:
		e = suriya.HalfMoon{Date: at, Phase: ph}
	case 2:
		e = suriya.AstroMoon{Date: at, Phase: ph}
	case 3:
		want = "Āsāḷha Pūjā"
		e = suriya.MajorEvent{Date: at, Summary: want, Description: "other"}
	case 4:
		want = "Kathina"
		e = suriya.Event{Date: at, Summary: want, Description: "other"}
	}
	VAssert(e.String() == want, "an event's text names its phase, its place in the season or its summary")
	VAssert(e.GetDate().Equal(at), "an event tells its own date")
	var uid, summary string
	var allDay bool
	var start, end time.Time
	switch m := e.(type) {
	case suriya.UposathaMoon:
		v := m.IcalEvent()
		uid, summary, allDay, start, end = v.UID, v.SUMMARY, v.AllDay, v.DTSTART, v.DTEND
	case suriya.HalfMoon:
		v := m.IcalEvent()
		uid, summary, allDay, start, end = v.UID, v.SUMMARY, v.AllDay, v.DTSTART, v.DTEND
	case suriya.AstroMoon:
		v := m.IcalEvent()
		uid, summary, allDay, start, end = v.UID, v.SUMMARY, v.AllDay, v.DTSTART, v.DTEND
	case suriya.MajorEvent:
		v := m.IcalEvent()
		uid, summary, allDay, start, end = v.UID, v.SUMMARY, v.AllDay, v.DTSTART, v.DTEND
	case suriya.Event:
		v := m.IcalEvent()
		uid, summary, allDay, start, end = v.UID, v.SUMMARY, v.AllDay, v.DTSTART, v.DTEND
	}
	VAssert(uid != "" && allDay, "a calendar entry is identified and takes whole days")
	VAssert(summary == want, "a calendar entry is titled with the event's text")
	VAssert(VAnd(start.Equal(at), end.Equal(at.Add(day))), "a calendar entry covers the event's day")
}
