package cal

import (
	. "vapi"

	suriya "github.com/splendidmoons/suriya-go"
)

// N02: see the core harness of this name
func H_shared_next() {
	d := VInt("d", day0, day1)
	month, season := VInt("month", 1, 13), VInt("season", 1, 3)
	ph := VForkS(VStr("ph", "new", "full"))
	n := VInt("n", 1, 9)
	VShared()
	lu := suriya.UposathaMoon{Date: atDay(d), Phase: ph, S_Number: n, S_Total: 8, U_Days: 15, M_Days: 30, LunarMonth: month, LunarSeason: season, LunarYear: 2500}
	nu := lu.NextUposatha()
	var c suriya.CalDay
	nu.AddToDay(&c)
	suriya.AddHalfMoonDays([]suriya.CalDay{c})
	_ = c.String()
}
