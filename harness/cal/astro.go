package cal

import (
	"fmt"
	"time"
	. "vapi"

	suriya "github.com/splendidmoons/suriya-go"
)

// The document of a year's astronomical moons, as the data service writes it.
type aeMoon struct {
	Timestamp   int       `json:"timestamp"`
	DateTimeISO time.Time `json:"dateTimeISO"`
	Code        int       `json:"code"`
	Name        string    `json:"name"`
}
type aeError struct {
	Code        string `json:"code"`
	Description string `json:"description"`
}
type aeDoc struct {
	Success  bool     `json:"success"`
	Error    aeError  `json:"error"`
	Response []aeMoon `json:"response"`
}

// within: any second of a year's first 365 days.
func within(y int, name string) time.Time {
	return time.Date(y, 1, 1, 0, 0, 0, 0, time.UTC).Add(time.Duration(VInt(name+" day", 0, 364))*day + time.Duration(VInt(name+" second", 0, 86399))*time.Second)
}

// A01: which astronomical moons a period holds
func H_astro_moons() {
	y := VFork(VInt("y", 1999, 2001))
	phases := []string{"new", "waxing", "full", "waning"}
	zone := VForkB(VBool("zone"))
	fy, ty := y+VFork(VInt("fy", 0, 1)), y+VFork(VInt("ty", 0, 1))
	from, to := within(fy, "from"), within(ty, "to")
	VAssume(!to.Before(from))
	var want []suriya.AstroMoon
	for k := 0; k < 2; k++ {
		st := VForkS(VStr(fmt.Sprintf("file%d", k), "good", "absent", "unsuccessful", "error"))
		var doc aeDoc
		doc.Success = st != "unsuccessful"
		if st == "error" {
			doc.Error.Code = "warn_no_data"
		}
		for j := 0; j < VTier()+2; j++ {
			at := within(y+k, fmt.Sprintf("at%d%d", k, j))
			code := VInt(fmt.Sprintf("code%d%d", k, j), 0, 3)
			iso := at
			if zone {
				iso = at.In(time.FixedZone("", 7*3600))
			}
			doc.Response = append(doc.Response, aeMoon{DateTimeISO: iso, Code: code, Name: "moon"})
			if st == "good" && fy <= y+k && y+k <= ty && !at.Before(from) && !at.After(to) {
				want = append(want, suriya.AstroMoon{Phase: phases[code], Date: at})
			}
		}
		VFile(fmt.Sprintf("/data/astro/astro-%d.json", y+k), st != "absent", doc)
	}
	got := suriya.GetAstroMoons(from, to)
	VAssert(len(got) == len(want), "a period holds the moons of its years' documents that fall in it, and no others")
	for i := range want {
		if i < len(got) {
			VAssert(VAnd(got[i].Date.Equal(want[i].Date), got[i].Date.Hour() == want[i].Date.Hour()), "an astronomical moon is at its time, in UTC")
			VAssert(got[i].Phase == want[i].Phase, "codes 0 to 3 are new, waxing, full and waning")
		}
	}
}
