package core

import (
	. "vapi"

	suriya "github.com/splendidmoons/suriya-go"
)

// N02: what a caller may do while others do the same. After VShared no call
// may write to anything that existed before it.

func H_shared_year() {
	y := VInt("y", 680, 4115)
	suriya.UseExceptions = VForkB(VBool("exceptions"))
	VShared()
	var s suriya.SuriyaYear
	s.Init(y)
	s.Is_Adhikamasa()
	s.Would_Be_Adhikamasa()
	s.Is_Adhikavara()
	s.Would_Be_Adhikavara()
	s.Has_Carried_Adhikavara()
	s.Is_Suriya_Leap()
	s.AdhikavaraCyclePos()
	s.AdhikamasaCyclePos()
	s.DeltaAdhikamasa()
	s.DeltaAdhikavara()
	s.YearLength()
	_ = s.String()
	s.SuriyaValuesString()
}

func H_shared_kattika() {
	y := VInt("y", 645, 4115)
	suriya.UseExceptions = VForkB(VBool("exceptions"))
	VShared()
	suriya.CalculatePreviousKattika(y)
}

func H_shared_asalha() {
	y := VInt("y", 645, 4115)
	suriya.UseExceptions = VForkB(VBool("exceptions"))
	var s suriya.SuriyaYear
	s.Init(y)
	VShared()
	s.AsalhaPuja()
}

func H_shared_day() {
	y, d := VInt("y", 639, 4116), VInt("d", -60, 450)
	VShared()
	var s suriya.SuriyaDay
	s.Init(y, d)
}

func H_shared_helpers() {
	n := VInt("n", -3600*1048576, 3600*1048576)
	h := VInt("h", -700000, 2000000)
	x, y, z := VInt("x", -24, 24), VInt("yy", -60, 60), VInt("z", -120, 120)
	name := VStr("name", "", "Citta", "Phagguna", "Hemanta", "Gimha", "mahanikaya", "Dhammayut", "draft", "confirmed", "other")
	k := VInt("k", -2, 20)
	VShared()
	g := float64(n) / 1048576
	suriya.DegreeToRal(g)
	suriya.DegreeToRalString(g)
	suriya.RalToDegree(x, y, z)
	suriya.NormalizeDegree(g)
	suriya.HorakhunToDate(int64(h))
	suriya.MonthToInt(name)
	suriya.SeasonToInt(name)
	suriya.SeasonName(k)
	suriya.CalendarToInt(name)
	suriya.StatusToInt(name)
}
