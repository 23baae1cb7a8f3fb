package main

import (
	"strconv"
	"strings"
	. "vapi"

	suriya "github.com/splendidmoons/suriya-go"
)

func fields(y int) (su suriya.SuriyaYear, dM, dV, x string) {
	su.Init(y)
	if su.Is_Adhikamasa() {
		dM = strconv.Itoa(su.DeltaAdhikamasa())
	}
	if su.Is_Adhikavara() {
		dV = strconv.Itoa(su.DeltaAdhikavara())
		x = dV
	} else if su.Would_Be_Adhikavara() {
		x = "x"
	}
	return
}

// S01: a year's row in the simple table
func H_csv_simple() {
	y := VInt("y", 660, 5000)
	su, dM, dV, _ := fields(y)
	got := yearsCsvSimple(y, y)
	head := "CE year,BE year,nM,dM,nV,dV,K,A,T\n"
	i := strconv.Itoa
	want := head + i(y) + "," + i(y+543) + "," + i(su.AdhikamasaCyclePos()) + "," + dM + "," + i(su.AdhikavaraCyclePos()) + "," + dV + "," + i(su.Kammacubala) + "," + i(su.Avoman) + "," + i(su.Tithi) + "\n"
	VAssert(got == want, "a row of the simple table shows its year's own values under their headings")
}

const fullHead = "CE year;BE year;K;A;T;nM;dM;nV;dV;Asalha by Calc.;Asalha in Calendar;test;source;comments\n"

// fullRow is a year's row up to its known calendar
func fullRow(y int) (row, asalha string) {
	su, dM, _, x := fields(y)
	i := strconv.Itoa
	asalha = su.AsalhaPuja().Format("2006-01-02")
	row = i(y) + ";" + i(y+543) + ";" + i(su.Kammacubala) + ";" + i(su.Avoman) + ";" + i(su.Tithi) + ";" + i(su.AdhikamasaCyclePos()) + ";" + dM + ";" + i(su.AdhikavaraCyclePos()) + ";" + x + ";" + asalha + ";"
	return
}

// S01: a year's row in the full table, where no calendar is known
func H_csv_full() {
	y := VInt("y", 660, 5000)
	VAssume(y < 1970 || y > 2016)
	row, _ := fullRow(y)
	VAssert(yearsCsv(y, y) == fullHead+row+";;;\n", "a row of the full table shows its year's own values and Asalha Puja under their headings")
}

// S01: a year's row in the full table, with its known calendar
func H_csv_known() {
	y := VFork(VInt("y", 1970, 2016))
	row, asalha := fullRow(y)
	got := yearsCsv(y, y)
	want := fullHead + row
	VAssert(strings.HasPrefix(got, want), "a row of the full table shows its year's own values and Asalha Puja under their headings")
	VAssert(strings.HasSuffix(got, "\n") && strings.Count(got, "\n") == 2 && strings.Count(got, ";") == 26, "a row of the full table has fourteen fields")
	rest := strings.Split(strings.TrimSuffix(strings.TrimPrefix(got, want), "\n"), ";")
	VAssert(len(rest) == 4 && (rest[1] == "OK") == (rest[0] == asalha) && (rest[1] == "OK" || rest[1] == "FAIL"), "a year is marked OK exactly when its known calendar agrees")
}

// S01: one row per year in the full table, whatever the years around it
func H_csv_full_rows() {
	y, n := VInt("y", 1967, 2017), VFork(VInt("n", 0, 2))
	y = VFork(y)
	rows := ""
	for k := 0; k <= n; k++ {
		rows += strings.TrimPrefix(yearsCsv(y+k, y+k), fullHead)
	}
	VAssert(yearsCsv(y, y+n) == fullHead+rows, "the full table has one row for each year, in order")
}

// S01: one row per year, in order
func H_csv_rows() {
	last := 1
	if VTier() == 1 {
		last = 2
	}
	y, n := VInt("y", 660, 4990), VFork(VInt("n", -1, last))
	rows := ""
	head := "CE year,BE year,nM,dM,nV,dV,K,A,T\n"
	for k := 0; k <= n; k++ {
		rows += strings.TrimPrefix(yearsCsvSimple(y+k, y+k), head)
	}
	VAssert(yearsCsvSimple(y, y+n) == head+rows, "the table has one row for each year, in order")
}
