package main

type Split struct {
	Name string
	N    int
}

type Harness struct {
	Fn           string
	Pkg          string
	Quick, Thor  []Split
	Deadline     float64
	Solve        float64
	Mode         string
	FeasMS       int
	Batch        int
	ThoroughOnly bool
	Race         bool
	Tables       bool
}

type Prop struct {
	ID     string
	H      []Harness
	Assume []string
}

func (h *Harness) jobs(id string, tier int) []*Job {
	sp := h.Quick
	if tier == 1 && h.Thor != nil {
		sp = h.Thor
	}
	js := []*Job{{Prop: id, Fn: h.Fn, Pkg: h.Pkg, Tier: tier, Ranges: map[string][2]int{}, Deadline: h.Deadline, SolveSec: h.Solve, Mode: h.Mode, FeasMS: h.FeasMS, Batch: h.Batch, Tables: h.Tables, Race: h.Race}}
	for _, s := range sp {
		var n []*Job
		for _, j := range js {
			for i := 0; i < s.N; i++ {
				c := *j
				c.Ranges = map[string][2]int{}
				for k, v := range j.Ranges {
					c.Ranges[k] = v
				}
				c.Ranges[s.Name] = [2]int{i, s.N}
				n = append(n, &c)
			}
		}
		js = n
	}
	for _, j := range js {
		if j.Deadline == 0 {
			j.Deadline = 300
		}
		if j.SolveSec == 0 {
			j.SolveSec = 60
		}
	}
	return js
}

func propByID(id string) *Prop {
	for _, p := range props {
		if p.ID == id {
			return p
		}
	}
	return nil
}

func (p *Prop) level() string { return "other" }

func (p *Prop) assumptions() []string {
	return append([]string{
		"Inputs lie within the stated bounds.",
		"int is 64 bits; values of the code under check stay far below 2^63 within the bounds.",
	}, p.Assume...)
}

func h(fn string, sp ...Split) Harness { return Harness{Fn: fn, Pkg: "core", Quick: sp} }

func hc(fn string, sp ...Split) Harness { return Harness{Fn: fn, Pkg: "cal", Quick: sp, Tables: true} }

func hr(pkg, fn string, sp ...Split) Harness {
	return Harness{Fn: fn, Pkg: pkg, Quick: sp, Race: true, Tables: pkg == "cal"}
}

var props = []*Prop{
	{ID: "Y01", H: []Harness{h("H_year_values")}},
	{ID: "Y02", H: []Harness{h("H_year_steps", Split{"y", 8})}},
	{ID: "Y03", H: []Harness{h("H_year_ranges")}},
	{ID: "Y04", H: []Harness{h("H_adhikamasa_rule")}},
	{ID: "Y05", H: []Harness{h("H_adhikamasa_spacing", Split{"y", 8}), h("H_adhikamasa_delta", Split{"y", 8})}},
	{ID: "Y06", H: []Harness{h("H_adhikavara_rule", Split{"y", 8})}},
	{ID: "Y07", H: []Harness{h("H_exceptions", Split{"y", 8})}},
	{ID: "Y08", H: []Harness{h("H_year_length", Split{"y", 8})}},
	{ID: "Y09", H: []Harness{h("H_adhikavara_delta", Split{"y", 16})}},
	{ID: "Y10", H: []Harness{h("H_cycle", Split{"y", 8})}},
	{ID: "K01", H: []Harness{h("H_kattika_steps", Split{"y", 64})}},
	{ID: "K02", H: []Harness{h("H_kattika_place", Split{"y", 64})}},
	{ID: "K03", H: []Harness{h("H_asalha", Split{"y", 64})}},
	{ID: "K04", H: []Harness{h("H_kattika_exceptions", Split{"y", 64})}},
	{ID: "H01", H: []Harness{h("H_ral_split"), h("H_ral_split4")}},
	{ID: "H02", H: []Harness{h("H_ral_join"), h("H_ral_roundtrip")}},
	{ID: "H03", H: []Harness{h("H_ral_text")}},
	{ID: "H04", H: []Harness{h("H_normalize")}},
	{ID: "H05", H: []Harness{h("H_horakhun_date"), h("H_newyear_date", Split{"y", 8})}},
	{ID: "H06", H: []Harness{h("H_names")}},
	{ID: "D01", H: []Harness{h("H_day_values", Split{"y", 8})}},
	{ID: "D02", H: []Harness{h("H_day_steps", Split{"y", 8})}},
	{ID: "D03", H: []Harness{h("H_day_newyear", Split{"y", 8}), h("H_day_overlap", Split{"y", 8})}},
	{ID: "D04", H: []Harness{h("H_day_sun", Split{"y", 8})}},
	{ID: "D05", H: []Harness{h("H_day_moon", Split{"y", 8})}},
	{ID: "D06", H: []Harness{{Fn: "H_day_circle", Pkg: "core", Quick: []Split{{"y", 8}}, Solve: 8}}},
	{ID: "D07", H: []Harness{h("H_day_reuse")}},
	{ID: "Y11", H: []Harness{h("H_year_text")}},
	{ID: "U01", H: []Harness{hc("H_next_full", Split{"d", 128})}},
	{ID: "U02", H: []Harness{hc("H_next_new", Split{"d", 128})}},
	{ID: "U03", H: []Harness{hc("H_next_value", Split{"d", 128})}},
	{ID: "U04", H: []Harness{hc("H_lunar_month", Split{"i", 13}, Split{"y", 32})}},
	{ID: "C01", H: []Harness{{Fn: "H_cal_days", Pkg: "cal", Quick: []Split{{"y", 12}}, Thor: []Split{{"y", 36}}, Tables: true, Deadline: 60}, {Fn: "H_cal_days_long", Pkg: "cal", Quick: []Split{{"a", 32}}, Tables: true, Deadline: 60}}},
	{ID: "C02", H: []Harness{{Fn: "H_half_moon_days", Pkg: "cal", Quick: []Split{{"n", 4}}, Tables: true, Deadline: 60}}},
	{ID: "C03", H: []Harness{{Fn: "H_day_slots", Pkg: "cal", Quick: []Split{{"op0", 6}}, Thor: []Split{{"op0", 6}, {"op1", 6}}, Tables: true, Deadline: 60}}},
	{ID: "S01", H: []Harness{{Fn: "H_csv_simple", Pkg: "csv", Quick: []Split{{"y", 16}}, Deadline: 60}, {Fn: "H_csv_full", Pkg: "csv", Quick: []Split{{"y", 48}}, Deadline: 60}, {Fn: "H_csv_known", Pkg: "csv", Quick: []Split{{"y", 8}}, Deadline: 60}, {Fn: "H_csv_full_rows", Pkg: "csv", Quick: []Split{{"y", 8}}, Deadline: 60}, {Fn: "H_csv_rows", Pkg: "csv", Quick: []Split{{"y", 8}}, Deadline: 60}}},
	{ID: "N02", H: []Harness{hr("core", "H_shared_year", Split{"y", 16}), hr("core", "H_shared_kattika", Split{"y", 32}), hr("core", "H_shared_asalha", Split{"y", 32}), hr("core", "H_shared_day", Split{"y", 8}), hr("core", "H_shared_helpers"), hr("cal", "H_shared_next", Split{"d", 64})}},
	{ID: "E01", H: []Harness{{Fn: "H_event_text", Pkg: "cal", Tables: true, Deadline: 60}}},
	{ID: "I01", H: []Harness{{Fn: "H_cli_dates", Pkg: "cli", Quick: []Split{{"y", 8}}, Deadline: 60}}},
	{ID: "I02", H: []Harness{{Fn: "H_cli_ical", Pkg: "cli", Quick: []Split{{"y", 4}}, Thor: []Split{{"y", 27}}, Tables: true, Deadline: 100}}},
	{ID: "I03", H: []Harness{{Fn: "H_cli_caldays", Pkg: "cli", Quick: []Split{{"y", 2}, {"a", 3}}, Thor: []Split{{"y", 27}, {"a", 2}}, Tables: true, Deadline: 100}}},
	{ID: "G01", H: []Harness{hc("H_solar_year", Split{"y", 32})}},
	{ID: "A01", H: []Harness{{Fn: "H_astro_moons", Pkg: "cal", Quick: []Split{{"y", 3}, {"zone", 2}, {"fy", 2}, {"ty", 2}}, Tables: true, Deadline: 60}}},
	{ID: "G02", H: []Harness{hc("H_solar_dates", Split{"y", 32})}},
	{ID: "G03", H: []Harness{hc("H_solar_chain", Split{"y", 32})}},
	{ID: "G04", H: []Harness{hc("H_solar_seam", Split{"y", 32})}},
}
