# ---- years -----------------------------------------------------------------
p("Y01", "A year's astronomical values follow the Suriyayatra procedure",
  "For every Common Era year from 639 to 20000, initialising a year (whatever it held before) sets its BE and CS numbers to CE+543 and CE-638 and sets Horakhun, Kammacubala, Uccabala, Avoman, Masaken and Tithi to the values of the Suriyayatra New Year procedure: with n = 292207*CS+373, Horakhun H = n div 800 + 1, Kammacubala = 800 - n mod 800, Uccabala = (H+2611) mod 3232, with x = 11*H+650 Avoman = x mod 692, and Masaken and Tithi the quotient and remainder of (x div 692 + H) by 30.",
  "every CE year 639..20000, every earlier content of the value", "TestCalculateSuriyaValues compares 11 years; the procedure must hold for each of 19362.",
  [YEAR, CONST], [("the New Year procedure", "suriya_year.go Init"), ("era constants", "suriya.go")], "CE years 639..20000", observe=["SuriyaYear fields after Init"])
p("Y02", "Each New Year follows from the one before",
  "For every CE year from 639 to 20000, the next New Year's Horakhun is 365 or 366 days later, 366 exactly when the year reports itself a solar leap year, which is when its Kammacubala is 207 or less; Kammacubala falls by 207 around 800. Over those days Uccabala advances by one a day around 3232, Avoman by eleven a day around 692, and the elapsed tithis (30 x Masaken + Tithi) by one a day plus the Avoman's carries; a solar year holds 12 or 13 elapsed months.",
  "every pair of adjacent CE years 639..20000", "The tests look at single years; a step law over all adjacent pairs is never tested.",
  [YEAR], [("Init", "suriya_year.go Init"), ("leap rule", "suriya_year.go Is_Suriya_Leap")], "CE years 639..20000", over=("inputs", "histories"))
p("Y03", "A year's counters stay in range and account for the whole era",
  "For every CE year from 639 to 20000, Kammacubala lies in 1..800, Uccabala in 0..3231, Avoman in 0..691 and Tithi in 0..29. 800*(Horakhun-1) + 800 - Kammacubala equals 292207*(CE-638)+373, and 692*(30*Masaken+Tithi) + Avoman equals 703*Horakhun+650, so no day and no tithi of the era is lost.",
  "every CE year 639..20000", "Eleven sampled years cannot show that the float divisions and floors never drop a unit.",
  [YEAR], [("Init", "suriya_year.go Init")], "CE years 639..20000")
p("Y04", "Adhikamasa years are those that qualify when the next year does not",
  "For every CE year from 640 to 5000, a year would be adhikamasa exactly when its New Year Tithi is 24..29 or 0..5, and is adhikamasa exactly when it would be and the next year would not.",
  "every CE year 640..5000", "TestAdhikamasa checks 1944..2016 at most.",
  [YEAR], [("rule", "suriya_year.go Would_Be_Adhikamasa, Is_Adhikamasa")], "CE years 640..5000")
p("Y05", "Adhikamasa years are two or three years apart and their distance is reported",
  "For every CE year from 640 to 5000, no two adjacent years are both adhikamasa and any three years in a row hold an adhikamasa year. From CE 650 on, the reported years since the last adhikamasa year is the distance to the nearest earlier adhikamasa year, 1 to 3, and at least 2 from an adhikamasa year.",
  "every CE year 640..5000, histories of 3 years before it", "The tests never look at spacing; a single 4-year gap anywhere breaks every later date.",
  [YEAR], [("search", "suriya_year.go DeltaAdhikamasa"), ("rule", "suriya_year.go Is_Adhikamasa")], "CE years 640..5000 (spacing), 650..5000 (distance)", over=("inputs", "histories"))
p("Y06", "Adhikavara years follow Eade's rule with the carried day",
  "For every CE year from 641 to 5000 with exceptions off, a year would be adhikavara exactly when its Avoman is 126 or less in a solar leap year and below 137 otherwise. It has a carried day exactly when the year before is adhikamasa and would be adhikavara. It is adhikavara exactly when it is not adhikamasa and it would be or has a carried day.",
  "every CE year 641..5000", "TestAdhikavara checks 1944..2016 at most; the carry depends on the year before.",
  [YEAR], [("rule", "suriya_year.go Would_Be_Adhikavara, Has_Carried_Adhikavara, Is_Adhikavara")], "CE years 641..5000", over=("inputs", "histories"))
p("Y07", "Official exceptions change 1994 and 1997 only and leave no trace",
  "Exceptions are off by default. For every CE year from 641 to 5000, turning them on changes whether the year is adhikavara only for 1994 (which is then not, with 354 days) and 1997 (which is then, with 355 days), and changes no other year's length, no adhikamasa year and no computed value. Turning them off again restores the pure rule.",
  "every CE year 641..5000, both settings of the switch, off-on-off", "Tests set the switch and look at a few years; that all other years are untouched is not tested.",
  [YEAR, CONST], [("switch and table", "suriya.go UseExceptions, AdhikavaraExceptions"), ("use", "suriya_year.go Is_Adhikavara")], "CE years 641..5000", over=("inputs", "configurations"))
p("Y08", "A lunar year's length is that of its kind",
  "For every CE year from 641 to 5000 with exceptions off, the lunar year has 384 days exactly in adhikamasa years, 355 exactly in adhikavara years, and 354 in all others.",
  "every CE year 641..5000", "Year length is never tested directly.",
  [YEAR], [("length", "suriya_year.go YearLength")], "CE years 641..5000")
p("Y09", "The last adhikavara year is reported, one to seven years back",
  "For every CE year from 660 to 5000 with exceptions off, the reported years since the last adhikavara year is the distance to the nearest earlier adhikavara year, and lies in 1..7.",
  "every CE year 660..5000, histories of 13 years before it", "The distance is not tested; it depends on up to thirteen earlier years.",
  [YEAR], [("search", "suriya_year.go DeltaAdhikavara")], "CE years 660..5000", over=("inputs", "histories"))
p("Y10", "Cycle positions advance by one through 57 and 19 years from 1984",
  "For every CE year from 1 to 20000, the adhikavara cycle position lies in 1..57 and the adhikamasa one in 1..19; both are 1 in 1984, advance by one each year and return to 1 after the last.",
  "every CE year 1..20000", "No test covers the cycle positions.",
  [YEAR], [("positions", "suriya_year.go AdhikavaraCyclePos, AdhikamasaCyclePos")], "CE years 1..20000")
p("Y11", "A year prints its number and its own values",
  "For every CE year from 639 to 20000, a year prints as its decimal number, and its values text is nine lines 'CE: n', 'BE: n', 'CS: n', 'Horakhun: n', 'Kammacubala: n', 'Uccabala: n', 'Avoman: n', 'Masaken: n', 'Tithi: n' with the year's own values in that order.",
  "every CE year 639..20000", "No test compares the text.",
  [YEAR], [("text", "suriya_year.go String, SuriyaValuesString")], "CE years 639..20000")
# ---- Kattika and Asalha ------------------------------------------------------
p("K01", "Successive Kattikas are exactly one lunar year apart",
  "For every CE year from 645 to 4115 with exceptions off, the Kattika full moon before the next year is the one before this year plus this lunar year's length: 384 days in adhikamasa years, 355 in adhikavara years, 354 otherwise.",
  "every CE year 645..4115, walked up to 2100 years either way from 2015", "TestAsalhaPuja reaches 1970..2016 only; the walk runs forward or backward over up to 2100 years and must agree at each step.",
  [HELP, YEAR], [("walk from 2015-11-25", "helpers.go CalculatePreviousKattika")], "CE years 645..4115", over=("inputs", "histories"))
p("K02", "The Kattika before a year is a whole UTC day in the last quarter before it",
  "For every CE year from 645 to 4116 with exceptions off, the Kattika full moon before the year is midnight UTC of a day in October, November or December of the year before; for 2016 it is 2015-11-25.",
  "every CE year 645..4116", "Only years near 2000 are tested, where any drift is still small.",
  [HELP], [("walk", "helpers.go CalculatePreviousKattika")], "CE years 645..4116", over=("inputs", "histories"))
p("K03", "Asalha Puja is the full moon four months before the next Kattika",
  "For every CE year from 645 to 4115 with exceptions off, Asalha Puja is 236 days after the Kattika before the year (266 in adhikamasa, 237 in adhikavara years), the next Kattika is 118 days after it, and it falls in that civil year between May and September.",
  "every CE year 645..4115", "TestAsalhaPuja samples 1970..2016; the 118-day relation is not tested.",
  [YEAR, HELP], [("date", "suriya_year.go AsalhaPuja")], "CE years 645..4115", over=("inputs", "histories"))
p("K04", "With exceptions on, only the dates from 1994 to 1997 move, by one day",
  "For every CE year from 645 to 4115, with exceptions on successive Kattikas are still one lunar year apart; the Kattika before a year is a day earlier for 1995, 1996 and 1997 and unchanged for every other year; Asalha Puja is a day earlier in 1994, 1995 and 1996 and unchanged in every other year.",
  "every CE year 645..4115, both settings of the switch", "Exceptions are tested on a few years; that nothing else moves, in either direction of the walk, is not.",
  [HELP, YEAR, CONST], [("walk", "helpers.go CalculatePreviousKattika"), ("switch", "suriya_year.go Is_Adhikavara")], "CE years 645..4115", over=("inputs", "configurations", "histories"))
# ---- helpers ----------------------------------------------------------------
p("H01", "Degrees split into rasi, angsa and lipda without loss or overlap",
  "For every degree from -3600 to 3600 that is a multiple of 2^-20, the split has angsa in 0..29 and lipda in 0..59, and 30*60*rasi + 60*angsa + lipda is the number of whole arcmins of the degree, rounded down. For every degree in that range with four decimals the same holds, up to one arcmin when the degree is a whole number of arcmins.",
  "every multiple of 2^-20 and of 10^-4 in [-3600, 3600]", "The split is only tested through a few days' positions.",
  [HELP], [("split", "helpers.go DegreeToRal")], "degrees n/2^20 and n/10^4 within [-3600, 3600]")
p("H02", "Rasi, angsa and lipda join into a degree and round trip within an arcmin",
  "For every rasi in -24..24, angsa in -60..60 and lipda in -120..120 the joined degree is 30*rasi + angsa + lipda/60, rounded down to four decimals. For every degree in [-1440, 1440] that is a multiple of 2^-20, splitting and joining it again loses at most one arcmin and a ten thousandth, and repeating it loses at most one arcmin more.",
  "every such triple, every multiple of 2^-20 in [-1440, 1440]", "The round trip is not tested.",
  [HELP], [("join", "helpers.go RalToDegree"), ("split", "helpers.go DegreeToRal")], "rasi -24..24, angsa -60..60, lipda -120..120; degrees n/2^20 within [-1440, 1440]")
p("H03", "The text of a degree shows its own rasi, angsa and lipda",
  "For every degree in [-1440, 1440] that is a multiple of 2^-20, its text is rasi:angsa°lipda' with exactly the numbers the split gives.",
  "every multiple of 2^-20 in [-1440, 1440]", "Only used for logging in tests.",
  [HELP], [("text", "helpers.go DegreeToRalString")], "degrees n/2^20 within [-1440, 1440]")
p("H04", "Normalising a degree removes whole circles and nothing else",
  "For every degree in [-7200, 7200] that is a multiple of 2^-20, the normalised degree lies in 0..360 and differs from the degree by a whole number of circles, to within a millionth; a degree already in 0..360 is unchanged.",
  "every multiple of 2^-20 in [-7200, 7200]", "Not tested on its own; positions far outside the circle are rare.",
  [HELP], [("normalise", "helpers.go NormalizeDegree")], "degrees n/2^20 within [-7200, 7200]")
p("H05", "A Horakhun is the date that many days from 1963-07-05, day 484049",
  "For every Horakhun from 0 to 1600000 its date is 23:59:59 UTC of the day that is (Horakhun - 484049) days after 1963-07-05. For every CE year from 639 to 4116, the date of the year's New Year Horakhun falls in that civil year, between March and May.",
  "every Horakhun 0..1600000; every CE year 639..4116", "TestDay samples 14 days; the conversion steps in chunks whose borders tests miss.",
  [HELP], [("conversion in steps", "helpers.go HorakhunToDate")], "Horakhun 0..1600000; CE years 639..4116")
p("H06", "Names and numbers of months, seasons, calendars and statuses agree",
  "The twelve months are numbered 1..12 from magasira with 2nd asalha 13, seasons 1..3 (hemanta, gimhana, vassana), calendars 0..3 (mahanikaya, dhammayut, srilanka, myanmar), statuses 0..2 (draft, predicted, confirmed). Season numbers 1..3 name Hemanta, Gimha and Vassāna, every other number from -1000 to 1000 has the empty name, and unknown names give 0.",
  "every name of the tables, eight unknown names, every season number -1000..1000", "No test touches the tables.",
  [HELP], [("tables", "helpers.go monthToInt, seasonToInt, seasonName, calendarToInt, statusToInt")], "the names listed; season numbers -1000..1000")
# ---- days ---------------------------------------------------------------------
p("D01", "A day's counters follow the Suriyayatra procedure",
  "For every CE year from 639 to 4116 and every day number from -60 to 450 of its lunar year, initialising a day (whatever it held before) gives the eras CE+543 and CE-638, the Horakhun that is the year's plus (day - the year's Tithi), a Kammacubala that is the year's plus 800 for each of those days, and Uccabala, Avoman, Masaken and Tithi by the year's procedure applied to that Horakhun.",
  "every CE year 639..4116 and day -60..450", "TestDay and TestSuriyaDayInit look at a handful of days.",
  [DAY], [("counters", "suriya_day.go Init")], "CE years 639..4116, days -60..450")
p("D02", "A day's counters follow from the day before",
  "For every CE year from 639 to 4116 and every day number from -60 to 450, the next day's Horakhun is one more, its Kammacubala 800 more, its Uccabala one more around 3232, its Avoman eleven more around 692, and its elapsed tithis (30 x Masaken + Tithi) one more, or two when the Avoman carries; Tithi stays in 0..29, Avoman in 0..691, Uccabala in 0..3231.",
  "every pair of adjacent days in CE 639..4116, days -60..450", "Tests look at single days.",
  [DAY], [("counters", "suriya_day.go Init")], "CE years 639..4116, days -60..450", over=("inputs", "histories"))
p("D03", "Days agree with their year and with the next year's numbering",
  "For every CE year from 639 to 4116, the day whose number is the year's Tithi has the year's own Horakhun, Kammacubala, Uccabala, Avoman, Masaken and Tithi. The same day (by Horakhun) named in that year and in the next, for day numbers -30..60 of the next, has the same Uccabala, Avoman, Masaken and Tithi, and Kammacubala 292207 apart.",
  "every CE year 639..4116, days -30..60 around each border", "The border between two years' numberings is not tested.",
  [DAY, YEAR], [("elapsed days", "suriya_day.go Init")], "CE years 639..4116, days -30..60 of the next year")
p("D04", "The Sun's mean and true positions follow the procedure",
  "For every CE year from 639 to 4116 and day 0..385, the mean Sun is a x 360/292207 degrees, where a is the year's Kammacubala plus 800 for each day since the New Year, in whole arcmins less 3, rounded down to four decimals. The true Sun is the mean Sun plus floor(134 x sin|mean Sun - 80°|) arcmins, around the circle, to within 0.00011 degrees.",
  "every CE year 639..4116 and day 0..385 (1.3 million days)", "TestSuriyaDayInit compares positions of a few days.",
  [DAY, HELP], [("mean and true Sun", "suriya_day.go Init")], "CE years 639..4116, days 0..385")
p("D05", "The Moon's mean and true positions and the Raek follow the procedure",
  "For every CE year from 639 to 4116 and day 0..385, the mean Moon is the true Sun plus (Avoman + Avoman div 25) arcmins plus 12 degrees a Tithi less 0.6666 degrees, around the circle. With u = ((year's Uccabala + days since New Year) x 90/808 degrees + 2 arcmins), the true Moon is the mean Moon less 296 x sin(mean Moon - u) arcmins, around the circle, to within 0.00011 degrees. The Raek is the true Moon divided by 13.3333 degrees, plus 1.",
  "every CE year 639..4116 and day 0..385", "TestRaek and TestSuriyaDayInit compare a few days.",
  [DAY, HELP], [("mean and true Moon, Raek", "suriya_day.go Init")], "CE years 639..4116, days 0..385")
p("D06", "Positions stay within the circle and corrections within their amplitude",
  "For every CE year from 639 to 4116 and day 0..385, the true Sun, mean Moon and true Moon lie in 0..360 degrees and the Raek in 1..28, to within 0.00011; the true Sun is within 134 arcmins of the mean Sun and the true Moon within 296 arcmins of the mean Moon, around the circle.",
  "every CE year 639..4116 and day 0..385", "The days at the circle's seam are rare and untested.",
  [DAY, HELP], [("normalising", "helpers.go NormalizeDegree"), ("positions", "suriya_day.go Init")], "CE years 639..4116, days 0..385")
p("D07", "A day computed again for other arguments carries nothing over",
  "For every two pairs of CE year from 639 to 4116 and day 0..385, initialising a day for the one and then for the other gives the same eras, counters, positions and Raek as a fresh day for the other.",
  "every two (year, day) pairs in CE 639..4116, days 0..385", "Tests always start from a fresh value.",
  [DAY], [("assignments", "suriya_day.go Init")], "CE years 639..4116, days 0..385", over=("inputs", "histories"))
# ---- uposathas --------------------------------------------------------------------
p("U01", "A full moon follows each new moon after 15 days, with its event",
  "For every new moon dated 0645-12-17 to 4115-02-20 at midnight UTC, with any month, season, number, total, month length, year and notes, the next uposatha is a full moon 15 days later in the same month, season, season total and lunar year, numbered one more, with 15 uposatha days and no extra day. Its event is magha in month 3 (4 in adhikamasa years), vesakha in 6 (7), asalha in 8 (13), pavarana in 11, and none otherwise, where the year is the full moon's civil year; it is a mahanikaya draft without notes.",
  "every date 0645-12-17..4115-02-20, every field value within the types' documented ranges", "No test of the repository's own build reaches the uposathas at all.",
  [UPO, YEAR], [("full moon", "uposatha_moon.go NextUposatha")], "dates 0645-12-17..4115-02-20, months 1..13, seasons 1..3, numbers 1..9, totals 8..10, lunar years 1000..5000", over=("inputs", "histories"))
p("U02", "A new moon follows each full moon and opens the right month and season",
  "For every full moon dated 0645-12-17 to 4115-02-20 at midnight UTC, the next uposatha is a new moon of the next month (12 to 1; 8 to 13 and 13 to 9 with an adhikamasa date year), 15 days later in odd months and in month 8 of adhikavara years, 14 otherwise, with month length and extra-day mark to match. Seasons count to their total of 8, or 10 for months 5..8 and 13 of adhikamasa years, then the next season starts at 1, and after month 12 the first season of the next lunar year; new moons announce no event.",
  "every date 0645-12-17..4115-02-20, every field value within range", "No test reaches the uposathas.",
  [UPO, YEAR], [("new moon", "uposatha_moon.go NextUposatha")], "dates 0645-12-17..4115-02-20, months 1..13, seasons 1..3, numbers up to their total, totals 8 and 10, lunar years 1000..5000", over=("inputs", "histories"))
p("U03", "The next uposatha depends on the uposatha alone",
  "For every uposatha dated 0645-12-17 to 4115-02-20, asking for the next uposatha does not change it, and asking again after asking of any other uposatha within 400 days gives the same answer.",
  "every two uposathas of those dates and any phase, month and season", "No test reaches the uposathas; purity is about pairs of calls.",
  [UPO], [("value receiver", "uposatha_moon.go NextUposatha")], "dates 0645-12-17..4115-02-20, two calls 400 days apart at most", over=("inputs", "histories"))
p("U04", "Twelve or thirteen months run from Kattika to Kattika in order",
  "For every CE year from 645 to 4115, starting from the Kattika full moon before it, the uposathas run through months 1..12 in order, with the 2nd Asalha after the 8th in adhikamasa years, each month opened by its new moon and closed 30 or 29 days later by its full moon, in three seasons of 8 uposathas (10 in the adhikamasa hot season), with Magha, Vesakha, Asalha and Pavarana announced once each in their months. The months add up to the lunar year's length, and the last full moon is the next year's Kattika, as it began.",
  "every CE year 645..4115 and each of its 12 or 13 months", "No test reaches the uposathas; a whole year's sequence over 3471 years is needed.",
  [UPO, HELP, YEAR], [("month sequence", "uposatha_moon.go NextUposatha"), ("Kattika", "helpers.go CalculatePreviousKattika")], "CE years 645..4115, one induction step a month", over=("inputs", "histories"))
p("G01", "A generated solar year holds all its moons and major events once, in order",
  "For every CE year from 645 to 4115, the generated events all fall in that civil year and are uposathas, half moons and major events only. The 24 to 26 uposathas are confirmed, alternate between new and full, 14 or 15 days apart as each says, and none is missing at either end: the one before the first is in the year before and the one after the last in the year after; half moons alternate from the first fifteen days of January to the last fifteen of December. Māgha, Vesākha and Āsāḷha Pūjā, First day of Vassa, Pavāraṇā Day and Last day of Vassa appear once each, in that order.",
  "every CE year 645..4115", "No test generates a year; years whose moons fall near New Year are rare.",
  [CAL, UPO], [("generation", "cal_day.go GenerateSolarYear")], "CE years 645..4115", over=("inputs", "histories"))
p("G02", "Half moons are eight days after uposathas and events on their moons",
  "For every CE year from 645 to 4115, each generated uposatha is followed by a half moon exactly eight days later, waxing after a new moon and waning after a full moon, unless that day is in the next year. The only other half moon is that of the last uposatha of the year before, when it falls in this year. Each Pūjā is on the uposatha that announces it, Vassa begins the day after Āsāḷha Pūjā and ends on Pavāraṇā day.",
  "every CE year 645..4115", "No test generates a year; half moons near New Year and event dates in all 3471 years are out of reach of samples.",
  [CAL, UPO], [("half moons and events", "cal_day.go GenerateSolarYear")], "CE years 645..4115", over=("inputs", "histories"))
p("G03", "A generated year's uposathas are the ones that follow from Kattika",
  "For every CE year from 645 to 4115, the generated uposathas are, one by one and in every field but the confirmed status, those obtained by asking for the next uposatha again and again from the Kattika full moon before the year (the 8th of 8 of the rainy season, month 12 of 29 days, in the lunar year named by its date), as far as they fall in the year.",
  "every CE year 645..4115", "No test generates a year.",
  [CAL, UPO, HELP], [("starting moon and loop", "cal_day.go GenerateSolarYear")], "CE years 645..4115", over=("inputs", "histories"))
p("G04", "Each generated year continues where the one before ended",
  "For every CE year from 645 to 4114, the first uposatha generated for the next year is, in every field but the confirmed status, the next uposatha after the last one generated for the year, so that years generated apart join without a gap, an overlap or a shift.",
  "every pair of adjacent CE years 645..4115", "No test generates a year, let alone two in a row.",
  [CAL, UPO, HELP], [("generation", "cal_day.go GenerateSolarYear"), ("Kattika", "helpers.go CalculatePreviousKattika")], "CE years 645..4115", over=("inputs", "histories"))
p("C01", "The calendar days of a period hold its events, each date once, in order",
  "For every period of up to 25 days that starts in 2010..2021, the calendar days lie in the period, in order of date with each date once, and hold exactly the uposathas, half moons and major events that the solar years generate for that period, each on the day of its own date. Periods may run over New Year; so it is for periods of 760 days, over two New Years, that start in 2010.",
  "every start day and every length 0..24 days", "No test asks for calendar days; the borders of a period meet events in every possible way.",
  [CAL, HALF, MAJ, UPO], [("merge and filter", "cal_day.go GetCalDays, mergeIntoCalDays, findCalDay")], "starts in 2010..2021 (thorough: 2010..2045), lengths 1..25 days; 760 days from any day of 2010 (thorough: 2010..2015); no astronomical moons", over=("inputs",))
p("C02", "Half moon days are added eight days after the moons of given days",
  "For any up to three calendar days in order, up to 400 days apart, that hold a new or full moon, a moon of another phase or no moon at all, adding half moon days keeps the given days as they are and appends, for each new or full moon in order, one day eight days later that holds a half moon only: waxing after a new moon, waning after a full moon.",
  "every list of up to 3 days over 3 years", "No test reaches it.",
  [CAL, HALF], [("half moon days", "cal_day.go AddHalfMoonDays")], "0..3 days, first within 400 days of the start of 1999..2001", over=("inputs",))
p("C03", "A calendar day keeps one of each moon and all its events",
  "For any sequence of up to four additions of uposathas, half moons, astronomical moons, major events and events to a calendar day, the day has the last moon of each kind that was added or an empty one, all its major events and events in their order, and the date of what was added last. Each added thing tells its own date.",
  "every sequence of up to 4 additions with any times, phases and numbers", "No test reaches calendar days; the outcome depends on the order of additions.",
  [CAL, UPO, HALF, AST, MAJ, EV], [("slots", "cal_day.go SetUposathaMoon, SetHalfMoon, SetAstroMoon; AddToDay of each type")], "4 additions (thorough: 5)", over=("inputs", "histories"))
p("A01", "Astronomical moons are those of the period in the years' documents",
  "For any period that starts and ends within two years and any documents of those years, each absent, unsuccessful, with an error or good with two moons at any time and code 0..3, the astronomical moons are exactly those of good documents that fall in the period, in their order, in UTC whatever their zone, with phase new, waxing, full and waning for codes 0 to 3. A missing or bad year hides nothing of the other year.",
  "every period, document state, moon time and code", "The embedded data is one fixed data set whose missing and failed years are few, and no test reads it.",
  [AST, AER], [("reading and filtering", "astro_moon.go GetAstroMoons"), ("phase codes", "aeris_moon.go")], "two years out of 1999..2002, documents of 2 moons (thorough: 3), UTC or +07:00, to the second", over=("inputs", "configurations"))
p("E01", "Events name themselves and make an all-day calendar entry of their date",
  "The text of an uposatha is its phase, uposatha days, season, number and total (as in Full Moon - 15 day Hemanta 3/8), of half and astronomical moons their phase, of moons without a phase empty, and of major events and events their summary, whatever the date from 0645 to 4115. The calendar entry of each is identified, all-day, titled with that text, starts on its date and ends one day later.",
  "every event kind, phase, season, number, total and date", "No test reaches these types.",
  [ICS, UPO, HALF, AST, MAJ, EV], [("texts", "String methods"), ("entries", "calendar_event.go icalEvent")], "dates 0645-12-17..4115-02-20, days 14..15, numbers 1..10, totals 8..10", over=("inputs",))
p("I01", "The command takes its period from the date flags",
  "For any from date within 365 days of the start of a year 1600..2400 and any to date in the following year, given as YYYY-MM-DD, the command works on the period from exactly that date to exactly that date, and reads no other date.",
  "every two dates", "The command has no test of its dates.",
  [CLI], [("flags", "suriya/suriya.go cliInit")], "from 1600..2400, to the year after", over=("inputs", "configurations"))
p("I02", "The ical output has one entry for each event of the period",
  "For every period of up to 11 days that starts in 2014..2017, the ical command writes one calendar that names its version, maker, scale and method, with exactly one entry for each uposatha, half moon and major event of the period, titled and dated as that event, in order of date, each with an identifier of its own, and no other entries.",
  "every start day and every length 0..10 days", "No test runs the command.",
  [CLI, CAL, ICS], [("entries", "suriya/suriya.go actionIcal")], "starts in 2014..2017 (thorough: 2014..2040), 1..11 days", over=("inputs", "configurations"))
p("I03", "The caldays output has the period's calendar days by year",
  "For every period of up to 61 days that starts on the last 35 days of 2014 or 2015, the caldays command with an output file writes one JSON document to that file, whatever the file held before, which has the calendar days of the period under their years, in order, each once with its moons and events, and no other days and years.",
  "every start day and length, a new and an old output file", "No test runs the command.",
  [CLI, CAL], [("grouping and output", "suriya/suriya.go actionCalDays")], "starts in the last 35 days of 2014 and 2015 (thorough: 2014..2040), 1..61 days; output to a file", over=("inputs", "configurations"))
p("S01", "The year tables show each year's own values under their headings",
  "For every CE year from 660 to 5000 the simple table's row shows the CE and BE year, the adhikamasa cycle position and, in adhikamasa years only, the years since the last one, the same for adhikavara, and Kammacubala, Avoman and Tithi, in the order of the headings; a table of several years has their rows in order. The full table's row has fourteen fields, shows the same values and the date of Asalha Puja, marks a year that would be adhikavara but is not with x, and says OK exactly when the known calendar agrees; so it does in a table of several years.",
  "every CE year 660..5000, tables of up to three years", "The tool has no tests and did not compile before its fix.",
  [CSV, YEAR], [("simple table", "utils/years-csv.go yearsCsvSimple"), ("full table", "utils/years-csv.go yearsCsv")], "CE years 660..5000, tables of 0..2 years (3 thorough); full tables of one year, and of 1..3 years that start in 1967..2017", over=("inputs",))
p("N02", "Calculations share no written state, so callers may run at once",
  "For every CE year from 680 to 4115 (645 to 4115 for Kattika and Asalha Puja) with the exceptions switch left on or off, every day number from -60 to 450 of 639..4116, every degree within ten circles, every Horakhun, name and number, and every uposatha, no public calculation of years, days, degrees, dates, names or next uposathas writes to anything that existed before the call, so any number of them may run at once without a data race.",
  "every input of every calculation; schedules follow, since calls that write nothing shared cannot race", "The tests are single-threaded and the race detector sees only the inputs that are run.",
  [YEAR, DAY, HELP, UPO, CAL], [("calls work on their own values", "suriya_year.go; suriya_day.go; helpers.go; uposatha_moon.go NextUposatha"), ("read-only tables", "helpers.go; suriya.go")], "the inputs named in the statement; generated years and the embedded data are outside", over=("inputs", "schedules"))
# ---- not claimed ---------------------------------------------------------------------
p("N01", "The embedded data is the data directory",
  "Every file under data/ opens from the embedded file system with the same bytes as on disk.",
  "every file under data/", "No test opens the embedded data.",
  [DATA], [("embedded tables", "data.go")], "", over=("configurations",),
  na="gzip decompression of 140 KB of concrete embedded text: there is no symbolic input for a solver to decide, only one concrete run of the inflate loop over constant data; a byte comparison would be a different technique.")
