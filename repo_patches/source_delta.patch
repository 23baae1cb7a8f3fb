From d97a1863f3badabfcc3852a971b33cb3d0e155f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:28 +0000
Subject: [PATCH 1/8] fix: DegreeToRal of negative degrees loses 30 degrees

The rasi is floored but the angsa came from a truncated modulo, so
DegreeToRal(-51) returned -2, -21 instead of -2, 9 and every sun position
before the solar New Year's day was off by one rasi.
---
 helpers.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/helpers.go b/helpers.go
index f4f2f7a..740e71a 100644
--- a/helpers.go
+++ b/helpers.go
@@ -13,7 +13,7 @@ func DegreeToRal(degree float64) (x, y, z int) {
 	x = int(math.Floor(degree / 30))
 
 	// the remainder degrees
-	y = int(math.Floor(degree)) % 30
+	y = int(math.Floor(degree)) - 30*x
 
 	// plus the arcmins
 	z = int(math.Floor((degree - math.Floor(degree)) * 60))
-- 
2.43.0


From 41fdcb44ceb01f785c8abd078476b54a9ee3953b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:28 +0000
Subject: [PATCH 2/8] fix: NormalizeDegree returns negative degrees as they are

---
 helpers.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/helpers.go b/helpers.go
index 740e71a..f4cf889 100644
--- a/helpers.go
+++ b/helpers.go
@@ -35,7 +35,7 @@ func RalToDegree(x, y, z int) float64 {
 
 // Keep it within 360 deg
 func NormalizeDegree(deg float64) float64 {
-	if deg <= 360 {
+	if deg >= 0 && deg <= 360 {
 		return deg
 	}
 	return deg - math.Floor(deg/360)*360
-- 
2.43.0


From 89569863ef962854870c9e3e4d3a0c5411662f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:58 +0000
Subject: [PATCH 3/8] fix: keep the true Sun and Moon of a day within the
 circle

The correction to the mean position can carry it across 0 or 360 degrees,
which left TrueSun and TrueMoon outside the circle and Raek outside the 27
mansions.
---
 suriya_day.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/suriya_day.go b/suriya_day.go
index 9918355..b8819aa 100644
--- a/suriya_day.go
+++ b/suriya_day.go
@@ -109,7 +109,7 @@ func (suDay *SuriyaDay) Init(ce_year int, lunar_year_day int) {
 	// b = 1
 
 	// Floor it to get degree only to 4th decimal place, to avoid results such as TrueSun: 79.48326666666667
-	suDay.TrueSun = math.Floor(suDay.MeanSun*10000+(b*10000)/60) / 10000
+	suDay.TrueSun = NormalizeDegree(math.Floor(suDay.MeanSun*10000+(b*10000)/60) / 10000)
 	// TrueSun = 2; 19 : 29
 
 	// === C. Find the Mean and True Moon on Asalha 15 ===
@@ -183,7 +183,7 @@ func (suDay *SuriyaDay) Init(ce_year int, lunar_year_day int) {
 
 	// step 17.
 
-	suDay.TrueMoon = math.Floor((suDay.MeanMoon-b)*10000) / 10000
+	suDay.TrueMoon = math.Floor(NormalizeDegree(suDay.MeanMoon-b)*10000) / 10000
 	// True Moon = 8; 7 : 43
 	// True Moon = 247.716666
 
-- 
2.43.0


From 04e86a318b6e48b4061ef8f8849187ede286aece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:59 +0000
Subject: [PATCH 4/8] fix: cycle positions run backwards before CE 1414 and CE
 1794

---
 suriya_year.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/suriya_year.go b/suriya_year.go
index 13ea5bb..447d969 100644
--- a/suriya_year.go
+++ b/suriya_year.go
@@ -134,12 +134,12 @@ func (su SuriyaYear) Has_Carried_Adhikavara() bool {
 
 // Determine the position in the 57 year cycle. Assume 1984 = 1, 2040 = 57, 2041 = 1.
 func (su SuriyaYear) AdhikavaraCyclePos() int {
-	return int(math.Abs(float64(1984-57*10-su.Year)))%57 + 1
+	return ((su.Year-1984)%57+57)%57 + 1
 }
 
 // Determine the position in the 19 year cycle.
 func (su SuriyaYear) AdhikamasaCyclePos() int {
-	return int(math.Abs(float64(1984-19*10-su.Year)))%19 + 1
+	return ((su.Year-1984)%19+19)%19 + 1
 }
 
 // Years since last adhikamāsa.
-- 
2.43.0


From 7341a2671152bfc88c42183043a7a1b2f50b9b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:59 +0000
Subject: [PATCH 5/8] fix: a year without astro data hides the moons of the
 years after it

---
 astro_moon.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/astro_moon.go b/astro_moon.go
index dc1b363..fd09567 100644
--- a/astro_moon.go
+++ b/astro_moon.go
@@ -58,7 +58,7 @@ func GetAstroMoons(fromDate time.Time, toDate time.Time) (moons []AstroMoon) {
 			if verbose {
 				log.Printf("%v, %s\n", err, filepath)
 			}
-			return moons
+			continue
 		}
 
 		var resp AerisResp
-- 
2.43.0


From 2af6cdcc5ad572959dfff812a7287e20f04f4fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:59 +0000
Subject: [PATCH 6/8] fix: years-csv uses a field that does not exist and drops
 two columns

---
 utils/years-csv.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/utils/years-csv.go b/utils/years-csv.go
index d59d8b8..8e29899 100644
--- a/utils/years-csv.go
+++ b/utils/years-csv.go
@@ -37,9 +37,9 @@ func yearsCsvSimple(firstYear int, lastYear int) (csvString string) {
 			dV = strconv.Itoa(su.DeltaAdhikavara())
 		}
 
-		csvString = csvString + fmt.Sprintf("%d,%d,%d,%s,%d,%s,%s\n",
+		csvString = csvString + fmt.Sprintf("%d,%d,%d,%s,%d,%s,%d,%d,%d\n",
 			su.Year,
-			su.BE_year,
+			su.BE_Year,
 			su.AdhikamasaCyclePos(),
 			dM,
 			su.AdhikavaraCyclePos(),
@@ -159,7 +159,7 @@ func yearsCsv(firstYear int, lastYear int) (csvString string) {
 
 		csvString = csvString + fmt.Sprintf(fmtStr,
 			su.Year,
-			su.BE_year,
+			su.BE_Year,
 			su.Kammacubala,
 			su.Avoman,
 			su.Tithi,
-- 
2.43.0


From ab3138d7ca2f58a5e5f524c0ad8a83e6929ec139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:49 +0000
Subject: [PATCH 7/8] fix: Magha Puja is doubled or missing when its month
 begins in December

The kind of the year was taken from the date of the new moon. When month 3
began in December, its full moon in January was marked by the rule of the
year before: CE 641 had Magha Puja twice, CE 643 had none.
---
 uposatha_moon.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/uposatha_moon.go b/uposatha_moon.go
index cbfa0af..3f49cd3 100644
--- a/uposatha_moon.go
+++ b/uposatha_moon.go
@@ -30,8 +30,15 @@ func (last_uposatha UposathaMoon) NextUposatha() UposathaMoon {
 	lu := last_uposatha
 	var nu UposathaMoon // next uposatha
 
+	year := lu.Date.Year()
+	if lu.Phase == "new" {
+		// The year of the full moon decides its event. In the early centuries
+		// the month of Magha can begin at the end of December.
+		year = lu.Date.AddDate(0, 0, 15).Year()
+	}
+
 	var su_year SuriyaYear
-	su_year.Init(lu.Date.Year())
+	su_year.Init(year)
 
 	is_adhikamasa_year := su_year.Is_Adhikamasa()
 	is_adhikavara_year := su_year.Is_Adhikavara()
-- 
2.43.0


From f6f365fe8b22341fff4e42fa3d619293ed7321d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:49 +0000
Subject: [PATCH 8/8] fix: the half moon after a Kattika at the end of December
 is missing

---
 cal_day.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cal_day.go b/cal_day.go
index 2315290..53a456f 100644
--- a/cal_day.go
+++ b/cal_day.go
@@ -199,6 +199,11 @@ func GenerateSolarYear(solar_year int) []CalendarEvent {
 		LunarYear:   date.Year() + BEdiff,
 	}
 
+	// The half moon that follows Kattika may fall in this year
+	if eighth_day := date.AddDate(0, 0, 8); eighth_day.Year() == solar_year {
+		events = append(events, HalfMoon{Date: eighth_day, Phase: "waning"})
+	}
+
 	for last_uposatha.Date.Year() <= solar_year {
 		var uposatha UposathaMoon
 		uposatha = last_uposatha.NextUposatha()
-- 
2.43.0

