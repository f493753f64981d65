From 8e2c5a451679c1d4e2d4afe7856a170c81d400d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:15 +0000
Subject: [PATCH 01/38] fix: nearest_neighbors bottom-left neighbour is one
 column to the left

---
 src/tools/analysis.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/analysis.rs b/src/tools/analysis.rs
index 41325d3..4504c00 100644
--- a/src/tools/analysis.rs
+++ b/src/tools/analysis.rs
@@ -165,7 +165,7 @@ pub fn nearest_neighbors(width: usize, height: usize, index: usize) -> Vec<usize
 
     // Point at the bottom, left(5)
     if i != 0 && j != 0 {
-        neighbors.push(index - width);
+        neighbors.push(index - width - 1);
     }
 
     // Point at the bottom, left with wrap.
-- 
2.43.0


From d26c78dd19319c06558628e6063b6916b9929dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:15 +0000
Subject: [PATCH 02/38] fix: Fahrenheit to Celsius subtracts 32 before scaling

---
 src/units/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/units/mod.rs b/src/units/mod.rs
index b14053c..a3c5363 100644
--- a/src/units/mod.rs
+++ b/src/units/mod.rs
@@ -170,7 +170,7 @@ impl Unit {
                 _ => value,
             },
             Unit::Fahrenheit => match target {
-                Unit::Celsius => value - 32.0 * (5.0 / 9.0),
+                Unit::Celsius => (value - 32.0) * (5.0 / 9.0),
                 Unit::Kelvin => (value + 459.67) * (5.0 / 9.0),
                 _ => value,
             },
-- 
2.43.0


From fc898b2a627309f7047ac32c3e8d7773963cea31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:15 +0000
Subject: [PATCH 03/38] fix: Celsius and Kelvin differ by 273.15, as the
 Fahrenheit conversions already assume

---
 src/units/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/units/mod.rs b/src/units/mod.rs
index a3c5363..a1a54df 100644
--- a/src/units/mod.rs
+++ b/src/units/mod.rs
@@ -142,7 +142,7 @@ impl Unit {
             },
             Unit::Celsius => match target {
                 Unit::Fahrenheit => value * (9.0 / 5.0) + 32.0,
-                Unit::Kelvin => value + 273.0,
+                Unit::Kelvin => value + 273.15,
                 _ => value,
             },
             Unit::Pascal => match target {
@@ -184,7 +184,7 @@ impl Unit {
                 _ => value,
             },
             Unit::Kelvin => match target {
-                Unit::Celsius => value - 273.0,
+                Unit::Celsius => value - 273.15,
                 Unit::Fahrenheit => value * (9.0 / 5.0) - 459.67,
                 _ => value,
             },
-- 
2.43.0


From 156cd02802604137871b4dfbb38810608a973576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:40 +0000
Subject: [PATCH 04/38] fix: the AVERAGE steepness parses

---
 src/units/steepness.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/units/steepness.rs b/src/units/steepness.rs
index 07d7ef8..2a5a1c6 100644
--- a/src/units/steepness.rs
+++ b/src/units/steepness.rs
@@ -32,7 +32,7 @@ impl FromStr for Steepness {
         match s {
             "VERY_STEEP" => Ok(Steepness::VerySteep),
             "STEEP" => Ok(Steepness::Steep),
-            "Average" => Ok(Steepness::Average),
+            "AVERAGE" | "Average" => Ok(Steepness::Average),
             "SWELL" => Ok(Steepness::Swell),
             "NA" => Ok(Steepness::NA),
             _ => Err(DataParseError::InvalidString),
-- 
2.43.0


From 168bfbc1f945975a9fb7b1234cad4ece120291b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:40 +0000
Subject: [PATCH 05/38] fix: every unit's own abbreviation and name parse back
 to it

---
 src/units/mod.rs | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/units/mod.rs b/src/units/mod.rs
index a1a54df..b02c965 100644
--- a/src/units/mod.rs
+++ b/src/units/mod.rs
@@ -90,23 +90,25 @@ impl From<&str> for Unit {
         match value.trim().to_lowercase().as_str() {
             "mm" | "millimeters" | "millimeter" => Unit::Millimeters,
             "m" | "meters" | "meter" | "wmounit:m" => Unit::Meters,
-            "m/s" | "mps" | "ms-1" | "meterspersecond" | "meterpersecond" => Unit::MetersPerSecond,
-            "°c" | "degcelsius" | "degreecelsius" | "degreescelsius" | "wmounit:degc" => {
-                Unit::Celsius
+            "m/s" | "mps" | "ms-1" | "meterspersecond" | "meterpersecond" | "meters per second" => {
+                Unit::MetersPerSecond
             }
+            "°c" | "degcelsius" | "degreecelsius" | "degreescelsius" | "degrees celsius"
+            | "wmounit:degc" => Unit::Celsius,
             "pa" | "pascals" | "pascal" => Unit::Pascal,
-            "hpa" | "hectapascals" | "hectapascal" => Unit::HectaPascal,
+            "hpa" | "hectapascals" | "hectapascal" | "hecta pascal" => Unit::HectaPascal,
             "in" | "inches" | "inch" => Unit::Inches,
             "ft" | "feet" | "foot" => Unit::Feet,
-            "mph" | "m/h" | "mh-1" | "milesperhour" => Unit::MilesPerHour,
-            "°f" | "f" | "degfahrenheit" | "degreesfahrenheit" | "degreefahrenheit" => {
-                Unit::Fahrenheit
-            }
-            "inhg" | "inches mercury" => Unit::InchesMercury,
+            "mph" | "m/h" | "mh-1" | "milesperhour" | "miles per hour" => Unit::MilesPerHour,
+            "°f" | "f" | "degfahrenheit" | "degreesfahrenheit" | "degreefahrenheit"
+            | "degrees fahrenheit" => Unit::Fahrenheit,
+            "inhg" | "in hg" | "inches mercury" => Unit::InchesMercury,
             "kt" | "kts" | "knots" | "knot" => Unit::Knots,
             "k" | "kelvin" => Unit::Kelvin,
-            "m^2/hz" | "m2hz-1" | "meterssquaredperhertz" => Unit::MetersSquaredPerHertz,
-            "nmi" | "nauticalmiles" | "nauticalmile" => Unit::NauticalMiles,
+            "m^2/hz" | "m²/hz" | "m2hz-1" | "meterssquaredperhertz" | "meters squared per hertz" => {
+                Unit::MetersSquaredPerHertz
+            }
+            "nmi" | "nauticalmiles" | "nauticalmile" | "nautical miles" => Unit::NauticalMiles,
             "°" | "deg" | "degs" | "degrees" | "degree" => Unit::Degrees,
             "s" | "second" | "seconds" => Unit::Seconds,
             "%" | "percent" | "percentage" | "wmounit:percent" => Unit::Percent,
-- 
2.43.0


From ac71f5c865ee749abd1c3b5321969fff40a09931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:33 +0000
Subject: [PATCH 06/38] fix: watershed keeps its levels within u8 instead of
 wrapping the step count

---
 src/tools/analysis.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tools/analysis.rs b/src/tools/analysis.rs
index 4504c00..63977a2 100644
--- a/src/tools/analysis.rs
+++ b/src/tools/analysis.rs
@@ -226,6 +226,9 @@ pub fn watershed(
         return Err(WatershedError::InvalidData);
     }
 
+    // The levels are digitized to u8, starting at 1
+    let steps = steps.clamp(1, u8::MAX as usize);
+
     let min_value = data.iter().copied().fold(f64::INFINITY, f64::min);
     let max_value = data.iter().copied().fold(f64::NEG_INFINITY, f64::max);
 
-- 
2.43.0


From 37fbe401dd6fe03bc7d0f58a25808ccac95e0356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:33 +0000
Subject: [PATCH 07/38] fix: watershed cells can join the basin of their first
 neighbour

---
 src/tools/analysis.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/analysis.rs b/src/tools/analysis.rs
index 63977a2..ee2f9ea 100644
--- a/src/tools/analysis.rs
+++ b/src/tools/analysis.rs
@@ -395,7 +395,7 @@ pub fn watershed(
                     }
                 }
 
-                if ipt > 0 {
+                if ipt >= 0 {
                     imd[jl] = imo[neigh[jl][ipt as usize]];
                 }
             }
-- 
2.43.0


From 2b33a50082c386aafea9eb260406b862efa06f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:40 +0000
Subject: [PATCH 08/38] fix: Location::distance is the haversine distance

---
 src/location.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/location.rs b/src/location.rs
index 9e50afd..58c4284 100644
--- a/src/location.rs
+++ b/src/location.rs
@@ -78,18 +78,18 @@ impl Location {
     }
 
     pub fn distance(&self, other: &Location, unit: &UnitSystem) -> f64 {
-        let source_lat = self.absolute_latitude().to_radians();
+        let source_lat = self.relative_latitude().to_radians();
         let source_lon = self.absolute_longitude().to_radians();
-        let dest_lat = other.absolute_latitude().to_radians();
+        let dest_lat = other.relative_latitude().to_radians();
         let dest_lon = other.absolute_longitude().to_radians();
 
         // Compute using the haversine formula
         let d_lat = dest_lat - source_lat;
         let d_lon = dest_lon - source_lon;
 
-        let a = (d_lat * 0.5).powf(2.0).sin()
-            + source_lat.cos() * dest_lat.cos() * (d_lon * 0.5).powf(2.0).sin();
-        let c = 2.0 * a.sqrt().asin();
+        let a = (d_lat * 0.5).sin().powf(2.0)
+            + source_lat.cos() * dest_lat.cos() * (d_lon * 0.5).sin().powf(2.0);
+        let c = 2.0 * a.sqrt().min(1.0).asin();
         let r = unit.earths_radius();
 
         c * r
-- 
2.43.0


From a9c9f886da39806a8b6eced546c37133c3575956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:40 +0000
Subject: [PATCH 09/38] fix: Location::within_bbox handles boxes across the
 prime meridian or around the globe

---
 src/location.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/location.rs b/src/location.rs
index 58c4284..06fd434 100644
--- a/src/location.rs
+++ b/src/location.rs
@@ -96,8 +96,17 @@ impl Location {
     }
 
     pub fn within_bbox(&self, bbox: &(f64, f64, f64, f64)) -> bool {
-        let within_lng = absolute_longitude(bbox.0) <= absolute_longitude(self.longitude)
-            && absolute_longitude(self.longitude) <= absolute_longitude(bbox.2);
+        let west = absolute_longitude(bbox.0);
+        let east = absolute_longitude(bbox.2);
+        let longitude = absolute_longitude(self.longitude);
+        let within_lng = if bbox.2 - bbox.0 >= 360.0 {
+            true
+        } else if west <= east {
+            west <= longitude && longitude <= east
+        } else {
+            // The box crosses the prime meridian
+            west <= longitude || longitude <= east
+        };
         let within_lat = normalize_latitude(bbox.1) <= self.latitude
             && self.latitude <= normalize_latitude(bbox.3);
         within_lng && within_lat
-- 
2.43.0


From 407662720de01095e1dc30c5a83526d55c0789a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:05 +0000
Subject: [PATCH 10/38] fix: bracket frequencies and directions by their
 nearest lower bin, across the wrap and at the last frequency

---
 src/spectra.rs | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/spectra.rs b/src/spectra.rs
index d14eae2..2973f36 100644
--- a/src/spectra.rs
+++ b/src/spectra.rs
@@ -1,3 +1,5 @@
+use std::f64::consts::TAU;
+
 use geojson::{FeatureCollection, GeoJson};
 use kdtree::{distance::squared_euclidean, KdTree};
 use serde::{Deserialize, Serialize};
@@ -184,8 +186,8 @@ impl Spectra {
         let lower = self
             .frequency
             .iter()
-            .position(|f| f.le(&freq))
-            .unwrap_or(self.frequency.len() - 1);
+            .rposition(|f| f.le(&freq))
+            .unwrap_or(0);
 
         if lower == self.frequency.len() - 1 {
             (lower, lower)
@@ -196,7 +198,11 @@ impl Spectra {
 
     /// Interpolated direection index bounds for a given direction
     pub fn closest_th(&self, dir: f64) -> (usize, usize) {
-        let lower = self.direction.iter().position(|d| d.le(&dir)).unwrap_or(0);
+        let lower = self
+            .direction
+            .iter()
+            .rposition(|d| d.le(&dir))
+            .unwrap_or(self.direction.len() - 1);
 
         if lower == self.direction.len() - 1 {
             // Direction wraps around cuz its a circle
@@ -232,13 +238,26 @@ impl Spectra {
         let f2 = self.frequency[x2];
 
         let d1 = self.direction[y1];
-        let d2 = self.direction[y2];
+        let mut d2 = self.direction[y2];
+        let mut dir = dir;
+        if y2 <= y1 {
+            // The next direction bin is across the wrap
+            d2 += TAU;
+            if dir < d1 {
+                dir += TAU;
+            }
+        }
 
         let a = self.energy_at(x1, y1);
         let b = self.energy_at(x2, y1);
         let c = self.energy_at(x1, y2);
         let d = self.energy_at(x2, y2);
 
+        if x1 == x2 {
+            return lerp(&a, &c, &dir, &d1, &d2);
+        }
+
+        let freq = freq.max(f1);
         bilerp(&a, &b, &c, &d, &freq, &f1, &f2, &dir, &d1, &d2)
     }
 
-- 
2.43.0


From 987b5ac7ddf5a5b26799a3c45df05257783c2b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:05 +0000
Subject: [PATCH 11/38] fix: interpolated bin index gives the bin itself at a
 whole index instead of NaN

---
 src/spectra.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/spectra.rs b/src/spectra.rs
index 2973f36..00c12e6 100644
--- a/src/spectra.rs
+++ b/src/spectra.rs
@@ -158,6 +158,9 @@ impl Spectra {
         }
 
         let v_lower = self.frequency[i_lower as usize];
+        if i_lower == i_upper {
+            return v_lower;
+        }
         let v_upper = self.frequency[i_upper as usize];
         lerp(&v_lower, &v_upper, &f_index, &i_lower, &i_upper)
     }
@@ -177,6 +180,9 @@ impl Spectra {
         }
 
         let v_lower = self.direction[i_lower as usize];
+        if i_lower == i_upper {
+            return v_lower;
+        }
         let v_upper = self.direction[i_upper as usize];
         lerp(&v_lower, &v_upper, &d_index, &i_lower, &i_upper)
     }
-- 
2.43.0


From 3e0a30180aad1481ee74fc3ea339f4b62f648ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:30 +0000
Subject: [PATCH 12/38] fix: interpolate_to_grid compares logarithms, so a
 target at the lowest source frequency is not zero-filled by rounding

---
 src/spectra.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/spectra.rs b/src/spectra.rs
index 00c12e6..a830927 100644
--- a/src/spectra.rs
+++ b/src/spectra.rs
@@ -613,8 +613,6 @@ impl Spectra {
         // Result shape: (nk_tgt, nth_src) stored as freq_interp[ik_tgt + ith_src * nk_tgt]
         let mut freq_interp = vec![0.0; nk_tgt * nth_src];
 
-        let src_freq_min = self.frequency[0];
-
         for ith in 0..nth_src {
             // Extract energy slice for this direction
             let energy_slice: Vec<f64> = (0..nk_src)
@@ -626,8 +624,7 @@ impl Spectra {
 
             // Interpolate to target frequencies
             for (ik_tgt, &log_f) in log_tgt_freq.iter().enumerate() {
-                let f = log_f.exp();
-                let value = if f < src_freq_min {
+                let value = if log_f < log_src_freq[0] {
                     // Below source range - zero fill
                     0.0
                 } else {
-- 
2.43.0


From 5538bd97e70069cea5785e1b1152fcb79e616112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:08 +0000
Subject: [PATCH 13/38] fix: ldis solves the dispersion relation with depth
 over gravity, not times

---
 src/tools/waves.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/waves.rs b/src/tools/waves.rs
index ee5fbc5..12b8e92 100644
--- a/src/tools/waves.rs
+++ b/src/tools/waves.rs
@@ -22,7 +22,7 @@ pub fn ldis(period: f64, depth: f64) -> Result<f64, Error> {
     const MAX_ITERATION: usize = 50;
 
     let omega = 2.0 * PI / period;
-    let d = omega.powi(2) * depth * GRAVITY;
+    let d = omega.powi(2) * depth / GRAVITY;
 
     let mut iter: usize = 0;
     let mut err: f64 = 1.0;
-- 
2.43.0


From 551e450745d1d8a41463cd4a649fc096a353bee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:08 +0000
Subject: [PATCH 14/38] fix: estimate_breaking_wave_height takes the smaller
 angle between swell and beach

---
 src/tools/waves.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tools/waves.rs b/src/tools/waves.rs
index 12b8e92..1cd7f20 100644
--- a/src/tools/waves.rs
+++ b/src/tools/waves.rs
@@ -130,8 +130,9 @@ pub fn estimate_breaking_wave_height(
 ) -> Result<f64, Error> {
     let deep_water_wave_height = swell.wave_height.value.as_ref().unwrap();
     let period = swell.period.value.as_ref().unwrap();
-    let incident_angle =
+    let angle_delta =
         (swell.direction.value.as_ref().unwrap().degrees as f64 - beach_angle).abs() as i32 % 360;
+    let incident_angle = angle_delta.min(360 - angle_delta);
 
     if incident_angle > 90 {
         return Err(Error::OutOfRange);
-- 
2.43.0


From 592b2ea21417667e81ef9559caff0c5c852f69ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:47 +0000
Subject: [PATCH 15/38] fix: a wave record's average period and mean direction
 come from their own columns (APD, MWD)

---
 src/data/wave_data_record.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/data/wave_data_record.rs b/src/data/wave_data_record.rs
index 7296ed6..d408035 100644
--- a/src/data/wave_data_record.rs
+++ b/src/data/wave_data_record.rs
@@ -77,12 +77,12 @@ impl ParseableDataRecord for WaveDataRecord {
             ),
             steepness: Steepness::from_str(row[12]).unwrap_or(Steepness::NA),
             average_wave_period: DimensionalData::from_raw_data(
-                row[10],
+                row[13],
                 "average wave period".into(),
                 Unit::Seconds,
             ),
             mean_wave_direction: DimensionalData::from_raw_data(
-                row[11],
+                row[14],
                 "mean wave direction".into(),
                 Unit::Degrees,
             ),
-- 
2.43.0


From 58bbbd089842fe8a55df3a1929bf55439ef25bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:47 +0000
Subject: [PATCH 16/38] fix: malformed observation and index rows are an error
 instead of a panic

---
 src/data/grib_index_record.rs          |  4 ++++
 src/data/latest_obs_data_record.rs     | 21 +++++++++++++--------
 src/data/meteorological_data_record.rs | 17 +++++++++++------
 src/data/spectral_wave_data_record.rs  |  2 +-
 src/data/wave_data_record.rs           | 17 +++++++++++------
 5 files changed, 40 insertions(+), 21 deletions(-)

diff --git a/src/data/grib_index_record.rs b/src/data/grib_index_record.rs
index ea6e914..265ee43 100644
--- a/src/data/grib_index_record.rs
+++ b/src/data/grib_index_record.rs
@@ -25,6 +25,10 @@ impl ParseableDataRecord for GribIndexRecord {
     where
         Self: Sized,
     {
+        if row.len() < 6 {
+            return Err(DataRecordParsingError::InvalidData);
+        }
+
         let index: usize = row[0].parse().map_err(DataRecordParsingError::from)?;
         let offset: usize = row[1].parse().map_err(DataRecordParsingError::from)?;
         // HACK: Postfix with 00s to add minute stamp to allow NaiveDateTime to parse it
diff --git a/src/data/latest_obs_data_record.rs b/src/data/latest_obs_data_record.rs
index bd1027f..4e6eeab 100644
--- a/src/data/latest_obs_data_record.rs
+++ b/src/data/latest_obs_data_record.rs
@@ -50,19 +50,24 @@ impl ParseableDataRecord for LatestObsDataRecord {
         _: Option<&Self::Metadata>,
         row: &Vec<&str>,
     ) -> Result<LatestObsDataRecord, DataRecordParsingError> {
+        if row.len() < 22 {
+            return Err(DataRecordParsingError::InvalidData);
+        }
+
         let station_id = row[0].to_string();
-        let latitude = row[1].parse().unwrap();
-        let longitude = row[2].parse().unwrap();
+        let latitude = row[1].parse()?;
+        let longitude = row[2].parse()?;
         let date = Utc
             .with_ymd_and_hms(
-                row[3].parse().unwrap(),
-                row[4].parse().unwrap(),
-                row[5].parse().unwrap(),
-                row[6].parse().unwrap(),
-                row[7].parse().unwrap(),
+                row[3].parse()?,
+                row[4].parse()?,
+                row[5].parse()?,
+                row[6].parse()?,
+                row[7].parse()?,
                 0,
             )
-            .unwrap();
+            .single()
+            .ok_or(DataRecordParsingError::InvalidData)?;
 
         Ok(LatestObsDataRecord {
             station_id,
diff --git a/src/data/meteorological_data_record.rs b/src/data/meteorological_data_record.rs
index c4c4dee..a89966c 100644
--- a/src/data/meteorological_data_record.rs
+++ b/src/data/meteorological_data_record.rs
@@ -42,16 +42,21 @@ impl ParseableDataRecord for MeteorologicalDataRecord {
         _: Option<&Self::Metadata>,
         row: &Vec<&str>,
     ) -> Result<MeteorologicalDataRecord, DataRecordParsingError> {
+        if row.len() < 19 {
+            return Err(DataRecordParsingError::InvalidData);
+        }
+
         let date = Utc
             .with_ymd_and_hms(
-                row[0].parse().unwrap(),
-                row[1].parse().unwrap(),
-                row[2].parse().unwrap(),
-                row[3].parse().unwrap(),
-                row[4].parse().unwrap(),
+                row[0].parse()?,
+                row[1].parse()?,
+                row[2].parse()?,
+                row[3].parse()?,
+                row[4].parse()?,
                 0,
             )
-            .unwrap();
+            .single()
+            .ok_or(DataRecordParsingError::InvalidData)?;
 
         Ok(MeteorologicalDataRecord {
             date,
diff --git a/src/data/spectral_wave_data_record.rs b/src/data/spectral_wave_data_record.rs
index e32e8fc..9b2acd8 100644
--- a/src/data/spectral_wave_data_record.rs
+++ b/src/data/spectral_wave_data_record.rs
@@ -60,7 +60,7 @@ impl ParseableDataRecord for SpectralWaveDataRecord {
         let date = Utc
             .with_ymd_and_hms(year, month, day, hour, minute, 0)
             .single()
-            .unwrap();
+            .ok_or(DataRecordParsingError::InvalidData)?;
 
         Ok(SpectralWaveDataRecord {
             date,
diff --git a/src/data/wave_data_record.rs b/src/data/wave_data_record.rs
index d408035..f835a41 100644
--- a/src/data/wave_data_record.rs
+++ b/src/data/wave_data_record.rs
@@ -31,16 +31,21 @@ impl ParseableDataRecord for WaveDataRecord {
         _: Option<&Self::Metadata>,
         row: &Vec<&str>,
     ) -> Result<WaveDataRecord, DataRecordParsingError> {
+        if row.len() < 15 {
+            return Err(DataRecordParsingError::InvalidData);
+        }
+
         let date = Utc
             .with_ymd_and_hms(
-                row[0].parse().unwrap(),
-                row[1].parse().unwrap(),
-                row[2].parse().unwrap(),
-                row[3].parse().unwrap(),
-                row[4].parse().unwrap(),
+                row[0].parse()?,
+                row[1].parse()?,
+                row[2].parse()?,
+                row[3].parse()?,
+                row[4].parse()?,
                 0,
             )
-            .unwrap();
+            .single()
+            .ok_or(DataRecordParsingError::InvalidData)?;
 
         Ok(WaveDataRecord {
             date,
-- 
2.43.0


From 214cc68564715bd061a2fc6efff58eb9fc1270f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:52 +0000
Subject: [PATCH 17/38] fix: components without a direction are no mirror image
 instead of a panic

---
 src/swell.rs | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/swell.rs b/src/swell.rs
index fca73d3..8972e84 100644
--- a/src/swell.rs
+++ b/src/swell.rs
@@ -129,19 +129,18 @@ impl SwellSummary {
                 continue;
             }
 
-            let truth_direction = self.components[i_components[0]]
-                .direction
-                .value
-                .as_ref()
-                .unwrap();
+            let Some(truth_direction) = self.components[i_components[0]].direction.value.as_ref()
+            else {
+                continue;
+            };
 
             // Assuming sorted from max to min energy already
             for i in 1..i_components.len() {
                 let idx = i_components[i];
-                if truth_direction
-                    .is_opposite(self.components[idx].direction.value.as_ref().unwrap())
-                {
-                    indexes.push(idx);
+                if let Some(direction) = self.components[idx].direction.value.as_ref() {
+                    if truth_direction.is_opposite(direction) {
+                        indexes.push(idx);
+                    }
                 }
             }
         }
-- 
2.43.0


From 48dd6ff73c7eb8967483f155d9427b11b32a0551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:36 +0000
Subject: [PATCH 18/38] fix: pt_mean weighs each frequency with its own
 bandwidth, not the one below's

---
 src/tools/waves.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tools/waves.rs b/src/tools/waves.rs
index 1cd7f20..26fedb7 100644
--- a/src/tools/waves.rs
+++ b/src/tools/waves.rs
@@ -422,7 +422,8 @@ pub fn pt_mean(
     let mut dsii = vec![0.0; frequency.len()];
     dsii[0] = 0.5 * sig[1] * ((frequency[1] / frequency[0]) - 1.0);
     for ik in 1..dsii.len() - 1 {
-        dsii[ik] = dsip[ik];
+        // sig and dsip start one bin below the first frequency
+        dsii[ik] = dsip[ik + 1];
     }
     dsii[frequency.len() - 1] = 0.5
         * sig[frequency.len()]
-- 
2.43.0


From 0c738a450a0a9d929c706f98d684e94fe6db3cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:36 +0000
Subject: [PATCH 19/38] fix: pt_mean's high frequency tail starts at the last
 frequency

---
 src/tools/waves.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/waves.rs b/src/tools/waves.rs
index 26fedb7..dadda1c 100644
--- a/src/tools/waves.rs
+++ b/src/tools/waves.rs
@@ -569,7 +569,7 @@ pub fn pt_mean(
             }
         }
 
-        let fteii = fte / (dth[dth.len() - 1] * sig[frequency.len() + 1]);
+        let fteii = fte / (dth[dth.len() - 1] * sig[frequency.len()]);
         sume[ip] += sumf[frequency.len() - 1][ip] * fteii;
         sume1[ip] += sumf[frequency.len() - 1][ip] * sig[frequency.len()] * fteii * (0.3333 / 0.25);
         sume2[ip] +=
-- 
2.43.0


From e9cddf5d79a8e0a3b60180cdf42ce832da1b0280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:13 +0000
Subject: [PATCH 20/38] fix: track_partitions measures the turn of a swell
 around the circle both ways

---
 src/tools/waves.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/waves.rs b/src/tools/waves.rs
index dadda1c..b875d16 100644
--- a/src/tools/waves.rs
+++ b/src/tools/waves.rs
@@ -309,7 +309,7 @@ pub fn track_partitions(
                     .map(|(ipp, prev_p)| {
                         let prev_partition_dir = prev_p.direction.get_value().degrees;
                         let dir_delta =
-                            ((((partition_dir - prev_partition_dir) + 180) % 360) - 180).abs();
+                            ((partition_dir - prev_partition_dir + 180).rem_euclid(360) - 180).abs();
                         //println!("Dir delta: {} partition dir: {}, prev partition dir: {}", dir_delta, partition_dir, prev_partition_dir);
                         let period_delta = (partition_period - prev_p.period.get_value()).abs();
 
-- 
2.43.0


From 2f3f3cab660583c3170422ad867be0eee45eadfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:13 +0000
Subject: [PATCH 21/38] fix: track_partitions numbers new partitions past the
 ids of the first time step

---
 src/tools/waves.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/tools/waves.rs b/src/tools/waves.rs
index b875d16..21231b7 100644
--- a/src/tools/waves.rs
+++ b/src/tools/waves.rs
@@ -272,11 +272,6 @@ pub fn track_partitions(
         return inputs.iter().map(|x| x.1.to_vec()).collect();
     }
 
-    // Since all of the partitions are candidates for tracking in the first time step,
-    // we can start the partition counter at the length of the consecutive_partitions
-    // asumming that the first time steps
-    let mut partition_count = inputs.first().as_ref().unwrap().1.len();
-
     // Create a new partition map. There is definitely a better way to do this, but lets just get the
     // logic working first without modifying the input data
     let mut partition_map: Vec<Vec<(usize, f64)>> = inputs
@@ -288,6 +283,10 @@ pub fn track_partitions(
         })
         .collect();
 
+    // The partitions of the first time step keep their ids, so new partitions are numbered from
+    // the first id beyond those
+    let mut partition_count = partition_map[0].iter().map(|(ip, _)| ip + 1).max().unwrap_or(0);
+
     for i in 1..partition_map.len() {
         let prev = inputs.get(i - 1).unwrap();
         let current = inputs.get(i).unwrap();
-- 
2.43.0


From 77cd4cb8dc38e9a458bf19b871250a3baba58f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:13 +0000
Subject: [PATCH 22/38] fix: partitions with nothing to compare to get a new id
 instead of a panic

---
 src/tools/waves.rs | 29 +++++++++++------------------
 1 file changed, 11 insertions(+), 18 deletions(-)

diff --git a/src/tools/waves.rs b/src/tools/waves.rs
index 21231b7..005ca62 100644
--- a/src/tools/waves.rs
+++ b/src/tools/waves.rs
@@ -321,29 +321,22 @@ pub fn track_partitions(
                         .abs();
                         (icp, ipp, score)
                     })
-                    .min_by(|(_i, __i, a), (_ii, __ii, b)| a.partial_cmp(b).unwrap())
-            })
-            .sorted_by(|a, b| {
-                a.as_ref()
-                    .unwrap()
-                    .2
-                    .partial_cmp(&b.as_ref().unwrap().2)
-                    .unwrap()
+                    .min_by(|a, b| a.2.total_cmp(&b.2))
+                    .unwrap_or((icp, 0, 999.99)) // No partitions in the previous time step
             })
+            .sorted_by(|a, b| a.2.total_cmp(&b.2))
             .collect::<Vec<_>>();
 
         let mut hit: HashSet<usize> = HashSet::new();
-        for m in matches {
-            if let Some((icp, ipp, score)) = m {
+        for (icp, ipp, score) in matches {
+            if score <= 999.0 && !hit.contains(&partition_map[i - 1][ipp].0) {
+                //println!("Hit: {} score {}", ipp, score);
                 let (ipp, _) = partition_map[i - 1][ipp];
-                if hit.contains(&ipp) || score > 999.0 {
-                    partition_map[i][icp] = (partition_count, 0.0);
-                    partition_count += 1;
-                } else {
-                    //println!("Hit: {} score {}", ipp, score);
-                    partition_map[i][icp] = (ipp, score);
-                    hit.insert(ipp);
-                }
+                partition_map[i][icp] = (ipp, score);
+                hit.insert(ipp);
+            } else {
+                partition_map[i][icp] = (partition_count, 0.0);
+                partition_count += 1;
             }
         }
     }
-- 
2.43.0


From 72f0e892aa1f2b03ea0ea5c68ab1f4c1c7ad5911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:30 +0000
Subject: [PATCH 23/38] fix: malformed bulletin rows are errors, not panics

---
 .../forecast_cbulletin_wave_data_record.rs    | 29 ++++++++++++++-----
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/src/data/forecast_cbulletin_wave_data_record.rs b/src/data/forecast_cbulletin_wave_data_record.rs
index 2f44008..2fe4e89 100644
--- a/src/data/forecast_cbulletin_wave_data_record.rs
+++ b/src/data/forecast_cbulletin_wave_data_record.rs
@@ -7,7 +7,7 @@ use serde::{Deserialize, Serialize};
 
 use crate::dimensional_data::DimensionalData;
 use crate::location::Location;
-use crate::swell::{Swell, SwellProvider, SwellSummary};
+use crate::swell::{Swell, SwellProvider, SwellProviderError, SwellSummary};
 use crate::tools::waves::wave_energy;
 use crate::units::{Direction, Unit, UnitConvertible, UnitSystem};
 
@@ -105,10 +105,9 @@ impl FromStr for ForecastCBulletinWaveRecordMetadata {
                     })?;
                 let minute = 0;
 
-                let d = Utc
-                    .with_ymd_and_hms(year, month, day, hour, minute, 0)
-                    .unwrap();
-                Ok(d)
+                Utc.with_ymd_and_hms(year, month, day, hour, minute, 0)
+                    .single()
+                    .ok_or(DataRecordParsingError::InvalidData)
             }
             None => Err(DataRecordParsingError::ParseFailure(
                 "Failed to capture model run date from regex".into(),
@@ -139,7 +138,14 @@ impl ParseableDataRecord for ForecastCBulletinWaveRecord {
     where
         Self: Sized,
     {
+        if row.len() < 2 || (row.len() - 2) % 3 != 0 {
+            return Err(DataRecordParsingError::InvalidData);
+        }
+
         let timestep = row[0];
+        if !timestep.is_char_boundary(2) {
+            return Err(DataRecordParsingError::InvalidData);
+        }
         let day = timestep[0..2].parse::<u32>().map_err(|_| {
             DataRecordParsingError::ParseFailure("Failed to parse day from timestep".into())
         })?;
@@ -160,7 +166,8 @@ impl ParseableDataRecord for ForecastCBulletinWaveRecord {
 
         let date = Utc
             .with_ymd_and_hms(model_date.year(), month, day, hour, 0, 0)
-            .unwrap();
+            .single()
+            .ok_or(DataRecordParsingError::InvalidData)?;
 
         let significant_wave_height =
             DimensionalData::from_raw_data(row[1], "significant wave height".into(), Unit::Feet);
@@ -209,8 +216,14 @@ impl UnitConvertible for ForecastCBulletinWaveRecord {
 }
 
 impl SwellProvider for ForecastCBulletinWaveRecord {
-    fn swell_data(&self) -> Result<SwellSummary, crate::swell::SwellProviderError> {
-        let dominant = self.swell_components[0].clone();
+    fn swell_data(&self) -> Result<SwellSummary, SwellProviderError> {
+        let dominant = self
+            .swell_components
+            .first()
+            .cloned()
+            .ok_or(SwellProviderError::InsufficientData(
+                "No swell components in the bulletin".into(),
+            ))?;
         Ok(SwellSummary {
             summary: Swell {
                 wave_height: self.significant_wave_height.clone(),
-- 
2.43.0


From 2836b4db9eb2ca70d6273b0c59e06c91ab2ef19b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:30 +0000
Subject: [PATCH 24/38] fix: bulletin rows after a December run's month end are
 in January of the next year

---
 src/data/forecast_cbulletin_wave_data_record.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/data/forecast_cbulletin_wave_data_record.rs b/src/data/forecast_cbulletin_wave_data_record.rs
index 2fe4e89..281cda6 100644
--- a/src/data/forecast_cbulletin_wave_data_record.rs
+++ b/src/data/forecast_cbulletin_wave_data_record.rs
@@ -158,14 +158,19 @@ impl ParseableDataRecord for ForecastCBulletinWaveRecord {
             None => Err(DataRecordParsingError::InvalidData),
         }?;
 
-        let month = if model_date.day() > day {
-            model_date.month() + 1
+        // Rows with an earlier day than the model run are in the following month
+        let (year, month) = if model_date.day() > day {
+            if model_date.month() == 12 {
+                (model_date.year() + 1, 1)
+            } else {
+                (model_date.year(), model_date.month() + 1)
+            }
         } else {
-            model_date.month()
+            (model_date.year(), model_date.month())
         };
 
         let date = Utc
-            .with_ymd_and_hms(model_date.year(), month, day, hour, 0, 0)
+            .with_ymd_and_hms(year, month, day, hour, 0, 0)
             .single()
             .ok_or(DataRecordParsingError::InvalidData)?;
 
-- 
2.43.0


From 642de9c3a398b6a968b7b56b060afff2d1e35b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:30 +0000
Subject: [PATCH 25/38] fix: bulletin swell energy is of the wave height in
 metres

---
 src/data/forecast_cbulletin_wave_data_record.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/data/forecast_cbulletin_wave_data_record.rs b/src/data/forecast_cbulletin_wave_data_record.rs
index 281cda6..7f270a8 100644
--- a/src/data/forecast_cbulletin_wave_data_record.rs
+++ b/src/data/forecast_cbulletin_wave_data_record.rs
@@ -196,7 +196,10 @@ impl ParseableDataRecord for ForecastCBulletinWaveRecord {
                 period,
                 Direction::from_degrees(degrees),
                 None,
-                Some(wave_energy(wave_height, period)),
+                Some(wave_energy(
+                    Unit::Feet.convert(wave_height, &Unit::Meters),
+                    period,
+                )),
                 None,
             ));
         }
-- 
2.43.0


From e8ac40307934bd1da1b047f5006f4571a29724a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:30 +0000
Subject: [PATCH 26/38] fix: malformed date lines of a spectral forecast are
 errors, not panics

---
 src/data/forecast_spectral_wave_data_record.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/data/forecast_spectral_wave_data_record.rs b/src/data/forecast_spectral_wave_data_record.rs
index 8e59130..1e32970 100644
--- a/src/data/forecast_spectral_wave_data_record.rs
+++ b/src/data/forecast_spectral_wave_data_record.rs
@@ -257,29 +257,30 @@ impl<'a> ForecastSpectralWaveRecordIterator<'a> {
         let line = self.lines.next().ok_or(DataRecordParsingError::EOF)?;
 
         // First line is the date
-        let year = line[0..4].parse::<i32>().map_err(|e| {
+        let year = line.get(0..4).unwrap_or("").parse::<i32>().map_err(|e| {
             DataRecordParsingError::ParseFailure(format!("Failed to parse year: {}", e))
         })?;
 
-        let month = line[4..6].parse::<u32>().map_err(|e| {
+        let month = line.get(4..6).unwrap_or("").parse::<u32>().map_err(|e| {
             DataRecordParsingError::ParseFailure(format!("Failed to parse month: {}", e))
         })?;
 
-        let day = line[6..8].parse::<u32>().map_err(|e| {
+        let day = line.get(6..8).unwrap_or("").parse::<u32>().map_err(|e| {
             DataRecordParsingError::ParseFailure(format!("Failed to parse day: {}", e))
         })?;
 
-        let hour = line[9..11].parse::<u32>().map_err(|e| {
+        let hour = line.get(9..11).unwrap_or("").parse::<u32>().map_err(|e| {
             DataRecordParsingError::ParseFailure(format!("Failed to parse hour: {}", e))
         })?;
 
-        let minute = line[11..13].parse::<u32>().map_err(|e| {
+        let minute = line.get(11..13).unwrap_or("").parse::<u32>().map_err(|e| {
             DataRecordParsingError::ParseFailure(format!("Failed to parse minute: {}", e))
         })?;
 
         let date = Utc
             .with_ymd_and_hms(year, month, day, hour, minute, 0)
-            .unwrap();
+            .single()
+            .ok_or(DataRecordParsingError::InvalidData)?;
 
         if self.reference_date.is_none() {
             self.reference_date = Some(date);
-- 
2.43.0


From 7b2db00fa46d878c8f242ff1580b9e1850236a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:30 +0000
Subject: [PATCH 27/38] fix: a spectral forecast record takes no more energies
 than it has bins

---
 src/data/forecast_spectral_wave_data_record.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/data/forecast_spectral_wave_data_record.rs b/src/data/forecast_spectral_wave_data_record.rs
index 1e32970..555f0b1 100644
--- a/src/data/forecast_spectral_wave_data_record.rs
+++ b/src/data/forecast_spectral_wave_data_record.rs
@@ -376,8 +376,10 @@ impl<'a> ForecastSpectralWaveRecordIterator<'a> {
             let line = self.lines.next().ok_or(DataRecordParsingError::EOF)?;
 
             line.split_whitespace().map(f64::from_str).for_each(|v| {
-                if let Ok(v) = v {
-                    raw_energy.push(v);
+                if raw_energy.len() < energy_count {
+                    if let Ok(v) = v {
+                        raw_energy.push(v);
+                    }
                 }
             });
         }
-- 
2.43.0


From 4535d8a692a0119ef627f78dd4955329bf48ebbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:30 +0000
Subject: [PATCH 28/38] fix: spectral forecast directions are rounded to the
 nearest degree

---
 src/data/forecast_spectral_wave_data_record.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data/forecast_spectral_wave_data_record.rs b/src/data/forecast_spectral_wave_data_record.rs
index 555f0b1..440a61c 100644
--- a/src/data/forecast_spectral_wave_data_record.rs
+++ b/src/data/forecast_spectral_wave_data_record.rs
@@ -141,7 +141,7 @@ impl FromStr for ForecastSpectralWaveDataRecordMetadata {
                     let value = v.parse::<f64>();
                     if let Ok(value) = value {
                         let angle = ((value - (2.5 * PI)) % (2.0 * PI)).abs();
-                        direction.push(Direction::from_radians(angle));
+                        direction.push(Direction::from_degrees(angle.to_degrees().round() as i32));
                         //direction.push(Direction::from_radians(value));
                     }
                 }
-- 
2.43.0


From cb377e933a3420fa40cd9681c5dc860dc3e305fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:02 +0000
Subject: [PATCH 29/38] fix: a malformed data constraint is an error, not a
 panic

---
 src/tools/dap.rs | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/src/tools/dap.rs b/src/tools/dap.rs
index 1c87ecf..0491f0c 100644
--- a/src/tools/dap.rs
+++ b/src/tools/dap.rs
@@ -14,6 +14,11 @@ impl DapConstraint {
     }
 }
 
+fn parse_index(s: &str) -> Result<usize, String> {
+    s.parse::<usize>()
+        .map_err(|_| format!("Invalid range in dap constraint: {s}"))
+}
+
 impl FromStr for DapConstraint {
     type Err = String;
 
@@ -24,20 +29,14 @@ impl FromStr for DapConstraint {
             "No variable found for dap constraint".to_string()
         )
         .to_string();
-        let ranges = parts
-            .map(|range| {
-                let mut parts = range.split(':');
-                let start = parts.next().unwrap().parse::<usize>().unwrap();
-                let step = parts.next().unwrap().parse::<usize>().unwrap();
-                let end = parts
-                    .next()
-                    .unwrap()
-                    .replace("]", "")
-                    .parse::<usize>()
-                    .unwrap();
-                (start, step, end)
-            })
-            .collect::<Vec<(usize, usize, usize)>>();
+        let mut ranges = vec![];
+        for range in parts {
+            let mut parts = range.split(':');
+            let start = parse_index(parts.next().unwrap_or(""))?;
+            let step = parse_index(parts.next().unwrap_or(""))?;
+            let end = parse_index(&parts.next().unwrap_or("").replace("]", ""))?;
+            ranges.push((start, step, end));
+        }
         Ok(Self { var, ranges })
     }
 }
-- 
2.43.0


From 21f98961bb75323191836d8b72e27c6a06a185c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:02 +0000
Subject: [PATCH 30/38] fix: read the unit of a wind speed from its last word,
 and do not panic on a single word

---
 src/data/nws_weather_forecast_data_record.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data/nws_weather_forecast_data_record.rs b/src/data/nws_weather_forecast_data_record.rs
index cd26643..b3954ff 100644
--- a/src/data/nws_weather_forecast_data_record.rs
+++ b/src/data/nws_weather_forecast_data_record.rs
@@ -96,7 +96,7 @@ impl From<&NwsWeatherForecastPeriodData> for NwsWeatherForecastDataRecord {
             wind_speed: DimensionalData::from_raw_data(
                 wind_speed_parts[0],
                 "wind speed".into(),
-                Unit::from(wind_speed_parts[1]),
+                Unit::from(wind_speed_parts[wind_speed_parts.len() - 1]),
             ),
             wind_direction: DimensionalData::from_raw_data(
                 &data.wind_direction,
-- 
2.43.0


From b49fe14e5fa52306573081d4e3b5f22a6083a21a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:02 +0000
Subject: [PATCH 31/38] fix: a station with only tsunami data is active

---
 src/buoy_station.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/buoy_station.rs b/src/buoy_station.rs
index 3dd4292..d8ed424 100644
--- a/src/buoy_station.rs
+++ b/src/buoy_station.rs
@@ -131,7 +131,7 @@ impl BuoyStation {
         self.has_meteorological_data
             || self.has_currents_data
             || self.has_water_quality_data
-            || self.has_water_quality_data
+            || self.has_tsnuami_data
     }
 
     pub fn latest_obs_data_url(&self) -> String {
-- 
2.43.0


From 185ab8d37b97538eff89ede2b44d9a2cb8ee2eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:02 +0000
Subject: [PATCH 32/38] fix: read a station's meteorological data mark from its
 met attribute

---
 src/buoy_station.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/buoy_station.rs b/src/buoy_station.rs
index d8ed424..598f7e5 100644
--- a/src/buoy_station.rs
+++ b/src/buoy_station.rs
@@ -65,7 +65,12 @@ pub struct BuoyStation {
     #[serde(rename = "@type")]
     pub buoy_type: BuoyType,
 
-    #[serde(rename = "met", deserialize_with = "bool_from_simple_str", default)]
+    #[serde(
+        rename = "met",
+        alias = "@met",
+        deserialize_with = "bool_from_simple_str",
+        default
+    )]
     pub has_meteorological_data: bool,
 
     #[serde(
-- 
2.43.0


From 8258b074d985f9f02ff40115d56bf21e1ee30f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:55 +0000
Subject: [PATCH 33/38] fix: answer no solar events on polar days and nights

---
 src/solar.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/solar.rs b/src/solar.rs
index cff9524..4eb6198 100644
--- a/src/solar.rs
+++ b/src/solar.rs
@@ -26,6 +26,11 @@ pub fn calculate_solar_events(location: &Location, date: &DateTime<Utc>) -> Opti
     let sunrise = solar_day.event_time(SolarEvent::Sunrise);
     let sunset = solar_day.event_time(SolarEvent::Sunset);
 
+    // There are no events on days when the sun stays above or below the horizon
+    if sunrise >= sunset {
+        return None;
+    }
+
     Some(SolarEvents { sunrise, sunset })
 }
 
-- 
2.43.0


From f5ab9b355c7e74c2f234075491aa0f235dea504d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:55 +0000
Subject: [PATCH 34/38] fix: draw spectra contours at the bins their energy
 belongs to

---
 src/spectra.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/spectra.rs b/src/spectra.rs
index a830927..4a2870d 100644
--- a/src/spectra.rs
+++ b/src/spectra.rs
@@ -539,10 +539,11 @@ impl Spectra {
             self.nth(),
             &t,
             Some(|point: &Vec<f64>| {
-                let x = 1.0 / self.ik(point[0]);
+                // Contours are drawn with the value of each bin at the center of its cell
+                let x = 1.0 / self.ik(point[0] - 0.5);
                 let y = self
                     .dir_convention
-                    .normalize(self.ith(point[1]).to_degrees());
+                    .normalize(self.ith(point[1] - 0.5).to_degrees());
                 vec![x, y]
             }),
             None::<Box<dyn Fn(&usize, &f64) -> String>>,
-- 
2.43.0


From 6e5749c8f873228ee1d723b2add82ab0b3549325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:46 +0000
Subject: [PATCH 35/38] fix: an observation's map leaves out the pressure
 tendency

---
 src/data/meteorological_data_record.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/data/meteorological_data_record.rs b/src/data/meteorological_data_record.rs
index a89966c..8946d2f 100644
--- a/src/data/meteorological_data_record.rs
+++ b/src/data/meteorological_data_record.rs
@@ -190,6 +190,10 @@ impl From<MeteorologicalDataRecord> for HashMap<String, DimensionalData<f64>> {
                 m.mean_wave_direction.into(),
             ),
             (m.air_pressure.variable_name.clone(), m.air_pressure),
+            (
+                m.air_pressure_tendency.variable_name.clone(),
+                m.air_pressure_tendency,
+            ),
             (m.air_temperature.variable_name.clone(), m.air_temperature),
             (
                 m.water_temperature.variable_name.clone(),
@@ -240,6 +244,10 @@ impl From<MeteorologicalDataRecord> for HashMap<String, Option<String>> {
                 m.air_pressure.variable_name.clone(),
                 m.air_pressure.try_string(),
             ),
+            (
+                m.air_pressure_tendency.variable_name.clone(),
+                m.air_pressure_tendency.try_string(),
+            ),
             (
                 m.air_temperature.variable_name.clone(),
                 m.air_temperature.try_string(),
-- 
2.43.0


From ba976d182f32bcd7f1185950d7619a1f5e94e401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:46 +0000
Subject: [PATCH 36/38] fix: visibility has no name

---
 src/data/latest_obs_data_record.rs     | 6 +++++-
 src/data/meteorological_data_record.rs | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/data/latest_obs_data_record.rs b/src/data/latest_obs_data_record.rs
index 4e6eeab..d91b877 100644
--- a/src/data/latest_obs_data_record.rs
+++ b/src/data/latest_obs_data_record.rs
@@ -134,7 +134,11 @@ impl ParseableDataRecord for LatestObsDataRecord {
                 "dewpoint temperature".into(),
                 Unit::Celsius,
             ),
-            visibility: DimensionalData::from_raw_data(row[20], "".into(), Unit::NauticalMiles),
+            visibility: DimensionalData::from_raw_data(
+                row[20],
+                "visibility".into(),
+                Unit::NauticalMiles,
+            ),
             tide: DimensionalData::from_raw_data(row[21], "tide".into(), Unit::Feet),
         })
     }
diff --git a/src/data/meteorological_data_record.rs b/src/data/meteorological_data_record.rs
index 8946d2f..64cefd8 100644
--- a/src/data/meteorological_data_record.rs
+++ b/src/data/meteorological_data_record.rs
@@ -111,7 +111,11 @@ impl ParseableDataRecord for MeteorologicalDataRecord {
                 "dewpoint temperature".into(),
                 Unit::Celsius,
             ),
-            visibility: DimensionalData::from_raw_data(row[16], "".into(), Unit::NauticalMiles),
+            visibility: DimensionalData::from_raw_data(
+                row[16],
+                "visibility".into(),
+                Unit::NauticalMiles,
+            ),
             air_pressure_tendency: DimensionalData::from_raw_data(
                 row[17],
                 "air pressure tendency".into(),
-- 
2.43.0


From 7cb526a4e137d222d10d37898630b25bfb98ad52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:21:04 +0000
Subject: [PATCH 37/38] fix: read and interpolate a model grid at the points
 around the location

---
 src/model/noaa_model.rs | 89 +++++++++++++++++++++++------------------
 1 file changed, 50 insertions(+), 39 deletions(-)

diff --git a/src/model/noaa_model.rs b/src/model/noaa_model.rs
index 2a6bdd9..728d252 100644
--- a/src/model/noaa_model.rs
+++ b/src/model/noaa_model.rs
@@ -4,7 +4,7 @@ use gribberish::{error::GribberishError, message::Message};
 use serde::{Deserialize, Serialize};
 
 use crate::{
-    location::{normalize_latitude, normalize_longitude, Location},
+    location::{absolute_longitude, normalize_latitude, normalize_longitude, Location},
     tools::{
         analysis::{bilerp, lerp},
         contour::compute_latlng_gridded_contours,
@@ -114,6 +114,38 @@ impl ModelTimeOutputResolution {
     }
 }
 
+/// Degrees from one longitude eastwards to another
+fn degrees_east(from: f64, to: f64) -> f64 {
+    let degrees = absolute_longitude(to) - absolute_longitude(from);
+    if degrees < 0.0 {
+        degrees + 360.0
+    } else {
+        degrees
+    }
+}
+
+/// The row and column of a location on a regular grid, in fractions of its steps. The first and
+/// last points of the grid are (latitude, longitude) and its columns run eastwards.
+fn grid_position(
+    location: &Location,
+    start: (f64, f64),
+    end: (f64, f64),
+    lat_size: usize,
+    lng_size: usize,
+) -> (f64, f64) {
+    let lat_step = (end.0 - start.0) / (lat_size - 1) as f64;
+    let mut lng_width = degrees_east(start.1, end.1);
+    if lng_width == 0.0 {
+        // All the way around the globe
+        lng_width = 360.0;
+    }
+    let lng_step = lng_width / (lng_size - 1) as f64;
+
+    let row = (location.latitude - start.0) / lat_step;
+    let col = degrees_east(start.1, location.longitude) / lng_step;
+    (row, col)
+}
+
 pub trait NOAAModel {
     fn id(&self) -> &'static str;
     fn name(&self) -> &'static str;
@@ -206,15 +238,9 @@ pub trait NOAAModel {
         let start = projector.latlng_start();
         let end = projector.latlng_end();
 
-        let lng_step = (end.1 - start.1) / lng_size as f64;
-        let lat_step = (end.0 - start.0) / lat_size as f64;
-
-        let lng_index = ((location.relative_longitude() - normalize_longitude(start.1)) / lng_step)
-            .abs()
-            .round() as usize;
-        let lat_index = ((location.relative_latitude() - normalize_latitude(start.0)) / lat_step)
-            .abs()
-            .round() as usize;
+        let (row, col) = grid_position(location, start, end, lat_size, lng_size);
+        let lng_index = col.round() as usize;
+        let lat_index = row.round() as usize;
 
         let data = message.data()?;
         let latlng_index = lng_index + lng_size * lat_index;
@@ -241,27 +267,12 @@ pub trait NOAAModel {
         let start = projector.latlng_start();
         let end = projector.latlng_end();
 
-        let lng_step = (end.1 - start.1) / lng_size as f64;
-        let lat_step = (end.0 - start.0) / lat_size as f64;
-
-        let lng_lower_index = ((location.relative_longitude() - normalize_longitude(start.1))
-            / lng_step)
-            .abs()
-            .floor() as usize;
-        let lng_upper_index = ((location.relative_longitude() - normalize_longitude(start.1))
-            / lng_step)
-            .abs()
-            .ceil() as usize;
-        let lat_lower_index = ((location.relative_latitude() - normalize_latitude(start.0))
-            / lat_step)
-            .abs()
-            .floor() as usize;
-        let lat_upper_index = ((location.relative_latitude() - normalize_latitude(start.0))
-            / lat_step)
-            .abs()
-            .ceil() as usize;
+        let (row, col) = grid_position(location, start, end, lat_size, lng_size);
+        let lng_lower_index = col.floor() as usize;
+        let lng_upper_index = (col.ceil() as usize).min(lng_size - 1);
+        let lat_lower_index = row.floor() as usize;
+        let lat_upper_index = (row.ceil() as usize).min(lat_size - 1);
 
-        let (lat, lng) = projector.lat_lng();
         let data = message.data()?;
 
         let a = data[lat_lower_index * lng_size + lng_lower_index];
@@ -269,27 +280,27 @@ pub trait NOAAModel {
         let c = data[lat_upper_index * lng_size + lng_lower_index];
         let d = data[lat_upper_index * lng_size + lng_upper_index];
 
-        let x0 = normalize_longitude(lng[lng_lower_index]);
-        let x1 = normalize_longitude(lng[lng_upper_index]);
-        let y0 = normalize_latitude(lat[lat_lower_index * lng_size]);
-        let y1 = normalize_latitude(lat[lat_upper_index * lng_size]);
+        let x0 = lng_lower_index as f64;
+        let x1 = lng_upper_index as f64;
+        let y0 = lat_lower_index as f64;
+        let y1 = lat_upper_index as f64;
 
         let value = if lat_lower_index == lat_upper_index && lng_lower_index == lng_upper_index {
             a
         } else if lat_lower_index == lat_upper_index {
-            lerp(&a, &b, &location.longitude, &x0, &x1)
-        } else if lng_lower_index == lat_lower_index {
-            lerp(&a, &c, &location.latitude, &y0, &y1)
+            lerp(&a, &b, &col, &x0, &x1)
+        } else if lng_lower_index == lng_upper_index {
+            lerp(&a, &c, &row, &y0, &y1)
         } else {
             bilerp(
                 &a,
                 &b,
                 &c,
                 &d,
-                &location.longitude,
+                &col,
                 &x0,
                 &x1,
-                &location.latitude,
+                &row,
                 &y0,
                 &y1,
             )
-- 
2.43.0


From 06a431cba75e6f9294e3e848e0f221e7e6819389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:21:04 +0000
Subject: [PATCH 38/38] fix: a tolerance around a location reaches across the
 date line

---
 src/model/noaa_model.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/model/noaa_model.rs b/src/model/noaa_model.rs
index 728d252..d7a3f11 100644
--- a/src/model/noaa_model.rs
+++ b/src/model/noaa_model.rs
@@ -4,7 +4,7 @@ use gribberish::{error::GribberishError, message::Message};
 use serde::{Deserialize, Serialize};
 
 use crate::{
-    location::{absolute_longitude, normalize_latitude, normalize_longitude, Location},
+    location::{absolute_longitude, normalize_latitude, Location},
     tools::{
         analysis::{bilerp, lerp},
         contour::compute_latlng_gridded_contours,
@@ -193,8 +193,6 @@ pub trait NOAAModel {
 
         let min_lat = location.relative_latitude() - *tolerance;
         let max_lat = location.relative_latitude() + *tolerance;
-        let min_lng = location.relative_longitude() - *tolerance;
-        let max_lng = location.relative_longitude() + *tolerance;
 
         let data = message.data()?;
 
@@ -208,10 +206,10 @@ pub trait NOAAModel {
                 let row = i / lng.len();
                 let col = i % lng.len();
 
+                let east = degrees_east(location.longitude, lng[col]);
                 normalize_latitude(lat[row]) >= min_lat
                     && normalize_latitude(lat[row]) <= max_lat
-                    && normalize_longitude(lng[col]) >= min_lng
-                    && normalize_longitude(lng[col]) <= max_lng
+                    && (east <= *tolerance || 360.0 - east <= *tolerance)
             })
             .map(|(_, v)| *v)
             .collect();
-- 
2.43.0

