From d788e4d2261193adefbf90918d49f09c4a0f5bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:28 +0000
Subject: [PATCH 01/15] fix: eci_to_geodedic used the squared prime-vertical
 factor (missing sqrt)

The latitude iteration and the height both need c = 1/sqrt(1 - e^2 sin^2);
without the square root heights were up to 21 km off away from the equator.
---
 src/transforms.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/transforms.rs b/src/transforms.rs
index f8b4577..6f91744 100644
--- a/src/transforms.rs
+++ b/src/transforms.rs
@@ -85,7 +85,7 @@ pub fn eci_to_geodedic(eci: &Eci, gmst: f64) -> Geodedic {
     let mut c: f64 = 0.0;
 
     while k < KMAX {
-        c = 1.0 / (1.0 - (E2 * latitude.sin().powi(2)));
+        c = 1.0 / (1.0 - (E2 * latitude.sin().powi(2))).sqrt();
         latitude = (eci.z + (A * c * E2 * latitude.sin())).atan2(r);
         k += 1;
     }
-- 
2.43.0


From 56653dbfb5e8f2c129eb9dac58d789a9dd3e1e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:28 +0000
Subject: [PATCH 02/15] fix: eci_to_geodedic height was wrong over the poles

r / cos(latitude) degenerates to 0 / 6e-17 for a position on the polar axis,
which reported a height of about -6400 km.
---
 src/transforms.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/transforms.rs b/src/transforms.rs
index 6f91744..7726eeb 100644
--- a/src/transforms.rs
+++ b/src/transforms.rs
@@ -90,7 +90,8 @@ pub fn eci_to_geodedic(eci: &Eci, gmst: f64) -> Geodedic {
         k += 1;
     }
 
-    let height = (r / latitude.cos()) - (A * c);
+    // r / cos(latitude) is 0 / 0 at the poles, this form is well conditioned everywhere.
+    let height = (r * latitude.cos()) + (eci.z * latitude.sin()) - (A / c);
 
     Geodedic {
         latitude,
-- 
2.43.0


From 5a12dba786efb79e6c240127946582e0a9555799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:28 +0000
Subject: [PATCH 03/15] fix: half-day resonance second derivative doubled only
 one of the 2*xli terms

Every term of xndt that depends on 2*xli contributes twice to its derivative.
---
 src/propogation/dspace.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/propogation/dspace.rs b/src/propogation/dspace.rs
index d6a1dfd..9ba924f 100644
--- a/src/propogation/dspace.rs
+++ b/src/propogation/dspace.rs
@@ -269,10 +269,11 @@ pub fn dspace(options: DspaceOptions) -> DspaceResult {
                     + (d3222 * ((-xomi + xli) - G32).cos())
                     + (d5220 * ((xomi + xli) - G52).cos())
                     + (d5232 * ((-xomi + xli) - G52).cos())
-                    + (2.0 * d4410 * ((x2omi + x2li) - G44).cos())
-                    + (d4422 * (x2li - G44).cos())
-                    + (d5421 * ((xomi + x2li) - G54).cos())
-                    + (d5433 * ((-xomi + x2li) - G54).cos());
+                    + (2.0
+                        * ((d4410 * ((x2omi + x2li) - G44).cos())
+                            + (d4422 * (x2li - G44).cos())
+                            + (d5421 * ((xomi + x2li) - G54).cos())
+                            + (d5433 * ((-xomi + x2li) - G54).cos())));
                 xnddt *= xldot;
             }
 
-- 
2.43.0


From f381caf3248f8954e6d46a67334203a6a6b9bac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:43 +0000
Subject: [PATCH 04/15] fix: deep-space propagation discarded the secular,
 resonant and periodic corrections

sgp4() destructured the dspace/dpper results into '_' patterns and shadowed
bindings, so argp, incl, node, mean anomaly, mean motion and the perturbed
eccentricity were never applied to deep-space orbits.
---
 src/propogation/sgp4.rs | 35 ++++++++++++++---------------------
 1 file changed, 14 insertions(+), 21 deletions(-)

diff --git a/src/propogation/sgp4.rs b/src/propogation/sgp4.rs
index 048c117..503627f 100644
--- a/src/propogation/sgp4.rs
+++ b/src/propogation/sgp4.rs
@@ -127,7 +127,7 @@ pub fn sgp4(satrec: &mut Satrec, tsince: f64) -> Result<SGP4Result, SGP4Error> {
     let delomg;
     let mut eo1;
     let mut argpm;
-    let argpp;
+    let mut argpp;
     let mut su;
     let t3;
     let t4;
@@ -137,14 +137,14 @@ pub fn sgp4(satrec: &mut Satrec, tsince: f64) -> Result<SGP4Result, SGP4Error> {
     let mut tempa;
     let mut tempe;
     let mut templ;
-    let inclm;
+    let mut inclm;
     let mut mm;
     let mut nm;
     let mut nodem;
     let mut xincp;
     let mut xlm;
-    let mp;
-    let nodep;
+    let mut mp;
+    let mut nodep;
 
     /* ------------------ set mathematical constants --------------- */
     // sgp4fix divisor for divide by zero check on inclination
@@ -232,15 +232,12 @@ pub fn sgp4(satrec: &mut Satrec, tsince: f64) -> Result<SGP4Result, SGP4Error> {
 
         let dspace_result = crate::propogation::dspace::dspace(dspace_options);
 
-        let crate::propogation::dspace::DspaceResult {
-            argpm: _,
-            inclm: _,
-            mm: _,
-            nodem: _,
-            nm: _,
-            ..
-        } = dspace_result;
         em = dspace_result.em;
+        argpm = dspace_result.argpm;
+        inclm = dspace_result.inclm;
+        mm = dspace_result.mm;
+        nodem = dspace_result.nodem;
+        nm = dspace_result.nm;
     }
 
     if nm <= 0.0 {
@@ -285,7 +282,7 @@ pub fn sgp4(satrec: &mut Satrec, tsince: f64) -> Result<SGP4Result, SGP4Error> {
     let cosim = inclm.cos();
 
     // -------------------- add lunar-solar periodics --------------
-    let ep = em;
+    let mut ep = em;
     xincp = inclm;
     argpp = argpm;
     nodep = nodem;
@@ -305,14 +302,10 @@ pub fn sgp4(satrec: &mut Satrec, tsince: f64) -> Result<SGP4Result, SGP4Error> {
         };
 
         let dpper_result = dpper(&satrec, dpper_parameters);
-        let DpperResult {
-            ep,
-            mut nodep,
-            mut argpp,
-            mp: _,
-            ..
-        } = dpper_result;
-
+        ep = dpper_result.ep;
+        nodep = dpper_result.nodep;
+        argpp = dpper_result.argpp;
+        mp = dpper_result.mp;
         xincp = dpper_result.inclp;
 
         if xincp < 0.0 {
-- 
2.43.0


From 1a6690532424adb069351772f6c12e91da0e42b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:46 +0000
Subject: [PATCH 05/15] fix: parsing a short or non-ASCII line panicked instead
 of returning an error

---
 src/io.rs | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/io.rs b/src/io.rs
index 5e20020..9074024 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -345,23 +345,31 @@ pub enum SatrecParseError {
 }
 
 
+/// Text of the columns low..high. Empty if the line is too short, or if a bound splits a character.
+fn columns(line: &str, low: usize, high: usize) -> &str {
+    line.get(low..high).unwrap_or("")
+}
+
 fn parse_float(line: &str, name: &'static str, low: usize, high: usize) -> Result<f64, SatrecParseError> {
-    match line[low..high].trim().parse::<f64>() {
+    match columns(line, low, high).trim().parse::<f64>() {
         Ok(res) => Ok(res),
-        Err(num) => return Err(SatrecParseError::IntParseError(name, low, high, line[low..high].to_string()))
+        Err(num) => return Err(SatrecParseError::IntParseError(name, low, high, columns(line, low, high).to_string()))
     }
 }
 
 fn parse_int(line: &str, name: &'static str, low: usize, high: usize) -> Result<i64, SatrecParseError> {
-    match line[low..high].trim().parse::<i64>() {
+    match columns(line, low, high).trim().parse::<i64>() {
         Ok(res) => Ok(res),
-        Err(num) => return Err(SatrecParseError::IntParseError(name, low, high, line[low..high].to_string()))
+        Err(num) => return Err(SatrecParseError::IntParseError(name, low, high, columns(line, low, high).to_string()))
     }
 }
 
 pub fn parse_satrec(str1: &str, str2: &str) -> Result<Satrec, SatrecParseError> {
     // Parse sat num
-    let satnum = str1[2..7].trim();
+    let satnum = match str1.get(2..7) {
+        Some(satnum) => satnum.trim(),
+        None => return Err(SatrecParseError::CompoundError("satnum", str1.to_string()))
+    };
 
     // Parse epoch
     let epochyr = parse_int(str1, "epochyr", 18, 20)?;
@@ -372,7 +380,7 @@ pub fn parse_satrec(str1: &str, str2: &str) -> Result<Satrec, SatrecParseError>
 
     // Parse nndot
     let nddot_0 = parse_int(str1, "nndot frac", 44, 50)?;
-    let nddot_1 = str1[50..52].to_string();
+    let nddot_1 = columns(str1, 50, 52).to_string();
     let nndot_str = format!(".{}E{}", nddot_0, nddot_1);
 
     let nddot = match nndot_str.parse::<f64>() {
@@ -381,9 +389,9 @@ pub fn parse_satrec(str1: &str, str2: &str) -> Result<Satrec, SatrecParseError>
     };
 
     // Parse bstar
-    let bstar_0 = str1[53..54].to_string();
+    let bstar_0 = columns(str1, 53, 54).to_string();
     let bstar_1 = parse_int(str1, "bstar frac", 54, 59)?;
-    let bstar_2 = str1[59..61].to_string();
+    let bstar_2 = columns(str1, 59, 61).to_string();
     let bstar_str = format!("{}.{}E{}", bstar_0, bstar_1, bstar_2);
 
     let bstar = match bstar_str.trim().parse::<f64>() {
@@ -395,7 +403,7 @@ pub fn parse_satrec(str1: &str, str2: &str) -> Result<Satrec, SatrecParseError>
     let nodeo = parse_float(str2, "nodeo", 17, 25)? * DEG_2_RAD;
 
     // Parse ecco
-    let ecco_str = format!(".{}", str2[26..33].trim().to_string());
+    let ecco_str = format!(".{}", columns(str2, 26, 33).trim().to_string());
     let ecco = match ecco_str.trim().parse::<f64>() {
         Ok(res) => res,
         Err(_) => return Err(SatrecParseError::CompoundError("ecco", ecco_str))
-- 
2.43.0


From 5390527e47c3904b687bc1bb9256a7648a4f18b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:46 +0000
Subject: [PATCH 06/15] fix: satellite names starting with 0 lost characters or
 panicked

A title line of just "0" (or a 0 followed by a multi-byte character) panicked,
names such as "0SCAR" lost two characters, and parse() kept the carriage return
of CRLF input that parse_multiple() strips.
---
 src/io.rs | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/src/io.rs b/src/io.rs
index 9074024..ae69fbd 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -230,6 +230,12 @@ impl Satrec {
     }
 }
 
+/// Satellite name from the title line of a 3LE, without the optional "0 " line number.
+fn title_name(line: &str) -> String {
+    let line = line.trim();
+    line.strip_prefix("0 ").unwrap_or(line).trim().to_string()
+}
+
 pub fn parse_multiple(string: &str) -> (Vec<Satrec>, Vec<SatrecParseError>) {
     let lines = string.split("\n").into_iter().filter(|el| { return el.trim() != "" }).collect::<Vec<&str>>();
     let mut recs : Vec<Satrec> = vec![];
@@ -240,12 +246,7 @@ pub fn parse_multiple(string: &str) -> (Vec<Satrec>, Vec<SatrecParseError>) {
         if lines[i].trim().len() != 25 && i + 2 < lines.len() {
             match twoline2satrec(lines[i+1], lines[i+2]) {
                 Ok(mut rec) => {
-                    if (lines[i].bytes().collect::<Vec<u8>>()[0] == '0' as u8) {
-                        rec.name = Some(lines[i][2..].trim().to_string());
-                    } else {
-                        rec.name = Some(lines[i].trim().to_string());
-                    }
-
+                    rec.name = Some(title_name(lines[i]));
                     recs.push(rec);
                 },
                 Err(err) => {
@@ -286,12 +287,7 @@ pub fn parse(string: &str) -> Result<Satrec, SatrecParseError> {
         // Because this is a 3le, we have a name. Extract/save it.
         match satrec {
             Ok(mut satrec) => {
-                if (lines[0].bytes().collect::<Vec<u8>>()[0] == '0' as u8) {
-                    satrec.name = Some(lines[0][2..].to_string());
-                } else {
-                    satrec.name = Some(lines[0].to_string());
-                }
-
+                satrec.name = Some(title_name(lines[0]));
                 return Ok(satrec)
             },
             Err(err) => { return Err(err) }
-- 
2.43.0


From 55e7f0ec150ed79f2c237bf5ce4de71d70649f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:46 +0000
Subject: [PATCH 07/15] fix: parse_multiple misread records without a title
 line

Every group of lines with at least three lines left was taken as a titled
record, so a list of plain two-line element sets was never parsed.
---
 src/io.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/io.rs b/src/io.rs
index ae69fbd..954992b 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -242,8 +242,9 @@ pub fn parse_multiple(string: &str) -> (Vec<Satrec>, Vec<SatrecParseError>) {
     let mut errors: Vec<SatrecParseError> = vec![];
     let mut i = 0;
     while i < lines.len() {
-        // If line 1 is not equal to a line operator, try next.
-        if lines[i].trim().len() != 25 && i + 2 < lines.len() {
+        // A "1 ..." line directly followed by a "2 ..." line is a record without a title line.
+        let untitled = i + 1 < lines.len() && lines[i].starts_with("1 ") && lines[i+1].starts_with("2 ");
+        if !untitled && i + 2 < lines.len() {
             match twoline2satrec(lines[i+1], lines[i+2]) {
                 Ok(mut rec) => {
                     rec.name = Some(title_name(lines[i]));
-- 
2.43.0


From 74f9edf3edc36fd407964c17f32aa5c1aae304aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:46 +0000
Subject: [PATCH 08/15] fix: malformed decimal fields were reported as integer
 errors

---
 src/io.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io.rs b/src/io.rs
index 954992b..5cc10d4 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -350,7 +350,7 @@ fn columns(line: &str, low: usize, high: usize) -> &str {
 fn parse_float(line: &str, name: &'static str, low: usize, high: usize) -> Result<f64, SatrecParseError> {
     match columns(line, low, high).trim().parse::<f64>() {
         Ok(res) => Ok(res),
-        Err(num) => return Err(SatrecParseError::IntParseError(name, low, high, columns(line, low, high).to_string()))
+        Err(num) => return Err(SatrecParseError::FloatParseError(name, low, high, columns(line, low, high).to_string()))
     }
 }
 
-- 
2.43.0


From 438665caa3b1da7c34c6a9718bf087e48ff85a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:13 +0000
Subject: [PATCH 09/15] fix: nddot and bstar mantissas lost their sign or their
 leading zeros

The five digits after the implied decimal point were read as an integer, so
00123-4 became 0.123e-4, and a negative nddot was rejected.
---
 src/io.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/io.rs b/src/io.rs
index 5cc10d4..d8f2b06 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -376,18 +376,21 @@ pub fn parse_satrec(str1: &str, str2: &str) -> Result<Satrec, SatrecParseError>
     let ndot = parse_float(str1, "ndot", 33, 43)?  / (XPDOTP * 1440.0);;
 
     // Parse nndot
-    let nddot_0 = parse_int(str1, "nndot frac", 44, 50)?;
-    let nddot_1 = columns(str1, 50, 52).to_string();
-    let nndot_str = format!(".{}E{}", nddot_0, nddot_1);
+    parse_int(str1, "nndot frac", 44, 50)?;
+    let nddot_0 = columns(str1, 44, 45).to_string();
+    let nddot_1 = columns(str1, 45, 50).replace(" ", "0");
+    let nddot_2 = columns(str1, 50, 52).to_string();
+    let nndot_str = format!("{}.{}E{}", nddot_0, nddot_1, nddot_2);
 
-    let nddot = match nndot_str.parse::<f64>() {
+    let nddot = match nndot_str.trim().parse::<f64>() {
             Ok(res) => res / (XPDOTP * 1440.0 * 1440.0),
             Err(_) => return Err(SatrecParseError::CompoundError("nndot", nndot_str))
     };
 
     // Parse bstar
     let bstar_0 = columns(str1, 53, 54).to_string();
-    let bstar_1 = parse_int(str1, "bstar frac", 54, 59)?;
+    parse_int(str1, "bstar frac", 54, 59)?;
+    let bstar_1 = columns(str1, 54, 59).replace(" ", "0");
     let bstar_2 = columns(str1, 59, 61).to_string();
     let bstar_str = format!("{}.{}E{}", bstar_0, bstar_1, bstar_2);
 
-- 
2.43.0


From eea7d32164cb17894db49cc90cc3afdeede38853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:13 +0000
Subject: [PATCH 10/15] fix: sub-second part of datetimes was dropped

propogate_datetime and jday_datetime truncated to whole seconds, an error of up
to 7.7 km for a low orbit.
---
 src/ext.rs             | 2 +-
 src/propogation/mod.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ext.rs b/src/ext.rs
index 7993809..70a0221 100644
--- a/src/ext.rs
+++ b/src/ext.rs
@@ -94,6 +94,6 @@ pub fn jday_datetime(time: DateTime<Utc>) -> f64 {
         time.hour() as f64,
         time.minute() as f64,
         time.second() as f64,
-        0 as f64
+        time.nanosecond() as f64 / 1.0e6
     )
 }
diff --git a/src/propogation/mod.rs b/src/propogation/mod.rs
index 4a4e61d..c63a6e9 100644
--- a/src/propogation/mod.rs
+++ b/src/propogation/mod.rs
@@ -25,7 +25,7 @@ pub fn propogate_datetime(satrec: &Satrec, time: DateTime<Utc>) -> Result<SGP4Re
     time.hour() as f64,
     time.minute() as f64,
     time.second() as f64,
-    0 as f64
+    time.nanosecond() as f64 / 1.0e6
   );
 
   let m = (j - satrec.jdsatepoch) * MINUTES_PER_DAY;
-- 
2.43.0


From 48b7ef8cd865d31d5cbac6e9d073ed375c8fdf2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:13 +0000
Subject: [PATCH 11/15] fix: doppler_factor reported a blue shift for receding
 satellites

The range rate was replaced by its absolute value; the observed frequency must
rise when the range shrinks and fall when it grows.
---
 src/doppler_factor.rs | 15 ++-------------
 1 file changed, 2 insertions(+), 13 deletions(-)

diff --git a/src/doppler_factor.rs b/src/doppler_factor.rs
index 25b0fe0..31fe71a 100644
--- a/src/doppler_factor.rs
+++ b/src/doppler_factor.rs
@@ -1,14 +1,6 @@
 use crate::constants::*;
 use crate::Vec3;
 
-fn sign(val: f64) -> f64 {
-    if val >= 0.0 {
-        1.0
-    } else {
-        -1.0
-    }
-}
-
 pub fn doppler_factor(location: Vec3, position: Vec3, velocity: Vec3) -> f64 {
     let current_range = position.range(&location);
 
@@ -16,10 +8,7 @@ pub fn doppler_factor(location: Vec3, position: Vec3, velocity: Vec3) -> f64 {
 
     let next_range = next_pos.range(&location);
 
-    let mut range_rate = next_range - current_range;
-
-    // TODO: is this simply abs()
-    range_rate *= sign(range_rate);
+    let range_rate = next_range - current_range;
 
-    return 1.0 + (range_rate / C);
+    return 1.0 - (range_rate / C);
 }
-- 
2.43.0


From 342c214a16487cd4fcb693011ce533a46e535859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:55 +0000
Subject: [PATCH 12/15] fix: propagation returned Ok with NaN vectors for
 undefined elements or times

NaN passed every range check in sgp4(), and 'nan' / 'inf' were accepted as
element fields.
---
 src/io.rs               | 4 ++--
 src/propogation/sgp4.rs | 7 ++++---
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/io.rs b/src/io.rs
index d8f2b06..a07df0f 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -349,8 +349,8 @@ fn columns(line: &str, low: usize, high: usize) -> &str {
 
 fn parse_float(line: &str, name: &'static str, low: usize, high: usize) -> Result<f64, SatrecParseError> {
     match columns(line, low, high).trim().parse::<f64>() {
-        Ok(res) => Ok(res),
-        Err(num) => return Err(SatrecParseError::FloatParseError(name, low, high, columns(line, low, high).to_string()))
+        Ok(res) if res.is_finite() => Ok(res),
+        _ => return Err(SatrecParseError::FloatParseError(name, low, high, columns(line, low, high).to_string()))
     }
 }
 
diff --git a/src/propogation/sgp4.rs b/src/propogation/sgp4.rs
index 503627f..aeb598a 100644
--- a/src/propogation/sgp4.rs
+++ b/src/propogation/sgp4.rs
@@ -240,7 +240,8 @@ pub fn sgp4(satrec: &mut Satrec, tsince: f64) -> Result<SGP4Result, SGP4Error> {
         nm = dspace_result.nm;
     }
 
-    if nm <= 0.0 {
+    // written so that an undefined (NaN) value is an error as well, here and below
+    if !(nm > 0.0) {
         // printf("// error nm %f\n", nm);
         satrec.error = 2;
         // sgp4fix add return
@@ -255,7 +256,7 @@ pub fn sgp4(satrec: &mut Satrec, tsince: f64) -> Result<SGP4Result, SGP4Error> {
 
     // fix tolerance for error recognition
     // sgp4fix am is fixed from the previous nm check
-    if em >= 1.0 || em < -0.001 {
+    if !(em < 1.0 && em >= -0.001) {
         // || (am < 0.95)
         // printf("// error em %f\n", em);
         satrec.error = 1;
@@ -439,7 +440,7 @@ pub fn sgp4(satrec: &mut Satrec, tsince: f64) -> Result<SGP4Result, SGP4Error> {
     };
 
     // sgp4fix for decaying satellites
-    if mrt < 1.0 {
+    if !(mrt >= 1.0) {
         // printf("// decay condition %11.6f \n",mrt);
         satrec.error = 6;
         // return {
-- 
2.43.0


From 5e6e9c2b9e163646f057bd9e5116ad35df697647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:04 +0000
Subject: [PATCH 13/15] fix: propagating a resonant orbit to an infinite time
 never returned

---
 src/propogation/dspace.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/propogation/dspace.rs b/src/propogation/dspace.rs
index 9ba924f..9358b89 100644
--- a/src/propogation/dspace.rs
+++ b/src/propogation/dspace.rs
@@ -279,7 +279,7 @@ pub fn dspace(options: DspaceOptions) -> DspaceResult {
 
             //  ----------------------- integrator -------------------
             //  sgp4fix move end checks to end of routine
-            if (t - atime).abs() >= STEPP {
+            if t.is_finite() && (t - atime).abs() >= STEPP {
                 iretn = 381;
             } else {
                 ft = t - atime;
-- 
2.43.0


From 7325f698d4a7094853d3fbbc1af3ae6cd2fd854f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:25 +0000
Subject: [PATCH 14/15] fix: an eccentricity field with an overflowing exponent
 was accepted as infinity

---
 src/io.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io.rs b/src/io.rs
index a07df0f..3c418da 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -405,8 +405,8 @@ pub fn parse_satrec(str1: &str, str2: &str) -> Result<Satrec, SatrecParseError>
     // Parse ecco
     let ecco_str = format!(".{}", columns(str2, 26, 33).trim().to_string());
     let ecco = match ecco_str.trim().parse::<f64>() {
-        Ok(res) => res,
-        Err(_) => return Err(SatrecParseError::CompoundError("ecco", ecco_str))
+        Ok(res) if res.is_finite() => res,
+        _ => return Err(SatrecParseError::CompoundError("ecco", ecco_str))
     };
 
     let argpo = parse_float(str2, "argpo", 34, 42)? * DEG_2_RAD;
-- 
2.43.0


From 5451e255e66aaf0b3e22ce8934e1c92de47f72aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:36 +0000
Subject: [PATCH 15/15] fix: eci_to_geodedic lost precision, and looped for
 ever, on sidereal angles of many turns

---
 src/transforms.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/transforms.rs b/src/transforms.rs
index 7726eeb..830c348 100644
--- a/src/transforms.rs
+++ b/src/transforms.rs
@@ -67,7 +67,7 @@ pub fn eci_to_geodedic(eci: &Eci, gmst: f64) -> Geodedic {
     const F: f64 = (A - B) / A;
     const E2: f64 = ((2.0 * F) - (F * F));
 
-    let mut longitude = eci.y.atan2(eci.x) - gmst;
+    let mut longitude = (eci.y.atan2(eci.x) - gmst) % TWO_PI;
 
     while longitude < -PI {
         longitude += TWO_PI;
-- 
2.43.0

