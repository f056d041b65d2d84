From 7cc8ab00af507bc106e5c58747d3f014fd81c51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:38 +0000
Subject: [PATCH 01/32] fix: numdiff kernel history one sample short (orders
 M-1 and above were lossy or panicked)

---
 src/hatanaka/numdiff.rs | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/hatanaka/numdiff.rs b/src/hatanaka/numdiff.rs
index eb56177..b20060a 100644
--- a/src/hatanaka/numdiff.rs
+++ b/src/hatanaka/numdiff.rs
@@ -48,7 +48,7 @@ impl<const M: usize> NumDiff<M> {
 
     /// Rotate internal buffer, take new sample into account.
     fn rotate_history(&mut self, data: i64) {
-        self.buf.copy_within(0..M - 2, 1);
+        self.buf.copy_within(0..M - 1, 1);
         self.buf[0] = data;
     }
 
@@ -84,26 +84,26 @@ impl<const M: usize> NumDiff<M> {
         if self.m < self.level {
             self.m += 1;
         }
-        self.rotate_history(data);
 
-        match self.m {
-            1 => self.buf[0] - self.buf[1],
-            2 => self.buf[0] - 2 * self.buf[1] + self.buf[2],
-            3 => self.buf[0] - 3 * self.buf[1] + 3 * self.buf[2] - self.buf[3],
-            4 => self.buf[0] - 4 * self.buf[1] + 6 * self.buf[2] - 4 * self.buf[3] + self.buf[4],
+        let new: i64 = match self.m {
+            1 => data - self.buf[0],
+            2 => data - 2 * self.buf[0] + self.buf[1],
+            3 => data - 3 * self.buf[0] + 3 * self.buf[1] - self.buf[2],
+            4 => data - 4 * self.buf[0] + 6 * self.buf[1] - 4 * self.buf[2] + self.buf[3],
             5 => {
-                self.buf[0] - 5 * self.buf[1] + 10 * self.buf[2] - 10 * self.buf[3]
-                    + 5 * self.buf[4]
-                    - self.buf[5]
+                data - 5 * self.buf[0] + 10 * self.buf[1] - 10 * self.buf[2] + 5 * self.buf[3]
+                    - self.buf[4]
             },
             6 => {
-                self.buf[0] - 6 * self.buf[1] + 15 * self.buf[2] - 20 * self.buf[3]
-                    + 15 * self.buf[4]
-                    - 6 * self.buf[5]
-                    + self.buf[6]
+                data - 6 * self.buf[0] + 15 * self.buf[1] - 20 * self.buf[2] + 15 * self.buf[3]
+                    - 6 * self.buf[4]
+                    + self.buf[5]
             },
             _ => panic!("numdiff is limited to M < 7"),
-        }
+        };
+
+        self.rotate_history(data);
+        new
     }
 }
 
-- 
2.43.0


From 239c566010dc8b7bab7f69abb0288b1cf15034f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:59 +0000
Subject: [PATCH 02/32] fix: RINEX3 observation columns read off by one (first
 digit lost, LLI digit appended to the value, last SNR dropped)

---
 src/observation/parsing.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/observation/parsing.rs b/src/observation/parsing.rs
index c81df9b..6905eb9 100644
--- a/src/observation/parsing.rs
+++ b/src/observation/parsing.rs
@@ -493,7 +493,7 @@ fn parse_signals_v3(
         let observables = observables.unwrap();
 
         let num_obs = line.len() / OBSERVABLE_WIDTH;
-        let mut offset = SVNN_SIZE + 1;
+        let mut offset = SVNN_SIZE;
 
         for i in 0..num_obs {
             if i == observables.len() {
@@ -507,7 +507,7 @@ fn parse_signals_v3(
             let mut lli = Option::<LliFlags>::None;
 
             if slice.len() > OBSERVABLE_F14_WIDTH {
-                let start = offset + OBSERVABLE_F14_WIDTH - 1;
+                let start = offset + OBSERVABLE_F14_WIDTH;
                 let lli_slice = &line[start..start + 1];
                 match lli_slice.parse::<u8>() {
                     Ok(unsigned) => {
@@ -523,7 +523,7 @@ fn parse_signals_v3(
             let mut snr = Option::<SNR>::None;
 
             if slice.len() > OBSERVABLE_F14_WIDTH + 1 {
-                let start = offset + OBSERVABLE_F14_WIDTH;
+                let start = offset + OBSERVABLE_F14_WIDTH + 1;
                 let snr_slice = &line[start..start + 1];
 
                 if let Ok(value) = snr_slice.parse::<u8>() {
-- 
2.43.0


From 37a0135b08d4a2885790c74436f9e63a1d9d6d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:28 +0000
Subject: [PATCH 03/32] fix: RINEX2 observations lost after an overlong line,
 blank system letters misread, continued satellite lists misaligned

---
 src/observation/parsing.rs | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/observation/parsing.rs b/src/observation/parsing.rs
index 6905eb9..7c5e10f 100644
--- a/src/observation/parsing.rs
+++ b/src/observation/parsing.rs
@@ -171,7 +171,8 @@ fn parse_observations(
     let observables = &obs.codes;
 
     // V1 / V2 tedious case
-    let rem = rem.trim();
+    // (leading blanks belong to the 3 character wide satellite descriptors)
+    let rem = rem.trim_end();
     let remainder_len = rem.len();
 
     if header.version.major < 3 {
@@ -182,14 +183,19 @@ fn parse_observations(
         // starts with first line content
         let end = (12 * 3).min(remainder_len);
         let mut systems_str = rem[..end].to_string();
-        let mut systems_str_len = systems_str.len();
 
         // grab following lines (if we need to)
-        while systems_str_len / 3 < num_sat.into() {
+        while div_ceil(systems_str.len(), 3) < num_sat.into() {
             if let Some(line) = lines.next() {
-                let trimmed = line.trim();
-                systems_str_len += trimmed.len();
-                systems_str.push_str(trimmed);
+                // descriptors are aligned on the first line's
+                let systems = match line.get(..32) {
+                    Some(padding) if padding.trim().is_empty() => line[32..].trim_end(),
+                    _ => line.trim(),
+                };
+                while systems_str.len() % 36 != 0 {
+                    systems_str.push(' ');
+                }
+                systems_str.push_str(systems);
             } else {
                 return Err(ParsingError::BadV2SatellitesDescription);
             }
@@ -337,7 +343,7 @@ fn parse_signals_v2(
             if obs_ptr >= observables.len() {
                 sv_identified = false;
                 obs_identified = false;
-                if sv_ptr == systems_str_len {
+                if sv_ptr >= systems_str_len {
                     // we're done
                     return;
                 }
@@ -364,8 +370,8 @@ fn parse_signals_v2(
         // process all of them
         for _ in 0..num_obs {
             if obs_ptr >= observables.len() {
-                // line is abnormally long (trailing whitespaces): abort
-                return;
+                // line is abnormally long (trailing whitespaces)
+                break;
             }
 
             let end = (offset + OBSERVABLE_WIDTH).min(line_width);
@@ -432,7 +438,7 @@ fn parse_signals_v2(
                 sv_identified = false;
                 obs_identified = false;
 
-                if sv_ptr == systems_str_len {
+                if sv_ptr >= systems_str_len {
                     // we're done
                     return;
                 }
-- 
2.43.0


From f8590be8b91362f8273be62d9e625395e3df94b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:22 +0000
Subject: [PATCH 04/32] fix: QZSS L6 codes with the Z attribute were not
 recognised (table listed S twice)

---
 src/carrier.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/carrier.rs b/src/carrier.rs
index dab6242..74304c8 100644
--- a/src/carrier.rs
+++ b/src/carrier.rs
@@ -505,7 +505,7 @@ impl Carrier {
     pub(crate) fn qzl6_codes() -> [&'static str; 24] {
         [
             "C6", "L6", "D6", "S6", "C6S", "L6S", "D6S", "S6S", "C6L", "L6L", "D6L", "S6L", "C6X",
-            "L6X", "D6X", "S6X", "C6E", "L6E", "D6E", "S6E", "C6S", "L6S", "D6S", "S6Z",
+            "L6X", "D6X", "S6X", "C6E", "L6E", "D6E", "S6E", "C6Z", "L6Z", "D6Z", "S6Z",
         ]
     }
     fn from_qzss_observable(obs: &Observable) -> Result<Self, Error> {
-- 
2.43.0


From 00c235a471450067300a631c297d235dd2413a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:40 +0000
Subject: [PATCH 05/32] fix: RINEX2 P1/P2 pseudo ranges of Glonass had no
 carrier

---
 src/carrier.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/carrier.rs b/src/carrier.rs
index 74304c8..86238af 100644
--- a/src/carrier.rs
+++ b/src/carrier.rs
@@ -353,9 +353,9 @@ impl Carrier {
             _ => Err(Error::UnknownGPSObservable),
         }
     }
-    pub(crate) fn g1_codes() -> [&'static str; 12] {
+    pub(crate) fn g1_codes() -> [&'static str; 13] {
         [
-            "C1", "L1", "D1", "S1", "C1C", "L1C", "D1C", "S1C", "C1P", "L1P", "D1P", "S1P",
+            "C1", "L1", "D1", "S1", "P1", "C1C", "L1C", "D1C", "S1C", "C1P", "L1P", "D1P", "S1P",
         ]
     }
     pub(crate) fn g1a_codes() -> [&'static str; 12] {
@@ -363,9 +363,9 @@ impl Carrier {
             "C4A", "L4A", "D4A", "S4A", "C4B", "L4B", "D4B", "S4B", "C4X", "L4X", "D4X", "S4X",
         ]
     }
-    pub(crate) fn g2_codes() -> [&'static str; 12] {
+    pub(crate) fn g2_codes() -> [&'static str; 13] {
         [
-            "C2", "L2", "D2", "S2", "C2C", "L2C", "D2C", "S2C", "C2P", "L2P", "D2P", "S2P",
+            "C2", "L2", "D2", "S2", "P2", "C2C", "L2C", "D2C", "S2C", "C2P", "L2P", "D2P", "S2P",
         ]
     }
     pub(crate) fn g2a_codes() -> [&'static str; 12] {
-- 
2.43.0


From 28aa12f3d78dcc2111c05dd3815eedcc81761602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:40 +0000
Subject: [PATCH 06/32] fix: hail indicators compared as rain increments in
 Observable::same_physics

---
 src/observable.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/observable.rs b/src/observable.rs
index f17bf8b..01a29cb 100644
--- a/src/observable.rs
+++ b/src/observable.rs
@@ -70,7 +70,7 @@ impl Observable {
             Self::WindSpeed => matches!(rhs, Self::WindSpeed),
             Self::WindDirection => matches!(rhs, Self::WindDirection),
             Self::RainIncrement => matches!(rhs, Self::RainIncrement),
-            Self::HailIndicator => matches!(rhs, Self::RainIncrement),
+            Self::HailIndicator => matches!(rhs, Self::HailIndicator),
             Self::FrequencyRatio => matches!(rhs, Self::FrequencyRatio),
         }
     }
-- 
2.43.0


From fc3e561c518425d8f4f3436f32db533d75db3656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:40 +0000
Subject: [PATCH 07/32] fix: marker types other than geodetic were all printed
 HUMAN, fixed buoys were not parsed

---
 src/marker.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/marker.rs b/src/marker.rs
index a0ad313..4caea44 100644
--- a/src/marker.rs
+++ b/src/marker.rs
@@ -69,6 +69,7 @@ impl std::str::FromStr for MarkerType {
             "airborne" => Ok(Self::Airborne),
             "non physical" => Ok(Self::NonPhysical),
             "spaceborne" => Ok(Self::Spaceborne),
+            "fixed buoy" => Ok(Self::FixedBuoy),
             "floating ice" => Ok(Self::FloatingIce),
             "floating buoy" => Ok(Self::FloatingBuoy),
             "glacier" => Ok(Self::Glacier),
@@ -84,7 +85,19 @@ impl std::fmt::Display for MarkerType {
     fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
         match self {
             Self::Geodetic => write!(f, "GEODETIC"),
-            _ => write!(f, "HUMAN"),
+            Self::NonGeodetic => write!(f, "NON GEODETIC"),
+            Self::NonPhysical => write!(f, "NON PHYSICAL"),
+            Self::Spaceborne => write!(f, "SPACEBORNE"),
+            Self::Airborne => write!(f, "AIRBORNE"),
+            Self::Watercraft => write!(f, "WATER CRAFT"),
+            Self::Groundcraft => write!(f, "GROUND CRAFT"),
+            Self::FixedBuoy => write!(f, "FIXED BUOY"),
+            Self::FloatingBuoy => write!(f, "FLOATING BUOY"),
+            Self::FloatingIce => write!(f, "FLOATING ICE"),
+            Self::Glacier => write!(f, "GLACIER"),
+            Self::Ballistic => write!(f, "BALLISTIC"),
+            Self::Animal => write!(f, "ANIMAL"),
+            Self::Human => write!(f, "HUMAN"),
         }
     }
 }
-- 
2.43.0


From 7337bad37b9e68210721bf13efda1adac00f2c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:40 +0000
Subject: [PATCH 08/32] fix: the standard descriptor of Glonass navigation
 files was not parsable

---
 src/types.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types.rs b/src/types.rs
index 3022f9c..bce01fc 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -59,7 +59,7 @@ impl Type {
         match *self {
             Self::ObservationData => String::from("OBSERVATION DATA"),
             Self::NavigationData => match constellation {
-                Some(Constellation::Glonass) => String::from("Glonass NAV"),
+                Some(Constellation::Glonass) => String::from("GLONASS NAV DATA"),
                 _ => String::from("NAV DATA"),
             },
             Self::MeteoData => String::from("METEOROLOGICAL DATA"),
-- 
2.43.0


From e56de0efef7cceb45ca3fa721196a5f496c3fd39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:36 +0000
Subject: [PATCH 09/32] fix: the first digit of a marker's monument number was
 dropped, non ASCII marker numbers could panic

---
 src/marker.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/marker.rs b/src/marker.rs
index 4caea44..c20d1d9 100644
--- a/src/marker.rs
+++ b/src/marker.rs
@@ -130,9 +130,9 @@ impl GeodeticMarker {
     /// Returns a GeodeticMarker with "number" only if it matches standardized format.
     pub fn with_number(&self, content: &str) -> Self {
         let mut s = self.clone();
-        if content.len() == 9 && content.chars().nth(5) == Some('M') {
+        if content.is_ascii() && content.len() == 9 && content.as_bytes()[5] == b'M' {
             if let Ok(id) = u32::from_str_radix(&content[..5], 10) {
-                if let Ok(monument) = u16::from_str_radix(&content[7..], 10) {
+                if let Ok(monument) = u16::from_str_radix(&content[6..], 10) {
                     s.identification = Some(id);
                     s.monument = Some(monument);
                 }
-- 
2.43.0


From 7f07cb0bfe63feec97ddce64431680e007f6dbf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:09 +0000
Subject: [PATCH 10/32] fix: Glonass G2 carrier is centered on 1246.0 MHz, not
 1246.06 MHz

---
 src/carrier.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/carrier.rs b/src/carrier.rs
index 86238af..42df5a3 100644
--- a/src/carrier.rs
+++ b/src/carrier.rs
@@ -188,8 +188,8 @@ impl Carrier {
             Self::G1(None) => 1602.0_f64,
             Self::G1(Some(c)) => 1602.0_f64 + (*c as f64 * 9.0 / 16.0),
             Self::G2a => 1248.06_f64,
-            Self::G2(None) => 1246.06_f64,
-            Self::G2(Some(c)) => 1246.06_f64 + (*c as f64 * 7.0 / 16.0),
+            Self::G2(None) => 1246.0_f64,
+            Self::G2(Some(c)) => 1246.0_f64 + (*c as f64 * 7.0 / 16.0),
             Self::G3 => 1202.025_f64,
             /*
              * BeiDou
-- 
2.43.0


From 09f94bee39c3b3de1404dcd79bfccebc724e7323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:10 +0000
Subject: [PATCH 11/32] fix: epoch fractions in timescales other than UTC were
 misread, invalid calendar fields panicked, year 79 was not windowed

---
 src/epoch.rs | 57 ++++++++++++++--------------------------------------
 1 file changed, 15 insertions(+), 42 deletions(-)

diff --git a/src/epoch.rs b/src/epoch.rs
index 0a2ff97..91e0a52 100644
--- a/src/epoch.rs
+++ b/src/epoch.rs
@@ -117,7 +117,7 @@ pub(crate) fn parse_in_timescale(content: &str, ts: TimeScale) -> Result<Epoch,
     let mut hh = 0_u8;
     let mut mm = 0_u8;
     let mut ss = 0_u8;
-    let mut ns = 0_u64;
+    let mut ns = 0_u32;
 
     if content.split_ascii_whitespace().count() < 6 {
         return Err(ParsingError::EpochFormat);
@@ -133,7 +133,7 @@ pub(crate) fn parse_in_timescale(content: &str, ts: TimeScale) -> Result<Epoch,
                 /* old RINEX problem: YY sometimes encoded on two digits */
                 if y > 79 && y <= 99 {
                     y += 1900;
-                } else if y < 79 {
+                } else if y <= 79 {
                     y += 2000;
                 }
             },
@@ -151,8 +151,6 @@ pub(crate) fn parse_in_timescale(content: &str, ts: TimeScale) -> Result<Epoch,
             },
             5 => {
                 if let Some(dot) = item.find('.') {
-                    let is_nav = item.trim().len() < 7;
-
                     ss = item[..dot]
                         .trim()
                         .parse::<u8>()
@@ -160,17 +158,13 @@ pub(crate) fn parse_in_timescale(content: &str, ts: TimeScale) -> Result<Epoch,
 
                     let nanos = item[dot + 1..].trim();
 
-                    ns = nanos
-                        .parse::<u64>()
-                        .map_err(|_| ParsingError::EpochParsing)?;
+                    // whatever the precision (0.1s NAV, 0.1us OBS..): scaled to nanoseconds
+                    let nanos = nanos.get(..9).unwrap_or(nanos);
 
-                    if is_nav {
-                        // NAV RINEX : 100ms precision
-                        ns *= 100_000_000;
-                    } else if nanos.len() != 9 {
-                        // OBS RINEX : 100ns precision
-                        ns *= 100;
-                    }
+                    ns = nanos
+                        .parse::<u32>()
+                        .map_err(|_| ParsingError::EpochParsing)?
+                        * 10_u32.pow(9 - nanos.len() as u32);
                 } else {
                     ss = item
                         .trim()
@@ -184,35 +178,14 @@ pub(crate) fn parse_in_timescale(content: &str, ts: TimeScale) -> Result<Epoch,
 
     //println!("content \"{}\"", content); // DEBUG
     //println!("Y {} M {} D {} HH {} MM {} SS {} NS {}", y, m, d, hh, mm, ss, ns); // DEBUG
-    match ts {
-        TimeScale::UTC => {
-            // Catch possible Hifitime panic on bad string content
-            if y == 0 {
-                return Err(ParsingError::EpochFormat);
-            }
-            let epoch = Epoch::from_gregorian_utc(y, m, d, hh, mm, ss, ns as u32);
-            Ok(epoch)
-        },
-        TimeScale::TAI => {
-            // Catch possible Hifitime panic on bad string content
-            if y == 0 {
-                return Err(ParsingError::EpochFormat);
-            }
-            let epoch = Epoch::from_gregorian_tai(y, m, d, hh, mm, ss, ns as u32);
-            Ok(epoch)
-        },
-        ts => {
-            // Catch possible Hifitime panic on bad string content
-            if y == 0 {
-                return Err(ParsingError::EpochFormat);
-            }
-            let epoch = Epoch::from_gregorian_str(&format!(
-                "{:04}-{:02}-{:02}T{:02}:{:02}:{:02}.{:06} {}",
-                y, m, d, hh, mm, ss, ns, ts
-            ))?;
-            Ok(epoch)
-        },
+
+    // Catch invalid content
+    if y == 0 {
+        return Err(ParsingError::EpochFormat);
     }
+
+    let epoch = Epoch::maybe_from_gregorian(y, m, d, hh, mm, ss, ns, ts)?;
+    Ok(epoch)
 }
 
 pub(crate) fn parse_utc(s: &str) -> Result<Epoch, ParsingError> {
-- 
2.43.0


From 2578479295b29e6814a26753d5388e1d1267d0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:55 +0000
Subject: [PATCH 12/32] fix: OBS header: label of RINEX2 observables missing or
 repeated, TIME OF FIRST/LAST OBS fractions, omitted or GLO/QZS timescales
 misread

---
 src/header/parsing.rs     | 64 ++++++++++++++++++++++++---------------
 src/observation/header.rs | 43 +++++++++++++-------------
 2 files changed, 62 insertions(+), 45 deletions(-)

diff --git a/src/header/parsing.rs b/src/header/parsing.rs
index dfdbc2d..58291ff 100644
--- a/src/header/parsing.rs
+++ b/src/header/parsing.rs
@@ -3,7 +3,7 @@ use crate::{
     antex::{HeaderFields as AntexHeader, Pcv},
     clock::{ClockProfileType, HeaderFields as ClockHeader, WorkClock},
     doris::{HeaderFields as DorisHeader, Station as DorisStation},
-    epoch::parse_ionex_utc as parse_ionex_utc_epoch,
+    epoch::{epoch_decompose, parse_ionex_utc as parse_ionex_utc_epoch},
     hardware::{Antenna, Receiver, SvAntenna},
     hatanaka::CRINEX,
     header::{DcbCompensation, Header, PcvCompensation},
@@ -569,8 +569,7 @@ impl Header {
                     Some(c) => {
                         // in case of OLD RINEX : fixed constellation
                         //  use that information, as it may be omitted in the TIME OF OBS header
-                        time_of_first_obs.time_scale =
-                            c.timescale().ok_or(ParsingError::NoTimescaleDefinition)?;
+                        time_of_first_obs = Self::time_of_obs_default(time_of_first_obs, c)?;
                     },
                 }
                 if rinex_type == Type::DORIS {
@@ -585,8 +584,7 @@ impl Header {
                     Some(c) => {
                         // in case of OLD RINEX : fixed constellation
                         //  use that information, as it may be omitted in the TIME OF OBS header
-                        time_of_last_obs.time_scale =
-                            c.timescale().ok_or(ParsingError::NoTimescaleDefinition)?;
+                        time_of_last_obs = Self::time_of_obs_default(time_of_last_obs, c)?;
                     },
                 }
 
@@ -965,20 +963,23 @@ impl Header {
     }
 
     fn parse_time_of_obs(content: &str) -> Result<Epoch, ParsingError> {
-        let (_, rem) = content.split_at(2);
-        let (y, rem) = rem.split_at(4);
-        let (m, rem) = rem.split_at(6);
-        let (d, rem) = rem.split_at(6);
-        let (hh, rem) = rem.split_at(6);
-        let (mm, rem) = rem.split_at(6);
-        let (ss, rem) = rem.split_at(5);
-        let (_dot, rem) = rem.split_at(1);
-        let (ns, rem) = rem.split_at(8);
+        // YYYY MM DD HH MM SS.NNNNNNN TTT
+        let field = |start: usize, end: usize| {
+            content
+                .get(start..end)
+                .map(|field| field.trim())
+                .ok_or(ParsingError::DatetimeParsing)
+        };
+
+        let (y, m, d) = (field(2, 6)?, field(6, 12)?, field(12, 18)?);
+        let (hh, mm, ss) = (field(18, 24)?, field(24, 30)?, field(30, 35)?);
+        let ns = field(36, 44)?;
+        let rem = field(44, content.len())?;
 
         // println!("Y \"{}\" M \"{}\" D \"{}\" HH \"{}\" MM \"{}\" SS \"{}\" NS \"{}\"", y, m, d, hh, mm, ss, ns); // DEBUG
         let mut y = y
             .trim()
-            .parse::<u32>()
+            .parse::<i32>()
             .map_err(|_| ParsingError::DatetimeParsing)?;
 
         // handle OLD RINEX problem
@@ -1013,10 +1014,11 @@ impl Header {
             .parse::<u8>()
             .map_err(|_| ParsingError::DatetimeParsing)?;
 
+        // scaled to nanoseconds, whatever the precision
         let ns = ns
-            .trim()
             .parse::<u32>()
-            .map_err(|_| ParsingError::DatetimeParsing)?;
+            .map_err(|_| ParsingError::DatetimeParsing)?
+            * 10_u32.pow(9 - ns.len() as u32);
 
         /*
          * We set TAI as "default" Timescale.
@@ -1024,21 +1026,35 @@ impl Header {
          * In this case, we exit with "TAI" and handle that externally.
          */
         let mut ts = TimeScale::TAI;
-        let rem = rem.trim();
 
         /*
          * Handles DORIS measurement special case,
          * offset from TAI, that we will convert back to TAI later
          */
         if !rem.is_empty() && rem != "DOR" {
-            ts = TimeScale::from_str(rem.trim())?;
+            ts = match rem {
+                "GLO" => TimeScale::UTC,
+                "QZS" => TimeScale::QZSST,
+                rem => TimeScale::from_str(rem)?,
+            };
         }
 
-        Epoch::from_str(&format!(
-            "{:04}-{:02}-{:02}T{:02}:{:02}:{:02}.{:08} {}",
-            y, m, d, hh, mm, ss, ns, ts
-        ))
-        .map_err(|_| ParsingError::DatetimeParsing)
+        Epoch::maybe_from_gregorian(y, m, d, hh, mm, ss, ns, ts)
+            .map_err(|_| ParsingError::DatetimeParsing)
+    }
+
+    /// Timescale might be omitted in Old RINEX (single constellation):
+    /// "TIME OF OBS" is then interprated in the timescale of this constellation.
+    fn time_of_obs_default(t: Epoch, constellation: Constellation) -> Result<Epoch, ParsingError> {
+        if t.time_scale != TimeScale::TAI {
+            return Ok(t);
+        }
+        let ts = constellation
+            .timescale()
+            .ok_or(ParsingError::NoTimescaleDefinition)?;
+        let (y, m, d, hh, mm, ss, ns) = epoch_decompose(t);
+        Epoch::maybe_from_gregorian(y, m, d, hh, mm, ss, ns, ts)
+            .map_err(|_| ParsingError::DatetimeParsing)
     }
 
     /*
diff --git a/src/observation/header.rs b/src/observation/header.rs
index b419fce..b7abb8f 100644
--- a/src/observation/header.rs
+++ b/src/observation/header.rs
@@ -2,6 +2,7 @@
 
 use crate::{
     epoch::epoch_decompose as epoch_decomposition,
+    fmt_rinex,
     hatanaka::CRINEX,
     prelude::{Constellation, Epoch, FormattingError, Observable, TimeScale},
 };
@@ -47,34 +48,18 @@ impl HeaderFields {
         major: u8,
     ) -> Result<(), FormattingError> {
         if let Some(t) = self.timeof_first_obs {
-            let (y, m, d, hh, mm, ss, ns) = epoch_decomposition(t);
             writeln!(
                 w,
-                "{:6} {:5} {:5} {:5} {:5} {:4}.{:07}     {:x}         TIME OF FIRST OBS",
-                y,
-                m,
-                d,
-                hh,
-                mm,
-                ss,
-                ns / 100,
-                t.time_scale,
+                "{}",
+                fmt_rinex(&Self::format_timeof_obs(t), "TIME OF FIRST OBS")
             )?;
         }
 
         if let Some(t) = self.timeof_last_obs {
-            let (y, m, d, hh, mm, ss, ns) = epoch_decomposition(t);
             writeln!(
                 w,
-                "{:6} {:5} {:5} {:5} {:5} {:4}.{:07}     {:x}         TIME OF LAST OBS",
-                y,
-                m,
-                d,
-                hh,
-                mm,
-                ss,
-                ns / 100,
-                t.time_scale,
+                "{}",
+                fmt_rinex(&Self::format_timeof_obs(t), "TIME OF LAST OBS")
             )?;
         }
 
@@ -88,6 +73,22 @@ impl HeaderFields {
         Ok(())
     }
 
+    /// Formats "TIME OF FIRST/LAST OBS" content
+    fn format_timeof_obs(t: Epoch) -> String {
+        let (y, m, d, hh, mm, ss, ns) = epoch_decomposition(t);
+        format!(
+            "{:6} {:5} {:5} {:5} {:5} {:4}.{:07}     {:x}",
+            y,
+            m,
+            d,
+            hh,
+            mm,
+            ss,
+            ns / 100,
+            t.time_scale,
+        )
+    }
+
     fn format_v1_observables<W: Write>(&self, w: &mut BufWriter<W>) -> Result<(), FormattingError> {
         if let Some((_, observables)) = self.codes.iter().next() {
             write!(w, "{:6}", observables.len())?;
@@ -107,7 +108,7 @@ impl HeaderFields {
                 modulo = nth % 9;
             }
 
-            if modulo != 7 {
+            if modulo != 8 {
                 writeln!(
                     w,
                     "{:>width$}",
-- 
2.43.0


From b9da97d90ab1082487d0538754109878b0eda404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:30 +0000
Subject: [PATCH 13/32] fix: TextDiff compression was lossy when the content
 shrinks

---
 src/hatanaka/textdiff.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/hatanaka/textdiff.rs b/src/hatanaka/textdiff.rs
index c691391..517bb01 100644
--- a/src/hatanaka/textdiff.rs
+++ b/src/hatanaka/textdiff.rs
@@ -72,8 +72,15 @@ impl TextDiff {
         let mut buf_len = self.buffer.len();
         let min_len = std::cmp::min(len, buf_len);
 
+        // special case: shrinking content.
+        // What is gone still needs to be erased on decompression side.
+        let mut erased = String::new();
+
         if buf_len > len {
-            // special case: shrink history
+            for byte in self.buffer[len..].trim_end().bytes() {
+                erased.push(if byte == b' ' { ' ' } else { '&' });
+            }
+
             self.buffer = self.buffer[..len].to_string();
             buf_len = len; // update size
         }
@@ -117,6 +124,8 @@ impl TextDiff {
             }
         }
 
+        self.compressed.push_str(&erased);
+
         &self.compressed
     }
 }
-- 
2.43.0


From 84a823e3df14e8d156e19bb946cd50466d76b931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:30 +0000
Subject: [PATCH 14/32] fix: CRINEX decompression: short epoch descriptors,
 clock offsets, 11/23/35 satellites, trimmed lines and invalid kernel orders
 were lost or panicked

---
 src/hatanaka/decompressor/mod.rs | 260 +++++++++++++++----------------
 src/record/parsing.rs            |  13 +-
 2 files changed, 139 insertions(+), 134 deletions(-)

diff --git a/src/hatanaka/decompressor/mod.rs b/src/hatanaka/decompressor/mod.rs
index 102e8c7..b6cfeea 100644
--- a/src/hatanaka/decompressor/mod.rs
+++ b/src/hatanaka/decompressor/mod.rs
@@ -220,8 +220,10 @@ impl<const M: usize> DecompressorExpert<M> {
             Self::V1_NUMSAT_OFFSET
         };
 
-        if let Ok(numsat) = &self.epoch_descriptor[start..start + 3].trim().parse::<u8>() {
-            Some(*numsat as usize)
+        let numsat = self.epoch_descriptor.get(start..start + 3)?;
+
+        if let Ok(numsat) = numsat.trim().parse::<u8>() {
+            Some(numsat as usize)
         } else {
             None
         }
@@ -289,7 +291,7 @@ impl<const M: usize> DecompressorExpert<M> {
         // println!("STATE={:?}", self.state); //DEBUG
         match self.state {
             State::Epoch => self.run_epoch(line, len),
-            State::Clock => self.run_clock(line, len, buf),
+            State::Clock => self.run_clock(line, buf),
             State::Observation => self.run_observation(line, len, buf),
         }
     }
@@ -302,7 +304,12 @@ impl<const M: usize> DecompressorExpert<M> {
             State::MIN_COMPRESSED_EPOCH_SIZE_V1
         };
 
-        if len < min_len {
+        // compressed descriptors stop at their last difference:
+        // only complete descriptors have a minimal size
+        let is_reset = line.starts_with('&') || line.starts_with('>');
+        let min_len = if is_reset { min_len } else { 2 };
+
+        if len < min_len || !line.is_ascii() {
             return Err(Error::EpochFormat);
         }
 
@@ -324,7 +331,7 @@ impl<const M: usize> DecompressorExpert<M> {
             self.epoch_descriptor = trimmed.to_string();
             self.epoch_desc_len = trimmed.len();
         } else {
-            self.epoch_descriptor = self.epoch_diff.decompress(trimmed).to_string();
+            self.epoch_descriptor = self.epoch_diff.decompress(trimmed).trim_end().to_string();
             self.epoch_desc_len = self.epoch_descriptor.len();
         }
 
@@ -335,7 +342,7 @@ impl<const M: usize> DecompressorExpert<M> {
 
         // numsat needs to be recovered right away,
         // because it is used to determine the next production size
-        self.numsat = self.epoch_numsat().expect("bad recovered content (numsat)");
+        self.numsat = self.epoch_numsat().ok_or(Error::EpochFormat)?;
 
         self.state = State::Clock;
         Ok(0)
@@ -367,8 +374,8 @@ impl<const M: usize> DecompressorExpert<M> {
 
         // provide clock data, if any
         if let Some(clock_data) = clock_data {
-            let value = clock_data as f64 / 1000.0;
-            let formatted = format!("       {:.12}", value);
+            // picoseconds (6X,F15.12)
+            let formatted = format!("      {:15.12}", clock_data as f64 / 1.0E12);
             let fmt_len = formatted.len(); // TODO improve: this is constant
             let bytes = formatted.as_bytes();
             buf[produced..produced + fmt_len].copy_from_slice(&bytes);
@@ -395,8 +402,15 @@ impl<const M: usize> DecompressorExpert<M> {
 
         // push clock offset (if any)
         if let Some(clock_data) = clock_data {
-            let formatted_ck = format!(" {:15.12}", clock_data);
-            let fmt_len = formatted_ck.len(); // TODO: improve (constant)
+            // nanoseconds (F12.9), past the list of satellites
+            let padding = 67 - first_len;
+            let formatted_ck = format!(
+                "{:padding$}{:12.9}",
+                "",
+                clock_data as f64 / 1.0E9,
+                padding = padding
+            );
+            let fmt_len = formatted_ck.len();
             let formatted_ck = formatted_ck.as_bytes();
             buf[produced..produced + fmt_len].copy_from_slice(&formatted_ck);
             produced += fmt_len;
@@ -410,6 +424,10 @@ impl<const M: usize> DecompressorExpert<M> {
         let nb_extra = (self.epoch_desc_len - Self::V1_NUMSAT_OFFSET) / 36;
 
         for _ in 0..nb_extra {
+            if offset > self.epoch_desc_len {
+                break;
+            }
+
             // extra padding
             buf[produced..produced + 32].copy_from_slice(&[
                 b' ', b' ', b' ', b' ', b' ', b' ', b' ', b' ', b' ', b' ', b' ', b' ', b' ', b' ',
@@ -437,30 +455,22 @@ impl<const M: usize> DecompressorExpert<M> {
     }
 
     /// Process following line, in [State::Clock]
-    fn run_clock(&mut self, line: &str, len: usize, buf: &mut [u8]) -> Result<usize, Error> {
+    fn run_clock(&mut self, line: &str, buf: &mut [u8]) -> Result<usize, Error> {
         let mut clock_data = Option::<i64>::None;
 
         // attempts to recover clock data (if it exists)
-        if len > 2 {
-            if line[1..].starts_with('&') {
-                if let Ok(order) = line[..1].parse::<usize>() {
-                    if let Ok(val) = line[2..].parse::<i64>() {
-                        // valid kernel reset
-                        self.clock_diff.force_init(val, order);
-                        clock_data = Some(val);
-                    }
-                }
-            }
-        }
-        if len == 1 {
-            // highly compressed clock data
-            match line.trim().parse::<i64>() {
-                Ok(val) => {
-                    let val = self.clock_diff.decompress(val);
+        if let Some((order, val)) = line.trim_end().split_once('&') {
+            if let Some(order) = Self::parse_order(order) {
+                if let Ok(val) = val.parse::<i64>() {
+                    // valid kernel reset
+                    self.clock_diff.force_init(val, order);
                     clock_data = Some(val);
-                },
-                Err(_) => {},
+                }
             }
+        } else if let Ok(val) = line.trim_end().parse::<i64>() {
+            // compressed clock data
+            let val = self.clock_diff.decompress(val);
+            clock_data = Some(val);
         }
 
         // now that we have potentially recovered clock data
@@ -472,9 +482,6 @@ impl<const M: usize> DecompressorExpert<M> {
         self.sv_ptr = 0;
         self.first_epoch = false;
 
-        // grab first sv
-        self.sv = self.next_sv().expect("bad recovered content (sv)");
-
         // cross check recovered content
         // &, at the same time, make sure we are ready to process any new SV
         for i in 0..self.numsat {
@@ -482,18 +489,20 @@ impl<const M: usize> DecompressorExpert<M> {
 
             // any invalid SV description, will cause us to wait for a new epoch.
             // In other terms, epoch is fully disregarded.
-            let sv = match SV::from_str(&self.epoch_descriptor[start..start + 3]) {
+            let descriptor = self
+                .epoch_descriptor
+                .get(start..start + 3)
+                .ok_or(Error::SVParsing)?;
+
+            let sv = match SV::from_str(descriptor) {
                 Ok(sv) => sv,
                 Err(_) => {
                     // SV parsing may be in failure in case of very old V1 CRINEX mono GNSS
                     // that omit the constellation
                     if !self.v3 {
-                        if let Ok(prn) = &self.epoch_descriptor[start + 1..start + 3]
-                            .trim()
-                            .parse::<u8>()
-                        {
+                        if let Ok(prn) = descriptor[1..].trim().parse::<u8>() {
                             SV {
-                                prn: *prn,
+                                prn,
                                 constellation: self.constellation,
                             }
                         } else {
@@ -513,12 +522,14 @@ impl<const M: usize> DecompressorExpert<M> {
             }
         }
 
-        let obs = self
-            .get_observables(&self.sv.constellation)
-            .expect("failed to determine sv definition");
+        if self.numsat == 0 {
+            // no observation to follow
+            self.state = State::Epoch;
+        } else {
+            self.grab_next_sv()?;
+            self.state = State::Observation;
+        }
 
-        self.numobs = obs.len();
-        self.state = State::Observation;
         Ok(produced)
     }
 
@@ -569,7 +580,7 @@ impl<const M: usize> DecompressorExpert<M> {
                     if let Some(offset) = slice.find('&') {
                         if offset == 1 {
                             // valid core reset pattern
-                            if let Ok(level) = slice[..offset].parse::<usize>() {
+                            if let Some(level) = Self::parse_order(&slice[..offset]) {
                                 if let Ok(value) = slice[offset + 1..].parse::<i64>() {
                                     if let Some(kernel) = self.obs_diff.get_mut(&(self.sv, ptr)) {
                                         kernel.force_init(value, level);
@@ -638,18 +649,14 @@ impl<const M: usize> DecompressorExpert<M> {
                         produced += fmt_len;
                     }
                 }
-
-                // this may cause trimed lines to panic on next '_' search
-                // so we exist the loop so we do not overflow
-                if consumed >= len {
-                    break;
-                }
             } else {
                 // early line termination.
                 // This happens when last observations are all missing (possibly more than one)
                 // and observation "flags" are all fully compressed (100% compression factor)
 
                 // if we have leftovers, that means we have one last observation
+                let leftovers = !line[consumed..].trim().is_empty();
+
                 if len > consumed {
                     let mut formatted = "                ".to_string();
 
@@ -662,7 +669,7 @@ impl<const M: usize> DecompressorExpert<M> {
                     if let Some(offset) = slice.find('&') {
                         if offset == 1 {
                             // valid core reset pattern
-                            if let Ok(level) = slice[..offset].parse::<usize>() {
+                            if let Some(level) = Self::parse_order(&slice[..offset]) {
                                 if let Ok(value) = slice[offset + 1..].parse::<i64>() {
                                     if let Some(kernel) = self.obs_diff.get_mut(&(self.sv, ptr)) {
                                         kernel.force_init(value, level);
@@ -735,47 +742,12 @@ impl<const M: usize> DecompressorExpert<M> {
                     }
                 }
 
-                // trick to preserve data flags
-                let textdiff = self
-                    .flags_diff
-                    .get_mut(&self.sv)
-                    .expect("internal error: bad crinex content?");
-
-                let flags = textdiff.decompress("").trim_end();
-                let flags_len = flags.len();
+                // everything past this point is missing
+                let first_missing = if leftovers { ptr + 1 } else { ptr };
+                self.blanking_indexes.extend(first_missing..self.numobs);
 
-                //println!("PRESERVED \"{}\"", flags); // DEBUG
-                Self::write_flags(flags, flags_len, self.numobs, self.v3, buf);
-
-                // conclude this SV
-                self.sv_ptr += 1;
-
-                //#[cfg(feature = "log")]
-                //debug!("[{} CONCLUDED {}/{}]", self.sv, self.sv_ptr, self.numsat);
-
-                if self.sv_ptr == self.numsat {
-                    //#[cfg(feature = "log")]
-                    //debug!("[END OF EPOCH]");
-
-                    self.state = State::Epoch;
-                } else {
-                    self.sv = self.next_sv().expect("failed to determine next sv");
-
-                    let constellation = if self.sv.constellation.is_sbas() {
-                        Constellation::SBAS
-                    } else {
-                        self.sv.constellation
-                    };
-
-                    self.numobs = self
-                        .get_observables(&constellation)
-                        .expect("internal error")
-                        .len();
-
-                    self.state = State::Observation;
-                }
-
-                return Ok(produced);
+                consumed = len;
+                break;
             }
         } // for
 
@@ -783,43 +755,41 @@ impl<const M: usize> DecompressorExpert<M> {
         // That may not be the case. We may have consumed everything when
         // the line was trimmed at production time, meaning flags should be preserved
 
-        if consumed < len {
-            // proceed to flags recovering
-            let flags = &line[consumed..].trim_end();
+        // proceed to flags recovering
+        let flags = &line[consumed..].trim_end();
 
-            // println!("FLAGS \"{}\"", flags); // DEBUG
+        // println!("FLAGS \"{}\"", flags); // DEBUG
 
-            let kernel = self.flags_diff.get_mut(&self.sv).expect("internal error");
+        let kernel = self.flags_diff.get_mut(&self.sv).expect("internal error");
 
-            let flags = kernel.decompress(flags);
-            let flags_len = flags.len();
+        let flags = kernel.decompress(flags);
+        let flags_len = flags.len();
 
-            self.flags_buf = flags.to_string();
+        self.flags_buf = flags.to_string();
 
-            // blank flags for which observation is blanked
-            // otherwise, .decompress("") will return past value
-            for index in &self.blanking_indexes {
-                if flags_len > (index * 2) {
-                    self.flags_buf
-                        .replace_range(2 * index..(2 * index + 1), " ");
-                }
-                if flags_len > index * 2 + 1 {
-                    self.flags_buf
-                        .replace_range(2 * index + 1..(2 * index + 2), " ");
-                }
+        // blank flags for which observation is blanked
+        // otherwise, .decompress("") will return past value
+        for index in &self.blanking_indexes {
+            if flags_len > (index * 2) {
+                self.flags_buf
+                    .replace_range(2 * index..(2 * index + 1), " ");
             }
+            if flags_len > index * 2 + 1 {
+                self.flags_buf
+                    .replace_range(2 * index + 1..(2 * index + 2), " ");
+            }
+        }
 
-            // update len
-            let flags_len = self.flags_buf.len();
+        // update len
+        let flags_len = self.flags_buf.len();
 
-            // copy all flags to user
-            // println!(
-            //     "RECOVERED \"{}\" (len={},numobs={})",
-            //     &self.flags_buf, flags_len, self.numobs
-            // ); // DEBUG
+        // copy all flags to user
+        // println!(
+        //     "RECOVERED \"{}\" (len={},numobs={})",
+        //     &self.flags_buf, flags_len, self.numobs
+        // ); // DEBUG
 
-            Self::write_flags(&self.flags_buf, flags_len, self.numobs, self.v3, buf);
-        }
+        Self::write_flags(&self.flags_buf, flags_len, self.numobs, self.v3, buf);
 
         self.obs_ptr = 0;
 
@@ -835,24 +805,52 @@ impl<const M: usize> DecompressorExpert<M> {
 
             new_state = State::Epoch;
         } else {
-            self.sv = self.next_sv().expect("failed to determine next sv");
-
-            let constellation = if self.sv.constellation.is_sbas() {
-                Constellation::SBAS
-            } else {
-                self.sv.constellation
-            };
-
-            self.numobs = self
-                .get_observables(&constellation)
-                .expect("internal error")
-                .len();
+            self.grab_next_sv()?;
         }
 
         self.state = new_state;
         Ok(produced)
     }
 
+    /// Number of lines the recovered content is made of, when following line
+    /// produces some.
+    pub(crate) fn nb_lines(&self) -> usize {
+        match (self.v3, self.state) {
+            (true, _) | (_, State::Epoch) => 1,
+            (false, State::Clock) => div_ceil(self.numsat, 12).max(1),
+            (false, State::Observation) => div_ceil(self.numobs, 5).max(1),
+        }
+    }
+
+    /// Parses the compression order of a kernel reset, within our capacities
+    fn parse_order(order: &str) -> Option<usize> {
+        let order = order.parse::<usize>().ok()?;
+
+        if order > 0 && order <= M.min(6) {
+            Some(order)
+        } else {
+            None
+        }
+    }
+
+    /// Moves on to next [SV] and its number of [Observable]s
+    fn grab_next_sv(&mut self) -> Result<(), Error> {
+        self.sv = self.next_sv().ok_or(Error::SVParsing)?;
+
+        let constellation = if self.sv.constellation.is_sbas() {
+            Constellation::SBAS
+        } else {
+            self.sv.constellation
+        };
+
+        self.numobs = self
+            .get_observables(&constellation)
+            .ok_or(Error::SVParsing)?
+            .len();
+
+        Ok(())
+    }
+
     /// Helper to retrieve observable for given system
     fn get_observables(&self, constell: &Constellation) -> Option<&Vec<Observable>> {
         // We use mixed to store a single value for single definitions
diff --git a/src/record/parsing.rs b/src/record/parsing.rs
index 84b5e9d..648be40 100644
--- a/src/record/parsing.rs
+++ b/src/record/parsing.rs
@@ -83,7 +83,7 @@ impl Record {
         let mut observations = Observations::default();
 
         // CRINEX case
-        const CRINEX_BUF_SIZE: usize = 1024;
+        const CRINEX_BUF_SIZE: usize = 4096;
         let mut buf = [0; CRINEX_BUF_SIZE];
 
         let mut is_crinex = false;
@@ -245,6 +245,7 @@ impl Record {
             // - decompress new pending line, which may recover several lines (in old V1 format)
             if is_crinex {
                 let line_len = line_buf.len();
+                let nb_lines = decompressor.nb_lines();
 
                 // catch errors nicely, simply log them
                 // it is normal to abort on final line for example
@@ -256,9 +257,15 @@ impl Record {
                             let recovered =
                                 from_utf8(&buf[..size]).map_err(|_| ParsingError::BadUtf8Crinex)?;
 
+                            // blanks are meaningful in the old V1 format (missing
+                            // observations): stick to the expected number of lines & columns
+                            let mut recovered = recovered.lines();
+
                             line_buf.clear();
-                            line_buf = recovered.to_string();
-                            line_buf.push('\n');
+                            for _ in 0..nb_lines {
+                                let line = recovered.next().unwrap_or_default();
+                                line_buf.push_str(&format!("{:80}\n", line));
+                            }
                         }
                     },
                     Err(_) => {
-- 
2.43.0


From 9d8541bcb5f6209f0421def9870e64c263bacb4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:02 +0000
Subject: [PATCH 15/32] fix: navigation: blank fields or trailing blanks
 shifted the orbital parameters, Galileo RINEX4 frames misread from SISA on

---
 db/NAV/orbits.json                  |  4 +--
 src/navigation/ephemeris/parsing.rs | 46 ++++++++++-------------------
 2 files changed, 17 insertions(+), 33 deletions(-)

diff --git a/db/NAV/orbits.json b/db/NAV/orbits.json
index 64f176e..c5609ce 100755
--- a/db/NAV/orbits.json
+++ b/db/NAV/orbits.json
@@ -364,11 +364,11 @@
             "idot": "f64",
             "dataSrc": "f64",
             "week": "u32",
+            "spare1": "xxxx",
             "sisa": "f64",
             "health": "health",
             "bgdE5aE1": "f64",
             "bgdE5bE1": "f64",
-            "spare3": "xxxx",
             "t_tm": "f64"
         }
     },
@@ -398,11 +398,11 @@
             "idot": "f64",
             "dataSrc": "f64",
             "week": "u32",
+            "spare1": "xxxx",
             "sisa": "f64",
             "health": "health",
             "bgdE5aE1": "f64",
             "bgdE5bE1": "f64",
-            "spare3": "xxxx",
             "t_tm": "f64"
         }
     },
diff --git a/src/navigation/ephemeris/parsing.rs b/src/navigation/ephemeris/parsing.rs
index 6729d82..d1dd647 100644
--- a/src/navigation/ephemeris/parsing.rs
+++ b/src/navigation/ephemeris/parsing.rs
@@ -34,60 +34,46 @@ fn parse_orbits(
 
     let fields = &nav_standards.items;
 
-    let mut key_index: usize = 0;
     let word_size: usize = 19;
     let mut map: HashMap<String, OrbitItem> = HashMap::new();
 
-    for line in lines {
-        // trim first few white spaces
-        let mut line: &str = match version.major < 3 {
-            true => &line[3..],
-            false => &line[4..],
-        };
-
-        let mut nb_missing = 4 - (line.len() / word_size);
-        // println!("LINE \"{}\" | NB MISSING {}", line, nb_missing); //DEBUG
+    // skip first few white spaces
+    let offset: usize = match version.major < 3 {
+        true => 3,
+        false => 4,
+    };
 
-        loop {
-            if line.is_empty() {
-                key_index += nb_missing;
-                break;
-            }
+    for (line_index, line) in lines.enumerate() {
+        // 4 fields per line: each one identified by its own columns,
+        // whether the others are omitted or not
+        for field_index in 0..4 {
+            let start = offset + field_index * word_size;
+            let end = std::cmp::min(start + word_size, line.len());
 
-            let (content, rem) = line.split_at(std::cmp::min(word_size, line.len()));
-            let content = content.trim();
+            let content = line.get(start..end).unwrap_or_default().trim();
             // println!("CONTENT \"{}\"", content); // DEBUG
 
             // handle omitted fields
             if content.is_empty() {
-                // omitted field
-                key_index += 1;
-                nb_missing = nb_missing.saturating_sub(1);
-                line = rem;
                 continue;
             }
 
             // zeros mean unresolved/unknown fields
             if content.starts_with("0.000000000000E+00") {
-                line = rem;
-                key_index += 1;
                 continue;
             }
 
             // zeros mean unresolved/unknown fields
             if content.starts_with("0.000000000000D+00") {
-                line = rem;
-                key_index += 1;
                 continue;
             }
 
-            if let Some((key, token)) = fields.get(key_index) {
+            if let Some((key, token)) = fields.get(line_index * 4 + field_index) {
                 //println!(
-                //    "Key \"{}\"(index: {}) | Token \"{}\" | Content \"{}\"",
+                //    "Key \"{}\" | Token \"{}\" | Content \"{}\"",
                 //    key,
-                //    key_index,
                 //    token,
-                //    content.trim()
+                //    content
                 //); //DEBUG
                 if !key.contains("spare") {
                     if let Ok(item) = OrbitItem::new(token, content, constell) {
@@ -96,8 +82,6 @@ fn parse_orbits(
                     }
                 }
             }
-            key_index += 1;
-            line = rem;
         }
     }
     Ok(map)
-- 
2.43.0


From 9b289dcd0939686a6e3ad258c1cbcf34f0e52190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:02 +0000
Subject: [PATCH 16/32] fix: RINEX4 ION/EOP/STO messages: D exponents rejected
 or read as zero

---
 src/navigation/earth_orientation.rs    | 23 +++++++++++------------
 src/navigation/ionosphere/bdgim.rs     | 21 ++++++++++-----------
 src/navigation/ionosphere/klobuchar.rs | 21 ++++++++++-----------
 src/navigation/ionosphere/nequick_g.rs | 11 +++++------
 src/navigation/mod.rs                  |  6 ++++++
 src/navigation/system_time.rs          | 11 +++++------
 6 files changed, 47 insertions(+), 46 deletions(-)

diff --git a/src/navigation/earth_orientation.rs b/src/navigation/earth_orientation.rs
index b78c038..6eb56c3 100644
--- a/src/navigation/earth_orientation.rs
+++ b/src/navigation/earth_orientation.rs
@@ -2,11 +2,10 @@
 
 use crate::{
     epoch::parse_in_timescale as parse_epoch_in_timescale,
+    navigation::parse_f64,
     prelude::{Epoch, ParsingError, TimeScale},
 };
 
-use std::str::FromStr;
-
 /// Earth Orientation Message
 #[derive(Debug, Clone, Default, PartialEq, PartialOrd)]
 #[cfg_attr(feature = "serde", derive(Serialize))]
@@ -43,23 +42,23 @@ impl EarthOrientation {
         let epoch = parse_epoch_in_timescale(epoch.trim(), ts)?;
 
         let x = (
-            f64::from_str(xp.trim()).unwrap_or(0.0_f64),
-            f64::from_str(dxp.trim()).unwrap_or(0.0_f64),
-            f64::from_str(ddxp.trim()).unwrap_or(0.0_f64),
+            parse_f64(xp).unwrap_or(0.0_f64),
+            parse_f64(dxp).unwrap_or(0.0_f64),
+            parse_f64(ddxp).unwrap_or(0.0_f64),
         );
 
         let y = (
-            f64::from_str(yp.trim()).unwrap_or(0.0_f64),
-            f64::from_str(dyp.trim()).unwrap_or(0.0_f64),
-            f64::from_str(ddyp.trim()).unwrap_or(0.0_f64),
+            parse_f64(yp).unwrap_or(0.0_f64),
+            parse_f64(dyp).unwrap_or(0.0_f64),
+            parse_f64(ddyp).unwrap_or(0.0_f64),
         );
 
-        let t_tm = f64::from_str(t_tm.trim()).unwrap_or(0.0_f64);
+        let t_tm = parse_f64(t_tm).unwrap_or(0.0_f64);
 
         let delta_ut1 = (
-            f64::from_str(dut.trim()).unwrap_or(0.0_f64),
-            f64::from_str(ddut.trim()).unwrap_or(0.0_f64),
-            f64::from_str(dddut.trim()).unwrap_or(0.0_f64),
+            parse_f64(dut).unwrap_or(0.0_f64),
+            parse_f64(ddut).unwrap_or(0.0_f64),
+            parse_f64(dddut).unwrap_or(0.0_f64),
         );
 
         Ok((
diff --git a/src/navigation/ionosphere/bdgim.rs b/src/navigation/ionosphere/bdgim.rs
index 140726b..12c08b8 100644
--- a/src/navigation/ionosphere/bdgim.rs
+++ b/src/navigation/ionosphere/bdgim.rs
@@ -1,10 +1,9 @@
 use crate::{
     epoch::parse_in_timescale as parse_epoch_in_timescale,
+    navigation::parse_f64,
     prelude::{Epoch, ParsingError, TimeScale},
 };
 
-use std::str::FromStr;
-
 /// BDGIM Model payload
 #[derive(Debug, Copy, Clone, Default, PartialEq, PartialOrd)]
 #[cfg_attr(feature = "serde", derive(Serialize))]
@@ -45,15 +44,15 @@ impl BdModel {
         let epoch = parse_epoch_in_timescale(epoch.trim(), ts)?;
 
         let alpha = (
-            f64::from_str(a0.trim()).map_err(|_| ParsingError::BdgimData)?,
-            f64::from_str(a1.trim()).map_err(|_| ParsingError::BdgimData)?,
-            f64::from_str(a2.trim()).map_err(|_| ParsingError::BdgimData)?,
-            f64::from_str(a3.trim()).map_err(|_| ParsingError::BdgimData)?,
-            f64::from_str(a4.trim()).map_err(|_| ParsingError::BdgimData)?,
-            f64::from_str(a5.trim()).map_err(|_| ParsingError::BdgimData)?,
-            f64::from_str(a6.trim()).map_err(|_| ParsingError::BdgimData)?,
-            f64::from_str(a7.trim()).map_err(|_| ParsingError::BdgimData)?,
-            f64::from_str(a8.trim()).map_err(|_| ParsingError::BdgimData)?,
+            parse_f64(a0).map_err(|_| ParsingError::BdgimData)?,
+            parse_f64(a1).map_err(|_| ParsingError::BdgimData)?,
+            parse_f64(a2).map_err(|_| ParsingError::BdgimData)?,
+            parse_f64(a3).map_err(|_| ParsingError::BdgimData)?,
+            parse_f64(a4).map_err(|_| ParsingError::BdgimData)?,
+            parse_f64(a5).map_err(|_| ParsingError::BdgimData)?,
+            parse_f64(a6).map_err(|_| ParsingError::BdgimData)?,
+            parse_f64(a7).map_err(|_| ParsingError::BdgimData)?,
+            parse_f64(a8).map_err(|_| ParsingError::BdgimData)?,
         );
 
         Ok((epoch, Self { alpha }))
diff --git a/src/navigation/ionosphere/klobuchar.rs b/src/navigation/ionosphere/klobuchar.rs
index 52707aa..33cb8ac 100644
--- a/src/navigation/ionosphere/klobuchar.rs
+++ b/src/navigation/ionosphere/klobuchar.rs
@@ -1,10 +1,9 @@
 use crate::{
     epoch::parse_in_timescale as parse_epoch_in_timescale,
+    navigation::parse_f64,
     prelude::{Epoch, ParsingError, TimeScale},
 };
 
-use std::str::FromStr;
-
 /// Klobuchar Parameters region
 #[derive(Debug, Copy, Clone, PartialEq, PartialOrd)]
 #[cfg_attr(feature = "serde", derive(Serialize))]
@@ -68,7 +67,7 @@ impl KbModel {
         let region: KbRegionCode = match region.trim().len() {
             0 => KbRegionCode::Worldwide,
             _ => {
-                if let Ok(f) = f64::from_str(region.trim()) {
+                if let Ok(f) = parse_f64(region) {
                     let code = f as u8;
                     if code == 1 {
                         KbRegionCode::Japan
@@ -83,16 +82,16 @@ impl KbModel {
 
         let epoch = parse_epoch_in_timescale(epoch.trim(), ts)?;
         let alpha = (
-            f64::from_str(a0.trim()).map_err(|_| ParsingError::KlobucharData)?,
-            f64::from_str(a1.trim()).map_err(|_| ParsingError::KlobucharData)?,
-            f64::from_str(a2.trim()).map_err(|_| ParsingError::KlobucharData)?,
-            f64::from_str(a3.trim()).map_err(|_| ParsingError::KlobucharData)?,
+            parse_f64(a0).map_err(|_| ParsingError::KlobucharData)?,
+            parse_f64(a1).map_err(|_| ParsingError::KlobucharData)?,
+            parse_f64(a2).map_err(|_| ParsingError::KlobucharData)?,
+            parse_f64(a3).map_err(|_| ParsingError::KlobucharData)?,
         );
         let beta = (
-            f64::from_str(b0.trim()).map_err(|_| ParsingError::KlobucharData)?,
-            f64::from_str(b1.trim()).map_err(|_| ParsingError::KlobucharData)?,
-            f64::from_str(b2.trim()).map_err(|_| ParsingError::KlobucharData)?,
-            f64::from_str(b3.trim()).map_err(|_| ParsingError::KlobucharData)?,
+            parse_f64(b0).map_err(|_| ParsingError::KlobucharData)?,
+            parse_f64(b1).map_err(|_| ParsingError::KlobucharData)?,
+            parse_f64(b2).map_err(|_| ParsingError::KlobucharData)?,
+            parse_f64(b3).map_err(|_| ParsingError::KlobucharData)?,
         );
 
         Ok((
diff --git a/src/navigation/ionosphere/nequick_g.rs b/src/navigation/ionosphere/nequick_g.rs
index 8980a78..4cd5c19 100644
--- a/src/navigation/ionosphere/nequick_g.rs
+++ b/src/navigation/ionosphere/nequick_g.rs
@@ -1,12 +1,11 @@
 use crate::{
     epoch::parse_in_timescale as parse_epoch_in_timescale,
+    navigation::parse_f64,
     prelude::{Epoch, ParsingError, TimeScale},
 };
 
 use bitflags::bitflags;
 
-use std::str::FromStr;
-
 bitflags! {
     #[derive(Debug, Default, Clone, Copy)]
     #[derive(PartialEq, PartialOrd)]
@@ -52,11 +51,11 @@ impl NgModel {
 
         let epoch = parse_epoch_in_timescale(epoch.trim(), ts)?;
         let a = (
-            f64::from_str(a0.trim()).map_err(|_| ParsingError::NequickGData)?,
-            f64::from_str(a1.trim()).map_err(|_| ParsingError::NequickGData)?,
-            f64::from_str(rem.trim()).map_err(|_| ParsingError::NequickGData)?,
+            parse_f64(a0).map_err(|_| ParsingError::NequickGData)?,
+            parse_f64(a1).map_err(|_| ParsingError::NequickGData)?,
+            parse_f64(rem).map_err(|_| ParsingError::NequickGData)?,
         );
-        let f = f64::from_str(line.trim()).map_err(|_| ParsingError::NequickGData)?;
+        let f = parse_f64(line).map_err(|_| ParsingError::NequickGData)?;
         Ok((
             epoch,
             Self {
diff --git a/src/navigation/mod.rs b/src/navigation/mod.rs
index f0e2e96..ab1e41a 100644
--- a/src/navigation/mod.rs
+++ b/src/navigation/mod.rs
@@ -42,6 +42,12 @@ use std::collections::BTreeMap;
 
 use crate::prelude::{Epoch, SV};
 
+/// Parses a floating point number, whether its exponent
+/// is described by an "E" or a "D" (FORTRAN style)
+pub(crate) fn parse_f64(content: &str) -> Result<f64, std::num::ParseFloatError> {
+    content.trim().replace(['D', 'd'], "E").parse::<f64>()
+}
+
 #[derive(Debug, Copy, Clone, PartialEq, PartialOrd, Eq, Ord, Hash)]
 #[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
 pub struct NavKey {
diff --git a/src/navigation/system_time.rs b/src/navigation/system_time.rs
index e7b66a1..5d8fdce 100644
--- a/src/navigation/system_time.rs
+++ b/src/navigation/system_time.rs
@@ -1,11 +1,10 @@
 // NAV V4 System Time Messages
-use std::str::FromStr;
-
 #[cfg(feature = "serde")]
 use serde::{Deserialize, Serialize};
 
 use crate::{
     epoch::parse_in_timescale as parse_epoch_in_timescale,
+    navigation::parse_f64,
     prelude::{Epoch, ParsingError, TimeScale},
 };
 
@@ -33,7 +32,7 @@ impl SystemTime {
         let (a0, rem) = line_2.split_at(23);
         let (a1, rem) = rem.split_at(19);
         let (a2, time) = rem.split_at(19);
-        let t_tm = f64::from_str(time.trim()).map_err(|_| ParsingError::SystemTimeData)?;
+        let t_tm = parse_f64(time).map_err(|_| ParsingError::SystemTimeData)?;
 
         Ok((
             epoch,
@@ -42,9 +41,9 @@ impl SystemTime {
                 system: system.trim().to_string(),
                 t_tm: t_tm as u32,
                 a: (
-                    f64::from_str(a0.trim()).map_err(|_| ParsingError::SystemTimeData)?,
-                    f64::from_str(a1.trim()).map_err(|_| ParsingError::SystemTimeData)?,
-                    f64::from_str(a2.trim()).map_err(|_| ParsingError::SystemTimeData)?,
+                    parse_f64(a0).map_err(|_| ParsingError::SystemTimeData)?,
+                    parse_f64(a1).map_err(|_| ParsingError::SystemTimeData)?,
+                    parse_f64(a2).map_err(|_| ParsingError::SystemTimeData)?,
                 ),
             },
         ))
-- 
2.43.0


From 7efbe21fde27591ba5804403ad5c533c869ed2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:07 +0000
Subject: [PATCH 17/32] fix: ephemeris selection: messages of the week's first
 instant were discarded, SBAS selection preferred the farthest publication to
 come

---
 src/navigation/ephemeris/mod.rs | 3 ++-
 src/navigation/rinex/feature.rs | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/navigation/ephemeris/mod.rs b/src/navigation/ephemeris/mod.rs
index c07d8ee..0cc2b20 100644
--- a/src/navigation/ephemeris/mod.rs
+++ b/src/navigation/ephemeris/mod.rs
@@ -92,7 +92,8 @@ impl Ephemeris {
     pub fn toe(&self, sv_ts: TimeScale) -> Option<Epoch> {
         // TODO: in CNAV V4 TOC is said to be TOE... ...
         let week = self.get_week()?;
-        let sec = self.get_orbit_f64("toe")?;
+        // null when published at the beginning of the week
+        let sec = self.get_orbit_f64("toe").unwrap_or(0.0);
         let week_dur = Duration::from_days((week * 7) as f64);
         let sec_dur = Duration::from_seconds(sec);
         match sv_ts {
diff --git a/src/navigation/rinex/feature.rs b/src/navigation/rinex/feature.rs
index adc51a1..45eafda 100644
--- a/src/navigation/rinex/feature.rs
+++ b/src/navigation/rinex/feature.rs
@@ -63,7 +63,7 @@ impl Rinex {
                         None
                     }
                 })
-                .min_by_key(|(toc, _, _)| t - *toc)
+                .min_by_key(|(toc, _, _)| (t - *toc).abs())
         } else {
             self.nav_ephemeris_frames_iter()
                 .filter_map(|(k, eph)| {
-- 
2.43.0


From d98538d63a80494bf03ce77b04fcf56ea1f174b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:29 +0000
Subject: [PATCH 18/32] fix: meteo: missing observations shifted the following
 ones, more than 8 observables, header with 8 or 9 observables, short lines

---
 src/meteo/formatting.rs | 13 +++++++--
 src/meteo/header.rs     |  6 ++--
 src/meteo/parsing.rs    | 62 ++++++++++++++++++++++++++---------------
 3 files changed, 53 insertions(+), 28 deletions(-)

diff --git a/src/meteo/formatting.rs b/src/meteo/formatting.rs
index 5daec45..ada3a72 100644
--- a/src/meteo/formatting.rs
+++ b/src/meteo/formatting.rs
@@ -2,7 +2,10 @@ use std::io::{BufWriter, Write};
 
 use crate::{
     epoch::format as format_epoch,
-    meteo::{MeteoKey, Record},
+    meteo::{
+        parsing::{NUM_OBS_FIRST_LINE, NUM_OBS_PER_LINE},
+        MeteoKey, Record,
+    },
     prelude::{FormattingError, Header, RinexType},
 };
 
@@ -27,7 +30,11 @@ pub fn format<W: Write>(
         )?;
 
         // follow header definitions
-        for observable in observables.codes.iter() {
+        for (nth, observable) in observables.codes.iter().enumerate() {
+            if nth >= NUM_OBS_FIRST_LINE && (nth - NUM_OBS_FIRST_LINE) % NUM_OBS_PER_LINE == 0 {
+                write!(w, "\n    ")?;
+            }
+
             let key = MeteoKey {
                 epoch,
                 observable: observable.clone(),
@@ -36,7 +43,7 @@ pub fn format<W: Write>(
             if let Some(observation) = record.get(&key) {
                 write!(w, "{:7.1}", observation)?;
             } else {
-                write!(w, "           ")?;
+                write!(w, "       ")?;
             }
         }
         write!(w, "{}", '\n')?;
diff --git a/src/meteo/header.rs b/src/meteo/header.rs
index 1e709c9..5bcacb8 100644
--- a/src/meteo/header.rs
+++ b/src/meteo/header.rs
@@ -40,13 +40,13 @@ impl HeaderFields {
             write!(w, "    {}", observable)?;
 
             if (nth % NUM_OBSERVABLES_PER_LINE) == NUM_OBSERVABLES_PER_LINE - 1 {
-                write!(w, "# / TYPES OF OBSERV\n      ")?;
+                writeln!(w, "# / TYPES OF OBSERV")?;
             }
 
             modulo = nth % NUM_OBSERVABLES_PER_LINE;
         }
 
-        if modulo != 7 {
+        if modulo != NUM_OBSERVABLES_PER_LINE - 1 {
             writeln!(
                 w,
                 "{:>width$}",
@@ -56,7 +56,7 @@ impl HeaderFields {
         }
 
         for sensor in self.sensors.iter() {
-            writeln!(w, "{}", sensor)?;
+            write!(w, "{}", sensor)?;
         }
 
         Ok(())
diff --git a/src/meteo/parsing.rs b/src/meteo/parsing.rs
index da97c91..c62a0da 100644
--- a/src/meteo/parsing.rs
+++ b/src/meteo/parsing.rs
@@ -3,24 +3,23 @@ use crate::{
     prelude::{Header, MeteoKey, ParsingError, Version},
 };
 
+/// Number of observations in the line that describes the [Epoch]
+pub(crate) const NUM_OBS_FIRST_LINE: usize = 8;
+
+/// Number of observations in each of the continuation lines
+pub(crate) const NUM_OBS_PER_LINE: usize = 10;
+
 /// Returns true if provided content matches the start of a new Meteo Epoch
 pub fn is_new_epoch(line: &str, v: Version) -> bool {
-    if v.major < 3 {
-        let min_len = " 15  1  1  0  0  0";
-        if line.len() < min_len.len() {
-            // minimum epoch descriptor
-            return false;
-        }
-        let datestr = &line[1..min_len.len()];
-        parse_utc_epoch(datestr).is_ok() // valid epoch descriptor
+    let min_len = if v.major < 3 {
+        " 15  1  1  0  0  0".len()
     } else {
-        let min_len = " 2021  1  7  0  0  0";
-        if line.len() < min_len.len() {
-            // minimum epoch descriptor
-            return false;
-        }
-        let datestr = &line[1..min_len.len()];
-        parse_utc_epoch(datestr).is_ok() // valid epoch descriptor
+        " 2021  1  7  0  0  0".len()
+    };
+
+    match line.get(1..min_len) {
+        Some(datestr) => parse_utc_epoch(datestr).is_ok(), // valid epoch descriptor
+        None => false,                                     // minimum epoch descriptor
     }
 }
 
@@ -28,8 +27,7 @@ pub fn is_new_epoch(line: &str, v: Version) -> bool {
 /// ## Input
 ///   - header: [Header] parsed previously
 ///   - content: readable content
-pub fn parse_epoch(header: &Header, line: &str) -> Result<Vec<(MeteoKey, f64)>, ParsingError> {
-    let line_len = line.len();
+pub fn parse_epoch(header: &Header, content: &str) -> Result<Vec<(MeteoKey, f64)>, ParsingError> {
     let mut ret = Vec::<(MeteoKey, f64)>::with_capacity(8);
 
     let mut offset: usize = 18; // YY
@@ -37,7 +35,17 @@ pub fn parse_epoch(header: &Header, line: &str) -> Result<Vec<(MeteoKey, f64)>,
         offset += 2; // YYYY
     }
 
-    let epoch = parse_utc_epoch(&line[0..offset])?;
+    let mut lines = content.lines();
+    let first = lines.next().unwrap_or_default();
+    let mut continuation = lines.collect::<Vec<_>>();
+    while continuation
+        .last()
+        .map_or(false, |line| line.trim().is_empty())
+    {
+        continuation.pop();
+    }
+
+    let epoch = parse_utc_epoch(first.get(..offset).ok_or(ParsingError::EpochFormat)?)?;
 
     let header = &header
         .meteo
@@ -47,9 +55,20 @@ pub fn parse_epoch(header: &Header, line: &str) -> Result<Vec<(MeteoKey, f64)>,
     let codes = &header.codes;
 
     // parse all remaining fields
-    for code in codes.iter() {
-        let end = (offset + 7).min(line_len - 1);
-        let slice = &line[offset..end];
+    for (nth, code) in codes.iter().enumerate() {
+        let (line, start) = if nth < NUM_OBS_FIRST_LINE || continuation.is_empty() {
+            (first, offset + nth * 7)
+        } else {
+            let nth = nth - NUM_OBS_FIRST_LINE;
+            match continuation.get(nth / NUM_OBS_PER_LINE) {
+                Some(line) => (*line, 4 + (nth % NUM_OBS_PER_LINE) * 7),
+                None => break, // omitted
+            }
+        };
+
+        let end = (start + 7).min(line.len());
+        let slice = line.get(start..end).unwrap_or_default();
+
         if let Ok(value) = slice.trim().parse::<f64>() {
             ret.push((
                 MeteoKey {
@@ -59,7 +78,6 @@ pub fn parse_epoch(header: &Header, line: &str) -> Result<Vec<(MeteoKey, f64)>,
                 value,
             ));
         }
-        offset += 7;
     }
     Ok(ret)
 }
-- 
2.43.0


From ac41a40dfdf563297cdfdde8ef66fe739772bd40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:41 +0000
Subject: [PATCH 19/32] fix: DORIS: station numbers resolved by position, more
 than one line of observables, missing values, clock offset columns, short
 lines

---
 src/doris/parsing.rs | 171 ++++++++++++++++++++-----------------------
 src/doris/station.rs |  23 +++---
 2 files changed, 93 insertions(+), 101 deletions(-)

diff --git a/src/doris/parsing.rs b/src/doris/parsing.rs
index 34b50c3..287103b 100644
--- a/src/doris/parsing.rs
+++ b/src/doris/parsing.rs
@@ -11,64 +11,54 @@ pub fn is_new_epoch(line: &str) -> bool {
     line.starts_with('>')
 }
 
+/// Number of observations per line
+const NUM_OBS_PER_LINE: usize = 5;
+
+/// Station descriptor, or blanks in continuation lines
+const STATION_WIDTH: usize = 3;
+
+const OBSERVABLE_WIDTH: usize = 14;
+
+/// Parses the observations contained in this line, the first one being that of
+/// the `obs_ptr`th observable.
 fn parse_observations(
     line: &str,
-    mut obs_ptr: usize,
+    obs_ptr: usize,
     station: &Station,
     observables: &[Observable],
-    numobs: usize,
     observations: &mut Observations,
-) -> Result<(), ParsingError> {
-    const OBSERVABLE_WIDTH: usize = 14;
-
-    let mut offset = 0;
-    let line_len = line.len();
-
-    loop {
-        let mut m1 = Option::<u8>::None;
-        let mut m2 = Option::<u8>::None;
-
-        if offset + OBSERVABLE_WIDTH + 1 < line_len {
-            let slice = &line[offset + OBSERVABLE_WIDTH..offset + OBSERVABLE_WIDTH + 1];
-            println!("flag : \"{}\"", slice);
-            if let Ok(flag) = slice.trim().parse::<u8>() {
-                m1 = Some(flag);
-            }
-        }
-
-        if offset + OBSERVABLE_WIDTH + 2 < line_len {
-            let slice = &line[offset + OBSERVABLE_WIDTH + 1..offset + OBSERVABLE_WIDTH + 2];
-            println!("flag : \"{}\"", slice);
-            if let Ok(flag) = slice.trim().parse::<u8>() {
-                m2 = Some(flag);
-            }
-        }
-
-        if offset + OBSERVABLE_WIDTH < line_len {
-            let slice = &line[offset..offset + OBSERVABLE_WIDTH];
-            println!("slice: \"{}\"", slice);
-            if let Ok(value) = slice.trim().parse::<f64>() {
-                let key = SignalKey {
-                    station: station.clone(),
-                    observable: observables[obs_ptr].clone(),
-                };
-
-                observations
-                    .signals
-                    .insert(key, SignalObservation { m1, m2, value });
-            }
-        }
-
-        offset += OBSERVABLE_WIDTH;
-        obs_ptr += 1;
-
-        if obs_ptr == numobs {
-            // abnormal content: abort and avoid overflowing
-            break;
+) {
+    let observables = observables.iter().skip(obs_ptr).take(NUM_OBS_PER_LINE);
+
+    for (nth, observable) in observables.enumerate() {
+        // value, m1 and m2 flags (possibly omitted at the end of the line)
+        let offset = STATION_WIDTH + nth * (OBSERVABLE_WIDTH + 2);
+
+        let slice = match line.get(offset..) {
+            Some(slice) => slice,
+            None => break,
+        };
+
+        let value_str = slice.get(..OBSERVABLE_WIDTH).unwrap_or(slice);
+
+        let flag = |index: usize| -> Option<u8> { slice.get(index..index + 1)?.parse().ok() };
+
+        if let Ok(value) = value_str.trim().parse::<f64>() {
+            let key = SignalKey {
+                station: station.clone(),
+                observable: observable.clone(),
+            };
+
+            observations.signals.insert(
+                key,
+                SignalObservation {
+                    m1: flag(OBSERVABLE_WIDTH),
+                    m2: flag(OBSERVABLE_WIDTH + 1),
+                    value,
+                },
+            );
         }
     }
-
-    Ok(())
 }
 
 /// Parse all DORIS measurements from forwarded content.
@@ -77,14 +67,12 @@ pub fn parse_epoch(
     header: &Header,
     content: &str,
 ) -> Result<(DorisKey, Observations), ParsingError> {
-    const EPOCH_SIZE: usize = "YYYY MM DD HH MM SS.NNNNNNNNN  0".len();
-    const CLOCK_OFFSET: usize = 26;
-    const CLOCK_SIZE: usize = 14;
-    const MIN_EPOCH_SIZE: usize = EPOCH_SIZE + CLOCK_SIZE + 2;
+    const EPOCH_SIZE: usize = "> YYYY MM DD HH MM SS.NNNNNNNNN".len();
+    const FLAG_OFFSET: usize = EPOCH_SIZE + 2;
+    const CLOCK_OFFSET: usize = FLAG_OFFSET + 1 + 3;
+    const CLOCK_SIZE: usize = 19;
 
     let mut obs_ptr = 0;
-    let flag = EpochFlag::default();
-
     let null_clock = ClockObservation::default();
 
     let mut station = Option::<Station>::None;
@@ -97,67 +85,70 @@ pub fn parse_epoch(
         .as_ref()
         .ok_or(ParsingError::MissingObservableDefinition)?;
 
-    let observables = &doris.observables;
-    let numobs = observables.len();
-
-    let stations = &doris.stations;
-
     // parse TAI timestamp
     let line = lines.next().ok_or(ParsingError::EmptyEpoch)?;
-    let line_len = line.len();
 
-    if line_len < MIN_EPOCH_SIZE {
-        return Err(ParsingError::EpochFormat);
-    }
+    let epoch_str = line.get(1..EPOCH_SIZE).ok_or(ParsingError::EpochFormat)?;
+    let epoch = parse_epoch_in_timescale(epoch_str, TimeScale::TAI)?;
 
-    let epoch = parse_epoch_in_timescale(&line[2..2 + EPOCH_SIZE], TimeScale::TAI)?;
+    let flag = line
+        .get(FLAG_OFFSET..FLAG_OFFSET + 1)
+        .ok_or(ParsingError::EpochFormat)?
+        .parse::<EpochFlag>()?;
 
     let key = DorisKey { epoch, flag };
 
-    // parse clock field
-    let offset_s = line[CLOCK_OFFSET..CLOCK_OFFSET + CLOCK_SIZE]
-        .trim()
-        .parse::<f64>()
-        .map_err(|_| ParsingError::DorisClockParsing)?;
-
-    observations.clock = ClockObservation::with_offset_s(&null_clock, epoch, offset_s);
+    // parse clock fields
+    let clock_str = line.get(CLOCK_OFFSET..).unwrap_or_default();
+    let (offset_str, extrapolated_str) = match clock_str.get(..CLOCK_SIZE) {
+        Some(offset_str) => (offset_str, &clock_str[CLOCK_SIZE..]),
+        None => (clock_str, ""),
+    };
 
-    // clock extrapolated ?
-    observations.clock_extrapolated = false;
+    if !offset_str.trim().is_empty() {
+        let offset_s = offset_str
+            .trim()
+            .parse::<f64>()
+            .map_err(|_| ParsingError::DorisClockParsing)?;
 
-    if line_len > CLOCK_OFFSET + CLOCK_SIZE {
-        if line[CLOCK_OFFSET + CLOCK_SIZE..].trim().eq("1") {
-            observations.clock_extrapolated = true;
-        }
+        observations.clock = ClockObservation::with_offset_s(&null_clock, epoch, offset_s);
     }
 
+    // clock extrapolated ?
+    observations.clock_extrapolated = extrapolated_str.trim().eq("1");
+
     // parse following stations
     for line in lines {
         if line.starts_with('D') {
             obs_ptr = 0;
 
             // station number
-            let station_num = line[1..]
+            let station_num = line
+                .get(1..STATION_WIDTH)
+                .unwrap_or_default()
                 .trim()
-                .parse::<usize>()
+                .parse::<u16>()
                 .map_err(|_| ParsingError::DorisStationFormat)?;
 
             // identify station
-            if let Some(s) = stations.get(station_num) {
-                station = Some(s.clone());
-            }
+            station = doris
+                .stations
+                .iter()
+                .find(|station| station.key == station_num)
+                .cloned();
         }
 
         if let Some(station) = &station {
             parse_observations(
-                &line[4..],
+                line,
                 obs_ptr,
-                &station,
-                observables,
-                numobs,
+                station,
+                &doris.observables,
                 &mut observations,
-            )?;
+            );
         }
+
+        obs_ptr += NUM_OBS_PER_LINE;
     }
 
     Ok((key, observations))
diff --git a/src/doris/station.rs b/src/doris/station.rs
index c176719..72a30f5 100644
--- a/src/doris/station.rs
+++ b/src/doris/station.rs
@@ -36,17 +36,18 @@ impl Station {
 impl std::str::FromStr for Station {
     type Err = ParsingError;
     fn from_str(content: &str) -> Result<Self, Self::Err> {
-        if content.len() < 40 {
-            return Err(ParsingError::DorisStationFormat);
-        }
+        let field = |start: usize, end: usize| -> Result<&str, ParsingError> {
+            content
+                .get(start..end)
+                .ok_or(ParsingError::DorisStationFormat)
+        };
 
-        let content = content.split_at(1).1;
-        let (key, rem) = content.split_at(4);
-        let (label, rem) = rem.split_at(5);
-        let (name, rem) = rem.split_at(30);
-        let (domes, rem) = rem.split_at(10);
-        let (gen, rem) = rem.split_at(3);
-        let (k_factor, _) = rem.split_at(3);
+        let key = field(1, 5)?;
+        let label = field(5, 10)?;
+        let name = field(10, 40)?;
+        let domes = field(40, 50)?;
+        let gen = field(50, 53)?;
+        let k_factor = field(53, content.len().min(56))?;
 
         Ok(Station {
             site: name.trim().to_string(),
@@ -72,7 +73,7 @@ impl std::fmt::Display for Station {
     fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
         write!(
             f,
-            "D{:02}  {} {:<29} {}  {}   {}",
+            "D{:02}  {:<4} {:<29} {} {:>2} {:>3}",
             self.key, self.label, self.site, self.domes, self.gen, self.k_factor
         )
     }
-- 
2.43.0


From 23309ce04a2be1197229f44968ab9583924197f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:41 +0000
Subject: [PATCH 20/32] fix: epochs: an invalid calendar date in a TEC map or
 CRINEX header panicked, CRINEX date formatting

---
 src/epoch.rs           |  3 ++-
 src/hatanaka/crinex.rs | 31 ++++++++++++++++++++-----------
 2 files changed, 22 insertions(+), 12 deletions(-)

diff --git a/src/epoch.rs b/src/epoch.rs
index 91e0a52..c3d09e1 100644
--- a/src/epoch.rs
+++ b/src/epoch.rs
@@ -235,7 +235,8 @@ pub(crate) fn parse_ionex_utc(s: &str) -> Result<Epoch, ParsingError> {
             _ => {},
         }
     }
-    Ok(Epoch::from_gregorian_utc(y, m, d, hh, mm, ss, 0))
+    let epoch = Epoch::maybe_from_gregorian_utc(y, m, d, hh, mm, ss, 0)?;
+    Ok(epoch)
 }
 
 /*
diff --git a/src/hatanaka/crinex.rs b/src/hatanaka/crinex.rs
index 9010148..05aed15 100644
--- a/src/hatanaka/crinex.rs
+++ b/src/hatanaka/crinex.rs
@@ -48,15 +48,15 @@ impl CRINEX {
             _ => "Dec",
         };
 
-        write!(w, "{}", self.prog)?;
-        write!(w, "{:<width$}", "", width = 40 - self.prog.len())?;
+        // 20 characters for the program name, then 20 blanks
+        write!(w, "{:<20.20}{:<20}", self.prog, "")?;
 
         writeln!(
             w,
-            "{:02}-{}-{} {:02}:{:02}     CRINEX PROG / DATE",
+            "{:02}-{}-{:02} {:02}:{:02}     CRINEX PROG / DATE",
             d,
             formatted_month,
-            y - 2000,
+            y.rem_euclid(100),
             hh,
             mm,
         )?;
@@ -91,9 +91,13 @@ impl CRINEX {
             return Err(ParsingError::HeaderLineTooShort);
         }
 
-        let (prog, rem) = prog_date.split_at(20);
-        let (_, rem) = rem.split_at(20);
-        let datetime_str = rem.split_at(20).0.trim();
+        let prog = prog_date
+            .get(..20)
+            .ok_or(ParsingError::HeaderLineTooShort)?;
+        let datetime_str = prog_date
+            .get(40..60)
+            .ok_or(ParsingError::HeaderLineTooShort)?
+            .trim();
 
         let mut i = 0;
         let mut year = 2000_i32; // CRINEX: Y2000
@@ -118,8 +122,9 @@ impl CRINEX {
                             },
                             2 => {
                                 year += parsed
-                                    .parse::<i32>()
-                                    .or(Err(ParsingError::DatetimeParsing))?;
+                                    .parse::<u16>()
+                                    .or(Err(ParsingError::DatetimeParsing))?
+                                    as i32;
                             },
                             _ => {},
                         }
@@ -153,7 +158,8 @@ impl CRINEX {
             return Err(ParsingError::DatetimeFormat);
         }
 
-        let epoch = Epoch::from_gregorian_utc(year, month, day, hour, mins, 0, 0);
+        let epoch = Epoch::maybe_from_gregorian_utc(year, month, day, hour, mins, 0, 0)
+            .or(Err(ParsingError::DatetimeParsing))?;
         let s = self.with_prog(prog.trim());
         let s = s.with_date(epoch);
         Ok(s)
@@ -182,7 +188,10 @@ impl std::str::FromStr for CRINEX {
                 if line.len() < 60 {
                     return Err(ParsingError::HeaderLineTooShort);
                 }
-                let vers = line.split_at(20).0.trim();
+                let vers = line
+                    .get(..20)
+                    .ok_or(ParsingError::HeaderLineTooShort)?
+                    .trim();
                 let version = Version::from_str(vers)?;
                 crinex = crinex.with_version(version);
             } else {
-- 
2.43.0


From 7575a1dba9ed3da643ce10a2be8cff52bbd82e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:58 +0000
Subject: [PATCH 21/32] fix: production: standard file names lost or misread
 attributes, malformed names panicked

---
 src/epoch.rs          |  5 +++
 src/lib.rs            | 79 ++++++++++++++++++++--------------------
 src/production/ffu.rs |  6 +++-
 src/production/mod.rs | 83 +++++++++++++++++--------------------------
 src/production/ppu.rs |  2 +-
 5 files changed, 84 insertions(+), 91 deletions(-)

diff --git a/src/epoch.rs b/src/epoch.rs
index c3d09e1..e748390 100644
--- a/src/epoch.rs
+++ b/src/epoch.rs
@@ -273,6 +273,11 @@ pub(crate) fn epoch_decompose(e: Epoch) -> (i32, u8, u8, u8, u8, u8, u32) {
     )
 }
 
+/// Day of year (January 1st is day 1), in the timescale of this [Epoch]
+pub(crate) fn day_of_year(epoch: Epoch) -> u32 {
+    epoch.duration_in_year().decompose().1 as u32 + 1
+}
+
 #[cfg(test)]
 mod test {
     use super::*;
diff --git a/src/lib.rs b/src/lib.rs
index 309b966..39a0aeb 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -95,7 +95,7 @@ use flate2::{read::GzDecoder, write::GzEncoder, Compression as GzCompression};
 #[cfg(feature = "clock")]
 use std::collections::BTreeMap;
 
-use epoch::epoch_decompose;
+use epoch::{day_of_year, epoch_decompose};
 use hatanaka::CRINEX;
 use observable::Observable;
 
@@ -491,7 +491,7 @@ impl Rinex {
                     Some(ref custom) => format!("{:03}", custom.doy),
                     None => {
                         if let Some(epoch) = self.first_epoch() {
-                            let ddd = epoch.day_of_year().round() as u32;
+                            let ddd = day_of_year(epoch);
                             format!("{:03}", ddd)
                         } else {
                             format!("{:03}", self.production.doy)
@@ -499,13 +499,13 @@ impl Rinex {
                     },
                 };
                 let yy = match &custom {
-                    Some(ref custom) => format!("{:02}", custom.year - 2_000),
+                    Some(ref custom) => format!("{:02}", custom.year % 100),
                     None => {
                         if let Some(epoch) = self.first_epoch() {
                             let yy = epoch_decompose(epoch).0;
-                            format!("{:02}", yy - 2_000)
+                            format!("{:02}", yy.rem_euclid(100))
                         } else {
-                            format!("{:02}", self.production.year - 2_000)
+                            format!("{:02}", self.production.year % 100)
                         }
                     },
                 };
@@ -520,7 +520,7 @@ impl Rinex {
                     Some(ref custom) => format!("{:03}", custom.doy),
                     None => {
                         if let Some(epoch) = self.first_epoch() {
-                            let ddd = epoch.day_of_year().round() as u32;
+                            let ddd = day_of_year(epoch);
                             format!("{:03}", ddd)
                         } else {
                             "DDD".to_string()
@@ -529,11 +529,11 @@ impl Rinex {
                 };
                 if short {
                     let yy = match &custom {
-                        Some(ref custom) => format!("{:02}", custom.year - 2_000),
+                        Some(ref custom) => format!("{:02}", custom.year % 100),
                         None => {
                             if let Some(epoch) = self.first_epoch() {
                                 let yy = epoch_decompose(epoch).0;
-                                format!("{:02}", yy - 2_000)
+                                format!("{:02}", yy.rem_euclid(100))
                             } else {
                                 "YY".to_string()
                             }
@@ -591,15 +591,19 @@ impl Rinex {
                         },
                     };
 
-                    let src = match &header.rcvr {
-                        Some(_) => 'R', // means GNSS rcvr
-                        None => {
-                            if let Some(details) = &self.production.v3_details {
-                                details.data_src.to_char()
-                            } else {
-                                'U' // means: unspecified
-                            }
-                        },
+                    let src = match &custom {
+                        Some(custom) => &custom.v3_details,
+                        None => &self.production.v3_details,
+                    };
+
+                    let src = src
+                        .as_ref()
+                        .map(|details| details.data_src)
+                        .unwrap_or_default();
+
+                    let src = match (src, &header.rcvr) {
+                        (DataSource::Unknown, Some(_)) => 'R', // means GNSS rcvr
+                        (src, _) => src.to_char(),
                     };
 
                     let yyyy = match &custom {
@@ -636,25 +640,21 @@ impl Rinex {
                     let ffu = match self.dominant_sampling_interval() {
                         Some(duration) => FFU::from(duration).to_string(),
                         None => {
-                            if let Some(ref custom) = custom {
-                                if let Some(details) = &custom.v3_details {
-                                    if let Some(ffu) = details.ffu {
-                                        ffu.to_string()
-                                    } else {
-                                        "XXX".to_string()
-                                    }
-                                } else {
-                                    "XXX".to_string()
-                                }
-                            } else {
-                                "XXX".to_string()
+                            let details = match &custom {
+                                Some(custom) => &custom.v3_details,
+                                None => &self.production.v3_details,
+                            };
+
+                            match details.as_ref().and_then(|details| details.ffu) {
+                                Some(ffu) => ffu.to_string(),
+                                None => "XXX".to_string(),
                             }
                         },
                     };
 
-                    // ffu only in OBS file names
+                    // ffu only in OBS and METEO file names
                     let ffu = match rinextype {
-                        RinexType::ObservationData => Some(ffu),
+                        RinexType::ObservationData | RinexType::MeteoData => Some(ffu),
                         _ => None,
                     };
 
@@ -676,13 +676,16 @@ impl Rinex {
                         },
                     };
 
+                    // data type: constellation (M: mixed) then file type
+                    let constell = match constellation {
+                        Some(Constellation::Mixed) | None => "M".to_string(),
+                        Some(constell) => format!("{:x}", constell),
+                    };
+
                     let fmt = match rinextype {
-                        RinexType::ObservationData => "MO".to_string(),
+                        RinexType::ObservationData => format!("{}O", constell),
                         RinexType::MeteoData => "MM".to_string(),
-                        RinexType::NavigationData => match constellation {
-                            Some(Constellation::Mixed) | None => "MN".to_string(),
-                            Some(constell) => format!("M{:x}", constell),
-                        },
+                        RinexType::NavigationData => format!("{}N", constell),
                         _ => unreachable!("unreachable fmt"),
                     };
 
@@ -723,14 +726,14 @@ impl Rinex {
 
         let first_epoch = self.first_epoch();
         let last_epoch = self.last_epoch();
-        let first_epoch_gregorian = first_epoch.map(|t0| t0.to_gregorian_utc());
+        let first_epoch_gregorian = first_epoch.map(epoch_decompose);
 
         match first_epoch_gregorian {
             Some((y, _, _, _, _, _, _)) => attributes.year = y as u32,
             _ => {},
         }
         match first_epoch {
-            Some(t0) => attributes.doy = t0.day_of_year().round() as u32,
+            Some(t0) => attributes.doy = day_of_year(t0),
             _ => {},
         }
 
diff --git a/src/production/ffu.rs b/src/production/ffu.rs
index bb21fc8..1092917 100644
--- a/src/production/ffu.rs
+++ b/src/production/ffu.rs
@@ -62,7 +62,11 @@ impl std::str::FromStr for FFU {
         if s.len() < 3 {
             return Err(Error::InvalidFFU);
         }
-        let val = s[..2].parse::<u32>().map_err(|_| Error::InvalidFFU)?;
+        let val = s
+            .get(..2)
+            .ok_or(Error::InvalidFFU)?
+            .parse::<u32>()
+            .map_err(|_| Error::InvalidFFU)?;
         let unit = match s.chars().nth(2) {
             Some('S') => Unit::Second,
             Some('M') => Unit::Minute,
diff --git a/src/production/mod.rs b/src/production/mod.rs
index 9b6f300..e998cef 100644
--- a/src/production/mod.rs
+++ b/src/production/mod.rs
@@ -112,7 +112,7 @@ impl ProductionAttributes {
             format!(
                 "{}{:02}{}_{}_{}{}{}{}_{}_{}_{}.{}",
                 name,
-                batch % 99,
+                batch % 100,
                 country,
                 src,
                 yyyy,
@@ -128,7 +128,7 @@ impl ProductionAttributes {
             format!(
                 "{}{:02}{}_{}_{}{}{}{}_{}_{}.{}",
                 name,
-                batch % 99,
+                batch % 100,
                 country,
                 src,
                 yyyy,
@@ -147,6 +147,17 @@ impl std::str::FromStr for ProductionAttributes {
     type Err = Error;
     fn from_str(fname: &str) -> Result<Self, Self::Err> {
         let fname = fname.to_uppercase();
+
+        let field = |start: usize, end: usize| -> Result<&str, Error> {
+            fname.get(start..end).ok_or(Error::NonStandardFileName)
+        };
+
+        let number = |start: usize, end: usize| -> Result<u32, Error> {
+            field(start, end)?
+                .parse::<u32>()
+                .map_err(|_| Error::NonStandardFileName)
+        };
+
         if fname.len() < 13 {
             let offset = fname.find('.').unwrap_or(0);
             if offset != 8 {
@@ -155,24 +166,22 @@ impl std::str::FromStr for ProductionAttributes {
 
             // determine type of RINEX first
             // because it determines how to parse the "name" field
-            let year = fname[offset + 1..offset + 3]
-                .parse::<u32>()
-                .map_err(|_| Error::NonStandardFileName)?;
+            let year = match number(offset + 1, offset + 3)? {
+                // two digit year in old format
+                yy @ 80..=99 => yy + 1_900,
+                yy => yy + 2_000,
+            };
 
-            let rtype = &fname[offset + 3..offset + 4];
+            let rtype = field(offset + 3, offset + 4)?;
             let name_offset = match rtype {
                 "I" => 3usize, // only 3 digits on IONEX
                 _ => 4usize,
             };
 
             Ok(Self {
-                year: year + 2_000, // year uses 2 digit in old format
-                name: fname[..name_offset].to_string(),
-                doy: {
-                    fname[4..7]
-                        .parse::<u32>()
-                        .map_err(|_| Error::NonStandardFileName)?
-                },
+                year,
+                name: field(0, name_offset)?.to_string(),
+                doy: number(4, 7)?,
                 region: match rtype {
                     "I" => fname.chars().nth(3),
                     _ => None,
@@ -185,48 +194,20 @@ impl std::str::FromStr for ProductionAttributes {
                 return Err(Error::NonStandardFileName);
             };
 
-            let year = fname[12..16]
-                .parse::<u32>()
-                .map_err(|_| Error::NonStandardFileName)?;
-
-            let batch = fname[5..6]
-                .parse::<u8>()
-                .map_err(|_| Error::NonStandardFileName)?;
-
-            // determine type of RINEX first
-            // because it determines how to parse the "name" field
-            let rtype = &fname[offset + 3..offset + 4];
-            let name_offset = match rtype {
-                "I" => 3usize, // only 3 digits on IONEX
-                _ => 4usize,
-            };
-
             Ok(Self {
-                year,
-                name: fname[..name_offset].to_string(),
-                doy: {
-                    fname[16..19]
-                        .parse::<u32>()
-                        .map_err(|_| Error::NonStandardFileName)?
-                },
+                year: number(12, 16)?,
+                name: field(0, 4)?.to_string(),
+                doy: number(16, 19)?,
                 region: None, // IONEX files only use a short format
                 v3_details: Some(DetailedProductionAttributes {
-                    batch,
-                    country: fname[6..9].to_string(),
-                    ppu: PPU::from_str(&fname[24..27])?,
-                    data_src: DataSource::from_str(&fname[10..11])?,
-                    hh: {
-                        fname[19..21]
-                            .parse::<u8>()
-                            .map_err(|_| Error::NonStandardFileName)?
-                    },
-                    mm: {
-                        fname[21..23]
-                            .parse::<u8>()
-                            .map_err(|_| Error::NonStandardFileName)?
-                    },
+                    batch: number(4, 6)? as u8,
+                    country: field(6, 9)?.to_string(),
+                    ppu: PPU::from_str(field(24, 27)?)?,
+                    data_src: DataSource::from_str(field(10, 11)?)?,
+                    hh: number(19, 21)? as u8,
+                    mm: number(21, 23)? as u8,
                     ffu: match offset {
-                        34 => Some(FFU::from_str(&fname[28..32])?),
+                        34 => Some(FFU::from_str(field(28, 32)?)?),
                         _ => None, // NAV FILE case
                     },
                 }),
diff --git a/src/production/ppu.rs b/src/production/ppu.rs
index 2017d3a..591d2ea 100644
--- a/src/production/ppu.rs
+++ b/src/production/ppu.rs
@@ -56,7 +56,7 @@ impl std::fmt::Display for PPU {
             Self::QuarterHour => write!(f, "15M"),
             Self::Hourly => write!(f, "01H"),
             Self::Daily => write!(f, "01D"),
-            Self::Yearly => write!(f, "O1Y"),
+            Self::Yearly => write!(f, "01Y"),
             Self::Unspecified => write!(f, "00U"),
         }
     }
-- 
2.43.0


From 00b004182f1d2ef3284a89484d20d13b5ccaa68d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:46 +0000
Subject: [PATCH 22/32] fix: phase_range_tracking_ok_iter dropped the phases
 marked OK, epoch_anomalies returned the valid epochs

---
 src/observation/rinex/feature.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/observation/rinex/feature.rs b/src/observation/rinex/feature.rs
index 0e659ba..4c509e2 100644
--- a/src/observation/rinex/feature.rs
+++ b/src/observation/rinex/feature.rs
@@ -169,7 +169,8 @@ impl Rinex {
     ) -> Box<dyn Iterator<Item = (Epoch, &SignalObservation)> + '_> {
         Box::new(self.phase_range_sampling_ok_iter().filter_map(|(k, sig)| {
             if let Some(lli) = sig.lli {
-                if lli.intersects(LliFlags::OK_OR_UNKNOWN) {
+                if lli.is_empty() {
+                    // OK or unknown
                     Some((k, sig))
                 } else {
                     None
@@ -248,7 +249,7 @@ impl Rinex {
     /// Returns an Iterator over [Epoch]s where abnormal sampling conditions were detected.
     /// Anomalies are described by the attached [EpochFlag] in each [ObsKey].
     pub fn epoch_anomalies(&self) -> Box<dyn Iterator<Item = &ObsKey> + '_> {
-        Box::new(self.observation_keys().filter(|k| k.flag.is_ok()))
+        Box::new(self.observation_keys().filter(|k| !k.flag.is_ok()))
     }
 
     /// Form designed signal [Combination] from all observed signals.
-- 
2.43.0


From 10e4bd46690676e77d0d141c244594437b29f8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:46 +0000
Subject: [PATCH 23/32] fix: signal combinations mixed signals of different
 epochs, missed epochs, and Melbourne-Wubbena mixed satellites

---
 src/observation/rinex/feature.rs | 145 ++++++++++++++-----------------
 1 file changed, 64 insertions(+), 81 deletions(-)

diff --git a/src/observation/rinex/feature.rs b/src/observation/rinex/feature.rs
index 4c509e2..fb59677 100644
--- a/src/observation/rinex/feature.rs
+++ b/src/observation/rinex/feature.rs
@@ -260,96 +260,79 @@ impl Rinex {
         let mut ret = BTreeMap::new();
 
         if combination == Combination::MelbourneWubbena {
-            for ((k_1, v_1), (_, v_2)) in self
-                .signals_combination(Combination::WideLane)
-                .iter()
-                .filter(|(k, _)| k.reference.is_phase_range_observable())
-                .zip(
-                    self.signals_combination(Combination::NarrowLane)
-                        .iter()
-                        .filter(|(k, _)| k.reference.is_pseudo_range_observable()),
-                )
-                .filter_map(|((k_1, v_1), (k_2, v_2))| {
-                    let lhs_1_code = k_1.lhs.code()?;
-                    let lhs_2_code = k_2.lhs.code()?;
-                    if lhs_1_code == lhs_2_code {
-                        Some(((k_1, v_1), (k_2, v_2)))
-                    } else {
-                        None
+            // narrow lane code combinations, by modulation
+            let mut codes = BTreeMap::new();
+            for (k, v) in self.signals_combination(Combination::NarrowLane) {
+                if k.reference.is_pseudo_range_observable() {
+                    if let Some(code) = k.lhs.code() {
+                        codes.entry((k.epoch, k.flag, k.sv, code)).or_insert(v);
                     }
-                })
-            {
-                let key = CombinationKey {
-                    epoch: k_1.epoch,
-                    flag: k_1.flag,
-                    sv: k_1.sv,
-                    lhs: k_1.lhs.clone(),
-                    reference: k_1.reference.clone(),
-                };
-                ret.insert(key, v_1 - v_2);
-            }
-        } else {
-            let dominant_sampling = if let Some(dt) = self.header.sampling_interval {
-                dt
-            } else {
-                if let Some(dt) = self.dominant_sampling_interval() {
-                    dt
-                } else {
-                    // can't proceed without sampling interval guess.
-                    return ret;
                 }
-            };
-
-            let mut pr_ref_value = HashMap::<SV, (Epoch, Observable, f64, f64, f64)>::new();
-            let mut phase_ref_value = HashMap::<SV, (Epoch, Observable, f64, f64, f64)>::new();
-
-            for (k, v) in self.signal_observations_iter() {
-                let is_phase_range = v.observable.is_phase_range_observable();
-                let is_pseudo_range = v.observable.is_pseudo_range_observable();
+            }
 
-                if !is_phase_range && !is_pseudo_range {
-                    continue;
+            for (k, v) in self.signals_combination(Combination::WideLane) {
+                if k.reference.is_phase_range_observable() {
+                    if let Some(code) = k.lhs.code() {
+                        // same signal at the same time
+                        if let Some(v_2) = codes.get(&(k.epoch, k.flag, k.sv, code)) {
+                            ret.insert(k, v - v_2);
+                        }
+                    }
                 }
+            }
+        } else {
+            for (k, obs) in self.observations_iter() {
+                for (i, v) in obs.signals.iter().enumerate() {
+                    let is_phase_range = v.observable.is_phase_range_observable();
+                    let is_pseudo_range = v.observable.is_pseudo_range_observable();
 
-                let is_l1_pivot = v.observable.is_l1_pivot(v.sv.constellation);
+                    if !is_phase_range && !is_pseudo_range {
+                        continue;
+                    }
 
-                let carrier = v.observable.carrier(v.sv.constellation);
-                if carrier.is_err() {
-                    continue;
-                }
+                    if v.observable.is_l1_pivot(v.sv.constellation) {
+                        continue;
+                    }
 
-                let carrier = carrier.unwrap();
-                let freq = carrier.frequency();
-                let lambda = carrier.wavelength();
+                    let carrier = v.observable.carrier(v.sv.constellation);
+                    if carrier.is_err() {
+                        continue;
+                    }
 
-                if is_l1_pivot {
-                    if is_phase_range {
-                        phase_ref_value
-                            .insert(v.sv, (k.epoch, v.observable.clone(), freq, lambda, v.value));
-                    } else {
-                        pr_ref_value
-                            .insert(v.sv, (k.epoch, v.observable.clone(), freq, lambda, v.value));
-                    };
-                } else {
-                    let reference = if is_phase_range {
-                        &phase_ref_value
-                    } else {
-                        &pr_ref_value
+                    let carrier = carrier.unwrap();
+                    let freq = carrier.frequency();
+                    let lambda = carrier.wavelength();
+
+                    // reference signal: same physics, same satellite, same time.
+                    // Preferably, the one that precedes.
+                    let is_reference = |sig: &&SignalObservation| {
+                        sig.sv == v.sv
+                            && sig.observable.is_phase_range_observable() == is_phase_range
+                            && sig.observable.is_l1_pivot(sig.sv.constellation)
                     };
 
-                    if let Some((last_seen, reference, f_1, w_1, ref_value)) = reference.get(&v.sv)
-                    {
-                        if k.epoch - *last_seen > dominant_sampling {
-                            // avoid moving forward on data gaps
-                            // guards against substraction (a - b) from two different epochs
+                    let reference = obs.signals[..i]
+                        .iter()
+                        .rev()
+                        .find(is_reference)
+                        .or_else(|| obs.signals[i..].iter().find(is_reference));
+
+                    if let Some(reference) = reference {
+                        let carrier = reference.observable.carrier(v.sv.constellation);
+                        if carrier.is_err() {
                             continue;
                         }
 
+                        let carrier = carrier.unwrap();
+                        let f_1 = carrier.frequency();
+                        let w_1 = carrier.wavelength();
+                        let ref_value = reference.value;
+
                         let alpha = match combination {
                             Combination::GeometryFree => 1.0,
                             Combination::IonosphereFree => f_1.powi(2),
-                            Combination::WideLane => *f_1,
-                            Combination::NarrowLane => *f_1,
+                            Combination::WideLane => f_1,
+                            Combination::NarrowLane => f_1,
                             Combination::MelbourneWubbena => {
                                 unreachable!("mw combination");
                             },
@@ -368,8 +351,8 @@ impl Rinex {
                         let gamma = match combination {
                             Combination::GeometryFree => 1.0,
                             Combination::IonosphereFree => f_1.powi(2) - freq.powi(2),
-                            Combination::WideLane => *f_1 - freq,
-                            Combination::NarrowLane => *f_1 + freq,
+                            Combination::WideLane => f_1 - freq,
+                            Combination::NarrowLane => f_1 + freq,
                             Combination::MelbourneWubbena => {
                                 unreachable!("mw combination");
                             },
@@ -378,16 +361,16 @@ impl Rinex {
                         let (v_lhs, v_rhs) = match combination {
                             Combination::GeometryFree => {
                                 if v.observable.is_phase_range_observable() {
-                                    (*ref_value * w_1, v.value * lambda)
+                                    (ref_value * w_1, v.value * lambda)
                                 } else {
-                                    (v.value, *ref_value)
+                                    (v.value, ref_value)
                                 }
                             },
                             _ => {
                                 if v.observable.is_phase_range_observable() {
-                                    (*ref_value * w_1, v.value * lambda)
+                                    (ref_value * w_1, v.value * lambda)
                                 } else {
-                                    (*ref_value, v.value)
+                                    (ref_value, v.value)
                                 }
                             },
                         };
@@ -397,7 +380,7 @@ impl Rinex {
                             flag: k.flag,
                             sv: v.sv,
                             lhs: v.observable.clone(),
-                            reference: reference.clone(),
+                            reference: reference.observable.clone(),
                         };
 
                         ret.insert(combination, (alpha * v_lhs + beta * v_rhs) / gamma);
-- 
2.43.0


From a071c07fea0a1a9ed527941cd93b54899f4e6089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:46 +0000
Subject: [PATCH 24/32] fix: observation_substract matched DORIS stations by
 their number in the file

---
 src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 39a0aeb..ef158ed 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1303,7 +1303,12 @@ impl Rinex {
                 for (k, v) in rec.iter_mut() {
                     if let Some(rhs) = rhs.get(&k) {
                         for (k, v) in v.signals.iter_mut() {
-                            if let Some(rhs) = rhs.signals.get(&k) {
+                            // stations may be numbered differently
+                            if let Some((_, rhs)) = rhs.signals.iter().find(|(k_rhs, _)| {
+                                k_rhs.observable == k.observable
+                                    && k_rhs.station.label == k.station.label
+                                    && k_rhs.station.domes == k.station.domes
+                            }) {
                                 v.value -= rhs.value;
                             }
                         }
-- 
2.43.0


From acaa19725f73dc56e3f870835f3e7db2509a9d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:47 +0000
Subject: [PATCH 25/32] fix: production: day of year of the last instants of a
 day

---
 src/epoch.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/epoch.rs b/src/epoch.rs
index e748390..af1082b 100644
--- a/src/epoch.rs
+++ b/src/epoch.rs
@@ -275,7 +275,9 @@ pub(crate) fn epoch_decompose(e: Epoch) -> (i32, u8, u8, u8, u8, u8, u32) {
 
 /// Day of year (January 1st is day 1), in the timescale of this [Epoch]
 pub(crate) fn day_of_year(epoch: Epoch) -> u32 {
-    epoch.duration_in_year().decompose().1 as u32 + 1
+    // (whole number of days: floating points would round the last instants of the day)
+    let nanos = epoch.duration_in_year().total_nanoseconds();
+    (nanos / (86_400 * 1_000_000_000)) as u32 + 1
 }
 
 #[cfg(test)]
-- 
2.43.0


From cad667b30413b11086e421c524dfb2c121582c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:23 +0000
Subject: [PATCH 26/32] fix: clock records: receiver clocks, exponents and
 continuation lines; modern header labels and lists

---
 src/clock/mod.rs      |  48 +++++----------
 src/clock/record.rs   | 138 +++++++++++++++---------------------------
 src/header/parsing.rs |  38 ++++++++----
 3 files changed, 90 insertions(+), 134 deletions(-)

diff --git a/src/clock/mod.rs b/src/clock/mod.rs
index 5b58c88..3a043dc 100644
--- a/src/clock/mod.rs
+++ b/src/clock/mod.rs
@@ -51,40 +51,20 @@ pub struct WorkClock {
 impl WorkClock {
     pub(crate) fn parse(version: Version, content: &str) -> Self {
         const LIMIT: Version = Version { major: 3, minor: 4 };
-        if version < LIMIT {
-            let (name, rem) = content.split_at(4);
-            let (domes, rem) = rem.split_at(36);
-            let constraint = rem.split_at(20).0;
-            Self {
-                name: name.trim().to_string(),
-                domes: if let Ok(domes) = DOMES::from_str(domes.trim()) {
-                    Some(domes)
-                } else {
-                    None
-                },
-                constraint: if let Ok(value) = constraint.trim().parse::<f64>() {
-                    Some(value)
-                } else {
-                    None
-                },
-            }
-        } else {
-            let (name, rem) = content.split_at(10);
-            let (domes, rem) = rem.split_at(10);
-            let constraint = rem.split_at(40).0;
-            Self {
-                name: name.trim().to_string(),
-                domes: if let Ok(domes) = DOMES::from_str(domes.trim()) {
-                    Some(domes)
-                } else {
-                    None
-                },
-                constraint: if let Ok(value) = constraint.trim().parse::<f64>() {
-                    Some(value)
-                } else {
-                    None
-                },
-            }
+        let field = |start: usize, end: usize| {
+            let end = end.min(content.len());
+            content.get(start..end).unwrap_or_default().trim()
+        };
+
+        let (name, domes, constraint) = match version < LIMIT {
+            true => (field(0, 4), field(5, 25), field(40, 60)),
+            false => (field(0, 10), field(10, 30), field(40, 65)),
+        };
+
+        Self {
+            name: name.to_string(),
+            domes: DOMES::from_str(domes).ok(),
+            constraint: constraint.replace(&['D', 'd'][..], "E").parse::<f64>().ok(),
         }
     }
 }
diff --git a/src/clock/record.rs b/src/clock/record.rs
index 6d58249..7bee961 100644
--- a/src/clock/record.rs
+++ b/src/clock/record.rs
@@ -139,11 +139,9 @@ pub type Record = BTreeMap<Epoch, BTreeMap<ClockKey, ClockProfile>>;
 
 pub(crate) fn is_new_epoch(line: &str) -> bool {
     // first 2 bytes match a ClockProfileType code
-    if line.len() < 3 {
-        false
-    } else {
-        let content = &line[..2];
-        ClockProfileType::from_str(content).is_ok()
+    match line.get(..2) {
+        Some(content) if line.len() > 2 => ClockProfileType::from_str(content).is_ok(),
+        _ => false,
     }
 }
 
@@ -159,102 +157,66 @@ pub(crate) fn parse_epoch(
     let line = lines.next().ok_or(ParsingError::EmptyEpoch)?;
 
     const LIMIT: Version = Version { major: 3, minor: 4 };
-    let (dtype, mut rem) = line.split_at(3);
-    let profile_type = ClockProfileType::from_str(dtype.trim())?;
-
-    let clock_type = match version < LIMIT {
-        true => {
-            // old revision
-            let (system_str, r) = rem.split_at(5);
-            rem = r;
-            if let Ok(svnn) = SV::from_str(system_str.trim()) {
-                ClockType::SV(svnn)
-            } else {
-                ClockType::Station(system_str.trim().to_string())
-            }
-        },
-        false => {
-            // modern revision
-            let (system_str, r) = rem.split_at(4);
-            if let Ok(svnn) = SV::from_str(system_str.trim()) {
-                let (_, r) = r.split_at(6);
-                rem = r;
-                ClockType::SV(svnn)
-            } else {
-                let mut content = system_str.to_owned();
-                let (remainder, r) = r.split_at(6);
-                rem = r;
-                content.push_str(remainder);
-                ClockType::Station(content.trim().to_string())
-            }
+
+    // station name field width depends on the revision
+    let name_width = match version < LIMIT {
+        true => 5,
+        false => 10,
+    };
+
+    let field = |start: usize, end: usize| line.get(start..end).ok_or(ParsingError::ClockProfile);
+
+    let profile_type = ClockProfileType::from_str(field(0, 3)?)?;
+
+    let name_end = 3 + name_width;
+    let name = field(3, name_end)?.trim();
+
+    let clock_type = match profile_type {
+        ClockProfileType::AS | ClockProfileType::MS => match SV::from_str(name) {
+            Ok(sv) => ClockType::SV(sv),
+            Err(_) => ClockType::Station(name.to_string()),
         },
+        // receiver clocks
+        _ => ClockType::Station(name.to_string()),
     };
 
     // Epoch: Y on 4 digits, even on RINEX2
     const OFFSET: usize = "yyyy mm dd hh mm sssssssssss".len();
 
-    let (epoch, rem) = rem.split_at(OFFSET);
-    let epoch = parse_epoch_in_timescale(epoch.trim(), ts)?;
+    let epoch_end = name_end + OFFSET;
+    let epoch = parse_epoch_in_timescale(field(name_end, epoch_end)?.trim(), ts)?;
 
-    // nb of data fields
-    let (_n, rem) = rem.split_at(4);
+    // nb of data fields: not trusted
+    let num_end = epoch_end + 4;
+    field(epoch_end, num_end)?;
+
+    // data fields: 2 on first line, 4 on the next one
+    let items = line[num_end..].split_ascii_whitespace().take(2).chain(
+        lines
+            .next()
+            .unwrap_or_default()
+            .split_ascii_whitespace()
+            .take(4),
+    );
 
-    // data fields
     let mut profile = ClockProfile::default();
 
-    for (index, item) in rem.split_ascii_whitespace().enumerate() {
+    for (index, item) in items.enumerate() {
+        let value = item
+            .replace(&['D', 'd'][..], "E")
+            .parse::<f64>()
+            .map_err(|_| ParsingError::ClockProfile)?;
+
         match index {
-            0 => {
-                profile.bias = item
-                    .trim()
-                    .parse::<f64>()
-                    .map_err(|_| ParsingError::ClockProfile)?;
-            },
-            1 => {
-                profile.bias_dev = Some(
-                    item.trim()
-                        .parse::<f64>()
-                        .map_err(|_| ParsingError::ClockProfile)?,
-                );
-            },
-            _ => {},
-        }
-    }
-    for line in lines {
-        for (index, item) in line.split_ascii_whitespace().enumerate() {
-            match index {
-                0 => {
-                    profile.drift = Some(
-                        item.trim()
-                            .parse::<f64>()
-                            .map_err(|_| ParsingError::ClockProfile)?,
-                    );
-                },
-                1 => {
-                    profile.drift_dev = Some(
-                        item.trim()
-                            .parse::<f64>()
-                            .map_err(|_| ParsingError::ClockProfile)?,
-                    );
-                },
-                2 => {
-                    profile.drift_change = Some(
-                        item.trim()
-                            .parse::<f64>()
-                            .map_err(|_| ParsingError::ClockProfile)?,
-                    );
-                },
-                3 => {
-                    profile.drift_change_dev = Some(
-                        item.trim()
-                            .parse::<f64>()
-                            .map_err(|_| ParsingError::ClockProfile)?,
-                    );
-                },
-                _ => {},
-            }
+            0 => profile.bias = value,
+            1 => profile.bias_dev = Some(value),
+            2 => profile.drift = Some(value),
+            3 => profile.drift_dev = Some(value),
+            4 => profile.drift_change = Some(value),
+            _ => profile.drift_change_dev = Some(value),
         }
     }
+
     Ok((
         epoch,
         ClockKey {
diff --git a/src/header/parsing.rs b/src/header/parsing.rs
index 58291ff..348be42 100644
--- a/src/header/parsing.rs
+++ b/src/header/parsing.rs
@@ -70,12 +70,22 @@ impl Header {
         let mut ionex = IonexHeaderFields::default();
         let mut doris = DorisHeader::default();
 
+        // labels start at column 60, except in modern Clock RINEX
+        let mut label_column = 60;
+
         for l in reader.lines() {
             let line = l.unwrap();
             if line.len() < 60 {
                 continue; // --> invalid header content
             }
-            let (content, marker) = line.split_at(60);
+            if line.find("RINEX VERSION / TYPE") == Some(65) {
+                label_column = 65;
+            }
+            let (content, marker) = if line.len() < label_column {
+                line.split_at(60)
+            } else {
+                line.split_at(label_column)
+            };
             ///////////////////////////////
             // [0] END OF HEADER
             //     --> done parsing
@@ -619,17 +629,17 @@ impl Header {
                 let ck = WorkClock::parse(version, content);
                 clock = clock.work_clock(ck);
             } else if marker.contains("# / TYPES OF DATA") {
-                let (n, r) = content.split_at(6);
-                let n = n.trim();
-                let n = n.parse::<u8>().or(Err(ParsingError::ClockTypeofData))?;
-
-                let mut rem = r;
-                for _ in 0..n {
-                    let (code, r) = rem.split_at(6);
-                    if let Ok(c) = ClockProfileType::from_str(code.trim()) {
+                let mut items = content.split_ascii_whitespace();
+
+                let n = items
+                    .next()
+                    .and_then(|item| item.parse::<usize>().ok())
+                    .ok_or(ParsingError::ClockTypeofData)?;
+
+                for code in items.take(n) {
+                    if let Ok(c) = ClockProfileType::from_str(code) {
                         clock.codes.push(c);
                     }
-                    rem = r;
                 }
             } else if marker.contains("STATION NAME / NUM") {
                 let (name, domes) = content.split_at(4);
@@ -808,8 +818,12 @@ impl Header {
                 //    time_corrections.insert(ts, (ts, corr));
                 //}
             } else if marker.contains("TIME SYSTEM ID") {
-                let timescale = content.trim();
-                let ts = TimeScale::from_str(timescale)?;
+                let ts = match content.trim() {
+                    "GLO" => TimeScale::UTC,
+                    "QZS" => TimeScale::QZSST,
+                    "BDT" => TimeScale::BDT,
+                    timescale => TimeScale::from_str(timescale)?,
+                };
                 clock = clock.timescale(ts);
             } else if marker.contains("DESCRIPTION") {
                 // IONEX description
-- 
2.43.0


From c4269a99e5637049dc03bf7dd453c5ff1fc54d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:23 +0000
Subject: [PATCH 27/32] fix: Linspace: whole number of steps, and neighbours of
 a value within the space

---
 src/linspace.rs | 69 ++++++++++++++++++++++++++++---------------------
 1 file changed, 39 insertions(+), 30 deletions(-)

diff --git a/src/linspace.rs b/src/linspace.rs
index ecc4f7b..72c3ff4 100644
--- a/src/linspace.rs
+++ b/src/linspace.rs
@@ -1,5 +1,3 @@
-use std::ops::Rem;
-
 use crate::prelude::ParsingError;
 
 /// Linear space as used in IONEX or Antenna grid definitions.
@@ -16,32 +14,31 @@ pub struct Linspace {
 }
 
 impl Linspace {
+    /// Tolerance on the number of steps (fraction of one step)
+    const STEP_TOLERANCE: f64 = 1.0E-6;
+
     /// Builds a new Linear space
     pub fn new(start: f64, end: f64, spacing: f64) -> Result<Self, ParsingError> {
         if start == end && spacing == 0.0 {
+            return Ok(Self {
+                start,
+                end,
+                spacing,
+            });
+        }
+
+        // spacing must lead from start to end, in whole number of steps
+        let steps = (end - start) / spacing;
+
+        if steps >= 0.0 && steps.is_finite() && (steps - steps.round()).abs() < Self::STEP_TOLERANCE
+        {
             Ok(Self {
                 start,
                 end,
                 spacing,
             })
         } else {
-            let r = end.rem(start);
-            /*
-             * End / Start must be multiple of one another
-             */
-            if r == 0.0 {
-                if end.rem(spacing) == 0.0 {
-                    Ok(Self {
-                        start,
-                        end,
-                        spacing,
-                    })
-                } else {
-                    Err(ParsingError::BadIonexGridSpecs)
-                }
-            } else {
-                Err(ParsingError::BadIonexGridSpecs)
-            }
+            Err(ParsingError::BadIonexGridSpecs)
         }
     }
 
@@ -55,23 +52,35 @@ impl Linspace {
         (self.end == self.start) && self.spacing == 0.0
     }
 
-    /// Returns nearest lower bound from point p in the [Linspace]
+    /// Returns nearest lower bound from point p in the [Linspace].
+    /// Returns None if p does not lie within this [Linspace].
     pub fn nearest_lower(&self, p: f64) -> Option<f64> {
-        let mut start = self.start;
-        while start < self.end {
-            if start > p {
-                return Some(start - self.spacing);
-            }
-            start += self.spacing;
+        let (low, high) = (self.start.min(self.end), self.start.max(self.end));
+
+        if !(low <= p && p <= high) {
+            return None;
+        }
+
+        let spacing = self.spacing.abs();
+
+        if spacing == 0.0 {
+            return Some(low);
         }
 
-        None
+        Some(low + ((p - low) / spacing + Self::STEP_TOLERANCE).floor() * spacing)
     }
 
-    /// Returns nearest lower bound from point p in the [Linspace]
+    /// Returns nearest upper bound from point p in the [Linspace].
+    /// Returns None if p does not lie within this [Linspace],
+    /// or no point of this [Linspace] lies above p.
     pub fn nearest_above(&self, p: f64) -> Option<f64> {
-        let lower = self.nearest_lower(p)?;
-        Some(lower + self.spacing)
+        let above = self.nearest_lower(p)? + self.spacing.abs();
+
+        if above > self.start.max(self.end) + Self::STEP_TOLERANCE * self.spacing.abs() {
+            None
+        } else {
+            Some(above)
+        }
     }
 }
 
-- 
2.43.0


From 82cd2a4df4cce1fb1876c9d8ebd5322d4586dac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:10 +0000
Subject: [PATCH 28/32] fix: IONEX: RMS maps, glued fields, scaling exponent
 and header fields

---
 src/header/parsing.rs  | 58 ++++++++++++++++---------------
 src/ionex/parsing.rs   | 77 +++++++++++++++++++++---------------------
 src/ionex/quantized.rs | 12 ++++++-
 src/ionex/system.rs    | 13 +++++--
 src/record/parsing.rs  | 15 ++++----
 5 files changed, 99 insertions(+), 76 deletions(-)

diff --git a/src/header/parsing.rs b/src/header/parsing.rs
index 348be42..4644cbc 100644
--- a/src/header/parsing.rs
+++ b/src/header/parsing.rs
@@ -558,8 +558,12 @@ impl Header {
 
                 observation.clock_offset_applied = n > 0;
             } else if marker.contains("# OF SATELLITES") {
-                // ---> we don't need this info,
-                //     user can determine it by analyzing the record
+                // OBS: we don't need this info,
+                //      user can determine it by analyzing the record
+                // IONEX: number of contributing satellites
+                if let Ok(u) = content.trim().parse::<u32>() {
+                    ionex = ionex.with_nb_satellites(u)
+                }
             } else if marker.contains("PRN / # OF OBS") {
                 // ---> we don't need this info,
                 //     user can determine it by analyzing the record
@@ -854,19 +858,20 @@ impl Header {
                 if let Ok(f) = f32::from_str(content.trim()) {
                     ionex = ionex.with_base_radius(f);
                 }
-            } else if marker.contains("MAPPING FUCTION") {
-                let mapf = IonexMappingFunction::from_str(content.trim())?;
-                ionex = ionex.with_mapping_function(mapf);
+            } else if marker.contains("MAPPING FUNCTION") {
+                // "NONE" when mapping function was not used
+                if let Ok(mapf) = IonexMappingFunction::from_str(content.trim()) {
+                    ionex = ionex.with_mapping_function(mapf);
+                }
+            } else if marker.contains("MAP DIMENSION") {
+                if let Ok(dimension) = content.trim().parse::<u8>() {
+                    ionex = ionex.with_map_dimension(dimension);
+                }
             } else if marker.contains("# OF STATIONS") {
                 // IONEX
                 if let Ok(u) = content.trim().parse::<u32>() {
                     ionex = ionex.with_nb_stations(u)
                 }
-            } else if marker.contains("# OF SATELLITES") {
-                // IONEX
-                if let Ok(u) = content.trim().parse::<u32>() {
-                    ionex = ionex.with_nb_satellites(u)
-                }
             /*
              * Initial TEC map scaling
              */
@@ -1075,24 +1080,23 @@ impl Header {
      * Parse IONEX grid
      */
     fn parse_grid(line: &str) -> Result<Linspace, ParsingError> {
-        let mut start = 0.0_f64;
-        let mut end = 0.0_f64;
-        let mut spacing = 0.0_f64;
-        for (index, item) in line.split_ascii_whitespace().enumerate() {
-            let item = item.trim();
-            match index {
-                0 => {
-                    start = f64::from_str(item).or(Err(ParsingError::IonexGridSpecs))?;
-                },
-                1 => {
-                    end = f64::from_str(item).or(Err(ParsingError::IonexGridSpecs))?;
-                },
-                2 => {
-                    spacing = f64::from_str(item).or(Err(ParsingError::IonexGridSpecs))?;
-                },
-                _ => {},
-            }
+        let mut items = line.split_ascii_whitespace().collect::<Vec<_>>();
+
+        if items.len() < 3 {
+            // fields (2X,3F6.1) are not separated when they occupy their entire width
+            items = [2..8, 8..14, 14..20]
+                .into_iter()
+                .filter_map(|range| line.get(range))
+                .collect();
         }
+
+        let mut values = [0.0_f64; 3];
+
+        for (value, item) in values.iter_mut().zip(items) {
+            *value = f64::from_str(item.trim()).or(Err(ParsingError::IonexGridSpecs))?;
+        }
+
+        let [start, end, spacing] = values;
         if spacing == 0.0 {
             // avoid linspace verification in this case
             Ok(Linspace {
diff --git a/src/ionex/parsing.rs b/src/ionex/parsing.rs
index a34f01d..cbfdfcd 100644
--- a/src/ionex/parsing.rs
+++ b/src/ionex/parsing.rs
@@ -23,38 +23,43 @@ pub fn is_new_height_map(line: &str) -> bool {
 /// - long_spacing [ddeg]
 /// - fixed_altitude [km]
 fn parse_grid_specs(line: &str) -> Result<(f64, f64, f64, f64), ParsingError> {
-    let (fixed_lat, rem) = line[2..].split_at(6);
-
-    let fixed_lat = fixed_lat
-        .trim()
-        .parse::<f64>()
-        .map_err(|_| ParsingError::IonexGridCoordinates)?;
-
-    let (long1, rem) = rem.split_at(6);
-
-    let long1 = long1
-        .trim()
-        .parse::<f64>()
-        .map_err(|_| ParsingError::IonexGridCoordinates)?;
+    let parse_field = |start: usize| -> Result<f64, ParsingError> {
+        line.get(start..start + 6)
+            .ok_or(ParsingError::IonexGridCoordinates)?
+            .trim()
+            .parse::<f64>()
+            .map_err(|_| ParsingError::IonexGridCoordinates)
+    };
 
+    let fixed_lat = parse_field(2)?;
+    let long1 = parse_field(8)?;
     // lon2 field is not used, we iterate using spacing starting @long1
-    let (_, rem) = rem.split_at(6);
-
-    let (long_spacing, rem) = rem.split_at(6);
+    let long_spacing = parse_field(20)?;
+    let fixed_alt = parse_field(26)?;
 
-    let long_spacing = long_spacing
-        .trim()
-        .parse::<f64>()
-        .map_err(|_| ParsingError::IonexGridCoordinates)?;
-
-    let (fixed_alt, _) = rem.split_at(6);
-
-    let fixed_alt = fixed_alt
-        .trim()
-        .parse::<f64>()
-        .map_err(|_| ParsingError::IonexGridCoordinates)?;
+    Ok((fixed_lat, long1, long_spacing, fixed_alt))
+}
 
-    return Ok((fixed_lat, long1, long_spacing, fixed_alt));
+/// Iterates the (right justified) values of a map line.
+/// Values that occupy their entire field are not separated by a blank.
+fn parse_map_values(line: &str) -> impl Iterator<Item = &str> + '_ {
+    const FIELD_WIDTH: usize = 5;
+
+    line.split_ascii_whitespace().flat_map(|item| {
+        let first = match item.len() % FIELD_WIDTH {
+            0 => FIELD_WIDTH,
+            remainder => remainder,
+        };
+
+        let mut start = 0;
+        let mut end = first;
+
+        std::iter::from_fn(move || {
+            let value = item.get(start..end)?;
+            (start, end) = (end, end + FIELD_WIDTH);
+            Some(value)
+        })
+    })
 }
 
 /// Parses all maps contained in following TEC description.
@@ -85,9 +90,7 @@ pub fn parse_tec_map(
     let mut long = 0.0_f64; // current longitude (pointer)
 
     for line in lines {
-        if line.len() > 60 {
-            let (content, marker) = line.split_at(60);
-
+        if let (Some(content), Some(marker)) = (line.get(..60), line.get(60..)) {
             // Handle special cases
             // * data scaler update
             // * Timestamp specs (Epoch)
@@ -115,9 +118,8 @@ pub fn parse_tec_map(
         }
 
         // proceed to parsing
-        for item in line.split_ascii_whitespace() {
+        for item in parse_map_values(line) {
             // data interpretation
-            let item = item.trim();
             if item != NON_AVAILABLE_TEC_KEYWORD {
                 if let Ok(tecu) = item.parse::<i64>() {
                     let tec = TEC::from_quantized(tecu, tec_exponent);
@@ -172,8 +174,7 @@ pub fn parse_rms_map(
     let mut long = 0.0_f64; // current longitude (pointer)
 
     for line in lines {
-        if line.len() > 60 {
-            let marker = line.split_at(60).1;
+        if let Some(marker) = line.get(60..) {
             if marker.contains("END OF RMS MAP") {
                 return Ok(());
             } else if marker.contains("EXPONENT") {
@@ -183,7 +184,7 @@ pub fn parse_rms_map(
                 continue; // avoid parsing
             } else if marker.contains("LAT/LON1/LON2/DLON/H") {
                 // gric specs (to follow)
-                (fixed_lat, long, long_spacing, fixed_alt) = parse_grid_specs(content)?;
+                (fixed_lat, long, long_spacing, fixed_alt) = parse_grid_specs(line)?;
                 continue; // avoid parsing
             } else if marker.contains("END OF RMS MAP") {
                 // block conclusion
@@ -193,9 +194,7 @@ pub fn parse_rms_map(
         }
 
         // proceed to parsing
-        for item in line.split_ascii_whitespace() {
-            let item = item.trim();
-
+        for item in parse_map_values(line) {
             if item != NON_AVAILABLE_TEC_KEYWORD {
                 if let Ok(rms_tecu) = item.parse::<i64>() {
                     let quantized_lat = Quantized::new(fixed_lat, lat_exponent);
diff --git a/src/ionex/quantized.rs b/src/ionex/quantized.rs
index 5c67cec..70b27a9 100644
--- a/src/ionex/quantized.rs
+++ b/src/ionex/quantized.rs
@@ -1,5 +1,7 @@
 //! IONEX Grid Quantization
 
+use crate::linspace::Linspace;
+
 #[cfg(feature = "serde")]
 use serde::{Deserialize, Serialize};
 
@@ -11,12 +13,15 @@ pub struct Quantized {
 }
 
 impl Quantized {
+    /// Largest exponent, in 10^x scaling.
+    const MAX_EXPONENT: i8 = 15;
+
     /// Determines best suited exponent to quantize given value
     pub fn find_exponent(value: f64) -> i8 {
         let mut val = value;
         let mut exponent = 0;
 
-        while val.fract() != 0.0 {
+        while val.fract() != 0.0 && exponent < Self::MAX_EXPONENT {
             val *= 10.0;
             exponent += 1;
         }
@@ -24,6 +29,11 @@ impl Quantized {
         exponent
     }
 
+    /// Determines best suited exponent to quantize any point of this [Linspace]
+    pub fn find_grid_exponent(grid: &Linspace) -> i8 {
+        Self::find_exponent(grid.start).max(Self::find_exponent(grid.spacing))
+    }
+
     /// Builds new [Quantized] value
     pub fn new(value: f64, exponent: i8) -> Self {
         let quantized = (value * 10.0_f64.powi(exponent as i32)).round() as i64;
diff --git a/src/ionex/system.rs b/src/ionex/system.rs
index 3c1f8e6..37e880d 100644
--- a/src/ionex/system.rs
+++ b/src/ionex/system.rs
@@ -54,7 +54,12 @@ impl std::str::FromStr for ObsSystem {
 
 impl std::fmt::Display for ObsSystem {
     fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
-        f.write_str(&self.to_string())
+        match self {
+            Self::BENt => f.write_str("BEN"),
+            Self::ENVisat => f.write_str("ENV"),
+            Self::ERS => f.write_str("ERS"),
+            Self::IRI => f.write_str("IRI"),
+        }
     }
 }
 
@@ -87,7 +92,11 @@ impl std::str::FromStr for Model {
 
 impl std::fmt::Display for Model {
     fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
-        f.write_str(&self.to_string())
+        match self {
+            Self::MIX => f.write_str("MIX"),
+            Self::NNS => f.write_str("NNS"),
+            Self::TOP => f.write_str("TOP"),
+        }
     }
 }
 
diff --git a/src/record/parsing.rs b/src/record/parsing.rs
index 648be40..8686363 100644
--- a/src/record/parsing.rs
+++ b/src/record/parsing.rs
@@ -179,9 +179,9 @@ impl Record {
 
         if let Some(ionex) = &header.ionex {
             ionex_tec_exponent = ionex.exponent;
-            ionex_lat_exponent = IonexQuantized::find_exponent(ionex.grid.latitude.spacing);
-            ionex_long_exponent = IonexQuantized::find_exponent(ionex.grid.longitude.spacing);
-            ionex_alt_exponent = IonexQuantized::find_exponent(ionex.grid.height.spacing);
+            ionex_lat_exponent = IonexQuantized::find_grid_exponent(&ionex.grid.latitude);
+            ionex_long_exponent = IonexQuantized::find_grid_exponent(&ionex.grid.longitude);
+            ionex_alt_exponent = IonexQuantized::find_grid_exponent(&ionex.grid.height);
         }
 
         // Iterate and consume, one line at a time
@@ -358,8 +358,9 @@ impl Record {
                         },
 
                         Type::IonosphereMaps => {
-                            if is_new_tec_map(&line_buf) {
-                                match parse_ionex_tec_map(
+                            // type of map is defined by the content we have buffered
+                            if is_new_rms_map(&epoch_buf) {
+                                match parse_ionex_rms_map(
                                     &epoch_buf,
                                     ionex_lat_exponent,
                                     ionex_long_exponent,
@@ -371,8 +372,8 @@ impl Record {
                                     Ok(()) => {},
                                     Err(_) => {},
                                 }
-                            } else if is_new_rms_map(&line_buf) {
-                                match parse_ionex_rms_map(
+                            } else if is_new_tec_map(&epoch_buf) && is_new_tec_map(&line_buf) {
+                                match parse_ionex_tec_map(
                                     &epoch_buf,
                                     ionex_lat_exponent,
                                     ionex_long_exponent,
-- 
2.43.0


From 9747fe1f8296da3a8e1d8a809b4dd9b281a0d762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:10 +0000
Subject: [PATCH 29/32] fix: headers: markers, coordinates, GLONASS channels,
 leap seconds and hardware survive a round trip

---
 src/hardware.rs          |   2 +-
 src/header/formatting.rs |  60 +++++++++++------------
 src/header/parsing.rs    | 103 ++++++++++++++++-----------------------
 src/leap.rs              |  70 +++++++++-----------------
 src/meteo/header.rs      |   9 +++-
 5 files changed, 100 insertions(+), 144 deletions(-)

diff --git a/src/hardware.rs b/src/hardware.rs
index 4436c7c..7b8561d 100644
--- a/src/hardware.rs
+++ b/src/hardware.rs
@@ -109,7 +109,7 @@ impl Antenna {
                 "{}",
                 fmt_rinex(
                     &format!("{:14.4}{:14.4}{:14.4}", coords.0, coords.1, coords.2),
-                    "APPROX POSITION XYZ"
+                    "ANTENNA: DELTA X/Y/Z"
                 )
             )?;
         }
diff --git a/src/header/formatting.rs b/src/header/formatting.rs
index e75727e..f8c9659 100644
--- a/src/header/formatting.rs
+++ b/src/header/formatting.rs
@@ -12,8 +12,6 @@ use std::io::{BufWriter, Write};
 impl Header {
     /// Formats [Header] into [Write]able interface, using efficient buffering.
     pub fn format<W: Write>(&self, w: &mut BufWriter<W>) -> Result<(), FormattingError> {
-        const NUM_GLO_CHANNELS_PER_LINE: usize = 8;
-
         if let Some(obs) = &self.obs {
             if let Some(crinex) = &obs.crinex {
                 crinex.format(w)?;
@@ -62,35 +60,7 @@ impl Header {
             leap.format(w)?;
         }
 
-        let num_channels = self.glo_channels.len();
-
-        if num_channels > 0 {
-            write!(w, "{:3} ", num_channels,)?;
-        }
-
-        let mut modulo = 0;
-        for (nth, (sv, channel)) in self.glo_channels.iter().enumerate() {
-            write!(w, "{:x} {:2} ", sv, channel,)?;
-
-            if nth == NUM_GLO_CHANNELS_PER_LINE - 1 {
-                write!(w, "GLONASS SLOT / FRQ #\n    ")?;
-            } else {
-                if (nth % NUM_GLO_CHANNELS_PER_LINE) == NUM_GLO_CHANNELS_PER_LINE - 1 {
-                    write!(w, "GLONASS SLOT / FRQ #\n    ")?;
-                }
-            }
-
-            modulo = nth % NUM_GLO_CHANNELS_PER_LINE;
-        }
-
-        if modulo > 0 && modulo != NUM_GLO_CHANNELS_PER_LINE - 1 {
-            writeln!(
-                w,
-                "{:>width$}",
-                "GLONASS SLOT / FRQ #",
-                width = 79 - 9 - (modulo + 1) * 6
-            )?;
-        }
+        self.format_glonass_channels(w)?;
 
         //TODO
         // things that could be nice to squeeze in:
@@ -289,6 +259,34 @@ impl Header {
         Ok(())
     }
 
+    /// Formats "GLONASS SLOT / FRQ #"
+    fn format_glonass_channels<W: Write>(
+        &self,
+        w: &mut BufWriter<W>,
+    ) -> Result<(), FormattingError> {
+        const NUM_GLO_CHANNELS_PER_LINE: usize = 8;
+
+        let mut channels = self.glo_channels.iter().collect::<Vec<_>>();
+        channels.sort();
+
+        for (nth, chunk) in channels.chunks(NUM_GLO_CHANNELS_PER_LINE).enumerate() {
+            let mut content = if nth == 0 {
+                format!("{:3} ", channels.len())
+            } else {
+                "    ".to_string()
+            };
+
+            for (sv, channel) in chunk {
+                content.push_str(&format!("{:x} {:2} ", sv, channel));
+            }
+
+            // a complete line has exactly 60 characters
+            writeln!(w, "{:<60}GLONASS SLOT / FRQ #", content)?;
+        }
+
+        Ok(())
+    }
+
     /// Formats all comments
     fn format_comments<W: Write>(&self, w: &mut BufWriter<W>) -> Result<(), FormattingError> {
         for comment in self.comments.iter() {
diff --git a/src/header/parsing.rs b/src/header/parsing.rs
index 4644cbc..117128d 100644
--- a/src/header/parsing.rs
+++ b/src/header/parsing.rs
@@ -258,6 +258,10 @@ impl Header {
                     Type::MeteoData | Type::DORIS => {
                         // no constellation associated to them
                     },
+                    Type::ObservationData if constell_str.is_empty() => {
+                        // old GPS OBSERVATION DATA
+                        constellation = Some(Constellation::GPS);
+                    },
                     _ => {
                         // any other
                         // regular files
@@ -294,19 +298,17 @@ impl Header {
                     date = Some(date_str.to_string());
                 }
             } else if marker.contains("MARKER NAME") {
-                let name = content.split_at(20).0.trim();
-                geodetic_marker = Some(GeodeticMarker::default().with_name(name));
+                let name = content.trim();
+                geodetic_marker = Some(geodetic_marker.unwrap_or_default().with_name(name));
             } else if marker.contains("MARKER NUMBER") {
                 let number = content.split_at(20).0.trim();
-                if let Some(ref mut marker) = geodetic_marker {
-                    *marker = marker.with_number(number);
-                }
+                geodetic_marker = Some(geodetic_marker.unwrap_or_default().with_number(number));
             } else if marker.contains("MARKER TYPE") {
                 let code = content.split_at(20).0.trim();
                 if let Ok(mtype) = MarkerType::from_str(code) {
-                    if let Some(ref mut marker) = geodetic_marker {
-                        marker.marker_type = Some(mtype);
-                    }
+                    let mut marker = geodetic_marker.unwrap_or_default();
+                    marker.marker_type = Some(mtype);
+                    geodetic_marker = Some(marker);
                 }
             } else if marker.contains("OBSERVER / AGENCY") {
                 let (obs, ag) = content.split_at(20);
@@ -476,29 +478,8 @@ impl Header {
             } else if marker.contains("WAVELENGTH FACT L1/2") {
                 //TODO
             } else if marker.contains("APPROX POSITION XYZ") {
-                let mut num_items = 0;
-                let (mut x_ecef_m, mut y_ecef_m, mut z_ecef_m) = (0.0_f64, 0.0_f64, 0.0_f64);
-
-                for (nth, item) in content.split_ascii_whitespace().enumerate() {
-                    if let Ok(ecef_m) = item.trim().parse::<f64>() {
-                        match nth {
-                            0 => {
-                                x_ecef_m = ecef_m;
-                            },
-                            1 => {
-                                y_ecef_m = ecef_m;
-                            },
-                            2 => {
-                                num_items = 3;
-                                z_ecef_m = ecef_m;
-                            },
-                            _ => {},
-                        }
-                    }
-                }
-
-                if num_items == 3 {
-                    rx_position = Some((x_ecef_m, y_ecef_m, z_ecef_m));
+                if let Some(position) = Self::parse_coordinates(content) {
+                    rx_position = Some(position);
                 }
             } else if marker.contains("ANT # / TYPE") {
                 let (sn, rem) = content.split_at(20);
@@ -511,16 +492,8 @@ impl Header {
                 );
             } else if marker.contains("ANTENNA: DELTA X/Y/Z") {
                 // Antenna Base/Reference Coordinates
-                let items: Vec<&str> = content.split_ascii_whitespace().collect();
-
-                let x = items[0].trim();
-                let x = f64::from_str(x).or(Err(ParsingError::AntennaCoordinates))?;
-
-                let y = items[1].trim();
-                let y = f64::from_str(y).or(Err(ParsingError::AntennaCoordinates))?;
-
-                let z = items[2].trim();
-                let z = f64::from_str(z).or(Err(ParsingError::AntennaCoordinates))?;
+                let (x, y, z) =
+                    Self::parse_coordinates(content).ok_or(ParsingError::AntennaCoordinates)?;
 
                 if let Some(ant) = &mut rcvr_antenna {
                     *ant = ant.with_base_coordinates((x, y, z));
@@ -529,27 +502,14 @@ impl Header {
                 }
             } else if marker.contains("ANTENNA: DELTA H/E/N") {
                 // Antenna H/E/N eccentricity components
-                let (h, rem) = content.split_at(15);
-                let (e, rem) = rem.split_at(15);
-                let (n, _) = rem.split_at(15);
-                if let Ok(h) = f64::from_str(h.trim()) {
-                    if let Ok(e) = f64::from_str(e.trim()) {
-                        if let Ok(n) = f64::from_str(n.trim()) {
-                            if let Some(a) = &mut rcvr_antenna {
-                                *a = a
-                                    .with_height(h)
-                                    .with_eastern_component(e)
-                                    .with_northern_component(n);
-                            } else {
-                                rcvr_antenna = Some(
-                                    Antenna::default()
-                                        .with_height(h)
-                                        .with_eastern_component(e)
-                                        .with_northern_component(n),
-                                );
-                            }
-                        }
-                    }
+                if let Some((h, e, n)) = Self::parse_coordinates(content) {
+                    rcvr_antenna = Some(
+                        rcvr_antenna
+                            .unwrap_or_default()
+                            .with_height(h)
+                            .with_eastern_component(e)
+                            .with_northern_component(n),
+                    );
                 }
             } else if marker.contains("RCV CLOCK OFFS APPL") {
                 let value = content.split_at(20).0.trim();
@@ -1076,6 +1036,25 @@ impl Header {
             .map_err(|_| ParsingError::DatetimeParsing)
     }
 
+    /// Parses three coordinates: 3F14.4 (possibly contiguous), or separated by whitespaces.
+    fn parse_coordinates(content: &str) -> Option<(f64, f64, f64)> {
+        let items = content.split_ascii_whitespace().collect::<Vec<_>>();
+        let (x, y, z) = if items.len() < 3 {
+            (
+                content.get(..14)?,
+                content.get(14..28)?,
+                content.get(28..42)?,
+            )
+        } else {
+            (items[0], items[1], items[2])
+        };
+        Some((
+            x.trim().parse::<f64>().ok()?,
+            y.trim().parse::<f64>().ok()?,
+            z.trim().parse::<f64>().ok()?,
+        ))
+    }
+
     /*
      * Parse IONEX grid
      */
diff --git a/src/leap.rs b/src/leap.rs
index fbceb84..3d182fb 100644
--- a/src/leap.rs
+++ b/src/leap.rs
@@ -32,14 +32,14 @@ impl Leap {
         if let Some(delta) = &self.delta_tls {
             write!(
                 w,
-                "{:6}{:6}{:6}{:6} ",
+                "{:6}{:6}{:6}{:6}",
                 self.leap,
                 delta,
                 self.week.unwrap_or(0),
                 self.day.unwrap_or(0),
             )?;
         } else {
-            write!(w, "{:6}                   ", self.leap,)?;
+            write!(w, "{:6}                  ", self.leap,)?;
         }
 
         if let Some(ts) = self.timescale {
@@ -48,7 +48,7 @@ impl Leap {
             write!(w, "   ")?;
         }
 
-        writeln!(w, "                                LEAP SECONDS")?;
+        writeln!(w, "                                 LEAP SECONDS")?;
 
         Ok(())
     }
@@ -83,53 +83,27 @@ impl std::str::FromStr for Leap {
     type Err = ParsingError;
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         // two formats exist
+        //  - simple / basic: counter only
+        //  - complete: counter, announced counter, week, day and possible timescale,
+        //    which may follow the day directly ("7GPS")
         let mut ls = Leap::default();
-        let items = s.split_ascii_whitespace().collect::<Vec<_>>();
-        let count = items.len();
 
-        if count < 3 {
-            // Simple / basic format
-            ls.leap = items[0].parse::<u32>().or(Err(ParsingError::LeapParsing))?;
-        } else {
-            // Complex / complete format
-            let (leap, rem) = s.split_at(5);
-            let (tls, rem) = rem.split_at(5);
-            let (week, rem) = rem.split_at(5);
-            let (day, rem) = rem.split_at(5);
-            let system = rem.trim();
-
-            ls.leap = leap
-                .trim()
-                .parse::<u32>()
-                .or(Err(ParsingError::LeapParsing))?;
-
-            let tls = tls
-                .trim()
-                .parse::<u32>()
-                .or(Err(ParsingError::LeapParsing))?;
-
-            ls.delta_tls = Some(tls);
-
-            let week = week
-                .trim()
-                .parse::<u32>()
-                .or(Err(ParsingError::LeapParsing))?;
-
-            ls.week = Some(week);
-
-            let day = day
-                .trim()
-                .parse::<u32>()
-                .or(Err(ParsingError::LeapParsing))?;
-
-            ls.day = Some(day);
-
-            if system.eq("") {
-                ls.timescale = None;
-            } else {
-                let ts = TimeScale::from_str(system)?;
-                ls.timescale = Some(ts);
-            }
+        let (counters, system) = match s.find(|c: char| c.is_ascii_alphabetic()) {
+            Some(pos) => (&s[..pos], s[pos..].trim()),
+            None => (s, ""),
+        };
+
+        let mut items = counters
+            .split_ascii_whitespace()
+            .map(|item| item.parse::<u32>().map_err(|_| ParsingError::LeapParsing));
+
+        ls.leap = items.next().ok_or(ParsingError::LeapParsing)??;
+        ls.delta_tls = items.next().transpose()?;
+        ls.week = items.next().transpose()?;
+        ls.day = items.next().transpose()?;
+
+        if !system.is_empty() {
+            ls.timescale = Some(TimeScale::from_str(system)?);
         }
 
         Ok(ls)
diff --git a/src/meteo/header.rs b/src/meteo/header.rs
index 5bcacb8..b1f177e 100644
--- a/src/meteo/header.rs
+++ b/src/meteo/header.rs
@@ -29,7 +29,12 @@ impl HeaderFields {
     pub(crate) fn format<W: Write>(&self, w: &mut BufWriter<W>) -> Result<(), FormattingError> {
         const NUM_OBSERVABLES_PER_LINE: usize = 9;
 
-        write!(w, "{:6}", self.codes.len())?;
+        if self.codes.is_empty() {
+            writeln!(w, "{:<60}# / TYPES OF OBSERV", "     0")?;
+        } else {
+            write!(w, "{:6}", self.codes.len())?;
+        }
+
         let mut modulo = 0;
 
         for (nth, observable) in self.codes.iter().enumerate() {
@@ -46,7 +51,7 @@ impl HeaderFields {
             modulo = nth % NUM_OBSERVABLES_PER_LINE;
         }
 
-        if modulo != NUM_OBSERVABLES_PER_LINE - 1 {
+        if !self.codes.is_empty() && modulo != NUM_OBSERVABLES_PER_LINE - 1 {
             writeln!(
                 w,
                 "{:>width$}",
-- 
2.43.0


From 6cfd7f155e3a77cec19bc8cfb4fd06627e4fa3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:57 +0000
Subject: [PATCH 30/32] fix: Linspace: length of inexact spacings, lookups in
 single point spaces, zero spacing

---
 src/header/parsing.rs | 12 +-----------
 src/linspace.rs       |  6 ++++--
 2 files changed, 5 insertions(+), 13 deletions(-)

diff --git a/src/header/parsing.rs b/src/header/parsing.rs
index 117128d..b1571fe 100644
--- a/src/header/parsing.rs
+++ b/src/header/parsing.rs
@@ -1076,17 +1076,7 @@ impl Header {
         }
 
         let [start, end, spacing] = values;
-        if spacing == 0.0 {
-            // avoid linspace verification in this case
-            Ok(Linspace {
-                start,
-                end,
-                spacing,
-            })
-        } else {
-            let grid = Linspace::new(start, end, spacing)?;
-            Ok(grid)
-        }
+        Linspace::new(start, end, spacing)
     }
 
     /// Parse list of [Observable]s which applies to both METEO and OBS RINEX
diff --git a/src/linspace.rs b/src/linspace.rs
index 72c3ff4..184bb3b 100644
--- a/src/linspace.rs
+++ b/src/linspace.rs
@@ -44,7 +44,7 @@ impl Linspace {
 
     /// Returns grid length, in terms of data points
     pub fn length(&self) -> usize {
-        (self.end / self.spacing).floor() as usize
+        (self.end / self.spacing + Self::STEP_TOLERANCE).floor() as usize
     }
 
     /// Returns true if self is a single point space
@@ -76,7 +76,9 @@ impl Linspace {
     pub fn nearest_above(&self, p: f64) -> Option<f64> {
         let above = self.nearest_lower(p)? + self.spacing.abs();
 
-        if above > self.start.max(self.end) + Self::STEP_TOLERANCE * self.spacing.abs() {
+        if self.is_single_point()
+            || above > self.start.max(self.end) + Self::STEP_TOLERANCE * self.spacing.abs()
+        {
             None
         } else {
             Some(above)
-- 
2.43.0


From dfcf8be29bebfc2fadf79e7aca12cdab32a05e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:10 +0000
Subject: [PATCH 31/32] fix: ANTEX: validity, phase patterns, frequencies,
 serial numbers and malformed antennas

---
 src/antex/antenna/mod.rs |   2 +-
 src/antex/record.rs      | 172 ++++++++++++++++++++++++---------------
 src/carrier.rs           |  16 ++--
 src/lib.rs               |   8 +-
 src/record/parsing.rs    |   5 +-
 5 files changed, 127 insertions(+), 76 deletions(-)

diff --git a/src/antex/antenna/mod.rs b/src/antex/antenna/mod.rs
index 97ab315..2b3f991 100644
--- a/src/antex/antenna/mod.rs
+++ b/src/antex/antenna/mod.rs
@@ -82,7 +82,7 @@ impl Antenna {
     /// and should only consider recently calibrated data.
     pub fn is_valid(&self, now: Epoch) -> bool {
         if let Some((from, until)) = self.calibration.validity_period {
-            now > from && now < until
+            now >= from && now <= until
         } else {
             true
         }
diff --git a/src/antex/record.rs b/src/antex/record.rs
index 2622f2b..d25db6d 100644
--- a/src/antex/record.rs
+++ b/src/antex/record.rs
@@ -1,5 +1,7 @@
 use std::{collections::HashMap, str::FromStr};
 
+use gnss_rs::cospar::Error as CosparError;
+
 use crate::{
     antex::{Antenna, AntennaSpecific, Calibration, CalibrationMethod, RxAntenna, SvAntenna},
     linspace::Linspace,
@@ -14,7 +16,7 @@ use serde::Serialize;
 /// this is not really an epoch but rather a group of dataset
 /// for this given antenna, there is no sampling data attached to it.
 pub(crate) fn is_new_epoch(content: &str) -> bool {
-    content.contains("START OF ANTENNA")
+    content.trim_end().ends_with("START OF ANTENNA")
 }
 
 /// Phase pattern description.
@@ -121,11 +123,12 @@ fn parse_datetime(content: &str) -> Result<Epoch, ParsingError> {
         .parse::<u8>()
         .map_err(|_| ParsingError::DatetimeParsing)?;
 
-    Ok(Epoch::from_gregorian_utc_at_midnight(
-        2000 + year,
-        month,
-        day,
-    ))
+    let year = year
+        .checked_add(2000)
+        .ok_or(ParsingError::DatetimeParsing)?;
+
+    Epoch::maybe_from_gregorian_utc(year, month, day, 0, 0, 0, 0)
+        .map_err(|_| ParsingError::DatetimeParsing)
 }
 
 /*
@@ -170,19 +173,60 @@ fn parse_validity_epoch(content: &str) -> Result<Epoch, ParsingError> {
             .parse::<u8>()
             .map_err(|_| ParsingError::DatetimeParsing)?;
 
-        nanos = ss[dot + 1..]
-            .trim()
-            .parse::<u32>()
-            .map_err(|_| ParsingError::DatetimeParsing)?;
+        // fraction of a second, down to the nanosecond
+        let fraction = ss[dot + 1..].trim();
+        if !fraction.bytes().all(|b| b.is_ascii_digit()) {
+            return Err(ParsingError::DatetimeParsing);
+        }
+
+        for digit in fraction.bytes().chain(std::iter::repeat(b'0')).take(9) {
+            nanos = nanos * 10 + u32::from(digit - b'0');
+        }
     } else {
         secs = ss
             .parse::<u8>()
             .map_err(|_| ParsingError::DatetimeParsing)?;
     }
 
-    Ok(Epoch::from_gregorian_utc(
-        year, month, day, hh, mm, secs, nanos,
-    ))
+    Epoch::maybe_from_gregorian_utc(year, month, day, hh, mm, secs, nanos)
+        .map_err(|_| ParsingError::DatetimeParsing)
+}
+
+/// Content of the columns `from..to`, empty if this line does not hold them
+fn columns(line: &str, from: usize, to: usize) -> &str {
+    line.get(from..to).unwrap_or_default().trim()
+}
+
+/// Parses [SV] or frequency code
+fn parse_sv(content: &str) -> Result<SV, ParsingError> {
+    if content.is_empty() || !content.is_ascii() {
+        return Err(ParsingError::AntexFrequency);
+    }
+    Ok(SV::from_str(content)?)
+}
+
+/// Parses [COSPAR] number, like "1992-079A"
+fn parse_cospar(content: &str) -> Result<COSPAR, ParsingError> {
+    if !content.is_ascii() || content.get(4..5) != Some("-") {
+        return Err(ParsingError::COSPAR(CosparError::InvalidFormat));
+    }
+    Ok(COSPAR::from_str(content)?)
+}
+
+/// Parses the values of a phase pattern line, which follow an 8 column designator
+fn parse_pattern(line: &str) -> Result<Vec<f64>, ParsingError> {
+    let values = line.trim_end().get(8..).unwrap_or_default();
+
+    values
+        .as_bytes()
+        .chunks(8)
+        .map(|value| {
+            std::str::from_utf8(value)
+                .ok()
+                .and_then(|value| value.trim().parse::<f64>().ok())
+                .ok_or(ParsingError::AntexFrequency)
+        })
+        .collect()
 }
 
 /// Parses entire Antenna block
@@ -193,27 +237,31 @@ pub(crate) fn parse_antenna(
     let lines = content.lines();
     let mut antenna = Antenna::default();
     let mut inner = HashMap::<Carrier, FrequencyDependentData>::new();
-    let mut frequency = Carrier::default();
+    let mut frequency = Option::<Carrier>::None;
     let mut freq_data = FrequencyDependentData::default();
-    let mut valid_from = Epoch::default();
+
+    // validity boundaries: unbounded when not specified
+    let mut valid_from = Option::<Epoch>::None;
+    let mut valid_until = Option::<Epoch>::None;
 
     for line in lines {
-        let (content, marker) = line.split_at(60);
+        let (content, marker) = match (line.get(..60), line.get(60..)) {
+            (Some(content), Some(marker)) => (content, marker),
+            _ => (line, ""),
+        };
         if marker.contains("TYPE / SERIAL NO") {
-            let (ant_igs, rem) = content.split_at(16); // IGS V.1.4 does not follow the specs ?
-            let (block1, rem) = rem.split_at(20 + 4);
-            let (block2, rem) = rem.split_at(10);
-            let (block3, _rem) = rem.split_at(10);
-
-            let (block1, block2, block3) = (block1.trim(), block2.trim(), block3.trim());
+            let ant_igs = columns(content, 0, 16); // IGS V.1.4 does not follow the specs ?
+            let block1 = columns(content, 16, 40);
+            let block2 = columns(content, 40, 50);
+            let block3 = columns(content, 50, 60);
             /*
              * SV/RX antenna determination
              */
             let specificities = match block2.is_empty() && block3.is_empty() {
                 false => AntennaSpecific::SvAntenna(SvAntenna {
                     igs_type: ant_igs.trim().to_string(),
-                    sv: SV::from_str(block1)?,
-                    cospar: COSPAR::from_str(block3)?,
+                    sv: parse_sv(block1)?,
+                    cospar: parse_cospar(block3)?,
                 }),
                 true => AntennaSpecific::RxAntenna(RxAntenna {
                     igs_type: ant_igs.trim().to_string(),
@@ -228,13 +276,13 @@ pub(crate) fn parse_antenna(
             };
             antenna = antenna.with_specificities(specificities);
         } else if marker.contains("METH / BY / # / DATE") {
-            let (method, rem) = content.split_at(20);
-            let (agency, rem) = rem.split_at(20);
-            let (number, rem) = rem.split_at(10); // N#
-            let (date, _) = rem.split_at(10);
+            let method = columns(content, 0, 20);
+            let agency = columns(content, 20, 40);
+            let number = columns(content, 40, 50); // N#
+            let date = columns(content, 50, 60);
 
             let cal = Calibration {
-                method: CalibrationMethod::from_str(method.trim()).unwrap(),
+                method: CalibrationMethod::from_str(method)?,
                 number: number
                     .trim()
                     .parse::<u16>()
@@ -246,67 +294,48 @@ pub(crate) fn parse_antenna(
 
             antenna.calibration = cal.clone();
         } else if marker.contains("VALID FROM") {
-            valid_from = parse_validity_epoch(content.trim())?;
+            valid_from = Some(parse_validity_epoch(content.trim())?);
         } else if marker.contains("VALID UNTIL") {
-            let valid_until = parse_validity_epoch(content.trim())?;
-
-            antenna = antenna.with_validity_period(valid_from, valid_until);
+            valid_until = Some(parse_validity_epoch(content.trim())?);
         } else if marker.contains("SINEX CODE") {
-            let sinex = content.split_at(20).0;
-
-            antenna.sinex_code = sinex.trim().to_string();
+            antenna.sinex_code = columns(content, 0, 20).to_string();
         } else if marker.contains("DAZI") {
-            //let dazi = content.split_at(20).0.trim();
-            //if let Ok(dazi) = f64::from_str(dazi) {
-            //    antenna = antenna.with_dazi(dazi)
-            //}
+            if let Ok(dazi) = columns(content, 0, 20).parse::<f64>() {
+                antenna = antenna.with_dazi(dazi);
+            }
         } else if marker.contains("# OF FREQUENCIES") {
             /*
              * we actually do not care about this field
              * it is easy to determine it from the current infrastructure
              */
         } else if marker.contains("START OF FREQUENCY") {
-            let svnn = content.split_at(10).0;
-            let sv = SV::from_str(svnn.trim())?;
-            frequency = Carrier::from_sv(sv)?;
+            let sv = parse_sv(columns(content, 0, 10))?;
+            frequency = Carrier::from_sv(sv).ok();
+            freq_data = FrequencyDependentData::default();
         } else if marker.contains("NORTH / EAST / UP") {
-            let (north, rem) = content.split_at(10);
-            let (east, rem) = rem.split_at(10);
-            let (up, _) = rem.split_at(10);
-
-            let north = north
-                .trim()
+            let north = columns(content, 0, 10)
                 .parse::<f64>()
                 .map_err(|_| ParsingError::AntexAPCCoordinates)?;
 
-            let east = east
-                .trim()
+            let east = columns(content, 10, 20)
                 .parse::<f64>()
                 .map_err(|_| ParsingError::AntexAPCCoordinates)?;
 
-            let up = up
-                .trim()
+            let up = columns(content, 20, 30)
                 .parse::<f64>()
                 .map_err(|_| ParsingError::AntexAPCCoordinates)?;
 
             freq_data.apc_eccentricity = (north, east, up);
         } else if marker.contains("ZEN1 / ZEN2 / DZEN") {
-            let (start, rem) = content.split_at(8);
-            let (end, rem) = rem.split_at(6);
-            let (spacing, _) = rem.split_at(6);
-
-            let start = start
-                .trim()
+            let start = columns(content, 0, 8)
                 .parse::<f64>()
                 .map_err(|_| ParsingError::AntexZenithGrid)?;
 
-            let end = end
-                .trim()
+            let end = columns(content, 8, 14)
                 .parse::<f64>()
                 .map_err(|_| ParsingError::AntexZenithGrid)?;
 
-            let spacing = spacing
-                .trim()
+            let spacing = columns(content, 14, 20)
                 .parse::<f64>()
                 .map_err(|_| ParsingError::AntexZenithGrid)?;
 
@@ -316,12 +345,18 @@ pub(crate) fn parse_antenna(
                 spacing,
             };
         } else if marker.contains("END OF FREQUENCY") {
-            inner.insert(frequency, freq_data.clone());
+            // frequencies we do not support are left out
+            if let Some(frequency) = frequency {
+                inner.insert(frequency, freq_data.clone());
+            }
         } else if marker.contains("END OF ANTENNA") {
             break; // end of this block, considered as an `epoch`
                    // if we make a parallel with other types of RINEX
+        } else if line.trim_start().starts_with("NOAZI") {
+            let pattern = parse_pattern(line)?;
+            freq_data.phase_pattern = AntennaPhasePattern::AzimuthIndependentPattern(pattern);
         } else {
-            // inside phase pattern
+            // inside (azimuth dependent) phase pattern
         }
         //    } else if marker.contains("SINEX CODE") {
         //        let sinex = content.split_at(10).0;
@@ -336,6 +371,13 @@ pub(crate) fn parse_antenna(
         //    }
     }
 
+    if valid_from.is_some() || valid_until.is_some() {
+        antenna = antenna.with_validity_period(
+            valid_from.unwrap_or(Epoch::from_gregorian_utc_at_midnight(1900, 1, 1)),
+            valid_until.unwrap_or(Epoch::from_gregorian_utc_at_midnight(9999, 12, 31)),
+        );
+    }
+
     Ok((antenna, inner))
 }
 
diff --git a/src/carrier.rs b/src/carrier.rs
index 42df5a3..7417003 100644
--- a/src/carrier.rs
+++ b/src/carrier.rs
@@ -672,13 +672,15 @@ impl Carrier {
                 1 => Ok(Self::L1),
                 2 => Ok(Self::L2),
                 5 => Ok(Self::L5),
-                _ => Ok(Self::L1),
+                _ => Err(ParsingError::AntexFrequency),
             },
             Constellation::Glonass => match sv.prn {
                 1 => Ok(Self::G1(None)),
                 2 => Ok(Self::G2(None)),
                 3 => Ok(Self::G3),
-                _ => Ok(Self::G1(None)),
+                4 => Ok(Self::G1a),
+                6 => Ok(Self::G2a),
+                _ => Err(ParsingError::AntexFrequency),
             },
             Constellation::Galileo => match sv.prn {
                 1 => Ok(Self::E1),
@@ -686,12 +688,12 @@ impl Carrier {
                 6 => Ok(Self::E6),
                 7 => Ok(Self::E5b),
                 8 => Ok(Self::E5),
-                _ => Ok(Self::E1),
+                _ => Err(ParsingError::AntexFrequency),
             },
             Constellation::SBAS => match sv.prn {
                 1 => Ok(Self::L1),
                 5 => Ok(Self::L5),
-                _ => Ok(Self::L1),
+                _ => Err(ParsingError::AntexFrequency),
             },
             Constellation::BeiDou => match sv.prn {
                 1 => Ok(Self::B1C),
@@ -700,20 +702,20 @@ impl Carrier {
                 6 => Ok(Self::B3),
                 7 => Ok(Self::B2B),
                 8 => Ok(Self::B2),
-                _ => Ok(Self::E1),
+                _ => Err(ParsingError::AntexFrequency),
             },
             Constellation::QZSS => match sv.prn {
                 1 => Ok(Self::L1),
                 2 => Ok(Self::L2),
                 5 => Ok(Self::L5),
                 6 => Ok(Self::L6),
-                _ => Ok(Self::L1),
+                _ => Err(ParsingError::AntexFrequency),
             },
             Constellation::IRNSS => match sv.prn {
                 1 => Ok(Self::L1),
                 5 => Ok(Self::L5),
                 9 => Ok(Self::S),
-                _ => Ok(Self::L1),
+                _ => Err(ParsingError::AntexFrequency),
             },
             _ => Err(ParsingError::AntexFrequency),
         }
diff --git a/src/lib.rs b/src/lib.rs
index ef158ed..a35946f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1470,7 +1470,13 @@ impl Rinex {
                         }
                     },
                     AntennaMatcher::SerialNumber(sn) => {
-                        if rx_ant.igs_type.to_lowercase().eq(sn) {
+                        if rx_ant
+                            .serial_number
+                            .as_ref()
+                            .map(|serial| serial.to_lowercase())
+                            .as_ref()
+                            == Some(sn)
+                        {
                             freqdata
                                 .get(&freq)
                                 .map(|freqdata| freqdata.apc_eccentricity)
diff --git a/src/record/parsing.rs b/src/record/parsing.rs
index 8686363..8c2af67 100644
--- a/src/record/parsing.rs
+++ b/src/record/parsing.rs
@@ -353,8 +353,9 @@ impl Record {
                         },
 
                         Type::AntennaData => {
-                            let (antenna, content) = parse_antex_antenna(&epoch_buf).unwrap();
-                            atx_rec.push((antenna, content));
+                            if let Ok((antenna, content)) = parse_antex_antenna(&epoch_buf) {
+                                atx_rec.push((antenna, content));
+                            }
                         },
 
                         Type::IonosphereMaps => {
-- 
2.43.0


From 8ab851283dd8d9768756151c17319561987f07c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:10 +0000
Subject: [PATCH 32/32] fix: record: keep comments, apply the IONEX special
 lines to IONEX only

---
 src/record/parsing.rs | 30 ++++++++++++------------------
 1 file changed, 12 insertions(+), 18 deletions(-)

diff --git a/src/record/parsing.rs b/src/record/parsing.rs
index 8c2af67..22b90e7 100644
--- a/src/record/parsing.rs
+++ b/src/record/parsing.rs
@@ -70,7 +70,6 @@ impl Record {
         // comments management
         let mut comments: Comments = Comments::new();
         let mut comment_ts = Epoch::default();
-        let mut comment_content = Vec::<String>::with_capacity(4);
 
         // ANTEX
         let mut atx_rec = AntexRecord::new();
@@ -194,8 +193,11 @@ impl Record {
 
             // (special case) COMMENTS: store as is
             if is_rinex_comment(&line_buf) {
-                let comment = line_buf.split_at(60).0.trim_end();
-                comment_content.push(comment.to_string());
+                let comment = line_buf.get(..60).unwrap_or(&line_buf).trim();
+                comments
+                    .entry(comment_ts)
+                    .or_insert_with(Vec::new)
+                    .push(comment.to_string());
 
                 // skip parsing
                 line_buf.clear();
@@ -204,12 +206,14 @@ impl Record {
 
             // (special case) IONEX exponent scaling:
             // keep up to date, so data interpretation remains correct
-            if line_buf.contains("EXPONENT") {
+            let is_ionex = header.rinex_type == Type::IonosphereMaps;
+
+            if is_ionex && line_buf.contains("EXPONENT") {
                 // we don't tolerate invalid scaling specs.
                 // This assures that data interpretation is always correct.
                 ionex_tec_exponent = line_buf
-                    .split_at(60)
-                    .0
+                    .get(..60)
+                    .unwrap_or_default()
                     .trim()
                     .parse::<i8>()
                     .map_err(|_| ParsingError::IonexScalingExponent)?;
@@ -220,26 +224,16 @@ impl Record {
             }
 
             // (special case) IONEX temporal classification
-            if line_buf.contains("EPOCH OF CURRENT MAP") {
+            if is_ionex && line_buf.contains("EPOCH OF CURRENT MAP") {
                 // we do not tolerate invalid temporal specs
                 // This assures that data is always correctly sorted
-                ionex_t = parse_ionex_utc_epoch(line_buf.split_at(60).0)?;
+                ionex_t = parse_ionex_utc_epoch(line_buf.get(..60).unwrap_or_default())?;
 
                 // skip parsing
                 line_buf.clear();
                 continue;
             }
 
-            // (special case) COMMENTS: store as is
-            if line_buf.contains("COMMENT") {
-                let content = line_buf.split_at(60).0.trim();
-                if let Some(comments) = comments.get_mut(&comment_ts) {
-                    comments.push(content.to_string());
-                } else {
-                    comments.insert(comment_ts, vec![content.to_string()]);
-                }
-            }
-
             // CRINEX special case:
             // - apply decompression algorithm prior moving forward
             // - decompress new pending line, which may recover several lines (in old V1 format)
-- 
2.43.0

