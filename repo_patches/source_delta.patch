From c69b1f6ef3242fd9a640710aca3acefc38c73b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:06 +0000
Subject: [PATCH 01/33] fix: Octave::from_score_offset returns an error for 11
 instead of panicking

---
 src/octave.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/octave.rs b/src/octave.rs
index de23210..39046ff 100644
--- a/src/octave.rs
+++ b/src/octave.rs
@@ -35,11 +35,11 @@ impl Octave {
     pub const BIAS_VALUE: i32 = 2;
 
     pub const fn value_of(value: i32) -> Result<Octave, OctaveError> {
-        Self::from_score_offset(value + Self::BIAS_VALUE)
+        Self::from_score_offset(value.saturating_add(Self::BIAS_VALUE))
     }
 
     pub const fn from_score_offset(idx: i32) -> Result<Octave, OctaveError> {
-        if idx < 0 || Self::ALL.len() < (idx as usize) {
+        if idx < 0 || Self::ALL.len() <= (idx as usize) {
             Err(OctaveError::InvalidValue(idx))
         } else {
             Ok(Self::ALL[idx as usize])
-- 
2.43.0


From f9fd988f4b20f2051c25e0eba79ca156e3303b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:06 +0000
Subject: [PATCH 02/33] fix: Pitch::with_score_offset_delta reports huge deltas
 as errors instead of overflowing

---
 src/pitch.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pitch.rs b/src/pitch.rs
index 62b2fcd..a1cda0f 100644
--- a/src/pitch.rs
+++ b/src/pitch.rs
@@ -162,7 +162,7 @@ impl Pitch {
     }
 
     pub fn with_score_offset_delta(self, score_offset_delta: i32) -> Result<Self, PitchError> {
-        let score_offset = self.score_offset as i32 + score_offset_delta;
+        let score_offset = (self.score_offset as i32).saturating_add(score_offset_delta);
         if score_offset < MIN_SCORE_OFFSET || MAX_SCORE_OFFSET < score_offset {
             return Err(PitchError::InvalidScoreOffset(score_offset));
         }
-- 
2.43.0


From 1a701f1c2b3cb238ac321aaebc1ea41b6b13b182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:08 +0000
Subject: [PATCH 03/33] fix: Trimmer sums are computed in i32 however the
 trimmer is built

---
 src/trimmer.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/trimmer.rs b/src/trimmer.rs
index c3b5da5..b27bc99 100644
--- a/src/trimmer.rs
+++ b/src/trimmer.rs
@@ -44,14 +44,14 @@ impl Trimmer {
     pub const fn from_array(values: [i16; 4]) -> Self {
         Self {
             values: values,
-            sum: (values[0] + values[1] + values[2] + values[3]) as i32,
+            sum: values[0] as i32 + values[1] as i32 + values[2] as i32 + values[3] as i32,
         }
     }
 
     pub fn from_vec(values: &Vec<i16>) -> Self {
         Self {
             values: [values[0], values[1], values[2], values[3]],
-            sum: (values[0] + values[1] + values[2] + values[3]) as i32,
+            sum: values[0] as i32 + values[1] as i32 + values[2] as i32 + values[3] as i32,
         }
     }
 
@@ -83,7 +83,7 @@ impl Trimmer {
 
     pub fn added(mut self, mut tick: i32) -> Self {
         for i in 0..4 {
-            let t: i32 = self.values[i] as i32 + tick as i32;
+            let t: i32 = (self.values[i] as i32).saturating_add(tick);
             if (i16::MAX as i32) < t {
                 tick = t - i16::MAX as i32;
                 self.values[i] = i16::MAX;
-- 
2.43.0


From fe89c60b767960dd736f3674420696f92aed4104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:08 +0000
Subject: [PATCH 04/33] fix: PercentU16 rounds instead of truncating so that
 to_f32 round-trips

---
 src/percent.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/percent.rs b/src/percent.rs
index a8487b2..600cd9b 100644
--- a/src/percent.rs
+++ b/src/percent.rs
@@ -57,7 +57,7 @@ impl From<f32> for PercentU16 {
         } else if MAX_F32_VALUE < rate {
             PercentU16 { value: MAX_VALUE as u16 }
         } else {
-            let i: i32 = (rate * 1000.0) as i32; // 1.0 means 100% = 100.0% = 1000
+            let i: i32 = (rate * 1000.0).round() as i32; // 1.0 means 100% = 100.0% = 1000
             PercentU16 { value: i as u16 }
         }
     }
-- 
2.43.0


From ee6b0b4f56c75721e2b62fecba38f83ec14d96c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:08 +0000
Subject: [PATCH 05/33] fix: RateTrimmer::new computes its sum from the stored
 values like deserialization does

---
 src/trimmer.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/trimmer.rs b/src/trimmer.rs
index b27bc99..4ba772b 100644
--- a/src/trimmer.rs
+++ b/src/trimmer.rs
@@ -157,10 +157,9 @@ impl RateTrimmer {
     };
 
     pub fn new(rate0: f32, rate1: f32, rate2: f32, rate3: f32) -> RateTrimmer {
-        RateTrimmer {
-            values: [PercentU16::from(rate0), PercentU16::from(rate1), PercentU16::from(rate2), PercentU16::from(rate3)],
-            sum: PercentU16::from(rate0 * rate1 * rate2 * rate3),
-        }
+        Self::from_array(
+            [PercentU16::from(rate0), PercentU16::from(rate1), PercentU16::from(rate2), PercentU16::from(rate3)]
+        )
     }
 
     pub fn from_array(values: [PercentU16; 4]) -> Self {
-- 
2.43.0


From 1ed32d7df3ca5e3c9dc3645002a67dd6ddfb9763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:08 +0000
Subject: [PATCH 06/33] fix: tempo values below the minimum are rejected or
 clamped, also when dragging

---
 src/tempo.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/tempo.rs b/src/tempo.rs
index bf1412d..0fdd174 100644
--- a/src/tempo.rs
+++ b/src/tempo.rs
@@ -36,6 +36,8 @@ impl TempoValue {
     pub const fn new(value: u16) -> Self {
         if MAX_TEMPO_VALUE < value {
             panic!("Too large value.");
+        } else if value < MIN_TEMPO_VALUE {
+            panic!("Too small value.");
         } else {
             TempoValue(value)
         }
@@ -69,7 +71,11 @@ impl TempoValue {
     }
 
     pub fn safe_new(value: u16) -> TempoValue {
-        Self::new(if MAX_TEMPO_VALUE < value { MAX_TEMPO_VALUE } else { value })
+        Self::new(
+            if MAX_TEMPO_VALUE < value { MAX_TEMPO_VALUE }
+            else if value < MIN_TEMPO_VALUE { MIN_TEMPO_VALUE }
+            else { value }
+        )
     }
 }
 
@@ -100,7 +106,9 @@ impl Tempo {
     pub fn drag(&self, tick_delta: i32, tempo_delta: i32) -> Self {
         Self {
              start_tick: (self.start_tick as i64 + tick_delta as i64) as u32,
-             value: TempoValue::safe_new((self.value.as_u16() as i32 + tempo_delta) as u16),
+             value: TempoValue::safe_new(
+                 (self.value.as_u16() as i32).saturating_add(tempo_delta).clamp(0, u16::MAX as i32) as u16
+             ),
              ..*self
         }
     }
-- 
2.43.0


From 02a8a801bc8211dd563a59378d47f2bd7c6fcd7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:56 +0000
Subject: [PATCH 07/33] fix: Note::start_tick is clamped at the largest tick
 instead of wrapping around

---
 src/note.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/note.rs b/src/note.rs
index a247256..ad6bd74 100644
--- a/src/note.rs
+++ b/src/note.rs
@@ -72,7 +72,7 @@ impl Note {
     #[inline]
     pub fn start_tick(&self) -> u32 {
         let tick = self.base_start_tick as i64 + self.start_tick_trimmer.sum() as i64;
-        if tick < 0 { 0 } else { tick as u32 }
+        tick.clamp(0, u32::MAX as i64) as u32
     }
 
     #[inline]
-- 
2.43.0


From 148f78fc6bb6f348e27f784adbcabf4777266d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:56 +0000
Subject: [PATCH 08/33] fix: Note::add_dots reports huge deltas as errors
 instead of overflowing

---
 src/note.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/note.rs b/src/note.rs
index ad6bd74..0de97c9 100644
--- a/src/note.rs
+++ b/src/note.rs
@@ -148,7 +148,7 @@ impl Note {
     }
 
     pub fn add_dots(&self, dots_to_add: i32) -> Result<Self, InvalidDot> {
-        let new_dots = self.duration.dots.value() as i32 + dots_to_add;
+        let new_dots = (self.duration.dots.value() as i32).saturating_add(dots_to_add);
         if new_dots < 0 || (Duration::MAX_DOT as i32) < new_dots {
             Err(InvalidDot(new_dots))
         } else {
-- 
2.43.0


From e237b72ccb8f52745278a57772e1740a326df863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:49 +0000
Subject: [PATCH 09/33] fix: shifting a note, bar, tempo or control change past
 the largest tick is an error instead of wrapping

---
 src/bar.rs      | 2 ++
 src/ctrl_chg.rs | 2 ++
 src/note.rs     | 3 +++
 src/tempo.rs    | 2 ++
 4 files changed, 9 insertions(+)

diff --git a/src/bar.rs b/src/bar.rs
index 812e7df..787798f 100644
--- a/src/bar.rs
+++ b/src/bar.rs
@@ -252,6 +252,8 @@ impl Bar {
         let tick = (self.start_tick as i64) + tick_delta as i64;
         if tick < 0 {
             Err(TickError::Minus)
+        } else if (u32::MAX as i64) < tick {
+            Err(TickError::Overflow)
         } else {
             Ok(
                 Self {
diff --git a/src/ctrl_chg.rs b/src/ctrl_chg.rs
index 2d704ad..d4929d4 100644
--- a/src/ctrl_chg.rs
+++ b/src/ctrl_chg.rs
@@ -25,6 +25,8 @@ impl CtrlChg {
         let tick = self.start_tick as i64 + tick_delta as i64;
         if tick < 0 {
             Err(TickError::Minus)
+        } else if (u32::MAX as i64) < tick {
+            Err(TickError::Overflow)
         } else {
             Ok(
                 Self {
diff --git a/src/note.rs b/src/note.rs
index 0de97c9..bcdacaf 100644
--- a/src/note.rs
+++ b/src/note.rs
@@ -21,6 +21,7 @@ use derive_builder::Builder;
 #[derive(Clone, Copy, PartialEq, Eq, Debug)]
 pub enum TickError {
     Minus,
+    Overflow,
 }
 
 #[derive(Clone, Copy, PartialEq, Eq, Debug)]
@@ -121,6 +122,8 @@ impl Note {
         let tick = self.base_start_tick as i64 + tick_delta as i64;
         if tick < 0 {
             Err(TickError::Minus)
+        } else if (u32::MAX as i64) < tick {
+            Err(TickError::Overflow)
         } else {
             if is_trim {
                 let mut copied = self.clone();
diff --git a/src/tempo.rs b/src/tempo.rs
index 0fdd174..b9d1474 100644
--- a/src/tempo.rs
+++ b/src/tempo.rs
@@ -117,6 +117,8 @@ impl Tempo {
         let tick = self.start_tick as i64 + tick_delta as i64;
         if tick < 0 {
             Err(TickError::Minus)
+        } else if (u32::MAX as i64) < tick {
+            Err(TickError::Overflow)
         } else {
             Ok(
                 Self {
-- 
2.43.0


From 14384bf0df71eb66f88f01da329518e220cc0435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:21 +0000
Subject: [PATCH 10/33] fix: tuplize leaves selections alone whose denominator
 would not fit instead of panicking

---
 src/tuple.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/tuple.rs b/src/tuple.rs
index e54e080..2ebbb41 100644
--- a/src/tuple.rs
+++ b/src/tuple.rs
@@ -14,7 +14,10 @@ pub fn tuplize(notes: Vec<Rc<Note>>) -> Vec<Rc<Note>> {
         let denominator = total_unit / min_unit;
         if denominator < 2 { return notes; }
         let total_tick = total_tick / denominator * 2;
-        let denominator = Denominator::from_value(denominator as u8).unwrap();
+        let denominator = match u8::try_from(denominator).ok().and_then(Denominator::from_value) {
+            Some(d) => d,
+            None => return notes,
+        };
         let mut u = 0;
         let mut ret = Vec::with_capacity(work.len());
 
-- 
2.43.0


From f48a3c56ec59a57322ad6e2d0b1a2f05811bdf61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:22 +0000
Subject: [PATCH 11/33] fix: tuplize keeps the notes of a chord together

---
 src/tuple.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tuple.rs b/src/tuple.rs
index 2ebbb41..5272a85 100644
--- a/src/tuple.rs
+++ b/src/tuple.rs
@@ -29,9 +29,9 @@ pub fn tuplize(notes: Vec<Rc<Note>>) -> Vec<Rc<Note>> {
                         let mut note = (**n).clone();
                         note.base_start_tick = (start_tick + (total_tick * u / total_unit)) as u32;
                         note.duration = n.duration.with_denominator(denominator);
-                        u += numerator_unit(note.duration);
                         ret.push(Rc::new(note));
                     }
+                    u += e.unit().unwrap_or(0);
                 },
             }
         }
-- 
2.43.0


From 751945b0bc3579bea33113a0e449e2b01b37a840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:51 +0000
Subject: [PATCH 12/33] fix: loading a pitch that does not exist is an error
 instead of a panic

---
 src/pitch.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/pitch.rs b/src/pitch.rs
index a1cda0f..9c24ac7 100644
--- a/src/pitch.rs
+++ b/src/pitch.rs
@@ -29,7 +29,7 @@ impl fmt::Display for PitchError {
 }
 
 #[derive(serde::Deserialize, serde::Serialize)]
-#[serde(from = "PitchSerializedForm")]
+#[serde(try_from = "PitchSerializedForm")]
 #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, Builder)]
 #[builder(default)]
 pub struct Pitch {
@@ -49,9 +49,11 @@ impl Default for Pitch {
     }
 }
 
-impl From<PitchSerializedForm> for Pitch {
-    fn from(from: PitchSerializedForm) -> Self {
-        Self::new(from.solfa, from.octave, from.sharp_flat)
+impl TryFrom<PitchSerializedForm> for Pitch {
+    type Error = PitchError;
+
+    fn try_from(from: PitchSerializedForm) -> Result<Self, Self::Error> {
+        Self::value_of(from.solfa, from.octave, from.sharp_flat)
     }
 }
 
-- 
2.43.0


From 8ff06f799978d18a5d31916ecde7a549ce5e912e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:55 +0000
Subject: [PATCH 13/33] fix: loading a channel, key, rhythm, number of dots or
 grid outside its range is an error

---
 src/channel.rs  | 13 +++++++++++++
 src/duration.rs |  9 +++++++++
 src/grid.rs     | 14 ++++++++++++++
 src/key.rs      | 13 +++++++++++++
 src/rhythm.rs   |  9 +++++++++
 5 files changed, 58 insertions(+)

diff --git a/src/channel.rs b/src/channel.rs
index 9964692..354e9ed 100644
--- a/src/channel.rs
+++ b/src/channel.rs
@@ -1,7 +1,20 @@
 #[derive(serde::Deserialize, serde::Serialize)]
+#[serde(try_from = "u8")]
 #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
 pub struct Channel(u8);
 
+impl TryFrom<u8> for Channel {
+    type Error = String;
+
+    fn try_from(value: u8) -> Result<Self, Self::Error> {
+        if value < 16 {
+            Ok(Self(value))
+        } else {
+            Err(format!("Invalid channel value(={}). Should be < 16.", value))
+        }
+    }
+}
+
 impl Channel {
   pub fn new(value: u8) -> Self {
     if value < 16 {
diff --git a/src/duration.rs b/src/duration.rs
index 441e933..31f9080 100644
--- a/src/duration.rs
+++ b/src/duration.rs
@@ -89,9 +89,18 @@ impl Denominator {
 }
 
 #[derive(serde::Deserialize, serde::Serialize)]
+#[serde(try_from = "u8")]
 #[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
 pub struct Dots(u8);
 
+impl TryFrom<u8> for Dots {
+    type Error = String;
+
+    fn try_from(value: u8) -> Result<Self, Self::Error> {
+        Self::from_value(value).ok_or_else(|| format!("Invalid number of dots(={}).", value))
+    }
+}
+
 impl Default for Dots {
     fn default() -> Self {
         Self::ZERO
diff --git a/src/grid.rs b/src/grid.rs
index 5c9e611..5862b6a 100644
--- a/src/grid.rs
+++ b/src/grid.rs
@@ -5,11 +5,25 @@ pub enum GridError {
 }
 
 #[derive(serde::Deserialize, serde::Serialize)]
+#[serde(try_from = "GridSerializedForm")]
 #[derive(Debug, Clone, Copy, PartialEq, Eq)]
 pub struct Grid {
     value: u32,
 }
 
+#[derive(serde::Deserialize)]
+struct GridSerializedForm {
+    value: u32,
+}
+
+impl TryFrom<GridSerializedForm> for Grid {
+    type Error = String;
+
+    fn try_from(from: GridSerializedForm) -> Result<Self, Self::Error> {
+        Self::from_u32(from.value).map_err(|_| format!("Invalid grid(={}).", from.value))
+    }
+}
+
 impl Grid {
     pub fn value_of(s: &str) -> Result<Self, GridError> {
         s.parse::<u32>()
diff --git a/src/key.rs b/src/key.rs
index a4dbe23..39434e8 100644
--- a/src/key.rs
+++ b/src/key.rs
@@ -5,9 +5,22 @@ use once_cell::unsync::Lazy;
 use crate::solfa::Solfa;
 
 #[derive(serde::Deserialize, serde::Serialize)]
+#[serde(try_from = "i8")]
 #[derive(Debug, PartialEq, Eq, Copy, Clone, Hash)]
 pub struct Key(i8);
 
+impl TryFrom<i8> for Key {
+    type Error = String;
+
+    fn try_from(value: i8) -> Result<Self, Self::Error> {
+        if Self::FLAT_7.0 <= value && value <= Self::SHARP_7.0 {
+            Ok(Self(value))
+        } else {
+            Err(format!("Invalid key value(={}).", value))
+        }
+    }
+}
+
 impl Key {
     pub const NONE: Key = Key(0);
     pub const SHARP_1: Key = Key(1);
diff --git a/src/rhythm.rs b/src/rhythm.rs
index 9397d99..ee13c35 100644
--- a/src/rhythm.rs
+++ b/src/rhythm.rs
@@ -6,9 +6,18 @@ pub const MIN_NUMERATOR: u8 = 1;
 pub const MAX_NUMERATOR: u8 = 99;
 
 #[derive(serde::Deserialize, serde::Serialize)]
+#[serde(try_from = "u8")]
 #[derive(Debug, Copy, Clone, PartialEq, Eq)]
 pub struct Numerator(u8);
 
+impl TryFrom<u8> for Numerator {
+    type Error = String;
+
+    fn try_from(value: u8) -> Result<Self, Self::Error> {
+        Self::from_value(value).map_err(|_| format!("Invalid rhythm numerator(={}).", value))
+    }
+}
+
 impl Display for Numerator {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         write!(f, "{}", self.0)
-- 
2.43.0


From a8291717b52150d3ac541a94853517837f7031d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:59 +0000
Subject: [PATCH 14/33] fix: percentages above the maximum are clamped however
 they are made

---
 src/percent.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/percent.rs b/src/percent.rs
index 600cd9b..ea57f21 100644
--- a/src/percent.rs
+++ b/src/percent.rs
@@ -2,11 +2,23 @@ use crate::can_apply::CanApply;
 
 // 0.0% - 200.0%
 #[derive(serde::Deserialize, serde::Serialize)]
+#[serde(from = "PercentU16SerializedForm")]
 #[derive(Debug, Clone, Copy, Eq)]
 pub struct PercentU16 {
     value: u16,
 }
 
+#[derive(serde::Deserialize)]
+struct PercentU16SerializedForm {
+    value: u16,
+}
+
+impl From<PercentU16SerializedForm> for PercentU16 {
+    fn from(from: PercentU16SerializedForm) -> Self {
+        Self::from_value(from.value)
+    }
+}
+
 // 0 - 200%
 const MAX_VALUE: i32 = 2000;
 const MAX_F32_VALUE: f32 = 2.0;
@@ -24,7 +36,7 @@ impl PercentU16 {
 
     pub const fn from_value(value: u16) -> PercentU16 {
         PercentU16 {
-            value,
+            value: if MAX_VALUE as u16 > value { value } else { MAX_VALUE as u16 },
         }
     }
 
-- 
2.43.0


From db21669131dc728b0acec9e3056ccb937daffc83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:47 +0000
Subject: [PATCH 15/33] fix: PitchBuilder builds only consistent pitches

---
 src/pitch.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/pitch.rs b/src/pitch.rs
index 9c24ac7..1ff96d1 100644
--- a/src/pitch.rs
+++ b/src/pitch.rs
@@ -31,18 +31,28 @@ impl fmt::Display for PitchError {
 #[derive(serde::Deserialize, serde::Serialize)]
 #[serde(try_from = "PitchSerializedForm")]
 #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, Builder)]
-#[builder(default)]
+#[builder(default, build_fn(name = "build_unchecked", private))]
 pub struct Pitch {
     solfa: Solfa,
     octave: Octave,
     sharp_flat: SharpFlat,
 
     #[serde(skip)]    
+    #[builder(setter(skip))]
     value: u8,
     #[serde(skip)]    
+    #[builder(setter(skip))]
     score_offset: i8,
 }
 
+impl PitchBuilder {
+    pub fn build(&self) -> Result<Pitch, PitchBuilderError> {
+        let p = self.build_unchecked()?;
+        Pitch::value_of(p.solfa, p.octave, p.sharp_flat)
+            .map_err(|e| PitchBuilderError::ValidationError(e.to_string()))
+    }
+}
+
 impl Default for Pitch {
     fn default() -> Self {
         DEFAULT
-- 
2.43.0


From 4584eb960801705185f06b8ea8bf33439171bcfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:50 +0000
Subject: [PATCH 16/33] fix: location_to_tick reports huge offsets as overflow
 instead of overflowing itself

---
 src/project.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/project.rs b/src/project.rs
index c90196c..69a0a21 100644
--- a/src/project.rs
+++ b/src/project.rs
@@ -209,12 +209,10 @@ impl ProjectImpl {
     }
     
     pub fn location_to_tick(&self, loc: Location) -> Result<u32, LocationError> {
-        if loc.bar_no() == 0 {
-            if (u32::MAX as usize) < loc.offset() {
-                Err(LocationError::Overflow)
-            } else {
-                Ok(loc.offset() as u32)
-            }
+        if (u32::MAX as usize) < loc.offset() {
+            Err(LocationError::Overflow)
+        } else if loc.bar_no() == 0 {
+            Ok(loc.offset() as u32)
         } else if (u32::MAX as usize) < loc.bar_no() {
             Err(LocationError::Overflow)
         } else {
-- 
2.43.0


From b726b1efeae7ac2299c59303b60414d22bf8f0b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:50 +0000
Subject: [PATCH 17/33] fix: the longest note takes all four duration rates
 into account

Note::LONGEST_TICK_LEN assumed that a note can be lengthened twice, but each
of the four duration rates can double it, so that replenish_bars missed long
notes ending after the last note.
---
 src/note.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/note.rs b/src/note.rs
index bcdacaf..0c217e0 100644
--- a/src/note.rs
+++ b/src/note.rs
@@ -252,7 +252,7 @@ impl Note {
     pub const TICK_CLIPPER: Clipper<i32> = clipper::for_i32(0, i32::MAX);
     pub const VELOCITY_CLIPPER: Clipper<i16> = clipper::for_i16(0, 127);
     pub const LONGEST_TICK_LEN: Lazy<u32> = Lazy::new(||
-        Duration::new(Numerator::Whole, Denominator::from_value(2).unwrap(), Dots::SEVEN).tick_length() * (PercentU16::MAX.to_f32() as u32)
+        Duration::new(Numerator::Whole, Denominator::from_value(2).unwrap(), Dots::SEVEN).tick_length() * (PercentU16::MAX.to_f32().powi(4) as u32)
     );
 }
 
-- 
2.43.0


From 12df90a9da6345dc6d7e5f21419735c98648ec69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:50 +0000
Subject: [PATCH 18/33] fix: replenishing bars stops at the largest tick
 instead of overflowing

---
 src/project.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/project.rs b/src/project.rs
index 69a0a21..d6a9578 100644
--- a/src/project.rs
+++ b/src/project.rs
@@ -307,7 +307,7 @@ impl ProjectImpl {
         if start_tick < 0 { start_tick = 0; }
         let mut max_tick_loc = 0;
         for (tick, note) in self.note_repo.range(start_tick as u32..) {
-            let end_tick = tick + note.tick_len();
+            let end_tick = tick.saturating_add(note.tick_len());
             max_tick_loc = max_tick_loc.max(end_tick);
         }
         
@@ -342,7 +342,10 @@ impl ProjectImpl {
         if max_end_tick <= bar_tick { return replenished_bars; }
         let bar_tick_len = self.rhythm_at(bar_tick).tick_len();
         while bar_tick < max_end_tick {
-            bar_tick += bar_tick_len;
+            bar_tick = match bar_tick.checked_add(bar_tick_len) {
+                Some(tick) => tick,
+                None => break,
+            };
             let bar = Bar::new(bar_tick, None, None, RepeatSet::EMPTY);
             self.add_bar_internal(bar, false);
             replenished_bars.push(bar);
-- 
2.43.0


From 0229515c860d6be79a5050ca68e13e48e5e0a272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:45 +0000
Subject: [PATCH 19/33] fix: undoing bulk_remove restores only what has been
 removed

Items that did not exist, or differed from the stored item at the same tick,
were added to the project by undo.
---
 src/project.rs | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/project.rs b/src/project.rs
index d6a9578..502ab32 100644
--- a/src/project.rs
+++ b/src/project.rs
@@ -707,7 +707,28 @@ impl Project for SqliteUndoStore::<ProjectCmd, ProjectImpl, ProjectCmdErr> {
     }
 
     fn bulk_remove(&mut self, to_remove: Models, metadata: ModelChangeMetadata) {
-        self.add_cmd(ProjectCmd::ModelChanged { added: Models::empty(), removed: to_remove, metadata });
+        let _ = self.mutate(Box::new(move |proj| {
+            // Only what has been removed actually should be restored by undo.
+            let mut removed = Models::empty();
+            for n in to_remove.notes.iter() {
+                if let Some(n) = proj.note_repo.remove(&n.start_tick(), &Rc::new(n.clone())) {
+                    removed.notes.push((*n).clone());
+                }
+            }
+            for b in to_remove.bars.iter() {
+                removed.bars.extend(proj.bar_repo.remove(&b.start_tick).map(|(_, b)| b));
+            }
+            for t in to_remove.tempos.iter() {
+                removed.tempos.extend(proj.tempo_repo.remove(&t.start_tick).map(|(_, t)| t));
+            }
+            for d in to_remove.dumpers.iter() {
+                removed.dumpers.extend(proj.dumper_repo.remove(&d.start_tick).map(|(_, d)| d));
+            }
+            for s in to_remove.softs.iter() {
+                removed.softs.extend(proj.soft_repo.remove(&s.start_tick).map(|(_, s)| s));
+            }
+            Ok(ProjectCmd::ModelChanged { added: Models::empty(), removed, metadata })
+        }));
     }
 
     fn bulk_add(&mut self, mut to_add: Models, metadata: ModelChangeMetadata) {
-- 
2.43.0


From 30a6ba96c5b04837a193697fb9f558172bdcbd19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:48 +0000
Subject: [PATCH 20/33] fix: undoing tuplize restores only the notes that have
 been removed

---
 src/project.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/project.rs b/src/project.rs
index 502ab32..8471367 100644
--- a/src/project.rs
+++ b/src/project.rs
@@ -685,7 +685,8 @@ impl Project for SqliteUndoStore::<ProjectCmd, ProjectImpl, ProjectCmdErr> {
                     to_remove.push((n.start_tick(), n.clone()));
                 }
                 let tupled = tuple::tuplize(notes.clone());
-                proj.note_repo.bulk_remove(&to_remove, ModelChangeMetadata::new());
+                let removed: Vec<Rc<Note>> = proj.note_repo.bulk_remove(&to_remove, ModelChangeMetadata::new())
+                    .into_iter().map(|(_, n)| n).collect();
                 proj.note_repo.bulk_add(
                     tupled.iter().map(|n| (n.start_tick(), n.clone())).collect(),
                     metadata
@@ -695,7 +696,7 @@ impl Project for SqliteUndoStore::<ProjectCmd, ProjectImpl, ProjectCmdErr> {
                 Ok(
                     ProjectCmd::ModelChanged {
                         added: Models::empty().with_notes(&tupled).with_bars(replenishid_bars),
-                        removed: Models::empty().with_notes(&notes),
+                        removed: Models::empty().with_notes(&removed),
                         metadata,
                     }
                 )
-- 
2.43.0


From 984e6cc3077a8a88f94e5f3a9630f0f5581dcc18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:51 +0000
Subject: [PATCH 21/33] fix: undoing bulk_add leaves nothing behind when
 several items have the same tick

An added item replaced by another one of the same bulk was recorded as
removed, so that undo added it.
---
 src/project.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/project.rs b/src/project.rs
index 8471367..9460724 100644
--- a/src/project.rs
+++ b/src/project.rs
@@ -1,3 +1,4 @@
+use std::collections::BTreeSet;
 use std::rc::Rc;
 
 use klavier_helper::bag_store::{BagStore, BagStoreEvent};
@@ -354,6 +355,12 @@ impl ProjectImpl {
     }
 }
 
+// The items in the store which will be replaced if the specified items are added.
+fn replaced_by<T: Copy>(store: &Store<u32, T, ModelChangeMetadata>, to_add: &[(u32, T)]) -> Vec<T> {
+    let ticks: BTreeSet<u32> = to_add.iter().map(|(tick, _)| *tick).collect();
+    ticks.iter().filter_map(|tick| store.find(tick).ok().map(|i| store[i].1)).collect()
+}
+
 pub fn tempo_at(tick: u32, store: &Store<u32, Tempo, ModelChangeMetadata>) -> TempoValue {
     if store.is_empty() {
         DEFAULT_TEMPO
@@ -746,26 +753,30 @@ impl Project for SqliteUndoStore::<ProjectCmd, ProjectImpl, ProjectCmdErr> {
             for b in to_add.bars.iter() {
                 buf.push((b.start_tick, *b));
             }
-            removed.bars = proj.bar_repo.bulk_add(buf, metadata).iter().map(|(_, bar)| *bar).collect();
+            removed.bars = replaced_by(&proj.bar_repo, &buf);
+            proj.bar_repo.bulk_add(buf, metadata);
     
             let mut buf = Vec::with_capacity(to_add.tempos.len());
             for t in to_add.tempos.iter() {
                 buf.push((t.start_tick, *t));
             }
-            removed.tempos = proj.tempo_repo.bulk_add(buf, metadata).iter().map(|(_, t)| *t).collect();
+            removed.tempos = replaced_by(&proj.tempo_repo, &buf);
+            proj.tempo_repo.bulk_add(buf, metadata);
     
     
             let mut buf = Vec::with_capacity(to_add.dumpers.len());
             for d in to_add.dumpers.iter() {
                 buf.push((d.start_tick, *d));
             }
-            removed.dumpers = proj.dumper_repo.bulk_add(buf, metadata).iter().map(|(_, d)| *d).collect();
+            removed.dumpers = replaced_by(&proj.dumper_repo, &buf);
+            proj.dumper_repo.bulk_add(buf, metadata);
     
             let mut buf = Vec::with_capacity(to_add.softs.len());
             for s in to_add.softs.iter() {
                 buf.push((s.start_tick, *s));
             }
-            removed.softs = proj.soft_repo.bulk_add(buf, metadata).iter().map(|(_, s)| *s).collect();
+            removed.softs = replaced_by(&proj.soft_repo, &buf);
+            proj.soft_repo.bulk_add(buf, metadata);
             
             let replenished_bars = proj.replenish_bars();
             to_add.bars.extend(replenished_bars);
-- 
2.43.0


From bd8728d9758f8eba9a09e4084e3693f2a68e4007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:54 +0000
Subject: [PATCH 22/33] fix: undoing a change restores the project also when
 items are missing or collide

Undo added the items to be changed that did not exist, and those of several
items moved to the same tick that had been replaced.
---
 src/project.rs | 79 ++++++++++++++++++++++----------------------------
 1 file changed, 35 insertions(+), 44 deletions(-)

diff --git a/src/project.rs b/src/project.rs
index 9460724..58eea12 100644
--- a/src/project.rs
+++ b/src/project.rs
@@ -10,6 +10,7 @@ use serdo::cmd::{SerializableCmd, Cmd};
 use crate::bar::{Bar, RepeatSet};
 use crate::ctrl_chg::CtrlChg;
 use crate::grid::Grid;
+use crate::have_start_tick::HaveBaseStartTick;
 use crate::key::Key;
 use crate::location::Location;
 use crate::models::{Models, ModelChanges};
@@ -361,6 +362,28 @@ fn replaced_by<T: Copy>(store: &Store<u32, T, ModelChangeMetadata>, to_add: &[(u
     ticks.iter().filter_map(|tick| store.find(tick).ok().map(|i| store[i].1)).collect()
 }
 
+// Changes the items in the store. Reports what to add and remove to do the same.
+fn change_store<T: Copy + HaveBaseStartTick>(
+    store: &mut Store<u32, T, ModelChangeMetadata>, from_to: &[(T, T)], metadata: ModelChangeMetadata,
+    added: &mut Vec<T>, removed: &mut Vec<T>,
+) {
+    let from_ticks: Vec<u32> = from_to.iter().map(|(from, _)| from.base_start_tick()).collect();
+    let mut changed: BTreeSet<u32> = BTreeSet::new();
+    let mut changes: Vec<(&u32, (u32, T))> = Vec::with_capacity(from_to.len());
+    for (from_tick, (_, to)) in from_ticks.iter().zip(from_to.iter()) {
+        if let Ok(i) = store.find(from_tick) {
+            if changed.insert(*from_tick) {
+                changes.push((from_tick, (to.base_start_tick(), *to)));
+                added.push(*to);
+                removed.push(store[i].1);
+            }
+        }
+    }
+    let adding: Vec<(u32, T)> = changes.iter().map(|(_, to)| *to).filter(|(tick, _)| ! changed.contains(tick)).collect();
+    removed.extend(replaced_by(store, &adding));
+    store.change(&changes, metadata);
+}
+
 pub fn tempo_at(tick: u32, store: &Store<u32, Tempo, ModelChangeMetadata>) -> TempoValue {
     if store.is_empty() {
         DEFAULT_TEMPO
@@ -805,53 +828,21 @@ impl Project for SqliteUndoStore::<ProjectCmd, ProjectImpl, ProjectCmdErr> {
 
             let mut note_change: Vec<((u32, Rc<Note>), (u32, Rc<Note>))> = Vec::with_capacity(from_to.notes.len());
             for (from, to) in from_to.notes.iter() {
-                note_change.push((
-                    (from.start_tick(), Rc::new(from.clone())), (to.start_tick(), Rc::new(to.clone()))
-                ));
-                added.notes.push(to.clone());
-                removed.notes.push(from.clone());
+                let exists = proj.note_repo.get(from.start_tick()).iter().filter(|n| ***n == *from).count();
+                if removed.notes.iter().filter(|n| *n == from).count() < exists {
+                    note_change.push((
+                        (from.start_tick(), Rc::new(from.clone())), (to.start_tick(), Rc::new(to.clone()))
+                    ));
+                    added.notes.push(to.clone());
+                    removed.notes.push(from.clone());
+                }
             }
             proj.note_repo.change(&note_change, metadata);
 
-            let mut bar_change: Vec<(&u32, (u32, Bar))> = Vec::with_capacity(from_to.bars.len());
-            for (from, to) in from_to.bars.iter() {
-                bar_change.push((
-                    &from.start_tick, (to.start_tick, *to)
-                ));
-                added.bars.push(*to);
-                removed.bars.push(*from);
-            }
-            removed.bars.extend(proj.bar_repo.change(&bar_change, metadata).iter().map(|(_, b)| *b).collect::<Vec<Bar>>());
-
-            let mut tempo_change: Vec<(&u32, (u32, Tempo))> = Vec::with_capacity(from_to.tempos.len());
-            for (from, to) in from_to.tempos.iter() {
-                tempo_change.push((
-                    &from.start_tick, (to.start_tick, *to)
-                ));
-                added.tempos.push(*to);
-                removed.tempos.push(*from);
-            }
-            removed.tempos.extend(proj.tempo_repo.change(&tempo_change,metadata).iter().map(|(_, t)| *t).collect::<Vec<Tempo>>());
-
-            let mut dumper_change: Vec<(&u32, (u32, CtrlChg))> = Vec::with_capacity(from_to.dumpers.len());
-            for (from, to) in from_to.dumpers.iter() {
-                dumper_change.push((
-                    &from.start_tick, (to.start_tick, *to)
-                ));
-                added.dumpers.push(*to);
-                removed.dumpers.push(*from);
-            }
-            removed.dumpers.extend(proj.dumper_repo.change(&dumper_change,metadata).iter().map(|(_, t)| *t).collect::<Vec<CtrlChg>>());
-
-            let mut soft_change: Vec<(&u32, (u32, CtrlChg))> = Vec::with_capacity(from_to.softs.len());
-            for (from, to) in from_to.softs.iter() {
-                soft_change.push((
-                    &from.start_tick, (to.start_tick, *to)
-                ));
-                added.softs.push(*to);
-                removed.softs.push(*from);
-            }
-            removed.softs.extend(proj.soft_repo.change(&soft_change,metadata).iter().map(|(_, t)| *t).collect::<Vec<CtrlChg>>());
+            change_store(&mut proj.bar_repo, &from_to.bars, metadata, &mut added.bars, &mut removed.bars);
+            change_store(&mut proj.tempo_repo, &from_to.tempos, metadata, &mut added.tempos, &mut removed.tempos);
+            change_store(&mut proj.dumper_repo, &from_to.dumpers, metadata, &mut added.dumpers, &mut removed.dumpers);
+            change_store(&mut proj.soft_repo, &from_to.softs, metadata, &mut added.softs, &mut removed.softs);
 
             added.bars.extend(proj.replenish_bars());
             Ok(ProjectCmd::ModelChanged {
-- 
2.43.0


From 6cbf2abec11b4ecb527ad8ccdf59a81833452496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:45 +0000
Subject: [PATCH 23/33] fix: conflicting repeat marks are refused in whichever
 order they are added

D.S. could be added to D.C., and Segno to D.C. or a variation, though not the
other way around.
---
 src/bar.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/bar.rs b/src/bar.rs
index 787798f..50a0dc2 100644
--- a/src/bar.rs
+++ b/src/bar.rs
@@ -117,7 +117,12 @@ impl RepeatSet {
     );
 
     const DS_DISLIKE: EnumSet<Repeat> = enum_set!(
-        Repeat::Start
+        Repeat::Start | Repeat::Dc
+        | Repeat::Var1 | Repeat::Var2 | Repeat::Var3 | Repeat::Var4
+    );
+
+    const SEGNO_DISLIKE: EnumSet<Repeat> = enum_set!(
+        Repeat::Dc
         | Repeat::Var1 | Repeat::Var2 | Repeat::Var3 | Repeat::Var4
     );
 
@@ -162,7 +167,7 @@ impl RepeatSet {
             Repeat::Dc => self.try_add_repeat(Self::DC_DISLIKE, r),
             Repeat::Fine => self.try_add_repeat(EnumSet::empty(), r),
             Repeat::Ds => self.try_add_repeat(Self::DS_DISLIKE, r),
-            Repeat::Segno => self.try_add_repeat(EnumSet::empty(), r),
+            Repeat::Segno => self.try_add_repeat(Self::SEGNO_DISLIKE, r),
             Repeat::Coda => self.try_add_repeat(EnumSet::empty(), r),
             Repeat::Var1 => self.try_add_repeat(Self::REGION1_DISLIKE, r),
             Repeat::Var2 => self.try_add_repeat(Self::REGION2_DISLIKE, r),
-- 
2.43.0


From 4b2757b3ba719e32f5bee23e0bc861cd9bed6516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:47 +0000
Subject: [PATCH 24/33] fix: an undo store of capacity zero keeps nothing

---
 src/undo.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/undo.rs b/src/undo.rs
index eb0b7e0..8727da9 100644
--- a/src/undo.rs
+++ b/src/undo.rs
@@ -43,10 +43,8 @@ impl UndoStore {
             self.index = 0;
         }
         
-        if self.capacity <= self.store.len() {
-            self.store.pop_back();
-        }
         self.store.push_front(undo);
+        self.store.truncate(self.capacity);
     }
     
     pub fn undo(&mut self) -> Option<&Undo> {
-- 
2.43.0


From 039cfc3c8457fae0006ac4fe6ed492dd986ba427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:49 +0000
Subject: [PATCH 25/33] fix: PlayStartTick::to_accum_tick does not overflow for
 large ticks whose accumulated tick fits

---
 src/play_start_tick.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/play_start_tick.rs b/src/play_start_tick.rs
index c00406e..1a33e18 100644
--- a/src/play_start_tick.rs
+++ b/src/play_start_tick.rs
@@ -26,7 +26,7 @@ impl PlayStartTick {
         for (accum_tick, chunk) in chunks {
             if chunk.contains(self.tick) {
                 if cur_iter == self.iter.iter() {
-                    return Ok(accum_tick + self.tick - chunk.start_tick());
+                    return Ok(accum_tick + (self.tick - chunk.start_tick()));
                 }
                 cur_iter += 1;
             }
-- 
2.43.0


From cb80a5c769a61755e52666dd90d612029aba0332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:51 +0000
Subject: [PATCH 26/33] fix: a tempo text outside the range is clamped instead
 of panicking, like velocities

---
 src/text_input.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/text_input.rs b/src/text_input.rs
index 5d4d82e..abde235 100644
--- a/src/text_input.rs
+++ b/src/text_input.rs
@@ -83,7 +83,7 @@ impl FromStr for Validated<Option<TempoValue>> {
         if s.is_empty() {
             Ok(Validated(None))
         } else {
-            s.parse::<u16>().map(|u| Validated(Some(TempoValue::new(u))))
+            s.parse::<u16>().map(|u| Validated(Some(TempoValue::safe_new(u))))
         }
     }
 }
-- 
2.43.0


From ab67251edeaf2b3e309ee793782c9ebe18576f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:53 +0000
Subject: [PATCH 27/33] fix: parse_location refuses numbers it cannot represent
 instead of panicking

---
 src/location.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/location.rs b/src/location.rs
index 6501c57..abf51fa 100644
--- a/src/location.rs
+++ b/src/location.rs
@@ -27,11 +27,11 @@ impl Display for Location {
 
 const LOCATION_PATTERN: once_cell::unsync::Lazy<Regex> = once_cell::unsync::Lazy::new(|| Regex::new(r"^(\d+):(\d+)$").unwrap());
 pub fn parse_location(s: &str) -> Option<Location> {
-    LOCATION_PATTERN.captures(s).map(|c| {
-        Location {
-            bar_no: c.get(1).unwrap().as_str().parse().unwrap(),
-            offset: c.get(2).unwrap().as_str().parse().unwrap(),
-        }
+    LOCATION_PATTERN.captures(s).and_then(|c| {
+        Some(Location {
+            bar_no: c.get(1)?.as_str().parse().ok()?,
+            offset: c.get(2)?.as_str().parse().ok()?,
+        })
     })
 }
 
-- 
2.43.0


From 24faabc8e50f1226224bc817c3b6b38a899097e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:55 +0000
Subject: [PATCH 28/33] fix: a variation after the fourth one is an error
 instead of a panic

---
 src/repeat.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/repeat.rs b/src/repeat.rs
index fb0ee3c..261e4de 100644
--- a/src/repeat.rs
+++ b/src/repeat.rs
@@ -460,7 +460,7 @@ pub fn render_region<'a>(tune_rhythm: Rhythm, bars: impl Iterator<Item = &'a Bar
             RenderRegionState::Variation { start_tick: *start_tick, region_start_ticks: rst }
           } else {
             return Err(report!(RenderRegionError::InvalidRegionIndex {
-              tick: bar.base_start_tick(), actual: ri, expected: VarIndex::from_value(current_idx + 1).unwrap()
+              tick: bar.base_start_tick(), actual: ri, expected: VarIndex::from_value(current_idx + 1).unwrap_or(VarIndex::VI4)
             }));
           }
         } else {
-- 
2.43.0


From 8892f5096f3e1f65b487cbf821a7047c91f211ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:58 +0000
Subject: [PATCH 29/33] fix: D.C. and D.S. work with repeat marks on a bar at
 tick 0

---
 src/repeat.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/repeat.rs b/src/repeat.rs
index 261e4de..0857169 100644
--- a/src/repeat.rs
+++ b/src/repeat.rs
@@ -148,7 +148,11 @@ impl Region for SequenceRegion {
   }
 
   fn to_iter1_interval_set(&self) -> IntervalSet<u32> {
-    (self.tick_range.start, self.tick_range.end - 1).to_interval_set()
+    if self.tick_range.is_empty() {
+      vec![].to_interval_set()
+    } else {
+      (self.tick_range.start, self.tick_range.end - 1).to_interval_set()
+    }
   }
 }
 
@@ -183,7 +187,7 @@ impl Region for RepeatRegion {
   }
 
   fn to_iter1_interval_set(&self) -> IntervalSet<u32> {
-    (self.region.start_tick(), self.region.end_tick() - 1).to_interval_set()
+    self.region.to_iter1_interval_set()
   }
 }
 
-- 
2.43.0


From 4d4ff95c746b09dc125674244f04ebccedb2fd0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:01 +0000
Subject: [PATCH 30/33] fix: codas at or before the segno and a fine on the
 second coda do not break the second pass

---
 src/global_repeat.rs | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/global_repeat.rs b/src/global_repeat.rs
index 0a4fa23..01628b4 100644
--- a/src/global_repeat.rs
+++ b/src/global_repeat.rs
@@ -193,17 +193,16 @@ impl GlobalRepeatBuilder {
   fn to_interval_set(start_tick: u32, fine: Option<u32>, coda: Option<[u32; 2]>) -> IntervalSet<u32> {
     let end_tick = fine.unwrap_or(u32::MAX);
     match coda {
-        Some([coda_from, coda_to]) => vec![
-          (start_tick, coda_from - 1), (coda_to, end_tick - 1)
+        // Codas before the start are never found.
+        Some([coda_from, coda_to]) if start_tick <= coda_from => vec![
+          (start_tick, coda_from), (coda_to, end_tick)
         ],
-        None => {
-          if end_tick <= start_tick {
-            vec![]
-          } else {
-            vec![(start_tick, end_tick - 1)]
-          }
-        }
-    }.to_interval_set()
+        _ => vec![(start_tick, end_tick)],
+    }.into_iter()
+      .filter(|(from, to)| from < to)
+      .map(|(from, to)| (from, to - 1))
+      .collect::<Vec<_>>()
+      .to_interval_set()
   }
 
   pub fn build(self) -> Result<(Option<GlobalRepeat>, Vec<RenderRegionWarning>), RenderRegionError> {
-- 
2.43.0


From b3eefe862f5be38ad01e7c0cc975ee1647ddeb80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:28 +0000
Subject: [PATCH 31/33] fix: the auftakt rule of D.C. uses the length of the
 bar of D.C.

The length of the first bar was used instead, so that D.C. skipped the first
bar also when the last bar completes it.
---
 src/global_repeat.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/global_repeat.rs b/src/global_repeat.rs
index 01628b4..b069f9f 100644
--- a/src/global_repeat.rs
+++ b/src/global_repeat.rs
@@ -37,6 +37,7 @@ pub struct GlobalRepeatBuilder {
   pub segno: Option<u32>,
   pub coda: Option<Coda>,
   pub first_bar_len: Option<u32>,
+  pub prev_bar_tick: u32,
   pub top_rhythm: Rhythm,
   pub warnings: Vec<RenderRegionWarning>,
 }
@@ -72,6 +73,7 @@ impl GlobalRepeatBuilder {
       segno: None,
       coda: None,
       first_bar_len: None,
+      prev_bar_tick: 0,
       top_rhythm: tune_rhythm,
       warnings: vec![],
     }
@@ -160,15 +162,11 @@ impl GlobalRepeatBuilder {
     }
 
     if repeats.contains(Repeat::Dc) {
-      match self.first_bar_len {
-        Some(first_bar_len) => {
-          self = self.adding_dc(tick, first_bar_len)?;
-        }
-        None => {
-          self = self.adding_dc(tick, 0)?;
-        }
-      }
+      // The length of the bar D.C. is located at the end of.
+      let len = tick.saturating_sub(self.prev_bar_tick);
+      self = self.adding_dc(tick, len)?;
     }
+    self.prev_bar_tick = tick;
 
     self = if repeats.contains(Repeat::Ds) { self.adding_ds(tick)? } else { self };
     self = if repeats.contains(Repeat::Fine) { self.adding_fine(tick)? } else { self };
@@ -219,9 +217,11 @@ impl GlobalRepeatBuilder {
                 segno_tick
               } else {
                 let rhythm_tick_len = self.top_rhythm.tick_len();
-                if len + first_bar_len == rhythm_tick_len {
+                if rhythm_tick_len <= first_bar_len {
+                  // Not auftakt.
                   0
-                } else if len == rhythm_tick_len && first_bar_len == rhythm_tick_len {
+                } else if len.saturating_add(first_bar_len) <= rhythm_tick_len {
+                  // The first bar completes the bar of D.C.
                   0
                 } else {
                   first_bar_len
-- 
2.43.0


From cab5c289bee585dc9796220fc21a2201348661ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:30 +0000
Subject: [PATCH 32/33] fix: D.C. and D.S. in a repeat that starts implicitly
 are errors like in other repeats

The repeat was not played, or rendering panicked for variations.
---
 src/repeat.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/repeat.rs b/src/repeat.rs
index 0857169..31209ae 100644
--- a/src/repeat.rs
+++ b/src/repeat.rs
@@ -399,6 +399,12 @@ pub fn render_region<'a>(tune_rhythm: Rhythm, bars: impl Iterator<Item = &'a Bar
 
     state = match &state {
       RenderRegionState::Idle => {
+        if bar.repeats.contains(Repeat::End) || bar.repeats.region_index().is_some() {
+          // The repeat starts implicitly at the top of the tune.
+          if let Some(ds_dc) = global_repeat.ds_dc.filter(|ds_dc| ds_dc.tick() < bar.base_start_tick()) {
+            return Err(report!(RenderRegionError::DcDsWhileRepeat { tick: ds_dc.tick() }));
+          }
+        }
         if bar.repeats.contains(Repeat::Start) && bar.repeats.contains(Repeat::End) {
           regions.push(Box::new(RepeatRegion { region: SequenceRegion { tick_range: 0..bar.base_start_tick() }}));
           RenderRegionState::RepeatStart { start_tick: bar.base_start_tick() }
-- 
2.43.0


From 022b926c55caddafc23f490d9e5a23404c8ed96d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:13 +0000
Subject: [PATCH 33/33] fix: a pitch above the highest natural (A8 double flat)
 can be moved along the staff

---
 src/pitch.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pitch.rs b/src/pitch.rs
index 1ff96d1..827964b 100644
--- a/src/pitch.rs
+++ b/src/pitch.rs
@@ -175,7 +175,8 @@ impl Pitch {
 
     pub fn with_score_offset_delta(self, score_offset_delta: i32) -> Result<Self, PitchError> {
         let score_offset = (self.score_offset as i32).saturating_add(score_offset_delta);
-        if score_offset < MIN_SCORE_OFFSET || MAX_SCORE_OFFSET < score_offset {
+        // A double flat may stand above the highest natural.
+        if score_offset < MIN_SCORE_OFFSET || octave::MAX.offset() * 7 + 6 < score_offset {
             return Err(PitchError::InvalidScoreOffset(score_offset));
         }
 
-- 
2.43.0

