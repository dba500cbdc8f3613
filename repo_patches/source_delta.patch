From 77601d0360387a7c8054a7a1a7c707c4c740974b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:38 +0000
Subject: [PATCH 01/18] fix: keep every nanosecond bit when packing a DateTime

The upper nanosecond bits were shifted out of the word and the top bit of the
second landed among them instead of at bit 40.
---
 src/iso8601/date_time.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/iso8601/date_time.rs b/src/iso8601/date_time.rs
index d7f4815..429092c 100644
--- a/src/iso8601/date_time.rs
+++ b/src/iso8601/date_time.rs
@@ -176,9 +176,9 @@ impl DateTime {
         let year = gnd.year;
         let day = gnd.day;
         let rebased_cycle = cycle as i32 + 6;
-        ((nanosecond & 0x7FFF0000) as u64) << 48
+        ((nanosecond & 0x7FFF0000) as u64) << 32
             | (p as u64) << 41
-            | ((second & 0x10000) as u64) << 40
+            | ((second & 0x10000) as u64) << 24
             | ((rebased_cycle & 0x1F) as u64) << 35
             | ((century & 0x3) as u64) << 33
             | ((quadrennium & 0x1F) as u64) << 27
@@ -194,9 +194,9 @@ impl DateTime {
         let quadrennium = ((w0 >> 27) & 0x1F) as u8;
         let century = ((w0 >> 33) & 0x3) as u8;
         let cycle = ((w0 >> 35) & 0x1F) as i8 - 6;
-        let second = ((w0 >> 40) & 0x10000) as u32 | lower_second;
-        let precision = Self::decode_precision((w0 >> 41) as u8);
-        let nanosecond = ((w0 >> 48) & 0x7FFF0000) as u32;
+        let second = ((w0 >> 24) & 0x10000) as u32 | lower_second;
+        let precision = Self::decode_precision((w0 >> 41) as u8 & 0xF);
+        let nanosecond = ((w0 >> 32) & 0x7FFF0000) as u32;
         let gnd = GregorianNormalizedDate {
             cycle,
             century,
-- 
2.43.0


From 9f7253c6193208033da6a404af2d86217a0c0eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:38 +0000
Subject: [PATCH 02/18] fix: reject day 0 instead of underflowing

---
 src/gregorian_normalized_date.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gregorian_normalized_date.rs b/src/gregorian_normalized_date.rs
index ea30dae..fdf58f0 100644
--- a/src/gregorian_normalized_date.rs
+++ b/src/gregorian_normalized_date.rs
@@ -198,7 +198,7 @@ impl GregorianNormalizedDate {
         if !(Self::MIN_YEAR..=Self::MAX_YEAR).contains(&year) {
             return Err(Error::DateOutOfBounds);
         }
-        if !(1..=12).contains(&month) {
+        if !(1..=12).contains(&month) || day == 0 {
             return Err(Error::InvalidDate);
         }
 
-- 
2.43.0


From d8c3e4a019642f3e9f510e57e92d7c7628177e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:38 +0000
Subject: [PATCH 03/18] fix: default an omitted month and day to the first, not
 to 0

---
 src/iso8601/date_time_builder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/iso8601/date_time_builder.rs b/src/iso8601/date_time_builder.rs
index a41990b..37291c8 100644
--- a/src/iso8601/date_time_builder.rs
+++ b/src/iso8601/date_time_builder.rs
@@ -141,12 +141,12 @@ impl DateTimeBuilder {
         let month = if precision >= Precision::Months {
             self.month.expect("No month provided")
         } else {
-            0
+            1
         };
         let day = if precision >= Precision::Days {
             self.day.expect("No day provided")
         } else {
-            0
+            1
         };
         let hour = if precision >= Precision::Hours {
             self.hour.expect("No hour provided")
-- 
2.43.0


From 75d123baf42672ea43220f78c21c4642a8c178d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:33 +0000
Subject: [PATCH 04/18] fix: clip the time of day to the last second that
 exists on the target day

The leap second was looked up on the day after the segment, the clipped second was
one too large, and days outside the leap-second table were not clipped at all.
---
 src/iso8601/date_time.rs | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/src/iso8601/date_time.rs b/src/iso8601/date_time.rs
index 429092c..4102399 100644
--- a/src/iso8601/date_time.rs
+++ b/src/iso8601/date_time.rs
@@ -602,20 +602,17 @@ impl DateTime {
         // we need a larger return type here, and probably some kind of fix to the logic.
         let leap_second_chronology = self.chronology.leap_seconds();
         let days_from_epoch = gnd.to_day();
-        if let SegmentLookupResult::In(segment) = leap_second_chronology.by_day(days_from_epoch) {
-            let day_offset = (days_from_epoch - segment.start_day as i32) as u32;
-            let leap_seconds = if day_offset == segment.duration_days {
+        let leap_seconds = match leap_second_chronology.by_day(days_from_epoch) {
+            SegmentLookupResult::In(segment)
+                if days_from_epoch == segment.end_day() as i32 - 1 =>
+            {
                 segment.leap_seconds
-            } else {
-                0
-            };
-            let day_length_s = (SECONDS_PER_DAY as i32 + leap_seconds as i32) as u32;
-            if second >= day_length_s {
-                let second_carry = second - day_length_s;
-                (day_length_s, second_carry)
-            } else {
-                (second, 0)
             }
+            _ => 0,
+        };
+        let last_second = (SECONDS_PER_DAY as i32 + leap_seconds as i32) as u32 - 1;
+        if second > last_second {
+            (last_second, second - last_second)
         } else {
             (second, 0)
         }
-- 
2.43.0


From 533d19effea2d17b0ae9bbed801a673b773f25fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:33 +0000
Subject: [PATCH 05/18] fix: count the last leap second of the table after it
 has happened

---
 src/zoneinfo.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/zoneinfo.rs b/src/zoneinfo.rs
index ffa8a74..5f512e0 100644
--- a/src/zoneinfo.rs
+++ b/src/zoneinfo.rs
@@ -239,6 +239,8 @@ pub(crate) fn get_leap_second_adjustment_for_unix_timestamp(unix_timestamp: i64)
     match leap_seconds.by_day(day) {
         SegmentLookupResult::BeforeFirst(_) => 0,
         SegmentLookupResult::In(segment) => segment.accumulated_leap_seconds,
-        SegmentLookupResult::AfterLast(last_segment) => last_segment.accumulated_leap_seconds,
+        SegmentLookupResult::AfterLast(last_segment) => {
+            last_segment.accumulated_leap_seconds + last_segment.leap_seconds as i32
+        }
     }
 }
-- 
2.43.0


From ea96399ed4edfc7e4bc71ef3805394ff64ed0dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:33 +0000
Subject: [PATCH 06/18] fix: count fractions of a second forwards before 1970
 too

---
 src/instant.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/instant.rs b/src/instant.rs
index 16dde7c..39a5a00 100644
--- a/src/instant.rs
+++ b/src/instant.rs
@@ -363,10 +363,15 @@ fn system_time_to_time_t(value: SystemTime) -> (libc::time_t, u32) {
     }
     .unwrap();
     let mut seconds = duration.as_secs() as i64;
+    let mut nanoseconds = duration.subsec_nanos();
     if sign {
         seconds = -seconds;
+        if nanoseconds != 0 {
+            seconds -= 1;
+            nanoseconds = 1_000_000_000 - nanoseconds;
+        }
     }
-    (seconds, duration.subsec_nanos())
+    (seconds, nanoseconds)
 }
 
 /// Return true if the system time includes leap seconds.
-- 
2.43.0


From 5e553ff112049233fb4ed5d67c26ed5f2c8ed0b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:33 +0000
Subject: [PATCH 07/18] fix: don't wrap the day around when looking up leap
 seconds for far timestamps

---
 src/zoneinfo.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/zoneinfo.rs b/src/zoneinfo.rs
index 5f512e0..7231631 100644
--- a/src/zoneinfo.rs
+++ b/src/zoneinfo.rs
@@ -235,7 +235,10 @@ pub(crate) fn get_leap_second_adjustment_for_unix_timestamp(unix_timestamp: i64)
     let utc = iso8601::load_chronology("UTC");
     let leap_seconds = utc.leap_seconds();
 
-    let day = (unix_timestamp / 86_400) as i32;
+    // Days that don't fit in an i32 are far outside the leap second table on either side.
+    let day = unix_timestamp
+        .div_euclid(86_400)
+        .clamp(i32::MIN as i64, i32::MAX as i64) as i32;
     match leap_seconds.by_day(day) {
         SegmentLookupResult::BeforeFirst(_) => 0,
         SegmentLookupResult::In(segment) => segment.accumulated_leap_seconds,
-- 
2.43.0


From 816f88006dea9235f9d2461f1045bfb881b0c006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:33 +0000
Subject: [PATCH 08/18] fix: compare instants of different scales by the moment
 they denote

The conversion was inverted: the finer side was multiplied instead of divided, which
made different moments equal and overflowed for large ticks.
---
 src/instant.rs | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/instant.rs b/src/instant.rs
index 39a5a00..7693624 100644
--- a/src/instant.rs
+++ b/src/instant.rs
@@ -222,11 +222,11 @@ where
         //
         // If s1 < s2 then this can be rewritten as
         //
-        // t1 == t2*s2/s1.
+        // t1 == t2/(s2/s1).
         //
         // If s1 > s2, it can be rewritten as
         //
-        // t1*s1/s2 == t2.
+        // t1/(s1/s2) == t2.
         //
         // If s1 == s2, then it simplifies to
         //
@@ -239,12 +239,14 @@ where
             std::cmp::Ordering::Less => {
                 let factor =
                     T2::from(s2 / s1).expect("scale conversion factor is too large for type T2");
-                t1.num_eq(t2 * factor)
+                let (t2, remainder) = t2.div_mod_floor(&factor);
+                remainder.is_zero() && t1.num_eq(t2)
             }
             std::cmp::Ordering::Greater => {
                 let factor =
                     T1::from(s1 / s2).expect("scale conversion factor is too large for type T1");
-                (t1 * factor).num_eq(t2)
+                let (t1, remainder) = t1.div_mod_floor(&factor);
+                remainder.is_zero() && t1.num_eq(t2)
             }
             std::cmp::Ordering::Equal => t1.num_eq(t2),
         }
@@ -298,12 +300,24 @@ where
             std::cmp::Ordering::Less => {
                 let factor =
                     T2::from(s2 / s1).expect("scale conversion factor is too large for type T2");
-                t1.num_cmp(t2 * factor)
+                let (t2, remainder) = t2.div_mod_floor(&factor);
+                match t1.num_cmp(t2) {
+                    Some(std::cmp::Ordering::Equal) if !remainder.is_zero() => {
+                        Some(std::cmp::Ordering::Less)
+                    }
+                    ordering => ordering,
+                }
             }
             std::cmp::Ordering::Greater => {
                 let factor =
                     T1::from(s1 / s2).expect("scale conversion factor is too large for type T1");
-                (t1 * factor).num_cmp(t2)
+                let (t1, remainder) = t1.div_mod_floor(&factor);
+                match t1.num_cmp(t2) {
+                    Some(std::cmp::Ordering::Equal) if !remainder.is_zero() => {
+                        Some(std::cmp::Ordering::Greater)
+                    }
+                    ordering => ordering,
+                }
             }
             std::cmp::Ordering::Equal => t1.num_cmp(t2),
         }
-- 
2.43.0


From 72dfa14b6799586fb3ef8e64592da14a40c1c97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:33 +0000
Subject: [PATCH 09/18] fix: round negative durations down in Duration::floor

---
 src/duration.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/duration.rs b/src/duration.rs
index 5082602..d5035a8 100644
--- a/src/duration.rs
+++ b/src/duration.rs
@@ -114,7 +114,7 @@ impl<T: Tick, S: Scale> Duration<T, S> {
             "Cannot floor to a higher scale"
         );
         let factor = T::from(S::TICKS_PER_SECOND).unwrap() / T::from(S2::TICKS_PER_SECOND).unwrap();
-        Duration::new(self.ticks / factor)
+        Duration::new(self.ticks.div_floor(&factor))
     }
 
     pub fn extend<S2: Scale>(&self) -> Option<Duration<T, S2>> {
-- 
2.43.0


From d01691cbe5d6b16a3d895fd6bd2bde33c3e2cd16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:41 +0000
Subject: [PATCH 10/18] fix: refuse to add more years than the range holds
 instead of wrapping around

---
 src/iso8601/date_time.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/iso8601/date_time.rs b/src/iso8601/date_time.rs
index 4102399..069c4b0 100644
--- a/src/iso8601/date_time.rs
+++ b/src/iso8601/date_time.rs
@@ -320,6 +320,9 @@ impl DateTime {
     }
 
     pub fn checked_add_years(&self, years: i16) -> Option<DateTimeWithCarry> {
+        if years.unsigned_abs() > MAX_YEAR - MIN_YEAR {
+            return None;
+        }
         let (precision, mut gnd, second, nanosecond) = Self::unpack0(self.w0);
         let day_carry = gnd.add_years(years);
         if !is_in_range(&gnd) {
-- 
2.43.0


From c961a5bb1830a2fbfed5fbbe8ba853017c9849a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:41 +0000
Subject: [PATCH 11/18] fix: refuse to add more months than the range holds
 instead of wrapping around

---
 src/iso8601/date_time.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/iso8601/date_time.rs b/src/iso8601/date_time.rs
index 069c4b0..63635c3 100644
--- a/src/iso8601/date_time.rs
+++ b/src/iso8601/date_time.rs
@@ -350,6 +350,9 @@ impl DateTime {
     }
 
     pub fn checked_add_months(&self, months: i32) -> Option<DateTimeWithCarry> {
+        if months.unsigned_abs() > (MAX_YEAR - MIN_YEAR + 1) as u32 * 12 {
+            return None;
+        }
         let (precision, mut gnd, second, nanosecond) = Self::unpack0(self.w0);
         let day_carry = gnd.add_months(months);
         if !is_in_range(&gnd) {
-- 
2.43.0


From 345788708d08085ee53250c0c646a325ed753c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:41 +0000
Subject: [PATCH 12/18] fix: report out of bounds instead of wrapping the cycle
 when adding many days

---
 src/gregorian_normalized_date.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/gregorian_normalized_date.rs b/src/gregorian_normalized_date.rs
index fdf58f0..852f19d 100644
--- a/src/gregorian_normalized_date.rs
+++ b/src/gregorian_normalized_date.rs
@@ -400,7 +400,9 @@ impl GregorianNormalizedDate {
         let (cycles, day) = day.div_mod_floor(&(GREGORIAN_CYCLE_DAYS as i32));
         let (century, quadrennium, year, day) = decompose_day_of_cycle(day as u32);
 
-        self.cycle = self.cycle.checked_add(cycles as i8).ok_or(OutOfBounds)?;
+        self.cycle = (self.cycle as i32 + cycles)
+            .try_into()
+            .map_err(|_| OutOfBounds)?;
         self.century = century;
         self.quadrennium = quadrennium;
         self.year = year;
-- 
2.43.0


From 37ce1b2a1355cf868cc38617c7360a800718efee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:41 +0000
Subject: [PATCH 13/18] fix: refuse to add more minutes than fit instead of
 overflowing

---
 src/iso8601/date_time.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/iso8601/date_time.rs b/src/iso8601/date_time.rs
index 63635c3..0914890 100644
--- a/src/iso8601/date_time.rs
+++ b/src/iso8601/date_time.rs
@@ -424,8 +424,8 @@ impl DateTime {
             second_of_day.clamped_div_rem(MINUTES_PER_HOUR as u32, MINUTES_PER_DAY - 1);
         let second_of_minute = second_of_minute as u8;
         let (day_delta, minute) =
-            (minute as i64 + minutes).div_mod_floor(&(MINUTES_PER_DAY as i64));
-        let (day_delta, minute) = (day_delta as i32, minute as u16);
+            (minute as i64).checked_add(minutes)?.div_mod_floor(&(MINUTES_PER_DAY as i64));
+        let (day_delta, minute) = (day_delta.try_into().ok()?, minute as u16);
         gnd.add_days(day_delta).ok()?;
         if !is_in_range(&gnd) {
             return None;
-- 
2.43.0


From 41c5eca10bca9c34789d5df103aa8b97945130ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:41 +0000
Subject: [PATCH 14/18] fix: return None instead of panicking when adding
 i64::MIN seconds

---
 src/iso8601/date_time.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/iso8601/date_time.rs b/src/iso8601/date_time.rs
index 0914890..4397c37 100644
--- a/src/iso8601/date_time.rs
+++ b/src/iso8601/date_time.rs
@@ -581,7 +581,8 @@ impl DateTime {
             }
             SegmentLookupResult::BeforeFirst(first_segment) => {
                 let seconds_until_first_segment =
-                    (first_segment.start_instant.into() - instant).ticks() as u64;
+                    (first_segment.start_instant.ticks_since_epoch() as i64)
+                        .checked_sub(instant.ticks_since_epoch())? as u64;
                 // When seconds_until_first_segment is 1, we want to end up subtracting 1 day and
                 // setting the second to 86399. Simply dividing by SECONDS_PER_DAY will give us 0 days.
                 // It's essentially a division that rounds up.
-- 
2.43.0


From 799b7ad691a2fbeb2b80bfd9b16d4ce739ede69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:41 +0000
Subject: [PATCH 15/18] fix: don't underflow when advancing from the end or
 reverting from the start

---
 src/slice_cursor.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/slice_cursor.rs b/src/slice_cursor.rs
index beb2bd0..3e66616 100644
--- a/src/slice_cursor.rs
+++ b/src/slice_cursor.rs
@@ -57,7 +57,7 @@ impl<'a, T> Cursor for SliceCursor<'a, T> {
         }
     }
     fn advance_by(&mut self, n: usize) -> Result<(), NonZeroUsize> {
-        let remaining = self.slice.len() - self.pos;
+        let remaining = self.slice.len().saturating_sub(self.pos);
         let advance = min(n, remaining);
         self.pos += advance;
         let n = n - advance;
@@ -106,7 +106,7 @@ impl<'a, T> Cursor for SliceCursor<'a, T> {
     }
 
     fn revert_by(&mut self, n: usize) -> Result<(), NonZeroUsize> {
-        let remaining = self.pos - 1;
+        let remaining = self.pos.saturating_sub(1);
         let revert = min(n, remaining);
         self.pos -= revert;
         let n = n - revert;
-- 
2.43.0


From 1dd6742202ba07c81c4a227479ff01ff9a35e051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:41 +0000
Subject: [PATCH 16/18] fix: support a leap second table without entries

---
 src/zoneinfo.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/zoneinfo.rs b/src/zoneinfo.rs
index 7231631..a860ecb 100644
--- a/src/zoneinfo.rs
+++ b/src/zoneinfo.rs
@@ -223,6 +223,17 @@ pub(crate) fn load_leap_segments() -> Vec<ContinuousTimeSegment> {
         previous_leap_second_total = leap_second_total;
     }
 
+    if segments.is_empty() {
+        // The lookups need a segment to be before or after, so provide one that contains nothing.
+        segments.push(ContinuousTimeSegment {
+            start_instant,
+            start_day,
+            duration_days: 0,
+            leap_seconds: 0,
+            accumulated_leap_seconds: 0,
+        });
+    }
+
     segments
 }
 
-- 
2.43.0


From 5f470bae2b91099abeccfbfb01276a2350ec4d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:41 +0000
Subject: [PATCH 17/18] fix: end the right day when seconds have been removed

A leap second table timestamp falls on the previous day when seconds have been
removed, either by the entry itself or on balance before it.
---
 src/zoneinfo.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/zoneinfo.rs b/src/zoneinfo.rs
index a860ecb..72361e6 100644
--- a/src/zoneinfo.rs
+++ b/src/zoneinfo.rs
@@ -202,12 +202,15 @@ pub(crate) fn load_leap_segments() -> Vec<ContinuousTimeSegment> {
     let mut start_day = 0;
     let mut previous_leap_second_total = 0;
     for leap_second in tz.leap_seconds.iter() {
-        let end_day = leap_second.timestamp as u32 / 86400;
-
         let leap_second_total = leap_second.leap_second_count;
         let leap_seconds = leap_second_total - previous_leap_second_total;
         assert!(leap_seconds >= i8::MIN as i32 && leap_seconds <= i8::MAX as i32);
         let leap_seconds = leap_seconds as i8;
+        // The timestamp includes the leap seconds before it, and that of a removed second denotes
+        // the second that is missing at the end of the day rather than the end itself.
+        let end_timestamp =
+            leap_second.timestamp - previous_leap_second_total - leap_seconds.min(0) as i32;
+        let end_day = end_timestamp as u32 / 86400;
         let duration_days = end_day - start_day;
         let duration_seconds = duration_days as i32 * 86400 + leap_seconds as i32;
         segments.push(ContinuousTimeSegment {
-- 
2.43.0


From 75f0266d91191c8f362e1b71e445fdbf73151709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:41 +0000
Subject: [PATCH 18/18] verification hooks: wrappers of the calendar core and
 the slice cursor behind cfg(momentous_verif)

---
 src/lib.rs         |   3 ++
 src/verif_hooks.rs | 112 +++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 115 insertions(+)
 create mode 100644 src/verif_hooks.rs

diff --git a/src/lib.rs b/src/lib.rs
index e4b2eb8..bd47603 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -13,6 +13,9 @@ mod least_common_width;
 mod period;
 mod scale;
 mod slice_cursor;
+#[allow(unexpected_cfgs)]
+#[cfg(momentous_verif)]
+pub mod verif_hooks;
 mod widen;
 mod zoneinfo;
 
diff --git a/src/verif_hooks.rs b/src/verif_hooks.rs
new file mode 100644
index 0000000..0ae3721
--- /dev/null
+++ b/src/verif_hooks.rs
@@ -0,0 +1,112 @@
+//! Entry points for the verification machinery (compiled only with `--cfg momentous_verif`):
+//! thin wrappers around private items, without any logic of their own.
+use crate::cursor::{Cursor, CursorPosition, CursorWithPosition};
+use crate::gregorian_normalized_date::{Error, GregorianNormalizedDate};
+use crate::slice_cursor::SliceCursor;
+use std::cmp::Ordering;
+use std::num::NonZeroUsize;
+
+pub struct Gnd(GregorianNormalizedDate);
+
+impl Gnd {
+    pub const MIN_YEAR: i32 = GregorianNormalizedDate::MIN_YEAR;
+    pub const MAX_YEAR: i32 = GregorianNormalizedDate::MAX_YEAR;
+    pub const MIN_FIXED_DAY: i32 = GregorianNormalizedDate::MIN_FIXED_DAY;
+    pub const MAX_FIXED_DAY: i32 = GregorianNormalizedDate::MAX_FIXED_DAY;
+
+    pub fn from_day(day: i32) -> Option<Gnd> {
+        GregorianNormalizedDate::from_day(day).map(Gnd)
+    }
+    /// Err(true) when the date is out of bounds, Err(false) when it is invalid
+    pub fn from_date(year: i32, month: u8, day: u8) -> Result<Gnd, bool> {
+        match GregorianNormalizedDate::from_date(year, month, day) {
+            Ok(d) => Ok(Gnd(d)),
+            Err(Error::DateOutOfBounds) => Err(true),
+            Err(Error::InvalidDate) => Err(false),
+        }
+    }
+    pub fn to_day(&self) -> i32 {
+        self.0.to_day()
+    }
+    pub fn year(&self) -> i32 {
+        self.0.unnormalized_year()
+    }
+    pub fn month(&self) -> u8 {
+        self.0.unnormalized_month()
+    }
+    pub fn day(&self) -> u8 {
+        self.0.unnormalized_day()
+    }
+    pub fn is_leap_year(&self) -> bool {
+        self.0.is_unnormalized_leap_year()
+    }
+    /// false when out of bounds
+    pub fn add_days(&mut self, days: i32) -> bool {
+        self.0.add_days(days).is_ok()
+    }
+    pub fn compare(&self, other: &Gnd) -> Ordering {
+        self.0.cmp(&other.0)
+    }
+    pub fn equals(&self, other: &Gnd) -> bool {
+        self.0 == other.0
+    }
+}
+
+pub struct Slice<'a>(SliceCursor<'a, u32>);
+
+/// None at the start, Some(None) at the end, Some(Some(i)) on element i
+pub type Position = Option<Option<usize>>;
+
+impl<'a> Slice<'a> {
+    pub fn new_at_start(slice: &'a [u32]) -> Self {
+        Slice(SliceCursor::at_start(slice))
+    }
+    pub fn new_at_end(slice: &'a [u32]) -> Self {
+        Slice(SliceCursor::at_end(slice))
+    }
+    pub fn with_pos(slice: &'a [u32], pos: usize) -> Self {
+        Slice(SliceCursor::with_pos(slice, pos))
+    }
+    pub fn next(&mut self) -> Option<u32> {
+        self.0.next().copied()
+    }
+    pub fn prev(&mut self) -> Option<u32> {
+        self.0.prev().copied()
+    }
+    pub fn current(&self) -> Option<u32> {
+        self.0.current().copied()
+    }
+    pub fn peek_next(&self) -> Option<u32> {
+        self.0.peek_next().copied()
+    }
+    pub fn peek_prev(&self) -> Option<u32> {
+        self.0.peek_prev().copied()
+    }
+    /// the number of steps that could not be made
+    pub fn advance_by(&mut self, n: usize) -> usize {
+        self.0.advance_by(n).map_or_else(NonZeroUsize::get, |_| 0)
+    }
+    pub fn revert_by(&mut self, n: usize) -> usize {
+        self.0.revert_by(n).map_or_else(NonZeroUsize::get, |_| 0)
+    }
+    pub fn at_start(&self) -> bool {
+        self.0.at_start()
+    }
+    pub fn at_end(&self) -> bool {
+        self.0.at_end()
+    }
+    pub fn pos(&self) -> Position {
+        match self.0.pos() {
+            CursorPosition::Start => None,
+            CursorPosition::Pos(i) => Some(Some(i)),
+            CursorPosition::End => Some(None),
+        }
+    }
+    pub fn set_pos(&mut self, pos: Position) {
+        self.0.set_pos(match pos {
+            None => CursorPosition::Start,
+            Some(Some(i)) => CursorPosition::Pos(i),
+            Some(None) => CursorPosition::End,
+        })
+    }
+}
-- 
2.43.0

