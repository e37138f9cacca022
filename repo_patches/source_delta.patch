From f5f48dcb834a870745ad498f626e98e17a807b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:34 +0000
Subject: [PATCH 01/19] fix: store the upper bits of the nanosecond in DateTime

The upper 15 bits were shifted out of the word, so all but the low 16 bits of
the nanosecond were lost. Use the bit positions the layout comment documents.
---
 src/iso8601/date_time.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/iso8601/date_time.rs b/src/iso8601/date_time.rs
index d7f4815..97760d1 100644
--- a/src/iso8601/date_time.rs
+++ b/src/iso8601/date_time.rs
@@ -176,9 +176,9 @@ impl DateTime {
         let year = gnd.year;
         let day = gnd.day;
         let rebased_cycle = cycle as i32 + 6;
-        ((nanosecond & 0x7FFF0000) as u64) << 48
+        ((nanosecond & 0x7FFF0000) as u64) << 32
             | (p as u64) << 41
-            | ((second & 0x10000) as u64) << 40
+            | ((second & 0x10000) as u64) << 24
             | ((rebased_cycle & 0x1F) as u64) << 35
             | ((century & 0x3) as u64) << 33
             | ((quadrennium & 0x1F) as u64) << 27
@@ -194,9 +194,9 @@ impl DateTime {
         let quadrennium = ((w0 >> 27) & 0x1F) as u8;
         let century = ((w0 >> 33) & 0x3) as u8;
         let cycle = ((w0 >> 35) & 0x1F) as i8 - 6;
-        let second = ((w0 >> 40) & 0x10000) as u32 | lower_second;
-        let precision = Self::decode_precision((w0 >> 41) as u8);
-        let nanosecond = ((w0 >> 48) & 0x7FFF0000) as u32;
+        let second = ((w0 >> 24) & 0x10000) as u32 | lower_second;
+        let precision = Self::decode_precision(((w0 >> 41) & 0xF) as u8);
+        let nanosecond = ((w0 >> 32) & 0x7FFF0000) as u32;
         let gnd = GregorianNormalizedDate {
             cycle,
             century,
-- 
2.43.0


From 709c165bc110c23f93ce71815c07f8fa5dffcbc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:35 +0000
Subject: [PATCH 02/19] fix: spill seconds that do not exist on the target day
 into the carry

The last day of a segment was never recognised (off by one), the clamped value
was one past the last second of the day, and days outside the leap-second table
were not clamped at all, so e.g. 1998-12-31T23:59:60 plus one day gave
1999-01-01T23:59:60 without a carry.
---
 src/iso8601/date_time.rs | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/src/iso8601/date_time.rs b/src/iso8601/date_time.rs
index 97760d1..f8e7b3c 100644
--- a/src/iso8601/date_time.rs
+++ b/src/iso8601/date_time.rs
@@ -602,20 +602,15 @@ impl DateTime {
         // we need a larger return type here, and probably some kind of fix to the logic.
         let leap_second_chronology = self.chronology.leap_seconds();
         let days_from_epoch = gnd.to_day();
-        if let SegmentLookupResult::In(segment) = leap_second_chronology.by_day(days_from_epoch) {
-            let day_offset = (days_from_epoch - segment.start_day as i32) as u32;
-            let leap_seconds = if day_offset == segment.duration_days {
+        let leap_seconds = match leap_second_chronology.by_day(days_from_epoch) {
+            SegmentLookupResult::In(segment) if days_from_epoch + 1 == segment.end_day() as i32 => {
                 segment.leap_seconds
-            } else {
-                0
-            };
-            let day_length_s = (SECONDS_PER_DAY as i32 + leap_seconds as i32) as u32;
-            if second >= day_length_s {
-                let second_carry = second - day_length_s;
-                (day_length_s, second_carry)
-            } else {
-                (second, 0)
             }
+            _ => 0,
+        };
+        let max_second = (SECONDS_PER_DAY as i32 + leap_seconds as i32 - 1) as u32;
+        if second > max_second {
+            (max_second, second - max_second)
         } else {
             (second, 0)
         }
-- 
2.43.0


From 0a1085f456b439e349487ca0770f627804348974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:35 +0000
Subject: [PATCH 03/19] fix: reject year counts beyond the range of DateTime

Large counts wrapped in the 8-bit century arithmetic (adding 25600 years
returned the original date) or overflowed.
---
 src/iso8601/date_time.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/iso8601/date_time.rs b/src/iso8601/date_time.rs
index f8e7b3c..ef1a019 100644
--- a/src/iso8601/date_time.rs
+++ b/src/iso8601/date_time.rs
@@ -320,6 +320,11 @@ impl DateTime {
     }
 
     pub fn checked_add_years(&self, years: i16) -> Option<DateTimeWithCarry> {
+        // GregorianNormalizedDate arithmetic is limited to this range, and anything
+        // beyond it always ends up out of bounds.
+        if !(-(MAX_YEAR as i16)..=MAX_YEAR as i16).contains(&years) {
+            return None;
+        }
         let (precision, mut gnd, second, nanosecond) = Self::unpack0(self.w0);
         let day_carry = gnd.add_years(years);
         if !is_in_range(&gnd) {
-- 
2.43.0


From 9d7265144e8b51108e90a6ea99fa7e6acdc5043b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:36 +0000
Subject: [PATCH 04/19] fix: reject month counts beyond the range of DateTime

The number of years was truncated to 16 bits, so adding 12 * 65536 months
returned the original date.
---
 src/iso8601/date_time.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/iso8601/date_time.rs b/src/iso8601/date_time.rs
index ef1a019..a403c3e 100644
--- a/src/iso8601/date_time.rs
+++ b/src/iso8601/date_time.rs
@@ -352,6 +352,12 @@ impl DateTime {
     }
 
     pub fn checked_add_months(&self, months: i32) -> Option<DateTimeWithCarry> {
+        // GregorianNormalizedDate arithmetic is limited to this range, and anything
+        // beyond it always ends up out of bounds.
+        const MAX_MONTHS: i32 = MAX_YEAR as i32 * 12 + 11;
+        if !(-MAX_MONTHS..=MAX_MONTHS).contains(&months) {
+            return None;
+        }
         let (precision, mut gnd, second, nanosecond) = Self::unpack0(self.w0);
         let day_carry = gnd.add_months(months);
         if !is_in_range(&gnd) {
-- 
2.43.0


From eb72da12ee27ef9577525cb1450e86af301d0cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:37 +0000
Subject: [PATCH 05/19] fix: do not truncate the number of cycles when adding
 days

Adding 256 * 146097 days returned the original date instead of failing.
---
 src/gregorian_normalized_date.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gregorian_normalized_date.rs b/src/gregorian_normalized_date.rs
index ea30dae..6661286 100644
--- a/src/gregorian_normalized_date.rs
+++ b/src/gregorian_normalized_date.rs
@@ -400,7 +400,8 @@ impl GregorianNormalizedDate {
         let (cycles, day) = day.div_mod_floor(&(GREGORIAN_CYCLE_DAYS as i32));
         let (century, quadrennium, year, day) = decompose_day_of_cycle(day as u32);
 
-        self.cycle = self.cycle.checked_add(cycles as i8).ok_or(OutOfBounds)?;
+        let cycles = i8::try_from(cycles).map_err(|_| OutOfBounds)?;
+        self.cycle = self.cycle.checked_add(cycles).ok_or(OutOfBounds)?;
         self.century = century;
         self.quadrennium = quadrennium;
         self.year = year;
-- 
2.43.0


From d9f3c66f39b776c557fb247f405b09198e440844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:38 +0000
Subject: [PATCH 06/19] fix: fail instead of wrapping when adding a huge number
 of minutes

The number of days was truncated to 32 bits, and counts near i64::MAX overflowed.
---
 src/iso8601/date_time.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/iso8601/date_time.rs b/src/iso8601/date_time.rs
index a403c3e..5e4da84 100644
--- a/src/iso8601/date_time.rs
+++ b/src/iso8601/date_time.rs
@@ -428,9 +428,10 @@ impl DateTime {
         let (minute, second_of_minute) =
             second_of_day.clamped_div_rem(MINUTES_PER_HOUR as u32, MINUTES_PER_DAY - 1);
         let second_of_minute = second_of_minute as u8;
-        let (day_delta, minute) =
-            (minute as i64 + minutes).div_mod_floor(&(MINUTES_PER_DAY as i64));
-        let (day_delta, minute) = (day_delta as i32, minute as u16);
+        let (day_delta, minute) = (minute as i64)
+            .checked_add(minutes)?
+            .div_mod_floor(&(MINUTES_PER_DAY as i64));
+        let (day_delta, minute) = (i32::try_from(day_delta).ok()?, minute as u16);
         gnd.add_days(day_delta).ok()?;
         if !is_in_range(&gnd) {
             return None;
-- 
2.43.0


From 24517a301b7c2ddba898ab99f052614d96585f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:39 +0000
Subject: [PATCH 07/19] fix: do not panic in checked_add_seconds on the
 earliest instant

1970-01-01T00:00:00 plus i64::MIN seconds panicked instead of returning None.
---
 src/iso8601/date_time.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/iso8601/date_time.rs b/src/iso8601/date_time.rs
index 5e4da84..da02025 100644
--- a/src/iso8601/date_time.rs
+++ b/src/iso8601/date_time.rs
@@ -586,8 +586,10 @@ impl DateTime {
                 Some((gnd, second))
             }
             SegmentLookupResult::BeforeFirst(first_segment) => {
-                let seconds_until_first_segment =
-                    (first_segment.start_instant.into() - instant).ticks() as u64;
+                let first_instant: InstantS64 = first_segment.start_instant.into();
+                let seconds_until_first_segment = first_instant
+                    .ticks_since_epoch()
+                    .abs_diff(instant.ticks_since_epoch());
                 // When seconds_until_first_segment is 1, we want to end up subtracting 1 day and
                 // setting the second to 86399. Simply dividing by SECONDS_PER_DAY will give us 0 days.
                 // It's essentially a division that rounds up.
-- 
2.43.0


From 232c7373861bf9e35086d40ac57db4b102289384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:39 +0000
Subject: [PATCH 08/19] fix: reject day zero instead of overflowing

---
 src/gregorian_normalized_date.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gregorian_normalized_date.rs b/src/gregorian_normalized_date.rs
index 6661286..c250b69 100644
--- a/src/gregorian_normalized_date.rs
+++ b/src/gregorian_normalized_date.rs
@@ -198,7 +198,7 @@ impl GregorianNormalizedDate {
         if !(Self::MIN_YEAR..=Self::MAX_YEAR).contains(&year) {
             return Err(Error::DateOutOfBounds);
         }
-        if !(1..=12).contains(&month) {
+        if !(1..=12).contains(&month) || day == 0 {
             return Err(Error::InvalidDate);
         }
 
-- 
2.43.0


From f7f6f0d2bbefdee77c475a60c66bb3d05aba45eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:40 +0000
Subject: [PATCH 09/19] fix: default to the first month and day when building
 with reduced precision

Months and days are one-based, so a year or year-month could never be built.
---
 src/iso8601/date_time_builder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/iso8601/date_time_builder.rs b/src/iso8601/date_time_builder.rs
index a41990b..37291c8 100644
--- a/src/iso8601/date_time_builder.rs
+++ b/src/iso8601/date_time_builder.rs
@@ -141,12 +141,12 @@ impl DateTimeBuilder {
         let month = if precision >= Precision::Months {
             self.month.expect("No month provided")
         } else {
-            0
+            1
         };
         let day = if precision >= Precision::Days {
             self.day.expect("No day provided")
         } else {
-            0
+            1
         };
         let hour = if precision >= Precision::Hours {
             self.hour.expect("No hour provided")
-- 
2.43.0


From 7e7771d60c68767beb37f85dccf285eb9213323d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:41 +0000
Subject: [PATCH 10/19] fix: round the seconds of a SystemTime before the epoch
 downwards

Half a second before the epoch was converted to half a second after it.
---
 src/instant.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/instant.rs b/src/instant.rs
index 16dde7c..763e210 100644
--- a/src/instant.rs
+++ b/src/instant.rs
@@ -363,10 +363,16 @@ fn system_time_to_time_t(value: SystemTime) -> (libc::time_t, u32) {
     }
     .unwrap();
     let mut seconds = duration.as_secs() as i64;
+    let mut nanoseconds = duration.subsec_nanos();
     if sign {
         seconds = -seconds;
+        if nanoseconds != 0 {
+            // Nanoseconds always count forward, so the second needs to be rounded down.
+            seconds -= 1;
+            nanoseconds = 1_000_000_000 - nanoseconds;
+        }
     }
-    (seconds, duration.subsec_nanos())
+    (seconds, nanoseconds)
 }
 
 /// Return true if the system time includes leap seconds.
-- 
2.43.0


From b4347c8a23314c56862e297c0b5582faedcb28d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:41 +0000
Subject: [PATCH 11/19] fix: count the last leap second when converting a
 SystemTime to an Instant

The accumulated count is that of the start of the segment, so past the end of
the table the leap second ending the last segment was missing.
---
 src/zoneinfo.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/zoneinfo.rs b/src/zoneinfo.rs
index ffa8a74..5f512e0 100644
--- a/src/zoneinfo.rs
+++ b/src/zoneinfo.rs
@@ -239,6 +239,8 @@ pub(crate) fn get_leap_second_adjustment_for_unix_timestamp(unix_timestamp: i64)
     match leap_seconds.by_day(day) {
         SegmentLookupResult::BeforeFirst(_) => 0,
         SegmentLookupResult::In(segment) => segment.accumulated_leap_seconds,
-        SegmentLookupResult::AfterLast(last_segment) => last_segment.accumulated_leap_seconds,
+        SegmentLookupResult::AfterLast(last_segment) => {
+            last_segment.accumulated_leap_seconds + last_segment.leap_seconds as i32
+        }
     }
 }
-- 
2.43.0


From 2438cda2da9c5fc5a88c8816dd294cd37be122b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:42 +0000
Subject: [PATCH 12/19] fix: do not wrap the day of a far-off Unix timestamp

A timestamp more than 2^31 days from the epoch could be given the leap-second
count of an unrelated day.
---
 src/zoneinfo.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/zoneinfo.rs b/src/zoneinfo.rs
index 5f512e0..317f86a 100644
--- a/src/zoneinfo.rs
+++ b/src/zoneinfo.rs
@@ -235,7 +235,9 @@ pub(crate) fn get_leap_second_adjustment_for_unix_timestamp(unix_timestamp: i64)
     let utc = iso8601::load_chronology("UTC");
     let leap_seconds = utc.leap_seconds();
 
-    let day = (unix_timestamp / 86_400) as i32;
+    let day = unix_timestamp
+        .div_euclid(86_400)
+        .clamp(i32::MIN as i64, i32::MAX as i64) as i32;
     match leap_seconds.by_day(day) {
         SegmentLookupResult::BeforeFirst(_) => 0,
         SegmentLookupResult::In(segment) => segment.accumulated_leap_seconds,
-- 
2.43.0


From 7262cfbdbc292a2e28aca3e69eaa9f453bbc77f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:42 +0000
Subject: [PATCH 13/19] fix: compare instants of different scales by the time
 they denote

The conversion factor was applied to the finer value instead of the coarser, so
one second was not equal to 1000 milliseconds. Divide the finer value so that
nothing can overflow.
---
 src/instant.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/instant.rs b/src/instant.rs
index 763e210..c616c4b 100644
--- a/src/instant.rs
+++ b/src/instant.rs
@@ -222,15 +222,17 @@ where
         //
         // If s1 < s2 then this can be rewritten as
         //
-        // t1 == t2*s2/s1.
+        // t1 == t2/(s2/s1).
         //
         // If s1 > s2, it can be rewritten as
         //
-        // t1*s1/s2 == t2.
+        // t1/(s1/s2) == t2.
         //
         // If s1 == s2, then it simplifies to
         //
         // t1 == t2.
+        //
+        // Dividing the finer value (and looking at the remainder) never overflows.
         let t1 = self.ticks;
         let s1 = S1::TICKS_PER_SECOND;
         let t2 = other.ticks;
@@ -239,12 +241,14 @@ where
             std::cmp::Ordering::Less => {
                 let factor =
                     T2::from(s2 / s1).expect("scale conversion factor is too large for type T2");
-                t1.num_eq(t2 * factor)
+                let (t2, remainder) = t2.div_mod_floor(&factor);
+                remainder.is_zero() && t1.num_eq(t2)
             }
             std::cmp::Ordering::Greater => {
                 let factor =
                     T1::from(s1 / s2).expect("scale conversion factor is too large for type T1");
-                (t1 * factor).num_eq(t2)
+                let (t1, remainder) = t1.div_mod_floor(&factor);
+                remainder.is_zero() && t1.num_eq(t2)
             }
             std::cmp::Ordering::Equal => t1.num_eq(t2),
         }
@@ -298,12 +302,16 @@ where
             std::cmp::Ordering::Less => {
                 let factor =
                     T2::from(s2 / s1).expect("scale conversion factor is too large for type T2");
-                t1.num_cmp(t2 * factor)
+                let (t2, remainder) = t2.div_mod_floor(&factor);
+                let remainder_cmp = T2::zero().cmp(&remainder);
+                t1.num_cmp(t2).map(|o| o.then(remainder_cmp))
             }
             std::cmp::Ordering::Greater => {
                 let factor =
                     T1::from(s1 / s2).expect("scale conversion factor is too large for type T1");
-                (t1 * factor).num_cmp(t2)
+                let (t1, remainder) = t1.div_mod_floor(&factor);
+                let remainder_cmp = remainder.cmp(&T1::zero());
+                t1.num_cmp(t2).map(|o| o.then(remainder_cmp))
             }
             std::cmp::Ordering::Equal => t1.num_cmp(t2),
         }
-- 
2.43.0


From 06fb7431da71ddc05a7e938e659dda525b29908c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:43 +0000
Subject: [PATCH 14/19] fix: round negative durations down in Duration::floor

---
 src/duration.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/duration.rs b/src/duration.rs
index 5082602..d5035a8 100644
--- a/src/duration.rs
+++ b/src/duration.rs
@@ -114,7 +114,7 @@ impl<T: Tick, S: Scale> Duration<T, S> {
             "Cannot floor to a higher scale"
         );
         let factor = T::from(S::TICKS_PER_SECOND).unwrap() / T::from(S2::TICKS_PER_SECOND).unwrap();
-        Duration::new(self.ticks / factor)
+        Duration::new(self.ticks.div_floor(&factor))
     }
 
     pub fn extend<S2: Scale>(&self) -> Option<Duration<T, S2>> {
-- 
2.43.0


From 2ede7540dfd621ee175b82fbdd9c08a110e24681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:44 +0000
Subject: [PATCH 15/19] fix: do not underflow when moving a cursor that is
 already past its end

---
 src/slice_cursor.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/slice_cursor.rs b/src/slice_cursor.rs
index beb2bd0..3e66616 100644
--- a/src/slice_cursor.rs
+++ b/src/slice_cursor.rs
@@ -57,7 +57,7 @@ impl<'a, T> Cursor for SliceCursor<'a, T> {
         }
     }
     fn advance_by(&mut self, n: usize) -> Result<(), NonZeroUsize> {
-        let remaining = self.slice.len() - self.pos;
+        let remaining = self.slice.len().saturating_sub(self.pos);
         let advance = min(n, remaining);
         self.pos += advance;
         let n = n - advance;
@@ -106,7 +106,7 @@ impl<'a, T> Cursor for SliceCursor<'a, T> {
     }
 
     fn revert_by(&mut self, n: usize) -> Result<(), NonZeroUsize> {
-        let remaining = self.pos - 1;
+        let remaining = self.pos.saturating_sub(1);
         let revert = min(n, remaining);
         self.pos -= revert;
         let n = n - revert;
-- 
2.43.0


From f84c6a7326b2e89cdd0d23244ea265151a8e6440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:48 +0000
Subject: [PATCH 16/19] Add cfg-guarded access to private items for external
 verification

---
 src/instant.rs     |  10 ++++
 src/lib.rs         |   3 ++
 src/verif_hooks.rs | 118 +++++++++++++++++++++++++++++++++++++++++++++
 3 files changed, 131 insertions(+)
 create mode 100644 src/verif_hooks.rs

diff --git a/src/instant.rs b/src/instant.rs
index c616c4b..da1bf0e 100644
--- a/src/instant.rs
+++ b/src/instant.rs
@@ -457,6 +457,16 @@ fn julian_day(year: i32, month: i32, day: i32) -> i32 {
     jdn as i32
 }
 
+#[cfg(momentous_verif)]
+pub(crate) fn verif_julian_day(year: i32, month: i32, day: i32) -> i32 {
+    julian_day(year, month, day)
+}
+
+#[cfg(momentous_verif)]
+pub(crate) fn verif_utc_to_unix_time(y: i32, mo: i32, d: i32, h: i32, mi: i32, s: i32) -> i64 {
+    utc_to_unix_time(y, mo, d, h, mi, s)
+}
+
 // TODO how do I implement into() for SystemTime?
 /*impl<T: PrimInt, S: Precision> From<SystemTime> for Instant<T, S> {
     fn from(value: SystemTime) -> Self {
diff --git a/src/lib.rs b/src/lib.rs
index e4b2eb8..f10fb10 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -13,6 +13,9 @@ mod least_common_width;
 mod period;
 mod scale;
 mod slice_cursor;
+#[cfg(momentous_verif)]
+#[doc(hidden)]
+pub mod verif_hooks;
 mod widen;
 mod zoneinfo;
 
diff --git a/src/verif_hooks.rs b/src/verif_hooks.rs
new file mode 100644
index 0000000..fe1be01
--- /dev/null
+++ b/src/verif_hooks.rs
@@ -0,0 +1,118 @@
+//! Access to crate-private items for the external verification harness. Only compiled with
+//! `--cfg momentous_verif`; not part of the library.
+
+use std::cmp::Ordering;
+
+use crate::cursor::{Cursor, CursorPosition, CursorWithPosition};
+use crate::gregorian_normalized_date::{Error, GregorianNormalizedDate};
+use crate::slice_cursor::SliceCursor;
+
+/// A cursor over a slice of integers.
+pub struct SliceCursorHook<'a>(SliceCursor<'a, i32>);
+
+impl<'a> SliceCursorHook<'a> {
+    pub fn at_start(slice: &'a [i32]) -> Self {
+        SliceCursorHook(SliceCursor::at_start(slice))
+    }
+    pub fn at_end(slice: &'a [i32]) -> Self {
+        SliceCursorHook(SliceCursor::at_end(slice))
+    }
+    pub fn with_pos(slice: &'a [i32], pos: usize) -> Self {
+        SliceCursorHook(SliceCursor::with_pos(slice, pos))
+    }
+    pub fn next(&mut self) -> Option<i32> {
+        Cursor::next(&mut self.0).copied()
+    }
+    pub fn prev(&mut self) -> Option<i32> {
+        Cursor::prev(&mut self.0).copied()
+    }
+    /// Number of steps that could not be taken.
+    pub fn advance_by(&mut self, n: usize) -> usize {
+        Cursor::advance_by(&mut self.0, n).map_or_else(|e| e.get(), |_| 0)
+    }
+    /// Number of steps that could not be taken.
+    pub fn revert_by(&mut self, n: usize) -> usize {
+        Cursor::revert_by(&mut self.0, n).map_or_else(|e| e.get(), |_| 0)
+    }
+    pub fn current(&self) -> Option<i32> {
+        Cursor::current(&self.0).copied()
+    }
+    pub fn peek_next(&self) -> Option<i32> {
+        Cursor::peek_next(&self.0).copied()
+    }
+    pub fn peek_prev(&self) -> Option<i32> {
+        Cursor::peek_prev(&self.0).copied()
+    }
+    pub fn is_at_start(&self) -> bool {
+        Cursor::at_start(&self.0)
+    }
+    pub fn is_at_end(&self) -> bool {
+        Cursor::at_end(&self.0)
+    }
+    /// -1 before the first element, -2 past the last, otherwise the index.
+    pub fn pos(&self) -> i64 {
+        match CursorWithPosition::pos(&self.0) {
+            CursorPosition::Start => -1,
+            CursorPosition::End => -2,
+            CursorPosition::Pos(p) => p as i64,
+        }
+    }
+    /// See `pos`.
+    pub fn set_pos(&mut self, pos: i64) {
+        CursorWithPosition::set_pos(
+            &mut self.0,
+            match pos {
+                -1 => CursorPosition::Start,
+                -2 => CursorPosition::End,
+                p => CursorPosition::Pos(p as usize),
+            },
+        )
+    }
+}
+
+/// A normalized date.
+pub struct NormalizedDateHook(GregorianNormalizedDate);
+
+impl NormalizedDateHook {
+    pub fn from_day(day: i32) -> Option<Self> {
+        GregorianNormalizedDate::from_day(day).map(NormalizedDateHook)
+    }
+    /// Err(true) if the date is out of bounds, Err(false) if it does not exist.
+    pub fn from_date(year: i32, month: u8, day: u8) -> Result<Self, bool> {
+        GregorianNormalizedDate::from_date(year, month, day)
+            .map(NormalizedDateHook)
+            .map_err(|e| matches!(e, Error::DateOutOfBounds))
+    }
+    pub fn to_day(&self) -> i32 {
+        self.0.to_day()
+    }
+    pub fn year(&self) -> i32 {
+        self.0.unnormalized_year()
+    }
+    pub fn month(&self) -> u8 {
+        self.0.unnormalized_month()
+    }
+    pub fn day(&self) -> u8 {
+        self.0.unnormalized_day()
+    }
+    pub fn is_leap_year(&self) -> bool {
+        self.0.is_unnormalized_leap_year()
+    }
+    pub fn cmp(&self, other: &Self) -> Ordering {
+        self.0.cmp(&other.0)
+    }
+    pub fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
+        self.0.partial_cmp(&other.0)
+    }
+    pub fn eq(&self, other: &Self) -> bool {
+        self.0 == other.0
+    }
+}
+
+pub fn julian_day(year: i32, month: i32, day: i32) -> i32 {
+    crate::instant::verif_julian_day(year, month, day)
+}
+
+pub fn utc_to_unix_time(y: i32, mo: i32, d: i32, h: i32, mi: i32, s: i32) -> i64 {
+    crate::instant::verif_utc_to_unix_time(y, mo, d, h, mi, s)
+}
-- 
2.43.0


From 7f3b1561e9ea6bfa7751911d0e7a175a874e6565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:32 +0000
Subject: [PATCH 17/19] fix: find the day of a removed leap second whatever the
 running total

---
 src/zoneinfo.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/zoneinfo.rs b/src/zoneinfo.rs
index 317f86a..c80b10f 100644
--- a/src/zoneinfo.rs
+++ b/src/zoneinfo.rs
@@ -202,7 +202,9 @@ pub(crate) fn load_leap_segments() -> Vec<ContinuousTimeSegment> {
     let mut start_day = 0;
     let mut previous_leap_second_total = 0;
     for leap_second in tz.leap_seconds.iter() {
-        let end_day = leap_second.timestamp as u32 / 86400;
+        // The time stamp counts the preceding leap seconds, and is that of the removed second
+        // itself (23:59:59) for a negative leap second.
+        let end_day = (leap_second.timestamp - previous_leap_second_total + 1) as u32 / 86400;
 
         let leap_second_total = leap_second.leap_second_count;
         let leap_seconds = leap_second_total - previous_leap_second_total;
-- 
2.43.0


From 30cd5fda77fed210eb978a32d695b7e2be7cfcd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:33:22 +0000
Subject: [PATCH 18/19] fix: convert system times in the first second that an
 instant can denote

---
 src/instant.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/instant.rs b/src/instant.rs
index da1bf0e..b0cf297 100644
--- a/src/instant.rs
+++ b/src/instant.rs
@@ -351,7 +351,13 @@ impl<T: Tick, S: Scale> TryFrom<SystemTime> for Instant<T, S> {
         let subsecond_ns = T::from(subsecond_ns).unwrap();
 
         let subsec_ticks = subsecond_ns / nanoseconds_per_tick;
-        let total_ticks = seconds * ticks_per_second + subsec_ticks;
+        let total_ticks = if seconds < T::zero() {
+            // Go back from the end of the second, since its start may not fit even if
+            // the total does.
+            (seconds + T::one()) * ticks_per_second - (ticks_per_second - subsec_ticks)
+        } else {
+            seconds * ticks_per_second + subsec_ticks
+        };
 
         Ok(Instant::<T, S> {
             ticks: total_ticks,
-- 
2.43.0


From 983c4a00d589f276ed6916bf7c81285e06cd97c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:33:42 +0000
Subject: [PATCH 19/19] fix: convert system times at the ends of time_t

---
 src/instant.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/instant.rs b/src/instant.rs
index b0cf297..023a10d 100644
--- a/src/instant.rs
+++ b/src/instant.rs
@@ -340,9 +340,10 @@ impl<T: Tick, S: Scale> TryFrom<SystemTime> for Instant<T, S> {
             T::from(1_000_000_000).expect("nanoseconds per second is too large for type T)");
         let nanoseconds_per_tick = nanoseconds_per_second / ticks_per_second;
 
-        let (mut seconds, subsecond_ns) = system_time_to_time_t(value);
+        let (unix_seconds, subsecond_ns) = system_time_to_time_t(value);
+        let mut seconds = unix_seconds as i128;
         if !system_time_includes_leap_seconds() {
-            seconds += get_leap_second_adjustment_for_unix_timestamp(seconds) as i64;
+            seconds += get_leap_second_adjustment_for_unix_timestamp(unix_seconds) as i128;
         }
 
         // FIXME report proper error here
@@ -379,7 +380,8 @@ fn system_time_to_time_t(value: SystemTime) -> (libc::time_t, u32) {
     let mut seconds = duration.as_secs() as i64;
     let mut nanoseconds = duration.subsec_nanos();
     if sign {
-        seconds = -seconds;
+        // The earliest time_t has no positive counterpart, but wraps to itself.
+        seconds = seconds.wrapping_neg();
         if nanoseconds != 0 {
             // Nanoseconds always count forward, so the second needs to be rounded down.
             seconds -= 1;
-- 
2.43.0

