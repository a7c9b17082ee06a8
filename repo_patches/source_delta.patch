From c528a6a32d7bcaa9eaff5043b04e471b611171c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:19 +0000
Subject: [PATCH 01/44] fix: truncating to the week in late December belongs to
 the next ISO year

---
 src/common.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common.rs b/src/common.rs
index 7e658e9..3d1d22d 100644
--- a/src/common.rs
+++ b/src/common.rs
@@ -147,7 +147,7 @@ impl PgTime {
             self.year -= 1;
         }
         if woy <= 1 && self.mon == MONTHS_PER_YEAR {
-            self.year -= 1;
+            self.year += 1;
         }
         iso_week_to_date(woy, self);
         self.hour = 0;
-- 
2.43.0


From 7289cb38b43d61a984df0bc6b1d9bde364f2722c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:19 +0000
Subject: [PATCH 02/44] fix: reject year i32::MIN in Date::try_from_ymd instead
 of overflowing

---
 src/date.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/date.rs b/src/date.rs
index 22f81d0..a669a3b 100644
--- a/src/date.rs
+++ b/src/date.rs
@@ -75,7 +75,10 @@ impl Date {
         // Handle negative years as BC
         if tm.year < 0 {
             bc = true;
-            tm.year = -tm.year;
+            tm.year = match tm.year.checked_neg() {
+                Some(year) => year,
+                None => return Err(DateTimeError::overflow()),
+            };
         }
 
         tm.validate_date(DTK_DATE_M, false, false, bc)?;
-- 
2.43.0


From 68186bbc915bc56fb24a3d68530d7fc465da7e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:19 +0000
Subject: [PATCH 03/44] fix: compute the time of day in 64 bits in time2t

---
 src/common.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common.rs b/src/common.rs
index 3d1d22d..e47ab91 100644
--- a/src/common.rs
+++ b/src/common.rs
@@ -388,7 +388,7 @@ impl PgTime {
 
 #[inline]
 fn time2t(hour: i32, min: i32, sec: i32, fsec: i64) -> i64 {
-    (((((hour * MINS_PER_HOUR) + min) * SECS_PER_MINUTE) as i64 + sec as i64)
+    (((((hour as i64 * MINS_PER_HOUR as i64) + min as i64) * SECS_PER_MINUTE as i64) + sec as i64)
         * USECS_PER_SEC as i64)
         + fsec
 }
-- 
2.43.0


From 32c1a5ba5ebb61db252c783881570b99d05755a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:19 +0000
Subject: [PATCH 04/44] fix: report an overflow when adding an interval to a
 timestamp wraps

---
 src/timestamp.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/timestamp.rs b/src/timestamp.rs
index 0ed9903..06a9cf3 100644
--- a/src/timestamp.rs
+++ b/src/timestamp.rs
@@ -265,7 +265,10 @@ impl Timestamp {
                 let mut fsec = 0;
 
                 timestamp2time(self.value(), &None, &mut tm, &mut fsec, &mut None, &None)?;
-                tm.mon = tm.mon.wrapping_add(span.month());
+                tm.mon = match tm.mon.checked_add(span.month()) {
+                    Some(mon) => mon,
+                    None => return Err(DateTimeError::overflow()),
+                };
                 if tm.mon > MONTHS_PER_YEAR as i32 {
                     tm.year = tm.year.wrapping_add((tm.mon - 1) / MONTHS_PER_YEAR);
                     tm.mon = ((tm.mon - 1) % MONTHS_PER_YEAR) + 1;
@@ -288,13 +291,19 @@ impl Timestamp {
                 let mut fsec = 0;
                 timestamp2time(timestamp, &None, &mut tm, &mut fsec, &mut None, &None)?;
                 // Add days by converting to and from Julian
-                let julian = date2julian(tm.year, tm.mon, tm.mday).wrapping_add(span.day());
+                let julian = match date2julian(tm.year, tm.mon, tm.mday).checked_add(span.day()) {
+                    Some(julian) if julian >= 0 => julian,
+                    _ => return Err(DateTimeError::overflow()),
+                };
                 let (y, m, d) = julian2date(julian);
                 tm.set_ymd(y, m, d);
                 timestamp = tm.to_timestamp(fsec, None)?;
             }
 
-            timestamp = timestamp.wrapping_add(span.time());
+            timestamp = match timestamp.checked_add(span.time()) {
+                Some(timestamp) => timestamp,
+                None => return Err(DateTimeError::overflow()),
+            };
 
             if !is_valid_timestamp(timestamp) {
                 return Err(DateTimeError::invalid(format!(
-- 
2.43.0


From ee8bb370d30738b1ac4737dbc15a274cf624107b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:19 +0000
Subject: [PATCH 05/44] fix: report an overflow when subtracting timestamps

---
 src/timestamp.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/timestamp.rs b/src/timestamp.rs
index 06a9cf3..0f7e649 100644
--- a/src/timestamp.rs
+++ b/src/timestamp.rs
@@ -354,7 +354,10 @@ impl Timestamp {
             )));
         }
 
-        let time = self.value() - timestamp.value();
+        let time = match self.value().checked_sub(timestamp.value()) {
+            Some(time) => time,
+            None => return Err(DateTimeError::overflow()),
+        };
 
         //	This is wrong, but removing it breaks a lot of regression tests.
         // For example:
-- 
2.43.0


From 83685820a1e00851c5c706ae31f02ba3445bd4fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:46 +0000
Subject: [PATCH 06/44] fix: recognise the month name "feb"

---
 src/token.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/token.rs b/src/token.rs
index 532bb64..e1f6bcf 100644
--- a/src/token.rs
+++ b/src/token.rs
@@ -335,7 +335,7 @@ const DATE_TOKEN_TABLE: [DateToken; 280] = [
     DateToken::new(b"egt", TZ, -3600),     // East Greenland Time
     DateToken::new(EPOCH, RESERV, Epoch.value()), // "epoch" reserved for system epoch time
     DateToken::new(b"est", TZ, -18000),    // Eastern Standard Time
-    DateToken::new(b"fe", MONTH, 2),
+    DateToken::new(b"feb", MONTH, 2),
     DateToken::new(b"february", MONTH, 2),
     DateToken::new(b"fjst", DTZ, -46800), // Fiji Summer Time (13 hour offset!)
     DateToken::new(b"fjt", TZ, -43200),   // Fiji Time
-- 
2.43.0


From bcd5d56cb88351b5790807a038e6471fec6481d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:48 +0000
Subject: [PATCH 07/44] fix: reject a sign at the end of a date/time string

---
 src/parse.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parse.rs b/src/parse.rs
index 51d46c8..59a6be6 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -271,7 +271,11 @@ fn parse_date_time_for_sign_begin<'a, 'b, 'c>(
                 )));
             }
         }
-        None => s,
+        None => {
+            return Err(DateTimeError::invalid(
+                "date time expect digit or alpha after sign".to_string(),
+            ));
+        }
     };
 
     let (filed, ret_buf) = current_buf.split_at_mut(buf_pos);
-- 
2.43.0


From cabc601e6cd5d580465fb659d4557a584b5c3877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:50 +0000
Subject: [PATCH 08/44] fix: reject date/time strings that do not fit the parse
 buffer

---
 src/parse.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/parse.rs b/src/parse.rs
index 59a6be6..0adf2b5 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -325,6 +325,17 @@ where
         ));
     }
 
+    // Fields are copied to the worker buffer without the whitespace between them.
+    if time_str.len() > worker_buf.len() {
+        let len = time_str.iter().filter(|i| !i.is_ascii_whitespace()).count();
+        if len > worker_buf.len() {
+            return Err(DateTimeError::invalid(format!(
+                "date time string is too long: {:?}",
+                time_str
+            )));
+        }
+    }
+
     let mut current_str = time_str;
     let mut current_buf = worker_buf;
 
-- 
2.43.0


From bb2e707005f21327deedc67ff789a0e858d5f80e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:52 +0000
Subject: [PATCH 09/44] fix: check the range of a day of year before converting
 it

---
 src/common.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/common.rs b/src/common.rs
index e47ab91..beb6c64 100644
--- a/src/common.rs
+++ b/src/common.rs
@@ -320,7 +320,15 @@ impl PgTime {
 
         // now that we have correct year, decode DOY.
         if (f_mask & TokenType::DOY.mask()) != 0 {
-            let (y, m, d) = julian2date(date2julian(self.year, 1, 1) + self.yday - 1);
+            // The first months of JULIAN_MIN_YEAR are out of range.
+            if !is_valid_julian(self.year, JULIAN_MIN_MONTH, 1) {
+                return Err(DateTimeError::overflow());
+            }
+            let julian = match date2julian(self.year, 1, 1).checked_add(self.yday - 1) {
+                Some(julian) if julian >= 0 => julian,
+                _ => return Err(DateTimeError::overflow()),
+            };
+            let (y, m, d) = julian2date(julian);
             self.set_ymd(y, m, d);
         }
 
-- 
2.43.0


From ae4a8df2c9a23efac4d7f989c8c66efbc8aaa2da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:53 +0000
Subject: [PATCH 10/44] fix: convert an interval's time in 64 bits

---
 src/interval.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/interval.rs b/src/interval.rs
index 44f45dc..e09da78 100644
--- a/src/interval.rs
+++ b/src/interval.rs
@@ -398,7 +398,7 @@ impl Interval {
         let month = total_months as i32;
         let day = tm.mday;
         let time =
-            (((((tm.hour * 60) + tm.min) as i64 * 60) + tm.sec as i64) * USECS_PER_SEC) + fsec;
+            (((((tm.hour as i64 * 60) + tm.min as i64) * 60) + tm.sec as i64) * USECS_PER_SEC) + fsec;
         Ok(Self::from_mdt(month, day, time))
     }
 
-- 
2.43.0


From a1e56d22ebf25dbb83fc01a0d08c4cfb172d36ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:55 +0000
Subject: [PATCH 11/44] fix: do not drop the error of a malformed number with a
 decimal point

---
 src/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse.rs b/src/parse.rs
index 0adf2b5..64bb5b2 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -712,7 +712,7 @@ fn decode_number(
     match s.first() {
         Some(&b'.') => {
             if str.len() - s.len() > 2 {
-                let _ = decode_number_field(str, f_mask | DTK_DATE_M, t_mask, tm, fsec, is2digits);
+                decode_number_field(str, f_mask | DTK_DATE_M, t_mask, tm, fsec, is2digits)?;
                 return Ok(());
             }
             *fsec = parse_fractional_second(s)?;
-- 
2.43.0


From 5ff696b3ed49b2dacf5f312cfe87baa367d34334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:28 +0000
Subject: [PATCH 12/44] fix: report an overflow when the fields of an interval
 string add up beyond their range

---
 src/parse.rs | 76 +++++++++++++++++++++++++++++++++++++---------------
 1 file changed, 54 insertions(+), 22 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index 64bb5b2..d03d547 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -2478,6 +2478,30 @@ fn adjust_fract_days(
     Ok(())
 }
 
+/// Adds `val` times `scale` to a field of an interval.
+#[inline]
+fn add_interval_field(field: &mut i32, val: i32, scale: i32) -> Result<(), DateTimeError> {
+    match val.checked_mul(scale).and_then(|v| field.checked_add(v)) {
+        Some(v) => {
+            *field = v;
+            Ok(())
+        }
+        None => Err(DateTimeError::overflow()),
+    }
+}
+
+/// Negates a field of an interval.
+#[inline]
+fn negate_interval_field(field: &mut i32) -> Result<(), DateTimeError> {
+    match field.checked_neg() {
+        Some(v) => {
+            *field = v;
+            Ok(())
+        }
+        None => Err(DateTimeError::overflow()),
+    }
+}
+
 fn decode_interval_number_field(
     field: &[u8],
     tm: &mut PgTime,
@@ -2568,14 +2592,14 @@ fn decode_interval_number_field(
         }
         TokenField::Millisec => {
             // avoid overflowing the fsec field.
-            tm.sec += val / 1000;
+            add_interval_field(&mut tm.sec, val / 1000, 1)?;
             val -= (val / 1000) * 1000;
             *f_sec += ((val as f64 + *f_val) * 1000_f64).round() as i64;
             *t_mask = TokenType::MILLISECOND.mask();
         }
 
         TokenField::Second => {
-            tm.sec += val;
+            add_interval_field(&mut tm.sec, val, 1)?;
             *f_sec += (*f_val * 1_000_000_f64).round() as i64;
 
             // If any subseconds were specified, consider this
@@ -2588,64 +2612,68 @@ fn decode_interval_number_field(
         }
 
         TokenField::Minute => {
-            tm.min += val;
+            add_interval_field(&mut tm.min, val, 1)?;
             adjust_fract_seconds(*f_val, tm, f_sec, SECS_PER_MINUTE)?;
             *t_mask = TokenType::MINUTE.mask();
         }
 
         TokenField::Hour => {
-            tm.hour += val;
+            add_interval_field(&mut tm.hour, val, 1)?;
             adjust_fract_seconds(*f_val, tm, f_sec, SECS_PER_HOUR)?;
             *t_mask = TokenType::HOUR.mask();
             *ty = TokenField::Day.value(); /* set for next field */
         }
 
         TokenField::Day => {
-            tm.mday += val;
+            add_interval_field(&mut tm.mday, val, 1)?;
             adjust_fract_seconds(*f_val, tm, f_sec, SECS_PER_DAY)?;
             *t_mask = TokenType::DAY.mask();
         }
 
         TokenField::Week => {
-            tm.mday += val * 7;
+            add_interval_field(&mut tm.mday, val, 7)?;
             adjust_fract_days(*f_val, tm, f_sec, 7)?;
             *t_mask = TokenType::WEEK.mask();
         }
 
         TokenField::Month => {
-            tm.mon += val;
+            add_interval_field(&mut tm.mon, val, 1)?;
             adjust_fract_days(*f_val, tm, f_sec, DAYS_PER_MONTH)?;
             *t_mask = TokenType::MONTH.mask();
         }
 
         TokenField::Year => {
-            tm.year += val;
+            add_interval_field(&mut tm.year, val, 1)?;
             if *f_val != 0.0 {
-                tm.mon += (*f_val * MONTHS_PER_YEAR as f64) as i32;
+                let months = (*f_val * MONTHS_PER_YEAR as f64) as i32;
+                add_interval_field(&mut tm.mon, months, 1)?;
             }
             *t_mask = TokenType::YEAR.mask();
         }
 
         TokenField::Decade => {
-            tm.year += val * 10;
+            add_interval_field(&mut tm.year, val, 10)?;
             if *f_val != 0.0 {
-                tm.mon += (*f_val * MONTHS_PER_YEAR as f64 * 10_f64) as i32;
+                let months = (*f_val * MONTHS_PER_YEAR as f64 * 10_f64) as i32;
+                add_interval_field(&mut tm.mon, months, 1)?;
             }
             *t_mask = TokenType::DECADE.mask();
         }
 
         TokenField::Century => {
-            tm.year += val * 100;
+            add_interval_field(&mut tm.year, val, 100)?;
             if *f_val != 0.0 {
-                tm.mon += (*f_val * MONTHS_PER_YEAR as f64 * 100_f64) as i32;
+                let months = (*f_val * MONTHS_PER_YEAR as f64 * 100_f64) as i32;
+                add_interval_field(&mut tm.mon, months, 1)?;
             }
             *t_mask = TokenType::CENTURY.mask();
         }
 
         TokenField::Millennium => {
-            tm.year += val * 1000;
+            add_interval_field(&mut tm.year, val, 1000)?;
             if *f_val != 0.0 {
-                tm.mon += (*f_val * MONTHS_PER_YEAR as f64 * 1000_f64) as i32;
+                let months = (*f_val * MONTHS_PER_YEAR as f64 * 1000_f64) as i32;
+                add_interval_field(&mut tm.mon, months, 1)?;
             }
             *t_mask = TokenType::MILLENNIUM.mask();
         }
@@ -2832,7 +2860,11 @@ pub fn decode_interval(
     if *f_sec != 0 {
         let sec = *f_sec / USECS_PER_SEC;
         *f_sec -= sec * USECS_PER_SEC;
-        tm.sec += sec as i32;
+        let sec = match i32::try_from(sec) {
+            Ok(sec) => sec,
+            Err(_) => return Err(DateTimeError::overflow()),
+        };
+        add_interval_field(&mut tm.sec, sec, 1)?;
     }
 
     // The SQL standard defines the interval literal
@@ -2889,12 +2921,12 @@ pub fn decode_interval(
     // finally, AGO negates everything.
     if is_before {
         *f_sec = -(*f_sec);
-        tm.sec = -tm.sec;
-        tm.min = -tm.min;
-        tm.hour = -tm.hour;
-        tm.mday = -tm.mday;
-        tm.mon = -tm.mon;
-        tm.year = -tm.year;
+        negate_interval_field(&mut tm.sec)?;
+        negate_interval_field(&mut tm.min)?;
+        negate_interval_field(&mut tm.hour)?;
+        negate_interval_field(&mut tm.mday)?;
+        negate_interval_field(&mut tm.mon)?;
+        negate_interval_field(&mut tm.year)?;
     }
 
     Ok(())
-- 
2.43.0


From ffe13a776ddd50ce3cbbdde3431ee6738982c4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:30 +0000
Subject: [PATCH 13/44] fix: report an overflow when the fields of an ISO 8601
 interval add up beyond their range

---
 src/parse.rs | 42 +++++++++++++++++++++---------------------
 1 file changed, 21 insertions(+), 21 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index d03d547..4e47af4 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -3010,8 +3010,8 @@ fn decode_date_part_left<'a, 'b, 'c, 'd>(
 
     let mut s = s;
 
-    tm.year += *val;
-    tm.mon += (*fval * MONTHS_PER_YEAR as f64) as i32;
+    add_interval_field(&mut tm.year, *val, 1)?;
+    add_interval_field(&mut tm.mon, (*fval * MONTHS_PER_YEAR as f64) as i32, 1)?;
     if unit == b'\0' {
         return Ok((true, s));
     }
@@ -3022,7 +3022,7 @@ fn decode_date_part_left<'a, 'b, 'c, 'd>(
     }
 
     s = parse_iso8601_number(s, val, fval)?;
-    tm.mon += *val;
+    add_interval_field(&mut tm.mon, *val, 1)?;
     adjust_fract_days(*fval, tm, fsec, DAYS_PER_MONTH)?;
     match s.first() {
         None => return Ok((true, s)),
@@ -3043,7 +3043,7 @@ fn decode_date_part_left<'a, 'b, 'c, 'd>(
 
     s = &s[1..];
     s = parse_iso8601_number(s, val, fval)?;
-    tm.mday += *val;
+    add_interval_field(&mut tm.mday, *val, 1)?;
     adjust_fract_seconds(*fval, tm, fsec, SECS_PER_DAY)?;
     match s.first() {
         None => Ok((true, s)),
@@ -3076,14 +3076,14 @@ fn decode_time_part_left(
         return Err(DateTimeError::invalid("have field is set".to_string()));
     }
 
-    tm.hour += *val;
+    add_interval_field(&mut tm.hour, *val, 1)?;
     adjust_fract_seconds(*fval, tm, fsec, SECS_PER_HOUR)?;
     if unit == b'\0' {
         return Ok(());
     }
 
     let mut s = parse_iso8601_number(s, val, fval)?;
-    tm.min += *val;
+    add_interval_field(&mut tm.min, *val, 1)?;
     adjust_fract_seconds(*fval, tm, fsec, SECS_PER_MINUTE)?;
     match s.first() {
         None => return Ok(()),
@@ -3098,7 +3098,7 @@ fn decode_time_part_left(
     }
     s = &s[1..];
     s = parse_iso8601_number(s, val, fval)?;
-    tm.sec += *val;
+    add_interval_field(&mut tm.sec, *val, 1)?;
     adjust_fract_seconds(*fval, tm, fsec, 1)?;
     match s.first() {
         None => Ok(()),
@@ -3171,19 +3171,19 @@ pub fn decode_iso8601_interval(
             match unit        // before T: Y M W D.
             {
                 b'Y' => {
-                    tm.year += val;
-                    tm.mon += (fval * MONTHS_PER_YEAR as f64) as i32;
+                    add_interval_field(&mut tm.year, val, 1)?;
+                    add_interval_field(&mut tm.mon, (fval * MONTHS_PER_YEAR as f64) as i32, 1)?;
                 }
                 b'M' => {
-                    tm.mon += val;
+                    add_interval_field(&mut tm.mon, val, 1)?;
                     adjust_fract_days(fval, tm, fsec, DAYS_PER_MONTH)?;
                 }
                 b'W' => {
-                    tm.mday += val * 7;
+                    add_interval_field(&mut tm.mday, val, 7)?;
                     adjust_fract_days(fval, tm, fsec, 7)?;
                 }
                 b'D' => {
-                    tm.mday += val;
+                    add_interval_field(&mut tm.mday, val, 1)?;
                     adjust_fract_seconds(fval, tm, fsec, SECS_PER_DAY)?;
                 }
                 b'T' | b'\0' => {
@@ -3191,9 +3191,9 @@ pub fn decode_iso8601_interval(
                     let width = iso8601_integer_width(field_start);
                     if width == 8 && !havefield
                     {
-                        tm.year += val / 10000;
-                        tm.mon += (val / 100) % 100;
-                        tm.mday += val % 100;
+                        add_interval_field(&mut tm.year, val / 10000, 1)?;
+                        add_interval_field(&mut tm.mon, (val / 100) % 100, 1)?;
+                        add_interval_field(&mut tm.mday, val % 100, 1)?;
                         adjust_fract_seconds(fval, tm, fsec, SECS_PER_DAY)?;
                         if unit == b'\0' {
                             return Ok(());
@@ -3235,24 +3235,24 @@ pub fn decode_iso8601_interval(
             match unit        /* after T: H M S */
             {
                 b'H' => {
-                    tm.hour += val;
+                    add_interval_field(&mut tm.hour, val, 1)?;
                     adjust_fract_seconds(fval, tm, fsec, SECS_PER_HOUR)?;
                 }
                 b'M' => {
-                    tm.min += val;
+                    add_interval_field(&mut tm.min, val, 1)?;
                     adjust_fract_seconds(fval, tm, fsec, SECS_PER_MINUTE)?;
                 }
                 b'S' => {
-                    tm.sec += val;
+                    add_interval_field(&mut tm.sec, val, 1)?;
                     adjust_fract_seconds(fval, tm, fsec, 1)?;
                 }
                 b'\0' => { // ISO 8601 4.4.3.3 Alternative Format
                     let len = iso8601_integer_width(field_start);
                     if len == 6 && !havefield
                     {
-                        tm.hour += val / 10000;
-                        tm.min += (val / 100) % 100;
-                        tm.sec += val % 100;
+                        add_interval_field(&mut tm.hour, val / 10000, 1)?;
+                        add_interval_field(&mut tm.min, (val / 100) % 100, 1)?;
+                        add_interval_field(&mut tm.sec, val % 100, 1)?;
                         adjust_fract_seconds(fval, tm, fsec, 1)?;
                         return Ok(());
                     }
-- 
2.43.0


From a8c2ec844aa2b3c8f4cddd4316c9de606c6f5d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:51 +0000
Subject: [PATCH 14/44] fix: accept negative fields in ISO 8601 intervals with
 designators

---
 src/parse.rs | 38 ++++++++++++++++++++++++++++++++------
 1 file changed, 32 insertions(+), 6 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index 4e47af4..52ba909 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -2949,7 +2949,7 @@ fn parse_iso8601_number<'a, 'b, 'c>(
             ));
         }
         Some(c) => {
-            if !(c.is_ascii_digit() || c == &b'c' || c == &b'.') {
+            if !(c.is_ascii_digit() || c == &b'-' || c == &b'.') {
                 return Err(DateTimeError::invalid(format!(
                     "str: {:?} is invalid for iso number",
                     s
@@ -2970,12 +2970,34 @@ fn parse_iso8601_number<'a, 'b, 'c>(
     if val >= 0.0 {
         *ipart = val.floor() as i32;
     } else {
-        *ipart = -val.floor() as i32;
+        *ipart = -((-val).floor()) as i32;
     }
     *fpart = val - *ipart as f64;
     Ok(end)
 }
 
+/// The alternative format has no signs.
+#[inline]
+fn parse_iso8601_unsigned<'a, 'b, 'c>(
+    s: &'a [u8],
+    ipart: &'b mut i32,
+    fpart: &'c mut f64,
+) -> Result<&'a [u8], DateTimeError> {
+    check_iso8601_unsigned(s)?;
+    parse_iso8601_number(s, ipart, fpart)
+}
+
+#[inline]
+fn check_iso8601_unsigned(s: &[u8]) -> Result<(), DateTimeError> {
+    match s.first() {
+        Some(b'-') => Err(DateTimeError::invalid(format!(
+            "str: {:?} is invalid for iso number",
+            s
+        ))),
+        _ => Ok(()),
+    }
+}
+
 /// Determine number of integral digits in a valid ISO 8601 number field
 /// (we should ignore sign and any fraction part)
 #[inline]
@@ -3021,7 +3043,7 @@ fn decode_date_part_left<'a, 'b, 'c, 'd>(
         return Ok((false, s));
     }
 
-    s = parse_iso8601_number(s, val, fval)?;
+    s = parse_iso8601_unsigned(s, val, fval)?;
     add_interval_field(&mut tm.mon, *val, 1)?;
     adjust_fract_days(*fval, tm, fsec, DAYS_PER_MONTH)?;
     match s.first() {
@@ -3042,7 +3064,7 @@ fn decode_date_part_left<'a, 'b, 'c, 'd>(
     }
 
     s = &s[1..];
-    s = parse_iso8601_number(s, val, fval)?;
+    s = parse_iso8601_unsigned(s, val, fval)?;
     add_interval_field(&mut tm.mday, *val, 1)?;
     adjust_fract_seconds(*fval, tm, fsec, SECS_PER_DAY)?;
     match s.first() {
@@ -3082,7 +3104,7 @@ fn decode_time_part_left(
         return Ok(());
     }
 
-    let mut s = parse_iso8601_number(s, val, fval)?;
+    let mut s = parse_iso8601_unsigned(s, val, fval)?;
     add_interval_field(&mut tm.min, *val, 1)?;
     adjust_fract_seconds(*fval, tm, fsec, SECS_PER_MINUTE)?;
     match s.first() {
@@ -3097,7 +3119,7 @@ fn decode_time_part_left(
         }
     }
     s = &s[1..];
-    s = parse_iso8601_number(s, val, fval)?;
+    s = parse_iso8601_unsigned(s, val, fval)?;
     add_interval_field(&mut tm.sec, *val, 1)?;
     adjust_fract_seconds(*fval, tm, fsec, 1)?;
     match s.first() {
@@ -3188,6 +3210,7 @@ pub fn decode_iso8601_interval(
                 }
                 b'T' | b'\0' => {
                     // ISO 8601 4.4.3.3 Alternative Format / Basic */
+                    check_iso8601_unsigned(field_start)?;
                     let width = iso8601_integer_width(field_start);
                     if width == 8 && !havefield
                     {
@@ -3216,6 +3239,7 @@ pub fn decode_iso8601_interval(
                 }
 
                 b'-' => {
+                    check_iso8601_unsigned(field_start)?;
                     let (is_finish, left) = decode_date_part_left(s, unit, tm,
                                                                   &mut datepart, &mut havefield,
                                                                   &mut val, &mut fval, fsec)?;
@@ -3247,6 +3271,7 @@ pub fn decode_iso8601_interval(
                     adjust_fract_seconds(fval, tm, fsec, 1)?;
                 }
                 b'\0' => { // ISO 8601 4.4.3.3 Alternative Format
+                    check_iso8601_unsigned(field_start)?;
                     let len = iso8601_integer_width(field_start);
                     if len == 6 && !havefield
                     {
@@ -3268,6 +3293,7 @@ pub fn decode_iso8601_interval(
                         fsec);
                 }
                 b':' => {// ISO 8601 4.4.3.3 Alternative Format, Extended
+                    check_iso8601_unsigned(field_start)?;
                     return decode_time_part_left(
                         s,
                         unit,
-- 
2.43.0


From 120fb203f0d81d5a9a37203dd401003240ac2175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:42 +0000
Subject: [PATCH 15/44] fix: initialise the parse buffers instead of assuming
 uninitialised memory valid

---
 src/date.rs      | 9 +++------
 src/interval.rs  | 9 +++------
 src/time.rs      | 9 +++------
 src/timestamp.rs | 9 +++------
 4 files changed, 12 insertions(+), 24 deletions(-)

diff --git a/src/date.rs b/src/date.rs
index a669a3b..2f4a0af 100644
--- a/src/date.rs
+++ b/src/date.rs
@@ -23,7 +23,6 @@ use crate::timestamp::{Timestamp, DATE_TIME_BEGIN_VAL, DATE_TIME_END_VAL};
 use crate::token::*;
 use crate::{DateOrder, DateStyle, DateTime, DateUnit, FieldType};
 use std::convert::TryFrom;
-use std::mem::MaybeUninit;
 
 // Range limits for dates and timestamps.
 //
@@ -200,13 +199,11 @@ impl Date {
     }
 
     /// Parses `Date` string.
-    #[allow(clippy::uninit_assumed_init)]
     pub fn try_from_str(s: &str, date_order: DateOrder) -> Result<Self, DateTimeError> {
         let s = s.as_bytes();
-        let mut fields: [&[u8]; MAX_DATE_FIELDS] = unsafe { MaybeUninit::uninit().assume_init() };
-        let mut work_buf: [u8; MAX_DATE_LEN] = unsafe { MaybeUninit::uninit().assume_init() };
-        let mut f_types: [TokenField; MAX_DATE_FIELDS] =
-            unsafe { MaybeUninit::uninit().assume_init() };
+        let mut fields: [&[u8]; MAX_DATE_FIELDS] = [&[]; MAX_DATE_FIELDS];
+        let mut work_buf: [u8; MAX_DATE_LEN] = [0; MAX_DATE_LEN];
+        let mut f_types: [TokenField; MAX_DATE_FIELDS] = [TokenField::Number; MAX_DATE_FIELDS];
 
         let field_num =
             parse_date_time(s, &mut work_buf, &mut fields, &mut f_types, MAX_DATE_FIELDS)?;
diff --git a/src/interval.rs b/src/interval.rs
index e09da78..0f5735e 100644
--- a/src/interval.rs
+++ b/src/interval.rs
@@ -20,7 +20,6 @@ use crate::parse::{decode_interval, decode_iso8601_interval, parse_date_time};
 use crate::token::*;
 use crate::{DateTime, DateUnit, FieldType, IntervalStyle, Time};
 use std::cmp::Ordering;
-use std::mem::MaybeUninit;
 use std::ops::Add;
 
 pub const INTERVAL_MASK_Y: i32 = TokenType::YEAR.mask();
@@ -531,17 +530,15 @@ impl Interval {
     }
 
     /// Parses `Internal` from string.
-    #[allow(clippy::uninit_assumed_init)]
     pub fn try_from_str(
         s: &str,
         type_mod: i32,
         format_type: IntervalStyle,
     ) -> Result<Self, DateTimeError> {
         let s = s.as_bytes();
-        let mut fields: [&[u8]; MAX_DATE_FIELDS] = unsafe { MaybeUninit::uninit().assume_init() };
-        let mut work_buf: [u8; MAX_DATE_LEN] = unsafe { MaybeUninit::uninit().assume_init() };
-        let mut f_types: [TokenField; MAX_DATE_FIELDS] =
-            unsafe { MaybeUninit::uninit().assume_init() };
+        let mut fields: [&[u8]; MAX_DATE_FIELDS] = [&[]; MAX_DATE_FIELDS];
+        let mut work_buf: [u8; MAX_DATE_LEN] = [0; MAX_DATE_LEN];
+        let mut f_types: [TokenField; MAX_DATE_FIELDS] = [TokenField::Number; MAX_DATE_FIELDS];
         let mut d_type = TokenField::Number;
         let mut fsec = 0;
         let mut tm = PgTime::new();
diff --git a/src/time.rs b/src/time.rs
index b6ed431..204dc8b 100644
--- a/src/time.rs
+++ b/src/time.rs
@@ -21,7 +21,6 @@ use crate::parse::{decode_time_only, parse_date_time, timestamp2time};
 use crate::token::*;
 use crate::{DateOrder, DateStyle, DateTime, DateUnit, FieldType, Timestamp};
 use std::convert::TryFrom;
-use std::mem::MaybeUninit;
 
 const TIME_SCALES: [i64; MAX_TIME_PRECISION as usize + 1] =
     [1_000_000, 100_000, 10_000, 1000, 100, 10, 1];
@@ -101,17 +100,15 @@ impl Time {
     }
 
     /// Parses `Time` string. type_mod should be 0 ~ 6, else will have no affect.
-    #[allow(clippy::uninit_assumed_init)]
     pub fn try_from_str(
         s: &str,
         type_mod: i32,
         date_order: DateOrder,
     ) -> Result<Time, DateTimeError> {
         let s = s.as_bytes();
-        let mut fields: [&[u8]; MAX_DATE_FIELDS] = unsafe { MaybeUninit::uninit().assume_init() };
-        let mut work_buf: [u8; MAX_DATE_LEN] = unsafe { MaybeUninit::uninit().assume_init() };
-        let mut f_types: [TokenField; MAX_DATE_FIELDS] =
-            unsafe { MaybeUninit::uninit().assume_init() };
+        let mut fields: [&[u8]; MAX_DATE_FIELDS] = [&[]; MAX_DATE_FIELDS];
+        let mut work_buf: [u8; MAX_DATE_LEN] = [0; MAX_DATE_LEN];
+        let mut f_types: [TokenField; MAX_DATE_FIELDS] = [TokenField::Number; MAX_DATE_FIELDS];
         let mut tm = PgTime::new();
 
         let field_num =
diff --git a/src/timestamp.rs b/src/timestamp.rs
index 0f7e649..20660a0 100644
--- a/src/timestamp.rs
+++ b/src/timestamp.rs
@@ -23,7 +23,6 @@ use crate::time::Time;
 use crate::token::*;
 use crate::{Date, DateOrder, DateStyle, DateTime, DateUnit, FieldType};
 use std::convert::TryFrom;
-use std::mem::MaybeUninit;
 
 // Timestamp limits
 const MIN_TIMESTAMP: i64 = -211_813_488_000_000_000; // == (DATETIME_MIN_JULIAN - POSTGRES_EPOCH_JDATE) * USECS_PER_DAY
@@ -162,17 +161,15 @@ impl Timestamp {
     }
 
     /// Parses `Timestamp` string. type_mode should be -1, or 1~6, else will be error.
-    #[allow(clippy::uninit_assumed_init)]
     pub fn try_from_str(
         s: &str,
         type_mod: i32,
         date_order: DateOrder,
     ) -> Result<Timestamp, DateTimeError> {
         let s = s.as_bytes();
-        let mut fields: [&[u8]; MAX_DATE_FIELDS] = unsafe { MaybeUninit::uninit().assume_init() };
-        let mut work_buf: [u8; MAX_DATE_LEN] = unsafe { MaybeUninit::uninit().assume_init() };
-        let mut f_types: [TokenField; MAX_DATE_FIELDS] =
-            unsafe { MaybeUninit::uninit().assume_init() };
+        let mut fields: [&[u8]; MAX_DATE_FIELDS] = [&[]; MAX_DATE_FIELDS];
+        let mut work_buf: [u8; MAX_DATE_LEN] = [0; MAX_DATE_LEN];
+        let mut f_types: [TokenField; MAX_DATE_FIELDS] = [TokenField::Number; MAX_DATE_FIELDS];
 
         let nf = parse_date_time(s, &mut work_buf, &mut fields, &mut f_types, MAX_DATE_FIELDS)?;
         let mut tm = PgTime::new();
-- 
2.43.0


From a7319bdd78496454c4cad63b01bef41454de293a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:44 +0000
Subject: [PATCH 16/44] fix: reject NaN seconds in Time::try_from_hms

---
 src/time.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/time.rs b/src/time.rs
index 204dc8b..0f2b3ab 100644
--- a/src/time.rs
+++ b/src/time.rs
@@ -54,6 +54,7 @@ impl Time {
         if h < 0
             || m < 0
             || m > MINS_PER_HOUR - 1
+            || s.is_nan()
             || s < 0.0
             || s > SECS_PER_MINUTE as f64
             || h > HOURS_PER_DAY
-- 
2.43.0


From d4a44cb3cd10900a5bb01f892e1375c8609c59c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:46 +0000
Subject: [PATCH 17/44] fix: keep time of day arithmetic modulo 24 hours for
 very large intervals

---
 src/time.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/time.rs b/src/time.rs
index 0f2b3ab..14a7719 100644
--- a/src/time.rs
+++ b/src/time.rs
@@ -145,7 +145,7 @@ impl Time {
     /// `Time` Adds `Interval`.
     #[inline]
     pub fn add_interval(self, span: Interval) -> Time {
-        let mut result = self.value().wrapping_add(span.time());
+        let mut result = self.value().wrapping_add(span.time() % USECS_PER_DAY);
         result -= result / USECS_PER_DAY * USECS_PER_DAY;
         if result < 0 {
             result += USECS_PER_DAY;
@@ -163,7 +163,7 @@ impl Time {
     /// `Time` subtracts `Interval`.
     #[inline]
     pub fn sub_interval(self, span: Interval) -> Time {
-        let mut result = self.value().wrapping_sub(span.time());
+        let mut result = self.value().wrapping_sub(span.time() % USECS_PER_DAY);
         result -= result / USECS_PER_DAY * USECS_PER_DAY;
         if result < 0 {
             result += USECS_PER_DAY;
-- 
2.43.0


From 2956377061d4b8765c6a55a8bd55292dcf9a34ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:48 +0000
Subject: [PATCH 18/44] fix: convert very negative intervals to a time of day
 without overflow

---
 src/time.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/time.rs b/src/time.rs
index 14a7719..884a371 100644
--- a/src/time.rs
+++ b/src/time.rs
@@ -265,8 +265,10 @@ impl From<Interval> for Time {
             let days = result / USECS_PER_DAY;
             result -= days * USECS_PER_DAY;
         } else if result < 0 {
-            let days = (-result + USECS_PER_DAY - 1) / USECS_PER_DAY;
-            result += days * USECS_PER_DAY;
+            result %= USECS_PER_DAY;
+            if result < 0 {
+                result += USECS_PER_DAY;
+            }
         }
         Time::from(result)
     }
-- 
2.43.0


From 2c3a8a5ad6cad07719a67414e38d1adcbea18e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:49 +0000
Subject: [PATCH 19/44] fix: truncating 24:00:00 does not turn it into 00:00:00

---
 src/time.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/time.rs b/src/time.rs
index 884a371..26c9d6e 100644
--- a/src/time.rs
+++ b/src/time.rs
@@ -316,7 +316,7 @@ impl DateTime for Time {
     fn truncate(&self, ty: FieldType, unit: DateUnit) -> Result<Self, DateTimeError> {
         let interval: Interval = From::from(*self);
         let it = interval.truncate(ty, unit)?;
-        Ok(From::from(it))
+        Ok(Time::from(it.time()))
     }
 }
 
-- 
2.43.0


From bbdf9e486cc8c591a5f59074d7f631ff2283ff70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:51 +0000
Subject: [PATCH 20/44] fix: report an overflow when rounding a timestamp
 leaves its range

---
 src/timestamp.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/timestamp.rs b/src/timestamp.rs
index 20660a0..e60d1a3 100644
--- a/src/timestamp.rs
+++ b/src/timestamp.rs
@@ -232,6 +232,9 @@ impl Timestamp {
                 let v = ((self.value() + TIMESTAMP_OFFSETS[typmod as usize])
                     / TIMESTAMP_SCALES[typmod as usize])
                     * TIMESTAMP_SCALES[typmod as usize];
+                if !is_valid_timestamp(v) {
+                    return Err(DateTimeError::overflow());
+                }
                 Ok(Timestamp::new(v))
             } else {
                 let v = -((((-self.value()) + TIMESTAMP_OFFSETS[typmod as usize])
-- 
2.43.0


From b44e6a1599362c515397a0c01164f558ef1b14c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:53 +0000
Subject: [PATCH 21/44] fix: report an overflow when rounding an interval
 leaves its range

---
 src/interval.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/interval.rs b/src/interval.rs
index 0f5735e..a7c47c3 100644
--- a/src/interval.rs
+++ b/src/interval.rs
@@ -514,15 +514,17 @@ impl Interval {
                     return Err(DateTimeError::overflow());
                 }
 
-                if self.time >= 0 {
-                    self.time = ((self.time + INTERVAL_OFFSETS[precision as usize])
-                        / INTERVAL_SCALES[precision as usize])
-                        * INTERVAL_SCALES[precision as usize];
+                let offset = if self.time >= 0 {
+                    INTERVAL_OFFSETS[precision as usize]
                 } else {
-                    self.time = -(((-self.time + INTERVAL_OFFSETS[precision as usize])
-                        / INTERVAL_SCALES[precision as usize])
-                        * INTERVAL_SCALES[precision as usize]);
-                }
+                    -INTERVAL_OFFSETS[precision as usize]
+                };
+                let time = match self.time.checked_add(offset) {
+                    Some(time) => time,
+                    None => return Err(DateTimeError::overflow()),
+                };
+                self.time = time / INTERVAL_SCALES[precision as usize]
+                    * INTERVAL_SCALES[precision as usize];
             }
         }
 
-- 
2.43.0


From a2e3a94becfa04761061924c5d1beed62a4fd117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:56 +0000
Subject: [PATCH 22/44] fix: compare and hash intervals for equality the way
 they are ordered

---
 src/interval.rs | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/interval.rs b/src/interval.rs
index a7c47c3..c055429 100644
--- a/src/interval.rs
+++ b/src/interval.rs
@@ -20,6 +20,7 @@ use crate::parse::{decode_interval, decode_iso8601_interval, parse_date_time};
 use crate::token::*;
 use crate::{DateTime, DateUnit, FieldType, IntervalStyle, Time};
 use std::cmp::Ordering;
+use std::hash::{Hash, Hasher};
 use std::ops::Add;
 
 pub const INTERVAL_MASK_Y: i32 = TokenType::YEAR.mask();
@@ -69,7 +70,7 @@ const fn interval_precision(t: i32) -> i32 {
 }
 
 /// Interval represents delta time.
-#[derive(Copy, Clone, Debug, Eq, PartialEq, Hash)]
+#[derive(Copy, Clone, Debug)]
 #[repr(C)]
 pub struct Interval {
     /// All time units other than days, months and years.
@@ -990,6 +991,25 @@ impl Add<Interval> for Interval {
     }
 }
 
+impl PartialEq for Interval {
+    #[inline]
+    fn eq(&self, other: &Self) -> bool {
+        let left: i128 = From::from(*self);
+        let right: i128 = From::from(*other);
+        left == right
+    }
+}
+
+impl Eq for Interval {}
+
+impl Hash for Interval {
+    #[inline]
+    fn hash<H: Hasher>(&self, state: &mut H) {
+        let v: i128 = From::from(*self);
+        v.hash(state);
+    }
+}
+
 impl PartialOrd for Interval {
     #[inline]
     fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
-- 
2.43.0


From 2507cd5ac674ab71696e95eb08e1ef382f4c8308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:58 +0000
Subject: [PATCH 23/44] fix: report an overflow instead of panicking or
 saturating in Interval::mul_f64

---
 src/interval.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/interval.rs b/src/interval.rs
index c055429..75bb2f7 100644
--- a/src/interval.rs
+++ b/src/interval.rs
@@ -332,16 +332,20 @@ impl Interval {
         // Might have 24:00:00 hours due to rounding, or >24 hours because of time
         // cascade from months and days.  It might still be >24 if the combination
         // of cascade and the seconds factor operation itself.
+        let mut extra_days = month_remainder_days as i32;
         if sec_remainder.abs() >= SECS_PER_DAY as f64 {
-            result.day += (sec_remainder / SECS_PER_DAY as f64) as i32;
+            extra_days += (sec_remainder / SECS_PER_DAY as f64) as i32;
             sec_remainder -= (((sec_remainder / SECS_PER_DAY as f64) as i32) * SECS_PER_DAY) as f64;
         }
 
         // cascade units down
-        result.day += month_remainder_days as i32;
+        result.day = match result.day.checked_add(extra_days) {
+            Some(day) => day,
+            None => return Err(DateTimeError::overflow()),
+        };
         let result_time =
             (self.time as f64 * factor + sec_remainder * USECS_PER_SEC as f64).round();
-        if result_time > std::i64::MAX as f64 || result_time < std::i64::MIN as f64 {
+        if result_time >= std::i64::MAX as f64 || result_time < std::i64::MIN as f64 {
             return Err(DateTimeError::overflow());
         }
 
-- 
2.43.0


From 97c813e5f0e164f4f5363394fa63bdb39b09825a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:00 +0000
Subject: [PATCH 24/44] fix: report an overflow when Interval::div_f64 leaves
 the range of intervals

---
 src/interval.rs | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/src/interval.rs b/src/interval.rs
index 75bb2f7..0bfffce 100644
--- a/src/interval.rs
+++ b/src/interval.rs
@@ -365,10 +365,16 @@ impl Interval {
                 self
             )));
         }
-        let month = (self.month as f64 / factor) as i32;
-        let day = (self.day as f64 / factor) as i32;
+        let month = self.month as f64 / factor;
+        if month.is_nan() || month > std::i32::MAX as f64 || month < std::i32::MIN as f64 {
+            return Err(DateTimeError::overflow());
+        }
+        let day = self.day as f64 / factor;
+        if day.is_nan() || day > std::i32::MAX as f64 || day < std::i32::MIN as f64 {
+            return Err(DateTimeError::overflow());
+        }
 
-        let mut result = Interval::from_mdt(month, day, 0);
+        let mut result = Interval::from_mdt(month as i32, day as i32, 0);
         // Fractional months full days into days.  See comment in interval_mul().
 
         let mut month_remainder_days =
@@ -379,15 +385,24 @@ impl Interval {
             - month_remainder_days as i32 as f64)
             * SECS_PER_DAY as f64;
         sec_remainder = timestamp_round(sec_remainder);
+        let mut extra_days = month_remainder_days as i32;
         if sec_remainder.abs() >= SECS_PER_DAY as f64 {
-            result.day += (sec_remainder / SECS_PER_DAY as f64) as i32;
+            extra_days += (sec_remainder / SECS_PER_DAY as f64) as i32;
             sec_remainder -= (((sec_remainder / SECS_PER_DAY as f64) as i32) * SECS_PER_DAY) as f64;
         }
 
         // cascade units down
-        result.day += month_remainder_days as i32;
-        result.time =
-            (self.time as f64 / factor + sec_remainder * USECS_PER_SEC as f64).round() as i64;
+        result.day = match result.day.checked_add(extra_days) {
+            Some(day) => day,
+            None => return Err(DateTimeError::overflow()),
+        };
+        let result_time =
+            (self.time as f64 / factor + sec_remainder * USECS_PER_SEC as f64).round();
+        if result_time >= std::i64::MAX as f64 || result_time < std::i64::MIN as f64 {
+            return Err(DateTimeError::overflow());
+        }
+
+        result.time = result_time as i64;
         Ok(result)
     }
 
-- 
2.43.0


From 82f0f9dea1059b266065d1ce8e5f083516557ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:22 +0000
Subject: [PATCH 25/44] fix: print the Postgres date style with day before
 month so that it can be parsed

---
 src/date.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/date.rs b/src/date.rs
index 2f4a0af..78d36f3 100644
--- a/src/date.rs
+++ b/src/date.rs
@@ -345,12 +345,13 @@ fn format_date(
                 offset += pg_ltostr_zeropad(&mut s[offset..], tm.mday, 2);
                 offset = set_one_byte(s, offset, b'-');
                 offset += pg_ltostr_zeropad(&mut s[offset..], tm.mon, 2);
+                offset = set_one_byte(s, offset, b'-');
             } else {
                 offset += pg_ltostr_zeropad(&mut s[offset..], tm.mon, 2);
                 offset = set_one_byte(s, offset, b'.');
                 offset += pg_ltostr_zeropad(&mut s[offset..], tm.mday, 2);
+                offset = set_one_byte(s, offset, b'.');
             }
-            offset = set_one_byte(s, offset, b'.');
             let year = if tm.year > 0 { tm.year } else { -(tm.year - 1) };
             offset += pg_ltostr_zeropad(&mut s[offset..], year, 4);
         }
-- 
2.43.0


From 1b5a9a5c1d96742b8e7961e9f19bfa323294a243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:45 +0000
Subject: [PATCH 26/44] fix: format intervals with the smallest day or hour
 count without overflow

---
 src/common.rs   |  9 +++++----
 src/interval.rs | 16 ++++++++--------
 2 files changed, 13 insertions(+), 12 deletions(-)

diff --git a/src/common.rs b/src/common.rs
index beb6c64..f5dc4c4 100644
--- a/src/common.rs
+++ b/src/common.rs
@@ -669,12 +669,12 @@ pub const MAX_INTERVAL_PRECISION: usize = 6;
 /// Note: Caller must ensure that 'str' points to enough memory to hold the
 /// result.
 #[inline]
-pub fn pg_ltostr(s: &mut [u8], value: i32) -> usize {
+pub fn pg_ltostr(s: &mut [u8], value: impl Into<i64>) -> usize {
     let mut start = 0;
     // Handle negative numbers in a special way.  We can't just write a '-'
     // prefix and reverse the sign as that would overflow for INT32_MIN.
     let mut new_start = 0;
-    let mut value = value;
+    let mut value: i64 = value.into();
     if value < 0 {
         s[0] = b'-';
         start = 1;
@@ -738,7 +738,8 @@ pub fn pg_ltostr(s: &mut [u8], value: i32) -> usize {
 /// Note: Caller must ensure that 'str' points to enough memory to hold the
 /// result.
 #[inline]
-pub fn pg_ltostr_zeropad(s: &mut [u8], value: i32, min_width: usize) -> usize {
+pub fn pg_ltostr_zeropad(s: &mut [u8], value: impl Into<i64>, min_width: usize) -> usize {
+    let value: i64 = value.into();
     let mut start = 0;
     let end = min_width;
     let mut num = value;
@@ -839,7 +840,7 @@ pub fn append_seconds(
         // enough to print the number.  We punt the problem to pg_ltostr(),
         // which will generate a correct answer in the minimum valid width.
         if value != 0 {
-            return pg_ltostr(&mut s[offset..], fsec.abs() as i32);
+            return pg_ltostr(&mut s[offset..], fsec.abs());
         }
         offset += valid_num;
         offset
diff --git a/src/interval.rs b/src/interval.rs
index 0bfffce..cf12318 100644
--- a/src/interval.rs
+++ b/src/interval.rs
@@ -645,11 +645,11 @@ fn format_interval(
     mut fsec: i64,
     style: IntervalStyle,
 ) -> Result<usize, DateTimeError> {
-    let mut year = tm.year;
-    let mut mon = tm.mon;
-    let mut mday = tm.mday;
-    let mut hour = tm.hour;
-    let mut min = tm.min;
+    let mut year = tm.year as i64;
+    let mut mon = tm.mon as i64;
+    let mut mday = tm.mday as i64;
+    let mut hour = tm.hour as i64;
+    let mut min = tm.min as i64;
     let mut sec = tm.sec;
     let mut is_before = false;
     let mut is_zero = true;
@@ -903,7 +903,7 @@ fn format_interval(
 /// Helper functions to avoid duplicated code in EncodeInterval.
 /// Append an ISO-8601-style interval field, but only if value isn't zero.
 #[inline]
-fn add_iso8601_int_part(s: &mut [u8], value: i32, units: u8) -> Result<usize, DateTimeError> {
+fn add_iso8601_int_part(s: &mut [u8], value: i64, units: u8) -> Result<usize, DateTimeError> {
     if value == 0 {
         return Ok(0);
     }
@@ -918,7 +918,7 @@ fn add_iso8601_int_part(s: &mut [u8], value: i32, units: u8) -> Result<usize, Da
 #[inline]
 fn add_postgres_int_part(
     s: &mut [u8],
-    value: i32,
+    value: i64,
     units: &[u8],
     is_zero: &mut bool,
     is_before: &mut bool,
@@ -953,7 +953,7 @@ fn add_postgres_int_part(
 #[inline]
 fn add_verbose_int_part(
     s: &mut [u8],
-    value: i32,
+    value: i64,
     units: &[u8],
     is_zero: &mut bool,
     is_before: &mut bool,
-- 
2.43.0


From a6c4e2ad3be9e17aae3a938ff1ed96e378ec01ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:31 +0000
Subject: [PATCH 27/44] fix: report ISO years before Christ without a year 0,
 as years are

---
 src/timestamp.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/timestamp.rs b/src/timestamp.rs
index e60d1a3..35c41c5 100644
--- a/src/timestamp.rs
+++ b/src/timestamp.rs
@@ -831,7 +831,15 @@ impl DateTime for Timestamp {
                         Ok(result)
                     }
 
-                    DateUnit::IsoYear => Ok(date_to_iso_year(tm.year, tm.mon, tm.mday) as f64),
+                    DateUnit::IsoYear => {
+                        let year = date_to_iso_year(tm.year, tm.mon, tm.mday);
+                        if year > 0 {
+                            Ok(year as f64)
+                        } else {
+                            // there is no year 0, just 1 BC and 1 AD.
+                            Ok((year - 1) as f64)
+                        }
+                    }
                     DateUnit::Dow | DateUnit::IsoDow => {
                         let mut tm = PgTime::new();
                         let mut fsec = 0;
-- 
2.43.0


From ae7636b1b1e300bc51ee5314716a99dc26324a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:59 +0000
Subject: [PATCH 28/44] fix: reject clock times past 24:00:00 such as
 23:59:60.5 or 11:59:60.5 PM

---
 src/parse.rs | 34 +++++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index 52ba909..8f8c237 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -1892,6 +1892,10 @@ pub fn decode_date_time(
         tm.hour += HOURS_PER_DAY / 2;
     }
 
+    if time_overflows(tm, ctx.f_sec) {
+        return Err(DateTimeError::overflow());
+    }
+
     /* do additional checking for full date specs... */
     if ctx.d_type == TokenField::Date && (ctx.f_mask & DTK_DATE_M) != DTK_DATE_M {
         if (ctx.f_mask & DTK_TIME_M) == DTK_TIME_M {
@@ -1906,6 +1910,24 @@ pub fn decode_date_time(
     Ok((0, ctx.d_type, ctx.f_sec))
 }
 
+/// Tests for a time of day that does not exist or is past 24:00:00.
+fn time_overflows(tm: &PgTime, f_sec: i64) -> bool {
+    if tm.hour < 0
+        || tm.hour > HOURS_PER_DAY
+        || tm.min < 0
+        || tm.min > MINS_PER_HOUR - 1
+        || tm.sec < 0
+        || tm.sec > SECS_PER_MINUTE
+        || f_sec < 0
+        || f_sec > USECS_PER_SEC
+    {
+        return true;
+    }
+
+    let secs = (tm.hour * MINS_PER_HOUR + tm.min) * SECS_PER_MINUTE + tm.sec;
+    secs as i64 * USECS_PER_SEC + f_sec > HOURS_PER_DAY as i64 * USECS_PER_HOUR
+}
+
 /// Context for decode time only.
 struct DecodeTimeOnlyCtx {
     d_type: TokenField,
@@ -2411,17 +2433,7 @@ pub fn decode_time_only(
         tm.hour += HOURS_PER_DAY / 2;
     }
 
-    // This should match the checks in make_timestamp_internal
-    if tm.hour < 0
-        || tm.min < 0
-        || tm.min > MINS_PER_HOUR - 1
-        || tm.sec < 0
-        || tm.sec > SECS_PER_MINUTE
-        || tm.hour > HOURS_PER_DAY
-        || (tm.hour == HOURS_PER_DAY && (tm.min > 0 || tm.sec > 0 || ctx.f_sec > 0))
-        || ctx.f_sec < 0
-        || ctx.f_sec > USECS_PER_SEC
-    {
+    if time_overflows(tm, ctx.f_sec) {
         return Err(DateTimeError::overflow());
     }
 
-- 
2.43.0


From 9bc3dfae203c9d8d953e2a27c78a6b7b1607e671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:55 +0000
Subject: [PATCH 29/44] fix: accept day, month name, year in YMD order when
 separated by blanks

---
 src/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse.rs b/src/parse.rs
index 8f8c237..80dfd34 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -1619,7 +1619,7 @@ impl DecodeDateTimeCtx {
             else {
                 decode_number(
                     str,
-                    false,
+                    self.have_text_month,
                     self.f_mask,
                     &mut self.t_mask,
                     tm,
-- 
2.43.0


From 3285fa0c4546d7030e4aa2abdee8a90e34a7ab42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:36 +0000
Subject: [PATCH 30/44] fix: keep the last month of fractional decades,
 centuries and millennia

---
 src/parse.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index 80dfd34..32b2c16 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -2666,7 +2666,7 @@ fn decode_interval_number_field(
         TokenField::Decade => {
             add_interval_field(&mut tm.year, val, 10)?;
             if *f_val != 0.0 {
-                let months = (*f_val * MONTHS_PER_YEAR as f64 * 10_f64) as i32;
+                let months = (*f_val * (MONTHS_PER_YEAR * 10) as f64) as i32;
                 add_interval_field(&mut tm.mon, months, 1)?;
             }
             *t_mask = TokenType::DECADE.mask();
@@ -2675,7 +2675,7 @@ fn decode_interval_number_field(
         TokenField::Century => {
             add_interval_field(&mut tm.year, val, 100)?;
             if *f_val != 0.0 {
-                let months = (*f_val * MONTHS_PER_YEAR as f64 * 100_f64) as i32;
+                let months = (*f_val * (MONTHS_PER_YEAR * 100) as f64) as i32;
                 add_interval_field(&mut tm.mon, months, 1)?;
             }
             *t_mask = TokenType::CENTURY.mask();
@@ -2684,7 +2684,7 @@ fn decode_interval_number_field(
         TokenField::Millennium => {
             add_interval_field(&mut tm.year, val, 1000)?;
             if *f_val != 0.0 {
-                let months = (*f_val * MONTHS_PER_YEAR as f64 * 1000_f64) as i32;
+                let months = (*f_val * (MONTHS_PER_YEAR * 1000) as f64) as i32;
                 add_interval_field(&mut tm.mon, months, 1)?;
             }
             *t_mask = TokenType::MILLENNIUM.mask();
-- 
2.43.0


From 5f87cef1bbdc3e6120d9220d6e29d38a74230696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:38 +0000
Subject: [PATCH 31/44] fix: keep fractions of days written after a clock time
 in an interval

---
 src/parse.rs | 51 +++++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 41 insertions(+), 10 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index 32b2c16..cbfa6dc 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -2514,6 +2514,36 @@ fn negate_interval_field(field: &mut i32) -> Result<(), DateTimeError> {
     }
 }
 
+/// Adds a clock time to the fields of an interval, which may hold fractions of
+/// larger units already.
+fn decode_interval_clock(
+    field: &[u8],
+    f_mask: i32,
+    range: i32,
+    t_mask: &mut i32,
+    negative: bool,
+    tm: &mut PgTime,
+    f_sec: &mut i64,
+) -> Result<(), DateTimeError> {
+    let mut clock = PgTime::new();
+    let mut clock_f_sec = 0;
+    decode_time(
+        field,
+        f_mask,
+        range,
+        t_mask,
+        &mut clock,
+        &mut clock_f_sec,
+    )?;
+
+    let sign = if negative { -1 } else { 1 };
+    add_interval_field(&mut tm.hour, clock.hour, sign)?;
+    add_interval_field(&mut tm.min, clock.min, sign)?;
+    add_interval_field(&mut tm.sec, clock.sec, sign)?;
+    *f_sec += clock_f_sec * sign as i64;
+    Ok(())
+}
+
 fn decode_interval_number_field(
     field: &[u8],
     tm: &mut PgTime,
@@ -2773,7 +2803,7 @@ pub fn decode_interval(
         let field = fields[field_idx];
         match f_type {
             TokenField::Time => {
-                decode_time(field, f_mask, range, &mut t_mask, tm, f_sec)?;
+                decode_interval_clock(field, f_mask, range, &mut t_mask, false, tm, f_sec)?;
                 ty = TokenField::Day.value();
             }
 
@@ -2788,15 +2818,16 @@ pub fn decode_interval(
                 let find = field.iter().find(|&&i| i == b':');
                 match find {
                     Some(_) => {
-                        decode_time(&field[1..], f_mask, range, &mut t_mask, tm, f_sec)?;
-
-                        if field[0] == b'-' {
-                            // flip the sign on all fields.
-                            tm.hour = -tm.hour;
-                            tm.min = -tm.min;
-                            tm.sec = -tm.sec;
-                            *f_sec = -(*f_sec);
-                        }
+                        // Flip the sign on all fields of a negative clock time.
+                        decode_interval_clock(
+                            &field[1..],
+                            f_mask,
+                            range,
+                            &mut t_mask,
+                            field[0] == b'-',
+                            tm,
+                            f_sec,
+                        )?;
                         // Set the next type to be a day, if units are not
                         // specified. This handles the case of '1 +02:03' since we
                         // are reading right to left.
-- 
2.43.0


From 6bb6238956addb6f715e6a3bb12e74e4f53e4cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:01 +0000
Subject: [PATCH 32/44] fix: reject a text that ends in "t" after a date
 instead of panicking

The error message for a "t" with no field after it looked at the type of
the missing field: parsing "J0t" or "2020-01-01 t" as a date or timestamp
was out of bounds.
---
 src/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse.rs b/src/parse.rs
index cbfa6dc..c895330 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -1779,7 +1779,7 @@ impl DecodeDateTimeCtx {
                     return Err(DateTimeError::invalid(format!(
                         "the {:?} field's type: {:?} is unexpected",
                         field_id,
-                        ftypes[field_id + 1]
+                        ftypes.get(field_id + 1)
                     )));
                 }
                 self.p_type = TokenField::try_from(val)?;
-- 
2.43.0


From 891575e20432af468c8f987b3a58fe572d627386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:49 +0000
Subject: [PATCH 33/44] fix: report overflow instead of panicking when dates
 too far apart are subtracted

---
 src/date.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/date.rs b/src/date.rs
index 78d36f3..4a2c76f 100644
--- a/src/date.rs
+++ b/src/date.rs
@@ -163,7 +163,10 @@ impl Date {
                 self, date
             )))
         } else {
-            Ok(self.value() - date.value())
+            match self.value().checked_sub(date.value()) {
+                Some(days) => Ok(days),
+                None => Err(DateTimeError::overflow()),
+            }
         }
     }
 
-- 
2.43.0


From 15dde44ea25b416e7bd43ccef6f5794908975c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:51 +0000
Subject: [PATCH 34/44] fix: reject formatting a date outside the supported
 range instead of panicking

---
 src/date.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/date.rs b/src/date.rs
index 4a2c76f..52ae35e 100644
--- a/src/date.rs
+++ b/src/date.rs
@@ -262,6 +262,8 @@ impl Date {
     ) -> Result<String, DateTimeError> {
         if self.is_infinite() {
             format_special_date(self)
+        } else if !self.is_valid() {
+            Err(DateTimeError::overflow())
         } else {
             let mut buf = Vec::with_capacity(128);
             unsafe { buf.set_len(128) };
-- 
2.43.0


From a2c7f0f9d6113932b6d1bcaf929de5e354a34706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:53 +0000
Subject: [PATCH 35/44] fix: reject a date before the first timestamp when
 converting it to one

---
 src/timestamp.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/timestamp.rs b/src/timestamp.rs
index 35c41c5..305ad70 100644
--- a/src/timestamp.rs
+++ b/src/timestamp.rs
@@ -741,15 +741,15 @@ impl TryFrom<Date> for Timestamp {
             Ok(DATE_TIME_END_VAL)
         } else {
             // Date's range is wider than timestamp's, so check for boundaries.
-            // Since dates have the same minimum values as timestamps, only upper
-            // boundary need be checked for overflow.
             if value.value() >= TIMESTAMP_END_JULIAN - POSTGRES_EPOCH_JDATE {
                 return Err(DateTimeError::overflow());
             }
 
             // date is days since 2000, timestamp is microseconds since same.
-            let result = (value.value() as i64) * USECS_PER_DAY;
-            Ok(Timestamp::new(result))
+            match (value.value() as i64).checked_mul(USECS_PER_DAY) {
+                Some(result) if is_valid_timestamp(result) => Ok(Timestamp::new(result)),
+                _ => Err(DateTimeError::overflow()),
+            }
         }
     }
 }
-- 
2.43.0


From bac80091cf1c19ed3f2d3ef59bb626c25a05ec4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:54 +0000
Subject: [PATCH 36/44] fix: format a negative time of day instead of panicking

---
 src/common.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common.rs b/src/common.rs
index f5dc4c4..da0b6a5 100644
--- a/src/common.rs
+++ b/src/common.rs
@@ -761,7 +761,7 @@ pub fn pg_ltostr_zeropad(s: &mut [u8], value: impl Into<i64>, min_width: usize)
             let old_val = num;
             num /= 10;
             let remainder = old_val - num * 10;
-            s[start + min_width] = b'0' - remainder as u8;
+            s[start + min_width] = (b'0' as i8 - remainder as i8) as u8;
         }
     } else {
         // Build the number starting at the last digit */
-- 
2.43.0


From 9d773ecc94190a75b673f86222786ce14e59011d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:56 +0000
Subject: [PATCH 37/44] fix: report overflow for a time of day with too many
 hours instead of panicking

---
 src/time.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/time.rs b/src/time.rs
index 26c9d6e..8f01c95 100644
--- a/src/time.rs
+++ b/src/time.rs
@@ -134,7 +134,7 @@ impl Time {
         unsafe { buf.set_len(128) };
         let mut tm: PgTime = PgTime::new();
         let mut fsec = 0;
-        self.to_pgtime(&mut tm, &mut fsec);
+        self.to_pgtime(&mut tm, &mut fsec)?;
         let len = format_time(&tm, buf.as_mut_slice(), fsec, false, 0, date_style);
         unsafe {
             buf.set_len(len);
@@ -173,15 +173,19 @@ impl Time {
 
     /// Converts `Time` to `PgTime`
     #[inline]
-    pub(crate) fn to_pgtime(self, tm: &mut PgTime, fsec: &mut i64) {
+    pub(crate) fn to_pgtime(self, tm: &mut PgTime, fsec: &mut i64) -> Result<(), DateTimeError> {
         let mut time = self.value();
-        tm.hour = (time / USECS_PER_HOUR) as i32;
+        tm.hour = match i32::try_from(time / USECS_PER_HOUR) {
+            Ok(hour) => hour,
+            Err(_) => return Err(DateTimeError::overflow()),
+        };
         time -= tm.hour as i64 * USECS_PER_HOUR;
         tm.min = (time / USECS_PER_MINUTE) as i32;
         time -= tm.min as i64 * USECS_PER_MINUTE;
         tm.sec = (time / USECS_PER_SEC) as i32;
         time -= tm.sec as i64 * USECS_PER_SEC;
         *fsec = time;
+        Ok(())
     }
 }
 
@@ -282,7 +286,7 @@ impl DateTime for Time {
             FieldType::Unit => {
                 let mut tm = PgTime::new();
                 let mut fsec = 0;
-                self.to_pgtime(&mut tm, &mut fsec);
+                self.to_pgtime(&mut tm, &mut fsec)?;
                 match unit {
                     DateUnit::MicroSec => Ok(tm.sec as f64 * 1_000_000.0 + fsec as f64),
                     DateUnit::MilliSec => Ok(tm.sec as f64 * 1000.0 + fsec as f64 / 1000.0),
-- 
2.43.0


From 36d417f9cbdb2f33f952e218f9db6dbd7a5fcda9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:33 +0000
Subject: [PATCH 38/44] fix: write the unit of a single negative part of a
 verbose interval in the singular

---
 src/interval.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/interval.rs b/src/interval.rs
index cf12318..0489e5d 100644
--- a/src/interval.rs
+++ b/src/interval.rs
@@ -967,12 +967,9 @@ fn add_verbose_int_part(
     // first nonzero value sets is_before.
     if *is_zero {
         *is_before = value < 0;
-        offset += pg_ltostr(&mut s[offset..], value.abs());
-    } else if *is_before {
-        offset += pg_ltostr(&mut s[offset..], -value);
-    } else {
-        offset += pg_ltostr(&mut s[offset..], value);
-    };
+    }
+    let value = if *is_before { -value } else { value };
+    offset += pg_ltostr(&mut s[offset..], value);
     offset = set_one_byte(s, offset, b' ');
     offset = copy_slice(s, offset, units);
     if value != 1 {
-- 
2.43.0


From 86d755cd07ca90f540338cf9bd0c3bdcb5bf5904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:36 +0000
Subject: [PATCH 39/44] fix: skip only one punctuation mark at a time so that a
 sign after it counts

---
 src/parse.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index c895330..fa1bf18 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -392,9 +392,7 @@ where
                     current_str = ret_str;
                     current_buf = ret_buf;
                 } else if char.is_ascii_punctuation() {
-                    let (_field_str, s) =
-                        eat_special_chars(current_str, |i| i.is_ascii_punctuation());
-                    current_str = s;
+                    current_str = &current_str[1..];
                     continue;
                 } else {
                     return Err(DateTimeError::invalid(format!(
-- 
2.43.0


From faf62fc32969c798a57b0e0bd9dfd75067c95095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:14 +0000
Subject: [PATCH 40/44] fix: reject a time text that does not name a complete
 time of day

---
 src/parse.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/parse.rs b/src/parse.rs
index fa1bf18..e56704e 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -2435,6 +2435,15 @@ pub fn decode_time_only(
         return Err(DateTimeError::overflow());
     }
 
+    // A time needs at least its hour and its minute.
+    let hour_minute = TokenType::HOUR.mask() | TokenType::MINUTE.mask();
+    if (ctx.f_mask & hour_minute) != hour_minute {
+        return Err(DateTimeError::invalid(format!(
+            "time's field mask: {:x} is invalid",
+            ctx.f_mask
+        )));
+    }
+
     // To do for time zone
     Ok(ctx.f_sec)
 }
-- 
2.43.0


From ff1a72da85a06388a30db14bbfdeb23e3e1db002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:16 +0000
Subject: [PATCH 41/44] fix: reject a clock time alone as a date or a timestamp

---
 src/date.rs  | 6 +++++-
 src/parse.rs | 3 ++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/date.rs b/src/date.rs
index 52ae35e..6272bf1 100644
--- a/src/date.rs
+++ b/src/date.rs
@@ -211,7 +211,7 @@ impl Date {
         let field_num =
             parse_date_time(s, &mut work_buf, &mut fields, &mut f_types, MAX_DATE_FIELDS)?;
         let mut tm = PgTime::new();
-        let (_, d_type, _) = decode_date_time(
+        let (flag, d_type, _) = decode_date_time(
             &fields[0..field_num],
             &f_types[0..field_num],
             &mut tm,
@@ -219,6 +219,10 @@ impl Date {
             date_order,
         )?;
 
+        if flag != 0 {
+            return Err(DateTimeError::invalid("date is missing".to_string()));
+        }
+
         match d_type {
             TokenField::Date => {}
             //DTK_EPOCH => todo!(), // Timezone relate
diff --git a/src/parse.rs b/src/parse.rs
index e56704e..0d9715f 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -1896,7 +1896,8 @@ pub fn decode_date_time(
 
     /* do additional checking for full date specs... */
     if ctx.d_type == TokenField::Date && (ctx.f_mask & DTK_DATE_M) != DTK_DATE_M {
-        if (ctx.f_mask & DTK_TIME_M) == DTK_TIME_M {
+        // Only "allballs" may stand without a date.
+        if ctx.f_mask == (DTK_TIME_M | TokenType::TZ.mask()) {
             return Ok((1, ctx.d_type, ctx.f_sec));
         }
         return Err(DateTimeError::invalid(format!(
-- 
2.43.0


From 9954a482386b02b392821ab5cdee482f8694f316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:18 +0000
Subject: [PATCH 42/44] fix: reject a date or a time beside infinity

---
 src/parse.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/parse.rs b/src/parse.rs
index 0d9715f..6eeb284 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -1878,6 +1878,14 @@ pub fn decode_date_time(
         ctx.f_mask |= ctx.t_mask;
     }
 
+    // A special value stands alone.
+    if (ctx.f_mask & TokenType::RESERV.mask()) != 0 && ctx.f_mask != TokenType::RESERV.mask() {
+        return Err(DateTimeError::invalid(format!(
+            "field mask: {:x} is invalid beside a special value",
+            ctx.f_mask
+        )));
+    }
+
     // do final checking/adjustment of Y/M/D fields.
     tm.validate_date(ctx.f_mask, ctx.is_julian, ctx.is2digits, ctx.bc)?;
     // handle AM/PM.
-- 
2.43.0


From 479c1e9dae6a8c7a8ee602d93264e0d0d63c498f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:22 +0000
Subject: [PATCH 43/44] fix: reject a label without a value at the end of a
 date or time text

---
 src/parse.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/parse.rs b/src/parse.rs
index 6eeb284..a5195cf 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -1878,6 +1878,14 @@ pub fn decode_date_time(
         ctx.f_mask |= ctx.t_mask;
     }
 
+    // A label needs a value.
+    if ctx.p_type != TokenField::Number {
+        return Err(DateTimeError::invalid(format!(
+            "nothing follows prefix type: {:?}",
+            ctx.p_type
+        )));
+    }
+
     // A special value stands alone.
     if (ctx.f_mask & TokenType::RESERV.mask()) != 0 && ctx.f_mask != TokenType::RESERV.mask() {
         return Err(DateTimeError::invalid(format!(
@@ -2390,6 +2398,17 @@ pub fn decode_time_only(
                 ctx.decode_date_token(i, f_types, field, tm, tz, date_order)?;
             }
             TokenField::Time => {
+                // This might be an ISO time following a "t" field.
+                if ctx.p_type != TokenField::Number {
+                    if ctx.p_type != TokenField::Time {
+                        return Err(DateTimeError::invalid(format!(
+                            "prefix type: {:?} is not time",
+                            ctx.p_type
+                        )));
+                    }
+                    ctx.p_type = TokenField::Number;
+                }
+
                 decode_time(
                     field,
                     ctx.f_mask | DTK_DATE_M,
@@ -2446,7 +2465,7 @@ pub fn decode_time_only(
 
     // A time needs at least its hour and its minute.
     let hour_minute = TokenType::HOUR.mask() | TokenType::MINUTE.mask();
-    if (ctx.f_mask & hour_minute) != hour_minute {
+    if ctx.p_type != TokenField::Number || (ctx.f_mask & hour_minute) != hour_minute {
         return Err(DateTimeError::invalid(format!(
             "time's field mask: {:x} is invalid",
             ctx.f_mask
-- 
2.43.0


From 10cb24f6072ce1d4eea630a0f9c599b96c6952c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:18:45 +0000
Subject: [PATCH 44/44] fix: reject a label directly followed by another label

---
 src/parse.rs | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/src/parse.rs b/src/parse.rs
index a5195cf..9a2255e 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -1749,6 +1749,13 @@ impl DecodeDateTimeCtx {
             }
             TokenType::UNITS => {
                 self.t_mask = 0;
+                // The label before this one still lacks its value.
+                if self.p_type != TokenField::Number {
+                    return Err(DateTimeError::invalid(format!(
+                        "nothing follows prefix type: {:?}",
+                        self.p_type
+                    )));
+                }
                 self.p_type = TokenField::try_from(val)?;
             }
 
@@ -1780,6 +1787,13 @@ impl DecodeDateTimeCtx {
                         ftypes.get(field_id + 1)
                     )));
                 }
+                // The label before this one still lacks its value.
+                if self.p_type != TokenField::Number {
+                    return Err(DateTimeError::invalid(format!(
+                        "nothing follows prefix type: {:?}",
+                        self.p_type
+                    )));
+                }
                 self.p_type = TokenField::try_from(val)?;
             }
 
@@ -2334,6 +2348,13 @@ impl DecodeTimeOnlyCtx {
             }
             TokenType::UNITS => {
                 self.t_mask = 0;
+                // The label before this one still lacks its value.
+                if self.p_type != TokenField::Number {
+                    return Err(DateTimeError::invalid(format!(
+                        "nothing follows prefix type: {:?}",
+                        self.p_type
+                    )));
+                }
                 self.p_type = TokenField::try_from(val)?;
             }
 
@@ -2354,6 +2375,13 @@ impl DecodeTimeOnlyCtx {
                         field_id, f_types[field_id]
                     )));
                 }
+                // The label before this one still lacks its value.
+                if self.p_type != TokenField::Number {
+                    return Err(DateTimeError::invalid(format!(
+                        "nothing follows prefix type: {:?}",
+                        self.p_type
+                    )));
+                }
                 self.p_type = TokenField::try_from(val)?;
             }
 
-- 
2.43.0

