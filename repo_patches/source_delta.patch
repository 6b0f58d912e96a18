From 70ca3b06817ef95c4976a08cef7a71e765db0cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:37 +0000
Subject: [PATCH 01/47] fix: Calendar::adjust Nearest returned the holiday when
 exactly one side is a business day

---
 src/time/calendars.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/time/calendars.rs b/src/time/calendars.rs
index 9c81ad8..ce0bd3c 100644
--- a/src/time/calendars.rs
+++ b/src/time/calendars.rs
@@ -247,9 +247,9 @@ pub trait Calendar: Debug {
                 d2 -= ONE_DAY;
             }
             return if self.is_holiday(d1) {
-                Some(d1)
-            } else {
                 Some(d2)
+            } else {
+                Some(d1)
             };
         } else {
             return None;
-- 
2.43.0


From ee5037154203fc45ea79d57c5c4300c12726811d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:07 +0000
Subject: [PATCH 02/47] fix: business_days_between excluded the first day when
 asked to include it, and never ended when both dates were equal

---
 src/time/calendars.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/time/calendars.rs b/src/time/calendars.rs
index ce0bd3c..0aafdc0 100644
--- a/src/time/calendars.rs
+++ b/src/time/calendars.rs
@@ -1,4 +1,4 @@
-use chrono::{Datelike, Duration, NaiveDate, Weekday};
+use chrono::{Datelike, NaiveDate, Weekday};
 use std::cmp::Ordering;
 use std::fmt::Debug;
 
@@ -322,16 +322,12 @@ pub trait Calendar: Debug {
         let include_first = include_first.unwrap_or(true);
         let include_last = include_last.unwrap_or(false);
         let mut day_count = 0;
-        let day_diff = ((to + Duration::try_days(if include_last { 1 } else { 0 }).unwrap())
-            - (from + Duration::try_days(if include_first { 1 } else { 0 }).unwrap()))
-        .num_days();
-        for date in (from + Duration::try_days(if include_first { 1 } else { 0 }).unwrap())
-            .iter_days()
-            .take(day_diff as usize)
-        {
+        let mut date = if include_first { from } else { from + ONE_DAY };
+        while date < to || (include_last && date == to) {
             if self.is_business_day(date) {
                 day_count += 1;
             }
+            date += ONE_DAY;
         }
         day_count
     }
-- 
2.43.0


From e2eb0a88a27e1e58ef6264edf88f1fd79b2fa5cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:07 +0000
Subject: [PATCH 03/47] fix: Calendar::advance with end_of_month moved every
 date, not only month ends, to a month end

---
 src/time/calendars.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/time/calendars.rs b/src/time/calendars.rs
index 0aafdc0..112cb3d 100644
--- a/src/time/calendars.rs
+++ b/src/time/calendars.rs
@@ -269,8 +269,15 @@ pub trait Calendar: Debug {
         match period {
             Period::Months(_) | Period::Years(_) => {
                 let advance_date = (date + period)?;
-                Ok(if end_of_month {
-                    Some(self.end_of_month(self.adjust(advance_date, bdc).unwrap()))
+                // A date at its month's end stays at the month's end.
+                Ok(if end_of_month && bdc == BusinessDayConvention::Unadjusted {
+                    if date == self.last_day_of_month(date) {
+                        Some(self.last_day_of_month(advance_date))
+                    } else {
+                        Some(advance_date)
+                    }
+                } else if end_of_month && date >= self.end_of_month(date) {
+                    Some(self.end_of_month(advance_date))
                 } else {
                     self.adjust(advance_date, bdc)
                 })
-- 
2.43.0


From 31bbc4b547153045dfd5a34dce91742b4bcf51f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:07 +0000
Subject: [PATCH 04/47] fix: Actual/365 (NoLeap) counted ten days too many up
 to a date in December

---
 src/time/daycounters/actual365fixed.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/time/daycounters/actual365fixed.rs b/src/time/daycounters/actual365fixed.rs
index 19057c6..e9896e8 100644
--- a/src/time/daycounters/actual365fixed.rs
+++ b/src/time/daycounters/actual365fixed.rs
@@ -21,7 +21,7 @@ impl Actual365Fixed {
     }
 
     fn nl_day_count(&self, d1: NaiveDate, d2: NaiveDate) -> i64 {
-        const MONTH_OFFSET: [i64; 12] = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 344];
+        const MONTH_OFFSET: [i64; 12] = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334];
         let mut s1 =
             d1.day() as i64 + MONTH_OFFSET[d1.month() as usize - 1usize] + (d1.year() as i64 * 365);
         let mut s2 =
-- 
2.43.0


From 9d7dfd780b014284850af6895e24495783d0fa9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:07 +0000
Subject: [PATCH 05/47] fix: Actual/Actual year fractions (ISDA and Euro) had
 the sign of their partial years reversed

---
 src/time/daycounters/actualactual.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/time/daycounters/actualactual.rs b/src/time/daycounters/actualactual.rs
index c7ab213..139ceb6 100644
--- a/src/time/daycounters/actualactual.rs
+++ b/src/time/daycounters/actualactual.rs
@@ -19,14 +19,16 @@ impl ActualActual {
     fn isda_year_fraction(&self, d1: NaiveDate, d2: NaiveDate) -> f64 {
         if d1 == d2 {
             0f64
+        } else if d1 > d2 {
+            -self.isda_year_fraction(d2, d1)
         } else {
             let y1 = d1.year();
             let y2 = d2.year();
             let dib1 = if d1.leap_year() { 366f64 } else { 365f64 };
             let dib2 = if d2.leap_year() { 366f64 } else { 365f64 };
             let mut sum: f64 = (y2 - y1) as f64 - 1.0;
-            sum += (d1 - NaiveDate::from_ymd_opt(y1 + 1, 1, 1).unwrap()).num_days() as f64 / dib1;
-            sum += (NaiveDate::from_ymd_opt(y2, 1, 1).unwrap() - d2).num_days() as f64 / dib2;
+            sum += (NaiveDate::from_ymd_opt(y1 + 1, 1, 1).unwrap() - d1).num_days() as f64 / dib1;
+            sum += (d2 - NaiveDate::from_ymd_opt(y2, 1, 1).unwrap()).num_days() as f64 / dib2;
             sum
         }
     }
@@ -34,6 +36,8 @@ impl ActualActual {
     fn euro_year_fraction(&self, d1: NaiveDate, d2: NaiveDate) -> f64 {
         if d1 == d2 {
             0f64
+        } else if d1 > d2 {
+            -self.euro_year_fraction(d2, d1)
         } else {
             let mut new_d2 = d2;
             let mut temp = d2;
@@ -60,7 +64,7 @@ impl ActualActual {
                     den += 1.0;
                 }
             }
-            sum + (d1 - new_d2).num_days() as f64 / den
+            sum + (new_d2 - d1).num_days() as f64 / den
         }
     }
 }
-- 
2.43.0


From a4b6bc1fc5ee2d2185586f697acc436dbba30807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:07 +0000
Subject: [PATCH 06/47] fix: Business/252 counted every whole month up to the
 end date instead of to the next month

---
 src/time/daycounters/business252.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/time/daycounters/business252.rs b/src/time/daycounters/business252.rs
index c6becb3..8154eef 100644
--- a/src/time/daycounters/business252.rs
+++ b/src/time/daycounters/business252.rs
@@ -27,8 +27,11 @@ impl DayCounters for Business252 {
             let mut d = (NaiveDate::from_ymd_opt(d1.year(), d1.month(), 1).unwrap() + Months(1))?;
             total += self.calendar.business_days_between(d1, d, None, None);
             while !self.same_month(d, d2) {
-                total += self.calendar.business_days_between(d, d2, None, None);
-                d = (d + Months(1))?;
+                let next_month = (d + Months(1))?;
+                total += self
+                    .calendar
+                    .business_days_between(d, next_month, None, None);
+                d = next_month;
             }
             total += self.calendar.business_days_between(d, d2, None, None);
             Ok(total)
-- 
2.43.0


From bc80bd3793afa993f9ff282f7d2ec2a5fb6e5721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:07 +0000
Subject: [PATCH 07/47] fix: IMM::next_date recursed forever or underflowed
 after the 21st and for the main cycle

---
 src/time/imm.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/time/imm.rs b/src/time/imm.rs
index 51a8856..9806df0 100644
--- a/src/time/imm.rs
+++ b/src/time/imm.rs
@@ -132,8 +132,10 @@ impl IMM {
         if skip_months != offset || date.day() > 21 {
             skip_months += date.month();
             if skip_months > 12 {
-                month -= 12;
+                month = skip_months - 12;
                 year += 1;
+            } else {
+                month = skip_months;
             }
         }
         let mut result = self.nth_weekday(3, Weekday::Wed, month, year).unwrap();
-- 
2.43.0


From f851d548c81752545181dcdc867613d192c9f34a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:08 +0000
Subject: [PATCH 08/47] fix: IMM::is_imm_code panicked on a two-byte character
 and IMM::date on a lower-case code

---
 src/time/imm.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/time/imm.rs b/src/time/imm.rs
index 9806df0..9b3b8fb 100644
--- a/src/time/imm.rs
+++ b/src/time/imm.rs
@@ -50,7 +50,7 @@ impl IMM {
 
     /// IMM Codes are constructed by IMMMonth + year.
     pub fn is_imm_code(&self, imm_code: String, main_cycle: bool) -> bool {
-        if imm_code.len() != 2 {
+        if imm_code.chars().count() != 2 {
             return false;
         }
 
@@ -102,7 +102,7 @@ impl IMM {
             None
         } else {
             let ref_date = ref_date.unwrap_or(chrono::offset::Utc::now().date_naive());
-            let month = imm_code.chars().nth(0).unwrap();
+            let month = imm_code.chars().nth(0).unwrap().to_ascii_uppercase();
             let mut year = imm_code.chars().nth(1).unwrap().to_digit(10).unwrap() as i32;
             let imm_month = IMMMonth::from_str(&month.to_string()).unwrap() as u32;
             if year == 0 && ref_date.year() <= 1909 {
-- 
2.43.0


From 73a5246fc6fd6812a0f43305e8943c93ebc78fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:08 +0000
Subject: [PATCH 09/47] fix: Ukraine's Orthodox Easter and Trinity holidays
 used the Western Easter date

---
 src/time/calendars/ukraine.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/time/calendars/ukraine.rs b/src/time/calendars/ukraine.rs
index 789e73a..03745ab 100644
--- a/src/time/calendars/ukraine.rs
+++ b/src/time/calendars/ukraine.rs
@@ -12,7 +12,7 @@ pub struct Ukraine;
 impl Calendar for Ukraine {
     fn is_business_day(&self, date: NaiveDate) -> bool {
         let (d, w, m, y, dd) = self.naive_date_to_dkmy(date);
-        let em = self.easter_monday(y);
+        let em = self.orthodox_easter_monday(y);
         if self.is_weekend(date)
             // New Year's Day (possibly moved to Weekday::Mon)
             || ((d == 1 || ((d == 2 || d == 3) && w == Weekday::Mon))
-- 
2.43.0


From a9204f1adc01e5bff767cea3a7a8e193a216c159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:07 +0000
Subject: [PATCH 10/47] fix: Japan's equinox holidays were only listed for
 2014-2028 (and not 22 September 2016)

---
 src/time/calendars/japan.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/time/calendars/japan.rs b/src/time/calendars/japan.rs
index 0e3e8f5..e09bfde 100644
--- a/src/time/calendars/japan.rs
+++ b/src/time/calendars/japan.rs
@@ -9,17 +9,17 @@ use serde::{Deserialize, Serialize};
 pub struct Japan;
 
 impl Japan {
+    // Day of the month of the equinox that fell at `exact_time` in 2000.
+    fn equinox_day(&self, exact_time: f64, y: i32) -> u32 {
+        let years = y - 2000;
+        let leap_years = years.div_euclid(4) - years.div_euclid(100) + years.div_euclid(400);
+        (exact_time + years as f64 * 0.242194 - leap_years as f64) as u32
+    }
     fn vernal_equinox_day(&self, y: i32) -> u32 {
-        match y {
-            2014 | 2015 | 2018 | 2019 | 2022 | 2023 | 2027 => 21,
-            _ => 20,
-        }
+        self.equinox_day(20.69115, y)
     }
     fn autumnal_equinox_day(&self, y: i32) -> u32 {
-        match y {
-            2020 | 2024 | 2028 => 22,
-            _ => 23,
-        }
+        self.equinox_day(23.09, y)
     }
 }
 
-- 
2.43.0


From 733d34e8b47e5f41062cc692f59fa57e609d668e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:07 +0000
Subject: [PATCH 11/47] fix: the NYSE calendar was open on 2025-01-09, the
 national day of mourning for President Carter

---
 src/time/calendars/unitedstates.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/time/calendars/unitedstates.rs b/src/time/calendars/unitedstates.rs
index 79223ee..def3ae7 100644
--- a/src/time/calendars/unitedstates.rs
+++ b/src/time/calendars/unitedstates.rs
@@ -154,8 +154,10 @@ impl UnitedStates {
 
         // Special closings
         if
-        // President Bush's Funeral
-        (y == 2018 && m == 12 && d == 5)
+        // President Carter's Funeral
+        (y == 2025 && m == 1 && d == 9)
+                // President Bush's Funeral
+                || (y == 2018 && m == 12 && d == 5)
                 // Hurricane Sandy
                 || (y == 2012 && m == 10 && (d == 29 || d == 30))
                 // President Ford's funeral
-- 
2.43.0


From c30456498ccca2c4b41c6e5507b9209a0af69e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:07 +0000
Subject: [PATCH 12/47] fix: the Federal Reserve calendar moved a Saturday
 Juneteenth to Friday, which the Fed does not

---
 src/time/calendars/unitedstates.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/time/calendars/unitedstates.rs b/src/time/calendars/unitedstates.rs
index def3ae7..9bee8a3 100644
--- a/src/time/calendars/unitedstates.rs
+++ b/src/time/calendars/unitedstates.rs
@@ -311,8 +311,8 @@ impl UnitedStates {
             || self.is_washington_birthday(date)
             // Memorial Day (last Monday in May)
             || self.is_memorial_day(date)
-            // Juneteenth (Monday if Sunday or Friday if Saturday)
-            || self.is_juneteenth(date)
+            // Juneteenth (Monday if Sunday)
+            || ((d == 19 || (d == 20 && w == Weekday::Mon)) && m == 6 && y >= 2022)
             // Independence Day (Monday if Sunday)
             || ((d == 4 || (d == 5 && w == Weekday::Mon)) && m == 7)
             // Labor Day (first Monday in September)
-- 
2.43.0


From 4526e08a2724a40070303968e6da4acb1aacea38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:53 +0000
Subject: [PATCH 13/47] fix: Israel's 2001 Rosh Hashanah was listed a day early
 (17 instead of 18 September)

---
 src/time/calendars/israel.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/time/calendars/israel.rs b/src/time/calendars/israel.rs
index ba4e307..142a9a6 100644
--- a/src/time/calendars/israel.rs
+++ b/src/time/calendars/israel.rs
@@ -394,7 +394,7 @@ pub static FAST_DAY: Lazy<HashSet<(u32, u32, i32)>> = Lazy::new(|| {
 pub static NEW_YEAR: Lazy<HashSet<(u32, u32, i32)>> = Lazy::new(|| {
     HashSet::from([
         (30, 9, 2000),
-        (17, 9, 2001),
+        (18, 9, 2001),
         (7, 9, 2002),
         (27, 9, 2003),
         (16, 9, 2004),
-- 
2.43.0


From 2f7b7b39bf9fa47704780a77e2732a5911ef8018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:53 +0000
Subject: [PATCH 14/47] fix: Israel's 2038 Independence Day was not moved from
 Monday to Tuesday like every other year's

---
 src/time/calendars/israel.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/time/calendars/israel.rs b/src/time/calendars/israel.rs
index 142a9a6..42ca363 100644
--- a/src/time/calendars/israel.rs
+++ b/src/time/calendars/israel.rs
@@ -263,7 +263,7 @@ pub static INDEPENDENCE_DAY: Lazy<HashSet<(u32, u32, i32)>> = Lazy::new(|| {
         (15, 5, 2035),
         (1, 5, 2036),
         (21, 4, 2037),
-        (10, 5, 2038),
+        (11, 5, 2038),
         (28, 4, 2039),
         (18, 4, 2040),
         (7, 5, 2041),
-- 
2.43.0


From df25ac797af8aaa923638858b28c82f4b84a1c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:21 +0000
Subject: [PATCH 15/47] fix: Singapore's 2010 Chinese New Year was listed in
 January instead of February

---
 src/time/calendars/singapore.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/time/calendars/singapore.rs b/src/time/calendars/singapore.rs
index 0987325..c885a61 100644
--- a/src/time/calendars/singapore.rs
+++ b/src/time/calendars/singapore.rs
@@ -32,7 +32,7 @@ impl Calendar for Singapore {
             || ((d == 19 || d == 20) && m == 2 && y == 2007)
             || ((d == 7 || d == 8) && m == 2 && y == 2008)
             || ((d == 26 || d == 27) && m == 1 && y == 2009)
-            || ((d == 15 || d == 16) && m == 1 && y == 2010)
+            || ((d == 15 || d == 16) && m == 2 && y == 2010)
             || ((d == 23 || d == 24) && m == 1 && y == 2012)
             || ((d == 11 || d == 12) && m == 2 && y == 2013)
             || (d == 31 && m == 1 && y == 2014)
-- 
2.43.0


From 104af9ffe2cc2701294ddfbd7d27a81d24b2d407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:21 +0000
Subject: [PATCH 16/47] fix: Taiwan's 2010 Lunar New Year and Dragon Boat
 Festival were listed a month early

---
 src/time/calendars/taiwan.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/time/calendars/taiwan.rs b/src/time/calendars/taiwan.rs
index c938ffb..7180847 100644
--- a/src/time/calendars/taiwan.rs
+++ b/src/time/calendars/taiwan.rs
@@ -107,11 +107,11 @@ impl Calendar for Taiwan {
             return false;
         }
         // Year 2010
-        // Lunar New Year 01-13 to 01-21
-        // Dragon Boat Festival 05-16
+        // Lunar New Year 02-13 to 02-21
+        // Dragon Boat Festival 06-16
         // Moon Festival 09-22
         if (y == 2010)
-            && (((13..=21).contains(&d) && m == 1) || (d == 16 && m == 5) || (d == 22 && m == 9))
+            && (((13..=21).contains(&d) && m == 2) || (d == 16 && m == 6) || (d == 22 && m == 9))
         {
             return false;
         }
-- 
2.43.0


From dcdfb6f689324eb98b21a964ba55d76fbeaa4806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:03 +0000
Subject: [PATCH 17/47] fix: YieldTermStructure read the first pillar's rate
 (or extrapolated from it) at and beyond the last pillar

---
 src/markets/termstructures/yieldcurve.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/markets/termstructures/yieldcurve.rs b/src/markets/termstructures/yieldcurve.rs
index 4646b6a..e952f3b 100644
--- a/src/markets/termstructures/yieldcurve.rs
+++ b/src/markets/termstructures/yieldcurve.rs
@@ -234,7 +234,10 @@ impl YieldTermStructure {
                 break;
             }
         }
-        if second == true_first {
+        if second.date < target_date {
+            // Beyond the last pillar its rate is kept.
+            first.zero_rate
+        } else if second == true_first {
             true_first.zero_rate
         } else {
             let d1 = (target_date - first.date).num_days() as f64;
-- 
2.43.0


From 376e84a9965c7c4f91628e73e0abd483b8721b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:03 +0000
Subject: [PATCH 18/47] fix: YieldTermStructure interpolated from a hidden
 pillar

---
 src/markets/termstructures/yieldcurve.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/markets/termstructures/yieldcurve.rs b/src/markets/termstructures/yieldcurve.rs
index e952f3b..3603ac3 100644
--- a/src/markets/termstructures/yieldcurve.rs
+++ b/src/markets/termstructures/yieldcurve.rs
@@ -226,7 +226,9 @@ impl YieldTermStructure {
                 second = strip_curve;
                 break;
             }
-            first = strip_curve;
+            if !strip_curve.hidden_pillar {
+                first = strip_curve;
+            }
         }
         for strip_curve in &self.stripped_curves {
             if !strip_curve.hidden_pillar {
-- 
2.43.0


From 9c8c240b98af97cacb4af3d57d52e71c94c8faca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:03 +0000
Subject: [PATCH 19/47] fix: get_stripped_curve listed cash quotes of equal
 maturity once per quote each

---
 src/markets/termstructures/yieldcurve.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/markets/termstructures/yieldcurve.rs b/src/markets/termstructures/yieldcurve.rs
index 3603ac3..e2f3fac 100644
--- a/src/markets/termstructures/yieldcurve.rs
+++ b/src/markets/termstructures/yieldcurve.rs
@@ -124,6 +124,7 @@ impl YieldTermMarketData {
             cash_quote_maturity.push(cash.maturity_date(self.valuation_date).unwrap());
         }
         cash_quote_maturity.sort();
+        cash_quote_maturity.dedup();
 
         for maturity in cash_quote_maturity {
             for cash in &self.cash_quote {
-- 
2.43.0


From 0664c44d05909b663d0d0e7a98276f8529394ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:03 +0000
Subject: [PATCH 20/47] fix: get_stripped_curve left the discount of swap
 pillars at zero

---
 src/markets/termstructures/yieldcurve.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/markets/termstructures/yieldcurve.rs b/src/markets/termstructures/yieldcurve.rs
index e2f3fac..6d25343 100644
--- a/src/markets/termstructures/yieldcurve.rs
+++ b/src/markets/termstructures/yieldcurve.rs
@@ -165,7 +165,11 @@ impl YieldTermMarketData {
                 source: swap.yts_type(),
             });
             let zero_rate = swap.solve_zero_rate(self.valuation_date, outputs.clone());
-            outputs.last_mut().unwrap().zero_rate = zero_rate;
+            let pillar = outputs.last_mut().unwrap();
+            pillar.zero_rate = zero_rate;
+            pillar.discount = (-zero_rate
+                * Actual365Fixed::default().year_fraction(self.valuation_date, pillar.date)?)
+            .exp();
         }
         Ok(outputs)
     }
-- 
2.43.0


From 351a198c0ab41484277d59e86c0ad9ccd6181f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:42 +0000
Subject: [PATCH 21/47] fix: a futures quote settling after every pillar was
 stripped from the first pillar instead of the last

---
 src/markets/termstructures/yieldcurve.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/markets/termstructures/yieldcurve.rs b/src/markets/termstructures/yieldcurve.rs
index 6d25343..20c9905 100644
--- a/src/markets/termstructures/yieldcurve.rs
+++ b/src/markets/termstructures/yieldcurve.rs
@@ -62,6 +62,10 @@ pub trait InterestRateQuote {
             }
             first = stripped_curve;
         }
+        if second.date < target_date {
+            // Every pillar lies before the target: the last one is closest.
+            return first;
+        }
         if second == stripped_curves.first().unwrap() {
             first = stripped_curves.first().unwrap();
         }
-- 
2.43.0


From 07eecb880ed2a32a6b64cbaf80e7f9abccbe463e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:42 +0000
Subject: [PATCH 22/47] fix: generate_schedule divided duration by tenor
 without regard to their units (5 years by 6 months gave no period)

---
 src/derivatives/interestrate/swap.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/derivatives/interestrate/swap.rs b/src/derivatives/interestrate/swap.rs
index e258896..f730ad2 100644
--- a/src/derivatives/interestrate/swap.rs
+++ b/src/derivatives/interestrate/swap.rs
@@ -140,7 +140,15 @@ impl InterestRateSwapLeg {
             };
 
             // TODO: need to consider if duration_num.rem_euclid(tenor_num) != 0;
-            let num = duration_num.div_euclid(tenor_num);
+            // Both in the same unit: months, or days.
+            let unit = |period: Period, other: Period| match (period, other) {
+                (Period::Years(_), Period::Months(_)) => 12,
+                (Period::Weeks(_), Period::Days(_)) => 7,
+                _ => 1,
+            };
+            let (tenor, duration) = (self.schedule_detail.tenor, self.schedule_detail.duration);
+            let num = (duration_num * unit(duration, tenor))
+                .div_euclid(tenor_num * unit(tenor, duration));
 
             let mut schedule = Vec::new();
             let mut start_date = effective_date;
-- 
2.43.0


From 648deaa9fcf8a20208f76cb90f6b76308003e245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:53 +0000
Subject: [PATCH 23/47] fix: delta and gamma of an FX option on a domestic
 notional were not converted to the base currency

---
 src/derivatives/forex/option.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/derivatives/forex/option.rs b/src/derivatives/forex/option.rs
index c1f96a5..93095fc 100644
--- a/src/derivatives/forex/option.rs
+++ b/src/derivatives/forex/option.rs
@@ -141,6 +141,16 @@ impl FXVanillaOption {
     fn direction_sign(&self) -> f64 {
         self.basic_info.direction as i8 as f64
     }
+
+    /// Notional in the foreign (base) currency; a domestic one converts at
+    /// the strike, as in `mtm` and `vega`.
+    fn base_notional(&self) -> f64 {
+        if self.notional_currency == self.asset.frn_currency() {
+            self.notional_amounts
+        } else {
+            self.notional_amounts / self.strike
+        }
+    }
 }
 
 impl FXDerivatives for FXVanillaOption {
@@ -185,7 +195,7 @@ impl FXDerivatives for FXVanillaOption {
         let ctx = self.bs_context(market)?;
         let omega = self.option_type.omega();
         let fwd_delta_per_unit = omega * cdf(omega * ctx.d1);
-        let delta = self.notional_amounts * self.direction_sign() * fwd_delta_per_unit;
+        let delta = self.base_notional() * self.direction_sign() * fwd_delta_per_unit;
         Ok(CurrencyValue {
             currency: self.asset.frn_currency(),
             value: delta,
@@ -200,7 +210,7 @@ impl FXDerivatives for FXVanillaOption {
             return Ok(0.0);
         }
         let gamma_per_unit = ctx.discount * pdf(ctx.d1) / (ctx.forward * ctx.sqrt_v);
-        Ok(self.notional_amounts * self.direction_sign() * gamma_per_unit)
+        Ok(self.base_notional() * self.direction_sign() * gamma_per_unit)
     }
 
     /// Black-Scholes vega per **1 % change** in volatility, converted to the
-- 
2.43.0


From ed60f83bcbf15455d782ec7c0ceea92513c0778d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:53 +0000
Subject: [PATCH 24/47] fix: AONIA used Austria's calendar instead of
 Australia's, CDOR the US dollar and calendar instead of Canada's

---
 src/markets/interestrate/interestrateindex.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/markets/interestrate/interestrateindex.rs b/src/markets/interestrate/interestrateindex.rs
index e0f24be..e61c909 100644
--- a/src/markets/interestrate/interestrateindex.rs
+++ b/src/markets/interestrate/interestrateindex.rs
@@ -1,13 +1,13 @@
 use crate::time::businessdayconvention::BusinessDayConvention;
 use crate::time::calendars::unitedkingdom::UnitedKingdomMarket;
 use crate::time::calendars::unitedstates::UnitedStatesMarket;
-use crate::time::calendars::{Austria, Calendar, Target, UnitedKingdom, UnitedStates};
+use crate::time::calendars::{Australia, Calendar, Canada, Target, UnitedKingdom, UnitedStates};
 use crate::time::daycounters::DayCounters;
 use crate::time::daycounters::actual360::Actual360;
 use crate::time::daycounters::actual365fixed::Actual365Fixed;
 use crate::time::period::Period;
 use iso_currency::Currency;
-use iso_currency::Currency::{AUD, EUR, GBP, USD};
+use iso_currency::Currency::{AUD, CAD, EUR, GBP, USD};
 use serde::{Deserialize, Serialize};
 
 #[allow(clippy::upper_case_acronyms)]
@@ -41,7 +41,7 @@ impl InterestRateIndex {
                 period: Period::SPOT,
                 settlement_days: 0,
                 currency: AUD,
-                calendar: Box::<Austria>::default(),
+                calendar: Box::<Australia>::default(),
                 convention: BusinessDayConvention::ModifiedFollowing,
                 day_counter: Box::<Actual365Fixed>::default(),
                 end_of_month: false,
@@ -49,10 +49,8 @@ impl InterestRateIndex {
             InterestRateIndexEnum::CDOR(period) => Some(InterestRateIndex {
                 period,
                 settlement_days: 0,
-                currency: USD,
-                calendar: Box::new(UnitedStates {
-                    market: Some(UnitedStatesMarket::SOFR),
-                }),
+                currency: CAD,
+                calendar: Box::<Canada>::default(),
                 convention: BusinessDayConvention::ModifiedFollowing,
                 day_counter: Box::new(Actual360),
                 end_of_month: false,
-- 
2.43.0


From 3f2e301d7a2b45703ff3c28f3f8a3230b9cc1f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:54 +0000
Subject: [PATCH 25/47] fix: FxMarketContext::forward_at returned the forward
 points instead of spot plus points

---
 src/markets/forex/market_context.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/markets/forex/market_context.rs b/src/markets/forex/market_context.rs
index 6e2f5c2..04d8a47 100644
--- a/src/markets/forex/market_context.rs
+++ b/src/markets/forex/market_context.rs
@@ -41,6 +41,7 @@
 //!      └─ Simulator::from_market(&ctx)                       ← MC paths
 //! ```
 
+use crate::derivatives::forex::basic::FXUnderlying;
 use crate::error::{Error, Result};
 use crate::markets::forex::quotes::forwardpoints::{FXForwardHelper, FXForwardQuote};
 use crate::markets::forex::quotes::volsurface::{FXDeltaVolPillar, FXVolQuote, FXVolSurface};
@@ -51,6 +52,7 @@ use crate::time::calendars::Calendar;
 use crate::time::daycounters::DayCounters;
 use chrono::{Duration, NaiveDate};
 use iso_currency::Currency;
+use std::str::FromStr;
 
 /// Bundled FX market data for a single pair / valuation date.
 ///
@@ -158,12 +160,19 @@ impl FxMarketContext {
     /// settlement calendar for the pair (typically the joint
     /// domestic/foreign calendar).
     pub fn forward_at(&self, date: NaiveDate, calendar: &dyn Calendar) -> Result<f64> {
-        self.forwards.get_forward(date, calendar)?.ok_or_else(|| {
+        let forward_points = self.forwards.get_forward(date, calendar)?.ok_or_else(|| {
             Error::InvalidData(format!(
                 "FxMarketContext.forward_at({}): outside forward range ({} → ...)",
                 date, self.valuation_date,
             ))
-        })
+        })?;
+        // Points are quoted as raw pips; JPY crosses use a 100 divisor.
+        let converter = match underlying(self.pair) {
+            Some(asset) => asset.forward_points_converter(),
+            None if self.pair.0 == Currency::JPY => 100f64,
+            None => 10000f64,
+        };
+        Ok(self.spot + forward_points / converter)
     }
 
     /// Domestic zero rate via step-function-forward interpolation.
@@ -229,6 +238,11 @@ impl FxMarketContext {
     }
 }
 
+/// The pair's conventions, when it is a supported one.
+fn underlying((domestic, foreign): (Currency, Currency)) -> Option<FXUnderlying> {
+    FXUnderlying::from_str(&format!("{}{}", foreign.code(), domestic.code())).ok()
+}
+
 /// One-pillar flat-10%-vol surface — shared helper used by the
 /// `for_linear` constructor and by tests that need a placeholder
 /// surface. Includes a symmetric 25Δ put/call pair so
-- 
2.43.0


From 6fca884e21705dd216fc47d75ea4d99edb166914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:56 +0000
Subject: [PATCH 26/47] fix: FxMarketContext::from_raw_quotes gave every pair a
 two-day spot lag

---
 src/markets/forex/market_context.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/markets/forex/market_context.rs b/src/markets/forex/market_context.rs
index 04d8a47..e57d17e 100644
--- a/src/markets/forex/market_context.rs
+++ b/src/markets/forex/market_context.rs
@@ -142,7 +142,10 @@ impl FxMarketContext {
             valuation_date,
             foreign_ir.get_stripped_curve()?,
         );
-        let forwards = FXForwardHelper::new(valuation_date, spot, fx_forward_quotes);
+        let forwards = match underlying(pair) {
+            Some(asset) => asset.forward_helper(valuation_date, spot, fx_forward_quotes),
+            None => FXForwardHelper::new(valuation_date, spot, fx_forward_quotes),
+        };
         let vol_surface = FXVolSurface::new(valuation_date, vol_pillars)?;
         Ok(Self::new(
             valuation_date,
-- 
2.43.0


From 89eebaa0a2e38cc7b7344e5efed7d098231b5f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:24 +0000
Subject: [PATCH 27/47] fix: a swap pillar with a negative zero rate could not
 be solved and panicked

---
 src/derivatives/interestrate/swap.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/derivatives/interestrate/swap.rs b/src/derivatives/interestrate/swap.rs
index f730ad2..78e8fca 100644
--- a/src/derivatives/interestrate/swap.rs
+++ b/src/derivatives/interestrate/swap.rs
@@ -279,7 +279,7 @@ impl InterestRateSwap {
             self.calculate_npv(x, valuation_date, &mut stripped_curves.to_vec())
                 .unwrap()
         };
-        let root = find_root_brent(0f64, 0.5f64, &mut f, &mut convergency);
+        let root = find_root_brent(-0.1f64, 0.5f64, &mut f, &mut convergency);
         root.unwrap()
     }
 
-- 
2.43.0


From ef63f53fd182a9fde98ec3b99a9f482d78e2b451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:23 +0000
Subject: [PATCH 28/47] fix: an observation date at the same time as the
 previous grid date was never captured

---
 src/models/common/simulation.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/models/common/simulation.rs b/src/models/common/simulation.rs
index 6c831db..9913f2f 100644
--- a/src/models/common/simulation.rs
+++ b/src/models/common/simulation.rs
@@ -156,11 +156,13 @@ pub fn simulate_at_dates<M: SimulationModel>(
         let mut next_obs = 0_usize;
         for i in 1..grid.len() {
             let dt = yf[i] - yf[i - 1];
-            if dt <= 0.0 {
-                continue;
+            // A day counter can put two grid dates at the same time (a
+            // weekend under Business252, the 31st under 30/360): the state
+            // does not move, but an observation there is still captured.
+            if dt > 0.0 {
+                let t_mid = 0.5 * (yf[i] + yf[i - 1]);
+                state = model.step(&state, t_mid, dt);
             }
-            let t_mid = 0.5 * (yf[i] + yf[i - 1]);
-            state = model.step(&state, t_mid, dt);
             while next_obs < obs_indices.len() && obs_indices[next_obs] == i {
                 path.push(state.clone());
                 next_obs += 1;
-- 
2.43.0


From caecc67fdb4cad042830b0005abb171d47e81c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:05 +0000
Subject: [PATCH 29/47] fix: the short-time expansion of E[sqrt(sigma)] applied
 half its variance correction

---
 src/models/common/cir.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/models/common/cir.rs b/src/models/common/cir.rs
index ab5b413..bf0c731 100644
--- a/src/models/common/cir.rs
+++ b/src/models/common/cir.rs
@@ -111,7 +111,7 @@ impl CirProcess {
         if eps > 500.0 {
             let m = self.mean(t).max(1.0e-300);
             let v = self.variance(t);
-            return (m * (1.0 - v / (8.0 * m * m))).max(0.0).sqrt();
+            return m.sqrt() * (1.0 - v / (8.0 * m * m)).max(0.0);
         }
 
         // Σ_{k≥0}  (ε/2)^k / k!  · Γ((ℓ+1)/2 + k) / Γ(ℓ/2 + k).
-- 
2.43.0


From 340b9f17f8649a128f413bbe9b8c62997eb56390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:03 +0000
Subject: [PATCH 30/47] fix: a clamped correlation was carried unclamped into
 the later pillars' schedule

---
 src/models/forex/sabr_time_dependent_calibrator.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/models/forex/sabr_time_dependent_calibrator.rs b/src/models/forex/sabr_time_dependent_calibrator.rs
index 3ea25c1..a666a2e 100644
--- a/src/models/forex/sabr_time_dependent_calibrator.rs
+++ b/src/models/forex/sabr_time_dependent_calibrator.rs
@@ -237,7 +237,6 @@ pub fn calibrate_time_dependent(
         );
         let rhs = target * gamma_tilde * t / omega_tilde;
         let rho_i = (rhs - tail_sum) / s_i;
-        tail_sum += rho_i * s_i;
 
         // Clamp into `(−1, 1)` — the calibration target is a smile
         // quantity, not a correlation, so a slight boundary violation
@@ -245,6 +244,8 @@ pub fn calibrate_time_dependent(
         // with a logged warning is benign; callers that need strict
         // bounds should add a pillar.
         let rho_i_clamped = rho_i.clamp(-0.999, 0.999);
+        // Later pillars build on the ρ the schedule actually holds.
+        tail_sum += rho_i_clamped * s_i;
         rho_values.push(rho_i_clamped);
     }
     let rho_sched = PiecewiseConstant::new(knots, rho_values);
-- 
2.43.0


From 6ed285f016ce8a39d7c3529ee5eb75bcc849e9cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:47 +0000
Subject: [PATCH 31/47] fix: FX-HHW1 took C at time to maturity but phi, B_d
 and B_f at calendar time

---
 src/models/forex/fx_hhw1_chf.rs | 35 ++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/src/models/forex/fx_hhw1_chf.rs b/src/models/forex/fx_hhw1_chf.rs
index e23d0e2..7e0f3a4 100644
--- a/src/models/forex/fx_hhw1_chf.rs
+++ b/src/models/forex/fx_hhw1_chf.rs
@@ -67,15 +67,16 @@ pub struct FxHhw1ForwardChf<'a> {
 }
 
 /// Cache of `u`-independent integrand pieces on the Simpson grid for
-/// `s ∈ {0, h, 2h, …, n·h = expiry}`.
+/// time to maturity `s ∈ {0, h, 2h, …, n·h = expiry}`, each taken at the
+/// calendar time `expiry − s`.
 #[derive(Clone, Debug)]
 struct SimpsonGrid {
     h: f64,
-    /// `φ(s_k) = E[√σ(s_k)]`.
+    /// `φ(t_k) = E[√σ(t_k)]`, `t_k = expiry − s_k`.
     phi: Vec<f64>,
-    /// `B_d(s_k, expiry)`.
+    /// `B_d(t_k, expiry)`.
     bd: Vec<f64>,
-    /// `B_f(s_k, expiry)`.
+    /// `B_f(t_k, expiry)`.
     bf: Vec<f64>,
     /// `ζ_no_phi(s_k) = ρ_df η_d η_f B_d B_f − ½(η_d² B_d² + η_f² B_f²)`
     /// (the part of `ζ(s)` that doesn't multiply `φ`).
@@ -96,10 +97,10 @@ impl SimpsonGrid {
         let eta_f = params.foreign.sigma;
         let rho = &params.correlations;
         for k in 0..=n {
-            let s = k as f64 * h;
-            let p = params.heston.sqrt_mean(s);
-            let bds = params.domestic.b(s, expiry);
-            let bfs = params.foreign.b(s, expiry);
+            let t = (n - k) as f64 * h;
+            let p = params.heston.sqrt_mean(t);
+            let bds = params.domestic.b(t, expiry);
+            let bfs = params.foreign.b(t, expiry);
             phi.push(p);
             bd.push(bds);
             bf.push(bfs);
@@ -211,9 +212,9 @@ fn c_of_tau(u: Complex64, tau: f64, params: &FxHhwParams) -> Complex64 {
 ///
 /// ```text
 ///   A'(s) = κ σ̄ · C(s)
-///         + ρ_σd · γ · η_d · φ(s) · B_d(s) · C(s) · (1 − iu)
-///         + ρ_σf · γ · η_f · φ(s) · B_f(s) · iu · C(s)
-///         + (u² + iu) · ζ(s, φ(s))
+///         + ρ_σd · γ · η_d · φ(T−s) · B_d(T−s, T) · C(s) · (1 − iu)
+///         + ρ_σf · γ · η_f · φ(T−s) · B_f(T−s, T) · iu · C(s)
+///         + (u² + iu) · ζ(T−s, φ(T−s))
 ///
 ///   ζ(s, φ) = (ρ_xd η_d B_d − ρ_xf η_f B_f) · φ
 ///            + ρ_df η_d η_f B_d B_f
@@ -281,17 +282,19 @@ fn a_of_tau_cached(u: Complex64, params: &FxHhwParams, grid: &SimpsonGrid) -> Co
     acc * (grid.h / 3.0)
 }
 
-/// `A'(s)` integrand. `s` is the running time inside the quadrature,
-/// `big_t` is the fixed expiry used in `B_d(s, T)`, `B_f(s, T)`.
+/// `A'(s)` integrand. `s` is the running time to maturity inside the
+/// quadrature — the argument of `C` — so `φ`, `B_d` and `B_f` are taken at
+/// the calendar time `T − s`, with `big_t` the fixed expiry `T`.
 fn integrand(u: Complex64, s: f64, big_t: f64, params: &FxHhwParams) -> Complex64 {
     let c = c_of_tau(u, s, params);
     let iu = Complex64::new(0.0, 1.0) * u;
     let one_minus_iu = Complex64::new(1.0, 0.0) - iu;
     let u2_plus_iu = u * u + iu;
 
-    let phi = params.heston.sqrt_mean(s);
-    let bd = params.domestic.b(s, big_t);
-    let bf = params.foreign.b(s, big_t);
+    let t = big_t - s;
+    let phi = params.heston.sqrt_mean(t);
+    let bd = params.domestic.b(t, big_t);
+    let bf = params.foreign.b(t, big_t);
     let eta_d = params.domestic.sigma;
     let eta_f = params.foreign.sigma;
     let rho = &params.correlations;
-- 
2.43.0


From 9fad409d6572cafd653f14da69cccacb31f57ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:59 +0000
Subject: [PATCH 32/47] fix: the time-dependent SABR simulator stayed on the
 first segment's alpha

---
 src/models/forex/sabr_time_dependent.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/models/forex/sabr_time_dependent.rs b/src/models/forex/sabr_time_dependent.rs
index 3d04e83..923f365 100644
--- a/src/models/forex/sabr_time_dependent.rs
+++ b/src/models/forex/sabr_time_dependent.rs
@@ -89,6 +89,12 @@ impl TimeDependentSabrParams {
     pub fn horizon(&self) -> f64 {
         self.alpha.final_time()
     }
+
+    /// `α` on the segment that ends at or contains `t`. The small offset
+    /// keeps a `t` that is a knot up to rounding on the segment before it.
+    fn alpha_until(&self, t: f64) -> f64 {
+        self.alpha.at((t - 1.0e-9).clamp(0.0, self.horizon()))
+    }
 }
 
 /// Seeded time-dependent SABR path simulator. Same scheme as
@@ -148,7 +154,9 @@ impl TimeDependentSabrSimulator {
         let dw_a = sqrt_dt * (p.rho * z1 + sqrt_one_minus_rho_sq * z2);
 
         let f = state.forward.max(0.0);
-        let alpha = state.vol.max(0.0);
+        // `state.vol = α(t)·ξ(t)` at the step's start; take the schedule's
+        // level off and put the one at the step's middle on.
+        let alpha = state.vol.max(0.0) * (p.alpha / self.params.alpha_until(t_mid - 0.5 * dt));
 
         // Full-truncation Euler on F.
         let diffusion_f = alpha * f.powf(p.beta) * dw_f;
@@ -163,7 +171,9 @@ impl TimeDependentSabrSimulator {
         // constant-param SABR when schedules are flat.
         let log_drift = -0.5 * p.nu * p.nu * dt;
         let log_diffusion = p.nu * dw_a;
-        let new_vol = alpha * (log_drift + log_diffusion).exp();
+        let new_vol = alpha
+            * (log_drift + log_diffusion).exp()
+            * (self.params.alpha_until(t_mid + 0.5 * dt) / p.alpha);
 
         (
             SabrState {
-- 
2.43.0


From 6348e26246588c250dfa30e6ad72f3b62e1f3364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:39 +0000
Subject: [PATCH 33/47] fix: the Hull-White bond log-variance had both
 exponentials' signs reversed

---
 src/models/interestrate/hull_white.rs | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/models/interestrate/hull_white.rs b/src/models/interestrate/hull_white.rs
index 42dcd6d..2c02154 100644
--- a/src/models/interestrate/hull_white.rs
+++ b/src/models/interestrate/hull_white.rs
@@ -72,20 +72,22 @@ impl HullWhite1F {
         }
         let eta = self.sigma;
         let lambda = self.mean_reversion;
-        let tau_fn = |s: f64| -> f64 {
-            // antiderivative of [(e^{-λ(T-s)} - 1)/λ]² wrt s
-            //   = (1/λ²)·[ (−1/(2λ))·e^{−2λ(T−s)} + (2/λ)·e^{−λ(T−s)} + s ] + C
-            // Apply at (s₁, s₂), take the difference.
-            if lambda.abs() < 1.0e-12 {
-                // Ho–Lee limit:  B = -(T − s)  ⇒  ∫ B² ds = (T-s)³ / 3 evaluated
-                //                                     = -((T−s₂)³ − (T−s₁)³)/3
-                return -((big_t - s).powi(3)) / 3.0;
+        // ∫_s^T [(1 − e^{−λ(T−u)})/λ]² du with x = T − s:
+        //   = (1/λ²)·[ x − (2/λ)·(1 − e^{−λx}) + (1/(2λ))·(1 − e^{−2λx}) ]
+        // The brackets cancel to O(λ²) as λ → 0, so small λx goes by the
+        // expansion, whose first term is the Ho–Lee limit x³/3.
+        let to_maturity = |s: f64| -> f64 {
+            let x = big_t - s;
+            let y = lambda * x;
+            if y.abs() < 1.0e-2 {
+                return x.powi(3)
+                    * (1.0 / 3.0 - y / 4.0 + 7.0 / 60.0 * y.powi(2) - y.powi(3) / 24.0
+                        + 31.0 / 2520.0 * y.powi(4));
             }
-            let e1 = (-lambda * (big_t - s)).exp();
-            let e2 = (-2.0 * lambda * (big_t - s)).exp();
-            (1.0 / (lambda * lambda)) * (-0.5 / lambda * e2 + 2.0 / lambda * e1 + s)
+            (x + 2.0 / lambda * (-y).exp_m1() - 0.5 / lambda * (-2.0 * y).exp_m1())
+                / (lambda * lambda)
         };
-        eta * eta * (tau_fn(s2) - tau_fn(s1))
+        eta * eta * (to_maturity(s1) - to_maturity(s2))
     }
 
     /// Discount factor under the Hull–White assumption that `ln P(t, T)`
-- 
2.43.0


From b0bb02296c3c0f505a3a1f95a90c52be8b6e20c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:45 +0000
Subject: [PATCH 34/47] fix: the FMM simulators left the first period's noise
 out on the step from T_0

---
 src/models/forex/fx_fmm_simulator.rs | 2 +-
 src/models/interestrate/fmm.rs       | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/models/forex/fx_fmm_simulator.rs b/src/models/forex/fx_fmm_simulator.rs
index 79bc89e..8dfc560 100644
--- a/src/models/forex/fx_fmm_simulator.rs
+++ b/src/models/forex/fx_fmm_simulator.rs
@@ -259,7 +259,7 @@ impl FxFmmSimulator {
             let k = eta_old;
             let tk_minus_1 = tenor.dates[k - 1];
             let tk = tenor.dates[k];
-            if t > tk_minus_1 && t < tk {
+            if t >= tk_minus_1 && t < tk {
                 let tau_k = tenor.tau(k);
                 let g_k = 1.0 / tau_k; // linear decay
                 let r_d_mid = 0.5 * (state.rates_d[k - 1] + new_rates_d[k - 1]);
diff --git a/src/models/interestrate/fmm.rs b/src/models/interestrate/fmm.rs
index 48dd7c8..6c24e96 100644
--- a/src/models/interestrate/fmm.rs
+++ b/src/models/interestrate/fmm.rs
@@ -502,14 +502,14 @@ impl FmmSimulator {
 
         // Evolve x_k(t) for the currently-active rate k = η_old via
         // paper eq. (33): dx_k = g_k(t) y_k(t) dt + (σ_k·L_k)/(R_k+1/τ_k) dW_k.
-        // Only meaningful inside the period (t_{k-1} < t < T_k). The σ·L
+        // Only meaningful inside the period (T_{k-1} ≤ t < T_k). The σ·L
         // prefactor picks up whatever vol schedule / displacement is set
         // on the model.
         if eta_old >= 1 && eta_old <= m {
             let k = eta_old;
             let tk_minus_1 = self.model.tenor.dates[k - 1];
             let tk = self.model.tenor.dates[k];
-            if t > tk_minus_1 && t < tk {
+            if t >= tk_minus_1 && t < tk {
                 let tau_k = self.model.tenor.tau(k);
                 let r_k_mid = 0.5 * (path.rates[k - 1] + new_rates[k - 1]);
                 let sig_adapt_k = self.model.adapted_vol(k, t_mid, r_k_mid);
-- 
2.43.0


From 489adaec630801d2f537ac6a0e9f405a7ddae982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:45 +0000
Subject: [PATCH 35/47] fix: the FMM simulators' period noise read its
 diffusion mid-step, adding a drift

---
 src/models/forex/fx_fmm_simulator.rs | 13 +++++--------
 src/models/interestrate/fmm.rs       |  7 ++++---
 2 files changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/models/forex/fx_fmm_simulator.rs b/src/models/forex/fx_fmm_simulator.rs
index 8dfc560..7f480ae 100644
--- a/src/models/forex/fx_fmm_simulator.rs
+++ b/src/models/forex/fx_fmm_simulator.rs
@@ -262,17 +262,14 @@ impl FxFmmSimulator {
             if t >= tk_minus_1 && t < tk {
                 let tau_k = tenor.tau(k);
                 let g_k = 1.0 / tau_k; // linear decay
-                let r_d_mid = 0.5 * (state.rates_d[k - 1] + new_rates_d[k - 1]);
-                let sig_d = side_adapted_vol(&p.domestic, k, r_d_mid);
+                // Itô: the diffusion is read at the start of the step, as for R_k.
+                let vol_d = adapted_d[k - 1] / (state.rates_d[k - 1] + 1.0 / tau_k);
                 let y_k_d = state.y_diag_d[k - 1] - state.y_at_start_d[k - 1];
-                state.x_active_d +=
-                    g_k * y_k_d * dt + sig_d / (r_d_mid + 1.0 / tau_k) * dw_d[k - 1];
+                state.x_active_d += g_k * y_k_d * dt + vol_d * dw_d[k - 1];
 
-                let r_f_mid = 0.5 * (state.rates_f[k - 1] + new_rates_f[k - 1]);
-                let sig_f = side_adapted_vol(&p.foreign, k, r_f_mid);
+                let vol_f = adapted_f[k - 1] / (state.rates_f[k - 1] + 1.0 / tau_k);
                 let y_k_f = state.y_diag_f[k - 1] - state.y_at_start_f[k - 1];
-                state.x_active_f +=
-                    g_k * y_k_f * dt + sig_f / (r_f_mid + 1.0 / tau_k) * dw_f[k - 1];
+                state.x_active_f += g_k * y_k_f * dt + vol_f * dw_f[k - 1];
             }
         }
 
diff --git a/src/models/interestrate/fmm.rs b/src/models/interestrate/fmm.rs
index 6c24e96..c3e9576 100644
--- a/src/models/interestrate/fmm.rs
+++ b/src/models/interestrate/fmm.rs
@@ -511,13 +511,14 @@ impl FmmSimulator {
             let tk = self.model.tenor.dates[k];
             if t >= tk_minus_1 && t < tk {
                 let tau_k = self.model.tenor.tau(k);
-                let r_k_mid = 0.5 * (path.rates[k - 1] + new_rates[k - 1]);
-                let sig_adapt_k = self.model.adapted_vol(k, t_mid, r_k_mid);
+                // Itô: the diffusion is read at the start of the step, as for R_k.
+                let r_k = path.rates[k - 1];
+                let sig_adapt_k = adapted[k - 1];
                 // For linear decay γ_k(t) = (T_k − t)/τ_k, g_k = 1/τ_k.
                 let g_k = 1.0 / tau_k;
                 let y_k = path.y_diag[k - 1] - path.y_at_start[k - 1];
                 let drift_x = g_k * y_k;
-                let diffusion_x = sig_adapt_k / (r_k_mid + 1.0 / tau_k) * dw[k - 1];
+                let diffusion_x = sig_adapt_k / (r_k + 1.0 / tau_k) * dw[k - 1];
                 path.x_active += drift_x * dt + diffusion_x;
             }
         }
-- 
2.43.0


From 07dcb246dd1b664caa5bf20acab32c8d036804b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:45 +0000
Subject: [PATCH 36/47] fix: the FX-FMM simulator's foreign period noise lacked
 the quanto shift

---
 src/models/forex/fx_fmm_simulator.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/models/forex/fx_fmm_simulator.rs b/src/models/forex/fx_fmm_simulator.rs
index 7f480ae..bb58862 100644
--- a/src/models/forex/fx_fmm_simulator.rs
+++ b/src/models/forex/fx_fmm_simulator.rs
@@ -267,9 +267,11 @@ impl FxFmmSimulator {
                 let y_k_d = state.y_diag_d[k - 1] - state.y_at_start_d[k - 1];
                 state.x_active_d += g_k * y_k_d * dt + vol_d * dw_d[k - 1];
 
+                // The foreign noise carries the same quanto shift as R_f.
                 let vol_f = adapted_f[k - 1] / (state.rates_f[k - 1] + 1.0 / tau_k);
                 let y_k_f = state.y_diag_f[k - 1] - state.y_at_start_f[k - 1];
-                state.x_active_f += g_k * y_k_f * dt + vol_f * dw_f[k - 1];
+                let quanto = vol_f * p.correlations.rho_xi_f[k - 1] * sqrt_sigma;
+                state.x_active_f += (g_k * y_k_f - quanto) * dt + vol_f * dw_f[k - 1];
             }
         }
 
-- 
2.43.0


From e07a917d306d5cb9aca6c76b288bd93b7b71784b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:45 +0000
Subject: [PATCH 37/47] fix: the FMM simulators never recorded rate 1's start
 when T_0 is ahead

---
 src/models/forex/fx_fmm_simulator.rs | 10 ++++++++++
 src/models/interestrate/fmm.rs       |  7 +++++++
 2 files changed, 17 insertions(+)

diff --git a/src/models/forex/fx_fmm_simulator.rs b/src/models/forex/fx_fmm_simulator.rs
index bb58862..b5ee4fd 100644
--- a/src/models/forex/fx_fmm_simulator.rs
+++ b/src/models/forex/fx_fmm_simulator.rs
@@ -294,6 +294,16 @@ impl FxFmmSimulator {
                 state.x_active_f = 0.0;
             }
         }
+        // Rate 1's own period when the tenor starts after the valuation date.
+        let t0 = tenor.dates[0];
+        if t < t0 && state.t >= t0 {
+            state.rates_at_start_d[0] = state.rates_d[0];
+            state.rates_at_start_f[0] = state.rates_f[0];
+            state.y_at_start_d[0] = state.y_diag_d[0];
+            state.y_at_start_f[0] = state.y_diag_f[0];
+            state.x_active_d = 0.0;
+            state.x_active_f = 0.0;
+        }
     }
 
     /// Simulate `n_paths` paths on a uniform `n_steps` grid of width
diff --git a/src/models/interestrate/fmm.rs b/src/models/interestrate/fmm.rs
index c3e9576..e252cce 100644
--- a/src/models/interestrate/fmm.rs
+++ b/src/models/interestrate/fmm.rs
@@ -539,6 +539,13 @@ impl FmmSimulator {
                 path.x_active = 0.0;
             }
         }
+        // Rate 1's own period when the tenor starts after the valuation date.
+        let t0 = self.model.tenor.dates[0];
+        if t < t0 && path.t >= t0 {
+            path.rates_at_start[0] = path.rates[0];
+            path.y_at_start[0] = path.y_diag[0];
+            path.x_active = 0.0;
+        }
     }
 
     /// Simulate `n_paths` paths on a uniform grid of `n_steps` steps of
-- 
2.43.0


From dadd8d514ab4e759dfc7415f80d410bab2b12634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:13 +0000
Subject: [PATCH 38/47] fix: the FX-FMM simulator averaged domestic i / foreign
 j correlations with j / i

---
 src/models/forex/fx_fmm_simulator.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/models/forex/fx_fmm_simulator.rs b/src/models/forex/fx_fmm_simulator.rs
index b5ee4fd..9585a59 100644
--- a/src/models/forex/fx_fmm_simulator.rs
+++ b/src/models/forex/fx_fmm_simulator.rs
@@ -357,8 +357,7 @@ fn side_adapted_vol(side: &FmmSide, j: usize, _r_j: f64) -> f64 {
 /// Heston correlation; FX × rates and σ × rates come from
 /// `FxFmmCorrelations`; intra-currency rate blocks come from each
 /// `FmmSide.rate_corr`; the cross-currency block from
-/// `FxFmmCorrelations.cross_rate_corr` (not required to be symmetric
-/// — we symmetrise as `(C[i][j] + C[j][i]) / 2` when assembling).
+/// `FxFmmCorrelations.cross_rate_corr`, which need not be symmetric.
 fn build_joint_correlation(p: &FxFmmParams) -> Vec<Vec<f64>> {
     let m = p.tenor.m();
     let n = 2 + 2 * m;
@@ -399,13 +398,11 @@ fn build_joint_correlation(p: &FxFmmParams) -> Vec<Vec<f64>> {
             c[2 + m + i][2 + m + j] = p.foreign.rate_corr[i][j];
         }
     }
-    // Cross-currency rate block, symmetrised.
+    // Cross-currency rate block: row i is domestic, column j foreign.
     for i in 0..m {
         for j in 0..m {
-            let sym =
-                0.5 * (p.correlations.cross_rate_corr[i][j] + p.correlations.cross_rate_corr[j][i]);
-            c[2 + i][2 + m + j] = sym;
-            c[2 + m + j][2 + i] = sym;
+            c[2 + i][2 + m + j] = p.correlations.cross_rate_corr[i][j];
+            c[2 + m + j][2 + i] = p.correlations.cross_rate_corr[i][j];
         }
     }
 
-- 
2.43.0


From 4af5b14ff6dc164649d38367329f25a2f87769c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:17 +0000
Subject: [PATCH 39/47] fix: the FX-FMM simulator ignored each side's initial
 variance

---
 src/models/forex/fx_fmm_simulator.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/models/forex/fx_fmm_simulator.rs b/src/models/forex/fx_fmm_simulator.rs
index 9585a59..42ad574 100644
--- a/src/models/forex/fx_fmm_simulator.rs
+++ b/src/models/forex/fx_fmm_simulator.rs
@@ -344,12 +344,13 @@ impl SimulationModel for FxFmmSimulator {
 
 /// Adapted rate vol `σ_j(0) · L_j(R_j)` on one FMM side — the
 /// side-local analogue of `Fmm::adapted_vol`. The FX-FMM simulator
-/// currently uses constant `σ_j = side.sigmas[j-1]` without a vol
+/// currently uses constant `σ_j·√v_0`, with `σ_j = side.sigmas[j-1]`
+/// and the side's variance left at its initial value, without a vol
 /// schedule; displacement is treated as normal FMM (`L ≡ 1`) because
 /// [`FmmSide`] doesn't carry β-displacement parameters. Both hooks can
 /// be added later without changing the simulator's step structure.
 fn side_adapted_vol(side: &FmmSide, j: usize, _r_j: f64) -> f64 {
-    side.sigmas[j - 1]
+    side.sigmas[j - 1] * side.v_0.sqrt()
 }
 
 /// Assemble the `(2 + 2M) × (2 + 2M)` joint correlation matrix for
-- 
2.43.0


From 1b7ab197de8cea467b51a811bcd8e7628bad7d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:00 +0000
Subject: [PATCH 40/47] fix: COS prices of strikes outside the truncation range
 integrated the payoff over the density's mirror image

---
 src/models/common/cos_pricer.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/models/common/cos_pricer.rs b/src/models/common/cos_pricer.rs
index 8cdfa92..724f9bb 100644
--- a/src/models/common/cos_pricer.rs
+++ b/src/models/common/cos_pricer.rs
@@ -157,7 +157,10 @@ impl<'a, C: ForwardChf> CosPricer<'a, C> {
         // Payoff cosine coefficients Vk (closed form).
         // For a call:  Vk = (2/(b−a)) · [χk(log K, b) − K · ψk(log K, b)].
         // For a put:   Vk = (2/(b−a)) · [−χk(a, log K) + K · ψk(a, log K)].
-        let (c, d) = if is_call { (log_k, b) } else { (a, log_k) };
+        // The expansion stands for the density on [a, b] only: outside it
+        // repeats its mirror image, so the payoff is integrated no further.
+        let c_or_d = log_k.clamp(a, b);
+        let (c, d) = if is_call { (c_or_d, b) } else { (a, c_or_d) };
 
         let mut total = 0.0_f64;
         for k in 0..self.n_terms {
-- 
2.43.0


From df2a776640d082332e0246fcd0f0b0956b81c506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:00 +0000
Subject: [PATCH 41/47] fix: the default COS range of the Heston hybrids
 ignored an initial variance far above the long-run one

---
 src/models/common/cos_pricer.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/models/common/cos_pricer.rs b/src/models/common/cos_pricer.rs
index 724f9bb..9489c01 100644
--- a/src/models/common/cos_pricer.rs
+++ b/src/models/common/cos_pricer.rs
@@ -19,6 +19,7 @@
 //! half-width of `L · √(σ̄·T)` — a conservative Heston-style rule with
 //! `L = 10`. Callers can override via [`CosPricer::with_range`].
 
+use crate::models::common::cir::CirProcess;
 use crate::models::forex::fx_hhw1_chf::FxHhw1ForwardChf;
 use crate::models::forex::fx_hlmm1_chf::FxHlmm1ForwardChf;
 use num_complex::Complex64;
@@ -36,10 +37,21 @@ pub trait ForwardChf {
     fn log_forward(&self) -> f64;
     /// Typical instantaneous variance of `log FX_T(T)`. Used to set the
     /// COS half-width; a factor-10 is applied on top. For Heston-type
-    /// models this is just the long-run variance `σ̄`.
+    /// models this is the long-run variance `σ̄`, or the average expected
+    /// variance to `T` when that is higher.
     fn typical_variance(&self) -> f64;
 }
 
+/// The long-run variance, or the average of `E[σ(t)]` over `[0, T]` when
+/// the process starts high enough to make that the larger one.
+fn typical_heston_variance(heston: &CirProcess, expiry: f64) -> f64 {
+    let decay = heston.kappa * expiry;
+    if !(decay > 0.0 && heston.sigma_0 > heston.theta) {
+        return heston.theta;
+    }
+    heston.theta - (heston.sigma_0 - heston.theta) * (-decay).exp_m1() / decay
+}
+
 impl<'a> ForwardChf for FxHhw1ForwardChf<'a> {
     fn evaluate(&self, u: Complex64) -> Complex64 {
         FxHhw1ForwardChf::evaluate(self, u)
@@ -53,7 +65,7 @@ impl<'a> ForwardChf for FxHhw1ForwardChf<'a> {
         (p.fx_0 * (-p.rf_0 * t).exp() / (-p.rd_0 * t).exp()).ln()
     }
     fn typical_variance(&self) -> f64 {
-        self.params().heston.theta
+        typical_heston_variance(&self.params().heston, self.expiry)
     }
 }
 
@@ -73,7 +85,7 @@ impl<'a> ForwardChf for FxHlmm1ForwardChf<'a> {
     fn typical_variance(&self) -> f64 {
         // FX Heston variance is the dominant contributor; LMM contributions
         // are second-order for typical parameter sets.
-        self.params().heston.theta
+        typical_heston_variance(&self.params().heston, self.expiry)
     }
 }
 
@@ -90,7 +102,7 @@ impl<'a> ForwardChf for crate::models::forex::fx_fmm1_chf::FxFmm1ForwardChf<'a>
         self.params().fx_0.ln()
     }
     fn typical_variance(&self) -> f64 {
-        self.params().heston.theta
+        typical_heston_variance(&self.params().heston, self.expiry)
     }
 }
 
-- 
2.43.0


From 5d1a2d3b37e2e9748c3553f4a439fa8ffc46d760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:56 +0000
Subject: [PATCH 42/47] fix: the HLMM1 and FMM1 characteristic functions lost
 all digits (NaN at 0) as the vol of variance vanished

---
 src/models/forex/fx_fmm1_chf.rs  | 53 ++++++++++++++++++++++++--------
 src/models/forex/fx_hlmm1_chf.rs | 51 +++++++++++++++++++++---------
 2 files changed, 77 insertions(+), 27 deletions(-)

diff --git a/src/models/forex/fx_fmm1_chf.rs b/src/models/forex/fx_fmm1_chf.rs
index 900e6fb..6ee7806 100644
--- a/src/models/forex/fx_fmm1_chf.rs
+++ b/src/models/forex/fx_fmm1_chf.rs
@@ -328,6 +328,18 @@ fn heston_a_increment(
         - heston_a_closed_form(u, kappa, theta, gamma, rho, tau1)
 }
 
+/// `ln(1 + z) / z`, which tends to 1 with `z → 0`.
+fn ln_1p_over(z: Complex64) -> Complex64 {
+    if z.norm() > 1.0e-3 {
+        return (1.0 + z).ln() / z;
+    }
+    let mut sum = Complex64::new(0.0, 0.0);
+    for k in (1..=6).rev() {
+        sum = 1.0 / k as f64 - z * sum;
+    }
+    sum
+}
+
 fn heston_a_closed_form(
     u: Complex64,
     kappa: f64,
@@ -344,13 +356,21 @@ fn heston_a_closed_form(
     let rho_c = Complex64::new(rho, 0.0);
     let iu = Complex64::new(0.0, 1.0) * u;
     let x = kappa_c - gamma_c * rho_c * iu;
-    let d = (x * x - gamma_c * gamma_c * iu * (iu - Complex64::new(1.0, 0.0))).sqrt();
-    let g = (x - d) / (x + d);
+    let one = Complex64::new(1.0, 0.0);
+    let d = (x * x - gamma_c * gamma_c * iu * (iu - one)).sqrt();
+    // (x − d) = γ²·r with r = (B² − B)/(x + d), so that nothing is divided
+    // by γ² and γ → 0 is an ordinary point, as it is for C; but where x + d
+    // itself vanishes x − d does not, nor γ.
+    let r = if (x + d).norm() > (x - d).norm() {
+        (iu * iu - iu) / (x + d)
+    } else {
+        (x - d) / (gamma_c * gamma_c)
+    };
     let e = (-d * tau).exp();
-    let kappa_theta = Complex64::new(kappa * theta, 0.0);
-    kappa_theta / (gamma_c * gamma_c)
-        * ((x - d) * tau
-            - 2.0 * ((Complex64::new(1.0, 0.0) - g * e) / (Complex64::new(1.0, 0.0) - g)).ln())
+    // (1 − g·e)/(1 − g) = 1 + γ²·w
+    let w = r * (one - e) / (2.0 * d);
+    Complex64::new(kappa * theta, 0.0)
+        * (r * tau - 2.0 * w * ln_1p_over(gamma_c * gamma_c * w))
 }
 
 /// Piecewise-constant Riccati step `D' = A·(B²−B)/2 − λ·D + η²·D²/2`
@@ -374,17 +394,24 @@ fn advance_d_riccati(
     let delta = (Complex64::new(lambda * lambda, 0.0)
         + Complex64::new(eta_sq * a_j, 0.0) * u2_plus_iu)
         .sqrt();
-    let denom = Complex64::new(lambda, 0.0) + delta - Complex64::new(eta_sq, 0.0) * d_prev;
-    let num = Complex64::new(lambda, 0.0) - delta - Complex64::new(eta_sq, 0.0) * d_prev;
-    let ell = num / denom;
+    let lambda_delta = Complex64::new(lambda, 0.0) + delta;
+    let denom = lambda_delta - eta_sq * d_prev;
+    // (λ − δ) = η²·r with r = −A·(u² + iu)/(λ + δ), so that nothing is
+    // divided by η² and η → 0 is an ordinary point.
+    let r = -a_j * u2_plus_iu / lambda_delta;
+    let num = r - d_prev;
+    let ell = eta_sq * num / denom;
     let e = (-delta * s).exp();
     let one = Complex64::new(1.0, 0.0);
-    let chi = num * (one - e) / (Complex64::new(eta_sq, 0.0) * (one - ell * e));
+    let chi = num * (one - e) / (one - ell * e);
     let d_new = d_prev + chi;
 
-    let coef = Complex64::new(v_0 * lambda / eta_sq, 0.0);
-    let delta_a = coef
-        * ((Complex64::new(lambda, 0.0) - delta) * s - 2.0 * ((one - ell * e) / (one - ell)).ln());
+    // A-integrand contribution from D_d over this segment:
+    //   λ · v₀ · ∫₀^s D(u) du
+    // = (v₀·λ/η²) · [ (λ − δ)·s − 2·log((1 − ℓ·e^{−δs}) / (1 − ℓ)) ]
+    // (paper formula for χ_A's D-piece), the ratio being 1 + η²·w.
+    let w = num * (one - e) / (2.0 * delta);
+    let delta_a = v_0 * lambda * (r * s - 2.0 * w * ln_1p_over(eta_sq * w));
     (d_new, delta_a)
 }
 
diff --git a/src/models/forex/fx_hlmm1_chf.rs b/src/models/forex/fx_hlmm1_chf.rs
index 2f75c50..e255cf3 100644
--- a/src/models/forex/fx_hlmm1_chf.rs
+++ b/src/models/forex/fx_hlmm1_chf.rs
@@ -274,6 +274,18 @@ fn heston_a_increment(
     a2 - a1
 }
 
+/// `ln(1 + z) / z`, which tends to 1 with `z → 0`.
+fn ln_1p_over(z: Complex64) -> Complex64 {
+    if z.norm() > 1.0e-3 {
+        return (1.0 + z).ln() / z;
+    }
+    let mut sum = Complex64::new(0.0, 0.0);
+    for k in (1..=6).rev() {
+        sum = 1.0 / k as f64 - z * sum;
+    }
+    sum
+}
+
 fn heston_a_closed_form(
     u: Complex64,
     kappa: f64,
@@ -290,13 +302,21 @@ fn heston_a_closed_form(
     let rho_c = Complex64::new(rho, 0.0);
     let iu = Complex64::new(0.0, 1.0) * u;
     let x = kappa_c - gamma_c * rho_c * iu;
-    let d = (x * x - gamma_c * gamma_c * iu * (iu - Complex64::new(1.0, 0.0))).sqrt();
-    let g = (x - d) / (x + d);
+    let one = Complex64::new(1.0, 0.0);
+    let d = (x * x - gamma_c * gamma_c * iu * (iu - one)).sqrt();
+    // (x − d) = γ²·r with r = (B² − B)/(x + d), so that nothing is divided
+    // by γ² and γ → 0 is an ordinary point, as it is for C; but where x + d
+    // itself vanishes x − d does not, nor γ.
+    let r = if (x + d).norm() > (x - d).norm() {
+        (iu * iu - iu) / (x + d)
+    } else {
+        (x - d) / (gamma_c * gamma_c)
+    };
     let e = (-d * tau).exp();
-    let kappa_theta = Complex64::new(kappa * theta, 0.0);
-    kappa_theta / (gamma_c * gamma_c)
-        * ((x - d) * tau
-            - 2.0 * ((Complex64::new(1.0, 0.0) - g * e) / (Complex64::new(1.0, 0.0) - g)).ln())
+    // (1 − g·e)/(1 − g) = 1 + γ²·w
+    let w = r * (one - e) / (2.0 * d);
+    Complex64::new(kappa * theta, 0.0)
+        * (r * tau - 2.0 * w * ln_1p_over(gamma_c * gamma_c * w))
 }
 
 /// Advance one segment of the Riccati
@@ -321,21 +341,24 @@ fn advance_d_riccati(
     let delta = (Complex64::new(lambda * lambda, 0.0)
         + Complex64::new(eta_sq * a_j, 0.0) * u2_plus_iu)
         .sqrt();
-    let denom = Complex64::new(lambda, 0.0) + delta - Complex64::new(eta_sq, 0.0) * d_prev;
-    let num = Complex64::new(lambda, 0.0) - delta - Complex64::new(eta_sq, 0.0) * d_prev;
-    let ell = num / denom;
+    let lambda_delta = Complex64::new(lambda, 0.0) + delta;
+    let denom = lambda_delta - eta_sq * d_prev;
+    // (λ − δ) = η²·r with r = −A·(u² + iu)/(λ + δ), so that nothing is
+    // divided by η² and η → 0 is an ordinary point.
+    let r = -a_j * u2_plus_iu / lambda_delta;
+    let num = r - d_prev;
+    let ell = eta_sq * num / denom;
     let e = (-delta * s).exp();
     let one = Complex64::new(1.0, 0.0);
-    let chi = num * (one - e) / (Complex64::new(eta_sq, 0.0) * (one - ell * e));
+    let chi = num * (one - e) / (one - ell * e);
     let d_new = d_prev + chi;
 
     // A-integrand contribution from D_d over this segment:
     //   λ · v₀ · ∫₀^s D(u) du
     // = (v₀·λ/η²) · [ (λ − δ)·s − 2·log((1 − ℓ·e^{−δs}) / (1 − ℓ)) ]
-    // (paper formula for χ_A's D-piece).
-    let coef = Complex64::new(v_0 * lambda / eta_sq, 0.0);
-    let delta_a = coef
-        * ((Complex64::new(lambda, 0.0) - delta) * s - 2.0 * ((one - ell * e) / (one - ell)).ln());
+    // (paper formula for χ_A's D-piece), the ratio being 1 + η²·w.
+    let w = num * (one - e) / (2.0 * delta);
+    let delta_a = v_0 * lambda * (r * s - 2.0 * w * ln_1p_over(eta_sq * w));
     (d_new, delta_a)
 }
 
-- 
2.43.0


From 9370c6bfa9f5fe2f97988c47c59701a4fbf388ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:58 +0000
Subject: [PATCH 43/47] fix: the FMM1 characteristic function put the last
 tenor period and what follows it in one segment

---
 src/models/forex/fx_fmm1_chf.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/models/forex/fx_fmm1_chf.rs b/src/models/forex/fx_fmm1_chf.rs
index 6ee7806..32ba34d 100644
--- a/src/models/forex/fx_fmm1_chf.rs
+++ b/src/models/forex/fx_fmm1_chf.rs
@@ -130,9 +130,10 @@ impl<'a> FxFmm1ForwardChf<'a> {
 
         // Primary segment boundaries in τ-space — at each tenor date in
         // (0, expiry]. Same logic as FX-HLMM, reusing the τ = T − T_k
-        // mapping in reverse order.
+        // mapping in reverse order, but for T_M, up to which the last rate
+        // is alive here.
         let mut tau_boundaries: Vec<f64> = Vec::new();
-        for k in (0..=m - 1).rev() {
+        for k in (0..=m).rev() {
             let tau_b = expiry - tenor.dates[k];
             if tau_b > 0.0 && tau_b < expiry + 1e-12 {
                 tau_boundaries.push(tau_b);
-- 
2.43.0


From 1d173e4c132cd27ad940f62dec96ad1959141ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:02 +0000
Subject: [PATCH 44/47] fix: E[sqrt(sigma)] lost its digits as the vol of
 variance vanished

---
 src/models/common/cir.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/models/common/cir.rs b/src/models/common/cir.rs
index bf0c731..f4f3f2a 100644
--- a/src/models/common/cir.rs
+++ b/src/models/common/cir.rs
@@ -107,8 +107,9 @@ impl CirProcess {
         // numerically before the exponential kill can cancel it. For
         // `ε ≳ 500` the variance is negligible, so use the second-order
         // Taylor expansion `E[√σ] ≈ √μ · (1 − Var[σ] / (8·μ²))` with
-        // `μ = E[σ(t)]`.
-        if eps > 500.0 {
+        // `μ = E[σ(t)]`. As `γ → 0` it is `ℓ` that grows, and with it the
+        // two log-gammas, whose difference then loses its digits.
+        if eps > 500.0 || ell > 1.0e6 {
             let m = self.mean(t).max(1.0e-300);
             let v = self.variance(t);
             return m.sqrt() * (1.0 - v / (8.0 * m * m)).max(0.0);
@@ -147,6 +148,10 @@ impl CirProcess {
         assert!(self.kappa > 0.0, "CIR: κ must be positive");
         assert!(self.gamma > 0.0, "CIR: γ must be positive");
         let ell = 4.0 * self.kappa * self.theta / (self.gamma * self.gamma);
+        if ell > 1.0e6 {
+            // As in `sqrt_mean_tol`: Var/(8·μ²) is 1/(4·ℓ) here.
+            return self.theta.sqrt() * (1.0 - 0.25 / ell);
+        }
         let gamma_ratio = (ln_gamma(0.5 * (ell + 1.0)) - ln_gamma(0.5 * ell)).exp();
         self.gamma / (2.0 * self.kappa).sqrt() * gamma_ratio
     }
-- 
2.43.0


From 6bb551ab565960d03009b3e4c20b5f7f5c8352d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:54 +0000
Subject: [PATCH 45/47] fix: Hagan's volatility lost its digits next to the
 forward

---
 src/models/forex/sabr.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/models/forex/sabr.rs b/src/models/forex/sabr.rs
index 663e146..ff3de02 100644
--- a/src/models/forex/sabr.rs
+++ b/src/models/forex/sabr.rs
@@ -98,13 +98,17 @@ pub fn hagan_implied_vol(params: &SabrParams, forward: f64, strike: f64, t: f64)
     };
 
     let z_over_x = if z.abs() < 1.0e-8 {
-        // Limit via Taylor: x(z) = z · (1 + ρ z / 2 + (1/3)(1 − 3ρ²/2)·z² + …)
+        // Limit via Taylor: z/x(z) = 1 − ρ z / 2 + (2 − 3ρ²)·z² / 12 + …
         // Keep through second order so round-trip tests stay tight.
-        1.0 - 0.5 * rho * z + (1.0 / 12.0) * (3.0 * rho * rho - 2.0) * z * z
+        1.0 - 0.5 * rho * z + (1.0 / 12.0) * (2.0 - 3.0 * rho * rho) * z * z
     } else {
-        let num = (1.0 - 2.0 * rho * z + z * z).sqrt() + z - rho;
-        let den = 1.0 - rho;
-        z / (num / den).ln()
+        // x(z) = ln((√(1−2ρz+z²) + z − ρ) / (1 − ρ)) is odd in (z, ρ), so take
+        // z > 0, where its argument is above 1 and nears 1 with z: take
+        // `argument − 1` out by hand to keep its digits.
+        let (z, rho) = (z.abs(), rho * z.signum());
+        let root = (1.0 - 2.0 * rho * z + z * z).sqrt();
+        let above_one = z * (root + 1.0 + z - 2.0 * rho) / ((root + 1.0) * (1.0 - rho));
+        z / above_one.ln_1p()
     };
 
     let log_fk_sq = log_fk * log_fk;
-- 
2.43.0


From 6ec39191b4b9c11c164c1a5ed076c8faf69a4b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:54 +0000
Subject: [PATCH 46/47] fix: a calibrated positive parameter fell to zero far
 out in the search

---
 src/models/forex/fx_fmm_calibrator.rs  | 2 +-
 src/models/forex/fx_hhw_calibrator.rs  | 2 +-
 src/models/forex/fx_hlmm_calibrator.rs | 2 +-
 src/models/forex/sabr_calibrator.rs    | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/models/forex/fx_fmm_calibrator.rs b/src/models/forex/fx_fmm_calibrator.rs
index 44a6257..d2010bb 100644
--- a/src/models/forex/fx_fmm_calibrator.rs
+++ b/src/models/forex/fx_fmm_calibrator.rs
@@ -135,7 +135,7 @@ pub fn discount_factor(params: &FxFmmParams, expiry: f64) -> f64 {
 }
 
 fn softplus(x: f64) -> f64 {
-    if x > 35.0 { x } else { (1.0 + x.exp()).ln() }
+    if x > 35.0 { x } else { x.exp().ln_1p() }
 }
 
 fn inv_softplus(y: f64) -> f64 {
diff --git a/src/models/forex/fx_hhw_calibrator.rs b/src/models/forex/fx_hhw_calibrator.rs
index fd64e91..868ba5e 100644
--- a/src/models/forex/fx_hhw_calibrator.rs
+++ b/src/models/forex/fx_hhw_calibrator.rs
@@ -195,7 +195,7 @@ fn reify_params_bounded(
 
 fn softplus(x: f64) -> f64 {
     // log(1 + exp(x)), numerically stable for large x.
-    if x > 35.0 { x } else { (1.0 + x.exp()).ln() }
+    if x > 35.0 { x } else { x.exp().ln_1p() }
 }
 
 fn inv_softplus(y: f64) -> f64 {
diff --git a/src/models/forex/fx_hlmm_calibrator.rs b/src/models/forex/fx_hlmm_calibrator.rs
index a8eb678..29b71b3 100644
--- a/src/models/forex/fx_hlmm_calibrator.rs
+++ b/src/models/forex/fx_hlmm_calibrator.rs
@@ -128,7 +128,7 @@ pub fn discount_factor(params: &FxHlmmParams, expiry: f64) -> f64 {
 }
 
 fn softplus(x: f64) -> f64 {
-    if x > 35.0 { x } else { (1.0 + x.exp()).ln() }
+    if x > 35.0 { x } else { x.exp().ln_1p() }
 }
 
 fn inv_softplus(y: f64) -> f64 {
diff --git a/src/models/forex/sabr_calibrator.rs b/src/models/forex/sabr_calibrator.rs
index 9d45d38..735d119 100644
--- a/src/models/forex/sabr_calibrator.rs
+++ b/src/models/forex/sabr_calibrator.rs
@@ -84,7 +84,7 @@ pub fn calibrate(
 }
 
 fn softplus(x: f64) -> f64 {
-    if x > 35.0 { x } else { (1.0 + x.exp()).ln() }
+    if x > 35.0 { x } else { x.exp().ln_1p() }
 }
 
 fn inv_softplus(y: f64) -> f64 {
-- 
2.43.0


From 32ce1a2100b1950b32ffcc7d5d1ddbebe289f61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:14 +0000
Subject: [PATCH 47/47] fix: a futures quote settling no later than other
 quotes was stripped from a pillar that is not the nearest

---
 src/markets/termstructures/yieldcurve.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/markets/termstructures/yieldcurve.rs b/src/markets/termstructures/yieldcurve.rs
index 20c9905..83ac834 100644
--- a/src/markets/termstructures/yieldcurve.rs
+++ b/src/markets/termstructures/yieldcurve.rs
@@ -55,8 +55,7 @@ pub trait InterestRateQuote {
         let mut first = stripped_curves.first().unwrap();
         let mut second = stripped_curves.first().unwrap();
         for stripped_curve in stripped_curves {
-            if stripped_curve.first_settle_date < target_date && stripped_curve.date >= target_date
-            {
+            if stripped_curve.date >= target_date {
                 second = stripped_curve;
                 break;
             }
-- 
2.43.0

