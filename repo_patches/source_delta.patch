From 6791fe37b53a8e36347b2d167479ab517a5b5c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:55 +0000
Subject: [PATCH 01/33] fix: Quaternion::to_dcm returned the To -> From matrix

---
 crates/aether_core/src/attitude/quaternion.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/aether_core/src/attitude/quaternion.rs b/crates/aether_core/src/attitude/quaternion.rs
index 72c2c7d..f472d5f 100644
--- a/crates/aether_core/src/attitude/quaternion.rs
+++ b/crates/aether_core/src/attitude/quaternion.rs
@@ -164,9 +164,9 @@ impl<T: Real, From: ReferenceFrame, To: ReferenceFrame> Quaternion<T, From, To>
         let yz = y * z;
 
         let m = Matrix::<T, 3, 3>::new([
-            [ ww + xx - yy - zz, two * (xy - wz),     two * (xz + wy) ],
-            [ two * (xy + wz),   ww - xx + yy - zz,  two * (yz - wx) ],
-            [ two * (xz - wy),   two * (yz + wx),    ww - xx - yy + zz ],
+            [ ww + xx - yy - zz, two * (xy + wz),     two * (xz - wy) ],
+            [ two * (xy - wz),   ww - xx + yy - zz,  two * (yz + wx) ],
+            [ two * (xz + wy),   two * (yz - wx),    ww - xx - yy + zz ],
         ]);
 
         DirectionCosineMatrix::from_matrix(m)
-- 
2.43.0


From 8b88036659b4a595edf10c17adf9e8063b23312a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:55 +0000
Subject: [PATCH 02/33] fix: quaternion composition multiplied the chained
 rotations in the wrong order

---
 crates/aether_core/src/attitude/quaternion.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/aether_core/src/attitude/quaternion.rs b/crates/aether_core/src/attitude/quaternion.rs
index f472d5f..931e0cb 100644
--- a/crates/aether_core/src/attitude/quaternion.rs
+++ b/crates/aether_core/src/attitude/quaternion.rs
@@ -248,9 +248,9 @@ impl<T: Real, From: ReferenceFrame, Mid: ReferenceFrame, To: ReferenceFrame>
 
     #[inline]
     fn mul(self, rhs: &Quaternion<T, From, Mid>) -> Self::Output {
-        // Hamilton product: self x rhs
-        let [w1, x1, y1, z1] = self.data.data; // Mid -> To
-        let [w2, x2, y2, z2] = rhs.data.data;  // From -> Mid
+        // v_to = q* v q, so the passive chain is the Hamilton product rhs x self
+        let [w1, x1, y1, z1] = rhs.data.data;  // From -> Mid
+        let [w2, x2, y2, z2] = self.data.data; // Mid -> To
 
         Quaternion::new(
             w1 * w2 - x1 * x2 - y1 * y2 - z1 * z2,
-- 
2.43.0


From 560e2c65bfce28e586235508f0a82708fcb97ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:03 +0000
Subject: [PATCH 03/33] fix: Quaternion::integrate used non-pure rate
 quaternions and wrong Taylor coefficients

---
 crates/aether_core/src/attitude/quaternion.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/crates/aether_core/src/attitude/quaternion.rs b/crates/aether_core/src/attitude/quaternion.rs
index 931e0cb..802d764 100644
--- a/crates/aether_core/src/attitude/quaternion.rs
+++ b/crates/aether_core/src/attitude/quaternion.rs
@@ -201,21 +201,21 @@ impl<T: Real, From: ReferenceFrame, To: ReferenceFrame> Quaternion<T, From, To>
 
         let one = T::ONE;
         let two = one + one;
-        let three = two + one;
         let four = two + two;
-        let nine = three * three;
 
         let half = one / two;
         let quarter = one / four;
-        let ninth = one / nine;
+        let eighth = quarter * half;
+        let sixth = one / (four + two);
 
-        let ang_acc_quat = Quaternion::from_parts(one, ang_acc);
-        let ang_vel_quat = Quaternion::from_parts(one, ang_vel);
+        // Angular rates are pure quaternions
+        let ang_acc_quat = Quaternion::from_parts(T::ZERO, ang_acc);
+        let ang_vel_quat = Quaternion::from_parts(T::ZERO, ang_vel);
 
         let q_dot = q.mul_raw(&ang_vel_quat) * half;
         let q_ddot = q.mul_raw(&ang_vel_quat).mul_raw(&ang_vel_quat) * quarter
             + q.mul_raw(&ang_acc_quat) * half;
-        let q_dddot = q.mul_raw(&ang_vel_quat).mul_raw(&ang_vel_quat).mul_raw(&ang_vel_quat) * (one / (three + three))
+        let q_dddot = q.mul_raw(&ang_vel_quat).mul_raw(&ang_vel_quat).mul_raw(&ang_vel_quat) * eighth
             + q.mul_raw(&ang_acc_quat).mul_raw(&ang_vel_quat) * quarter
             + q.mul_raw(&ang_vel_quat).mul_raw(&ang_acc_quat) * half;
 
@@ -223,8 +223,8 @@ impl<T: Real, From: ReferenceFrame, To: ReferenceFrame> Quaternion<T, From, To>
         let dt3 = dt2 * dt;
 
         let mut new_q = q + q_dot * dt;
-        new_q = new_q + q_ddot * (quarter * dt2);
-        new_q = new_q + q_dddot * (ninth * dt3);
+        new_q = new_q + q_ddot * (half * dt2);
+        new_q = new_q + q_dddot * (sixth * dt3);
 
         new_q.normalized()
     }
-- 
2.43.0


From ba0dfc4442f9125043244699c35b5659660fa015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:11 +0000
Subject: [PATCH 04/33] fix: negative durations were not normalised to one
 representation

---
 crates/aether_time/src/time/duration.rs | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/crates/aether_time/src/time/duration.rs b/crates/aether_time/src/time/duration.rs
index 9cb4153..1209d99 100644
--- a/crates/aether_time/src/time/duration.rs
+++ b/crates/aether_time/src/time/duration.rs
@@ -15,19 +15,14 @@ pub struct Duration {
 
 impl Duration {
     pub const fn from_nanos(total: i64) -> Self {
-        let sec = total / 1_000_000_000;
-        let nano_sec = (total % 1_000_000_000) as i32;
+        let sec = total.div_euclid(1_000_000_000);
+        let nano_sec = total.rem_euclid(1_000_000_000) as i32;
         Self { sec, nano_sec }
     }
 
     pub fn normalize(mut self) -> Self {
-        if self.nano_sec >= 1_000_000_000 {
-            self.sec += (self.nano_sec / 1_000_000_000) as i64;
-            self.nano_sec %= 1_000_000_000;
-        } else if self.nano_sec < 0 {
-            self.sec -= 1;
-            self.nano_sec += 1_000_000_000;
-        }
+        self.sec += self.nano_sec.div_euclid(1_000_000_000) as i64;
+        self.nano_sec = self.nano_sec.rem_euclid(1_000_000_000);
         self
     }
 
-- 
2.43.0


From 9698613bfadc035cbb058094a7c9a01b3c71c24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:11 +0000
Subject: [PATCH 05/33] fix: calendar conversion of instants before 1970 and of
 negative years

---
 crates/aether_time/src/time/schedule.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/crates/aether_time/src/time/schedule.rs b/crates/aether_time/src/time/schedule.rs
index b542448..80f6dc0 100644
--- a/crates/aether_time/src/time/schedule.rs
+++ b/crates/aether_time/src/time/schedule.rs
@@ -245,12 +245,12 @@ impl Time<UTC> {
     pub fn to_utc_datetime(self) -> UtcDateTime {
         // Integer division / modulo: sec + nanos -> Y-M-D h:m:s.nnnnnnnnn
         let mut secs = self.sec;
-        let second = (secs % 60) as u8;
-        secs /= 60;
-        let minute = (secs % 60) as u8;
-        secs /= 60;
-        let hour = (secs % 24) as u8;
-        let days = secs / 24;
+        let second = secs.rem_euclid(60) as u8;
+        secs = secs.div_euclid(60);
+        let minute = secs.rem_euclid(60) as u8;
+        secs = secs.div_euclid(60);
+        let hour = secs.rem_euclid(24) as u8;
+        let days = secs.div_euclid(24);
 
         let mut dt = days_to_ymd(days, hour, minute, second);
         dt.nanos = self.nano_sec; // preserve nanos
@@ -271,7 +271,7 @@ impl Time<UTC> {
         };
 
         // Days since civil epoch 0000-03-01
-        let era = y / 400;
+        let era = y.div_euclid(400);
         let yoe = y - era * 400;                         // [0, 399]
         let doy = (153 * (m - 3) + 2) / 5 + day - 1;     // [0, 365]
         let doe = yoe * 365 + yoe / 4 - yoe / 100 + doy; // [0, 146096]
-- 
2.43.0


From 0d32a03de074ed6ac1bbf3d47debab88bb2e8426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:11 +0000
Subject: [PATCH 06/33] fix: hourly and daily recurrences before 1970 skipped
 or repeated an occurrence

---
 crates/aether_time/src/time/schedule.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/aether_time/src/time/schedule.rs b/crates/aether_time/src/time/schedule.rs
index 80f6dc0..1411d86 100644
--- a/crates/aether_time/src/time/schedule.rs
+++ b/crates/aether_time/src/time/schedule.rs
@@ -117,7 +117,7 @@ fn next_interval(after: Time<UTC>, period: Duration) -> Time<UTC> {
 
 fn next_hourly(after: Time<UTC>, minute: u8, second: u8) -> Time<UTC> {
     let now_sec = after.sec;
-    let hour_start = (now_sec / SECS_PER_HOUR) * SECS_PER_HOUR;
+    let hour_start = now_sec.div_euclid(SECS_PER_HOUR) * SECS_PER_HOUR;
     let target_in_hour =
         hour_start + (minute as i64) * SECS_PER_MIN + (second as i64);
 
@@ -130,7 +130,7 @@ fn next_hourly(after: Time<UTC>, minute: u8, second: u8) -> Time<UTC> {
 
 fn next_daily(after: Time<UTC>, hour: u8, minute: u8, second: u8) -> Time<UTC> {
     let now_sec = after.sec;
-    let day_start = (now_sec / SECS_PER_DAY) * SECS_PER_DAY;
+    let day_start = now_sec.div_euclid(SECS_PER_DAY) * SECS_PER_DAY;
     let target_today =
         day_start + (hour as i64) * SECS_PER_HOUR
                   + (minute as i64) * SECS_PER_MIN
-- 
2.43.0


From 6cf9e823a4bba7e6240ef0e635e2325a720d1353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:11 +0000
Subject: [PATCH 07/33] fix: a one-shot schedule fired again on every later
 check

---
 crates/aether_time/src/time/schedule.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/crates/aether_time/src/time/schedule.rs b/crates/aether_time/src/time/schedule.rs
index 1411d86..b330808 100644
--- a/crates/aether_time/src/time/schedule.rs
+++ b/crates/aether_time/src/time/schedule.rs
@@ -212,9 +212,8 @@ impl UtcSchedule {
         // It fires now
         match self.pattern {
             Recurrence::Once => {
-                // For Once, you might choose to never fire again;
-                // leave next_fire as-is or set to max.
-                self.pattern = Recurrence::Once;
+                // Never fire again.
+                self.next_fire = Time::<UTC>::new(i64::MAX, 999_999_999);
             }
             Recurrence::Interval(period) => {
                 // Catch up if we missed multiple ticks.
-- 
2.43.0


From a3806c81ca73dd46299d9879cba8006dc7cf89d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:11 +0000
Subject: [PATCH 08/33] fix: a timer or interval schedule with a non-positive
 period never returned

---
 crates/aether_time/src/time/mission.rs  | 5 ++++-
 crates/aether_time/src/time/schedule.rs | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/aether_time/src/time/mission.rs b/crates/aether_time/src/time/mission.rs
index 8bc2168..919e3e3 100644
--- a/crates/aether_time/src/time/mission.rs
+++ b/crates/aether_time/src/time/mission.rs
@@ -138,8 +138,11 @@ impl TimerEvent {
         
         self.acc = self.acc + dt;
         if self.acc >= self.period {
+            if self.period <= Duration::zero() {
+                self.acc = Duration::zero();
+            }
             // preserve overshoot – wrap but keep remainder
-            while self.acc >= self.period {
+            while self.period > Duration::zero() && self.acc >= self.period {
                 self.acc = self.acc - self.period;
             }
             true
diff --git a/crates/aether_time/src/time/schedule.rs b/crates/aether_time/src/time/schedule.rs
index b330808..0a0254b 100644
--- a/crates/aether_time/src/time/schedule.rs
+++ b/crates/aether_time/src/time/schedule.rs
@@ -217,7 +217,7 @@ impl UtcSchedule {
             }
             Recurrence::Interval(period) => {
                 // Catch up if we missed multiple ticks.
-                while self.next_fire <= now {
+                while period > Duration::zero() && self.next_fire <= now {
                     self.next_fire = self.next_fire + period;
                 }
             }
-- 
2.43.0


From 73c55538a2d8e0ce9c48ec4de9c47f1711e89990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:11 +0000
Subject: [PATCH 09/33] fix: GPS week resolution returned a wrapped negative
 week for small hints

---
 crates/aether_time/src/time/gps.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/crates/aether_time/src/time/gps.rs b/crates/aether_time/src/time/gps.rs
index 8c6a515..3a197df 100644
--- a/crates/aether_time/src/time/gps.rs
+++ b/crates/aether_time/src/time/gps.rs
@@ -15,8 +15,8 @@ pub struct GpsWeekTime {
 impl Time<GPS> {
     pub fn to_gps_week(self, current_full_week_hint: u32) -> GpsWeekTime {
         let total = self.sec;
-        let raw_week = ((total / GPS_WEEK_SECONDS) % GPS_WEEK_MODULUS as i64) as u16;
-        let sow = total % GPS_WEEK_SECONDS;
+        let raw_week = total.div_euclid(GPS_WEEK_SECONDS).rem_euclid(GPS_WEEK_MODULUS as i64) as u16;
+        let sow = total.rem_euclid(GPS_WEEK_SECONDS);
 
         // Compute the nearest rollover-corrected week
         let raw = raw_week as i64;
@@ -27,7 +27,9 @@ impl Time<GPS> {
         let mut full = base + raw;
         if (full - hint).abs() > (full + GPS_WEEK_MODULUS as i64 - hint).abs() {
             full += GPS_WEEK_MODULUS as i64;
-        } else if (full - GPS_WEEK_MODULUS as i64 - hint).abs() < (full - hint).abs() {
+        } else if full >= GPS_WEEK_MODULUS as i64
+            && (full - GPS_WEEK_MODULUS as i64 - hint).abs() < (full - hint).abs()
+        {
             full -= GPS_WEEK_MODULUS as i64;
         }
 
-- 
2.43.0


From 7d37e2c9dbdb5bf37ee051d58060a9f1118a64b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:08 +0000
Subject: [PATCH 10/33] fix: no_std signum returned 0 for zero where the std
 build returns +-1

---
 crates/aether_core/src/real/no_std_impl.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/aether_core/src/real/no_std_impl.rs b/crates/aether_core/src/real/no_std_impl.rs
index 690a6bc..3fad5b4 100644
--- a/crates/aether_core/src/real/no_std_impl.rs
+++ b/crates/aether_core/src/real/no_std_impl.rs
@@ -11,7 +11,7 @@ impl Real for f32 {
 
     #[inline] fn abs(self) -> Self { libm::fabsf(self) }
     #[inline] fn signum(self) -> Self {
-        if self.is_nan() { self } else if self > 0.0 { 1.0 } else if self < 0.0 { -1.0 } else { self }
+        if self.is_nan() { self } else { libm::copysignf(1.0, self) }
     }
     #[inline] fn floor(self) -> Self { libm::floorf(self) }
     #[inline] fn ceil(self) -> Self { libm::ceilf(self) }
@@ -55,7 +55,7 @@ impl Real for f64 {
 
     #[inline] fn abs(self) -> Self { libm::fabs(self) }
     #[inline] fn signum(self) -> Self {
-        if self.is_nan() { self } else if self > 0.0 { 1.0 } else if self < 0.0 { -1.0 } else { self }
+        if self.is_nan() { self } else { libm::copysign(1.0, self) }
     }
     #[inline] fn floor(self) -> Self { libm::floor(self) }
     #[inline] fn ceil(self) -> Self { libm::ceil(self) }
-- 
2.43.0


From a08b1b3f695439fe75080f8e6f3505141febbb61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:18 +0000
Subject: [PATCH 11/33] fix: next_real never returns 1.0 in single precision

Narrowing the 53-bit unit value to f32 rounds the topmost values up to 1.0,
which is outside the documented [0, 1).
---
 crates/aether_rand/src/randomizers/xor_shift.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/aether_rand/src/randomizers/xor_shift.rs b/crates/aether_rand/src/randomizers/xor_shift.rs
index dc5715b..e5cb51d 100644
--- a/crates/aether_rand/src/randomizers/xor_shift.rs
+++ b/crates/aether_rand/src/randomizers/xor_shift.rs
@@ -25,7 +25,9 @@ impl XorShift64Star {
     pub fn next_real<T: Real>(&mut self) -> T {
         const DEN: f64 = (1u64 << 53) as f64;
         let unit = ((self.next_u64() >> 11) as f64) / DEN;
-        T::from_f64(unit)
+        let v = T::from_f64(unit);
+        // Narrowing to a shorter float can round the topmost values up to one.
+        if v < T::ONE { v } else { T::ONE - T::EPSILON }
     }
 
     #[inline]
-- 
2.43.0


From a083d577b7056ab1040362b58e4cc2c11a79e8ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:18 +0000
Subject: [PATCH 12/33] fix: serial SGD no longer stops at once for objectives
 at or below zero

The objective tolerance is off by default (0) and the parallel optimiser only
applies it when positive; the serial one reported convergence after zero
iterations for any non-positive objective value.
---
 crates/aether_opt/src/gradient_descent/stochastic.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/aether_opt/src/gradient_descent/stochastic.rs b/crates/aether_opt/src/gradient_descent/stochastic.rs
index 245fab8..7e70b59 100644
--- a/crates/aether_opt/src/gradient_descent/stochastic.rs
+++ b/crates/aether_opt/src/gradient_descent/stochastic.rs
@@ -217,7 +217,7 @@ impl<const N: usize> GDStochastic<N> {
             };
 
             if k >= self.min_iters {
-                if ema_hat <= self.tol_grad_ema || fx <= self.tol_f {
+                if ema_hat <= self.tol_grad_ema || (self.tol_f > 0.0 && fx <= self.tol_f) {
                     return (x, fx, k, true);
                 }
             }
-- 
2.43.0


From bba676dc900284ee0ae75c0087a67d8787186e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:38 +0000
Subject: [PATCH 13/33] fix: logistic fit minimises the cross-entropy its
 gradient belongs to

The guard added to the logarithms was 1/3 instead of a tiny value, so the line
search judged steps by a different function than the one being differentiated
and stopped far from the minimum.
---
 crates/aether_ml/src/regression/logistic.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/aether_ml/src/regression/logistic.rs b/crates/aether_ml/src/regression/logistic.rs
index 8e2642f..e453611 100644
--- a/crates/aether_ml/src/regression/logistic.rs
+++ b/crates/aether_ml/src/regression/logistic.rs
@@ -94,7 +94,7 @@ impl<F: Real + Copy, const N: usize> LogisticRegression<F, N> {
         p_arr[N] = self.bias;
         let x0 = Vector::new(p_arr);
 
-        let tiny = F::ONE / (F::ONE + (F::ONE + F::ONE));
+        let tiny = F::EPSILON;
 
         let f = |pv: &Vector<F, M>| -> F {
             let mut loss = F::ZERO;
-- 
2.43.0


From 5d374084d3d7c4ae5091742ed05becbe1a291331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:43 +0000
Subject: [PATCH 14/33] fix: SI prefix factors lose double precision

Conversions between prefixed and base units took their factor from a
single precision constant, so a double precision length in millimetres
was off by 5e-8 in relative terms. Use the double precision factor.
---
 crates/aether_units/src/si/si_prefix.rs | 122 ++++++++++++------------
 1 file changed, 61 insertions(+), 61 deletions(-)

diff --git a/crates/aether_units/src/si/si_prefix.rs b/crates/aether_units/src/si/si_prefix.rs
index fc79de3..d50865e 100644
--- a/crates/aether_units/src/si/si_prefix.rs
+++ b/crates/aether_units/src/si/si_prefix.rs
@@ -35,7 +35,7 @@ macro_rules! si_prefixed_unit {
         impl<T: Real> $crate::Quantity<$BaseUnit, T> {
             #[inline]
             pub fn $to_prefixed(self) -> $crate::Quantity<$PrefixUnit, T> {
-                let k = T::from_f32($factor);
+                let k = T::from_f64($factor);
                 $crate::Quantity::new(self.raw() / k)
             }
         }
@@ -44,7 +44,7 @@ macro_rules! si_prefixed_unit {
         impl<T: Real> $crate::Quantity<$PrefixUnit, T> {
             #[inline]
             pub fn $to_base(self) -> $crate::Quantity<$BaseUnit, T> {
-                let k = T::from_f32($factor);
+                let k = T::from_f64($factor);
                 $crate::Quantity::new(self.raw() * k)
             }
         }
@@ -72,28 +72,28 @@ si_prefixed_family! {
     to_base = to_meter;
 
     // tiny
-    (Yoctometer,  YOCTO, to_yoctometer),
-    (Zeptometer,  ZEPTO, to_zeptometer),
-    (Attometer,   ATTO,  to_attometer),
-    (Femtometer,  FEMTO, to_femtometer),
-    (Picometer,   PICO,  to_picometer),
-    (Nanometer,   NANO,  to_nanometer),
-    (Micrometer,  MICRO, to_micrometer),
-    (Millimeter,  MILLI, to_millimeter),
-    (Centimeter,  CENTI, to_centimeter),
-    (Decimeter,   DECI,  to_decimeter),
+    (Yoctometer, 1.0e-24, to_yoctometer),
+    (Zeptometer, 1.0e-21, to_zeptometer),
+    (Attometer, 1.0e-18,  to_attometer),
+    (Femtometer, 1.0e-15, to_femtometer),
+    (Picometer, 1.0e-12,  to_picometer),
+    (Nanometer, 1.0e-9,  to_nanometer),
+    (Micrometer, 1.0e-6, to_micrometer),
+    (Millimeter, 1.0e-3, to_millimeter),
+    (Centimeter, 1.0e-2, to_centimeter),
+    (Decimeter, 1.0e-1,  to_decimeter),
 
     // > 1 m
-    (Decameter,   DECA,  to_decameter),
-    (Hectometer,  HECTO, to_hectometer),
-    (Kilometer,   KILO,  to_kilometer),
-    (Megameter,   MEGA,  to_megameter),
-    (Gigameter,   GIGA,  to_gigameter),
-    (Terameter,   TERA,  to_terameter),
-    (Petameter,   PETA,  to_petameter),
-    (Exameter,    EXA,   to_exameter),
-    (Zettameter,  ZETTA, to_zettameter),
-    (Yottameter,  YOTTA, to_yottameter),
+    (Decameter, 1.0e1,  to_decameter),
+    (Hectometer, 1.0e2, to_hectometer),
+    (Kilometer, 1.0e3,  to_kilometer),
+    (Megameter, 1.0e6,  to_megameter),
+    (Gigameter, 1.0e9,  to_gigameter),
+    (Terameter, 1.0e12,  to_terameter),
+    (Petameter, 1.0e15,  to_petameter),
+    (Exameter, 1.0e18,   to_exameter),
+    (Zettameter, 1.0e21, to_zettameter),
+    (Yottameter, 1.0e24, to_yottameter),
 }
 
 // Time (second) – yocto to yotta
@@ -101,27 +101,27 @@ si_prefixed_family! {
     base = Second;
     to_base = to_second;
 
-    (Yoctosecond,  YOCTO, to_yoctosecond),
-    (Zeptosecond,  ZEPTO, to_zeptosecond),
-    (Attosecond,   ATTO,  to_attosecond),
-    (Femtosecond,  FEMTO, to_femtosecond),
-    (Picosecond,   PICO,  to_picosecond),
-    (Nanosecond,   NANO,  to_nanosecond),
-    (Microsecond,  MICRO, to_microsecond),
-    (Millisecond,  MILLI, to_millisecond),
-    (Centisecond,  CENTI, to_centisecond),
-    (Decisecond,   DECI,  to_decisecond),
+    (Yoctosecond, 1.0e-24, to_yoctosecond),
+    (Zeptosecond, 1.0e-21, to_zeptosecond),
+    (Attosecond, 1.0e-18,  to_attosecond),
+    (Femtosecond, 1.0e-15, to_femtosecond),
+    (Picosecond, 1.0e-12,  to_picosecond),
+    (Nanosecond, 1.0e-9,  to_nanosecond),
+    (Microsecond, 1.0e-6, to_microsecond),
+    (Millisecond, 1.0e-3, to_millisecond),
+    (Centisecond, 1.0e-2, to_centisecond),
+    (Decisecond, 1.0e-1,  to_decisecond),
 
-    (Decasecond,   DECA,  to_decasecond),
-    (Hectosecond,  HECTO, to_hectosecond),
-    (Kilosecond,   KILO,  to_kilosecond),
-    (Megasecond,   MEGA,  to_megasecond),
-    (Gigasecond,   GIGA,  to_gigasecond),
-    (Terasecond,   TERA,  to_terasecond),
-    (Petasecond,   PETA,  to_petasecond),
-    (Exasecond,    EXA,   to_exasecond),
-    (Zettasecond,  ZETTA, to_zettasecond),
-    (Yottasecond,  YOTTA, to_yottasecond),
+    (Decasecond, 1.0e1,  to_decasecond),
+    (Hectosecond, 1.0e2, to_hectosecond),
+    (Kilosecond, 1.0e3,  to_kilosecond),
+    (Megasecond, 1.0e6,  to_megasecond),
+    (Gigasecond, 1.0e9,  to_gigasecond),
+    (Terasecond, 1.0e12,  to_terasecond),
+    (Petasecond, 1.0e15,  to_petasecond),
+    (Exasecond, 1.0e18,   to_exasecond),
+    (Zettasecond, 1.0e21, to_zettasecond),
+    (Yottasecond, 1.0e24, to_yottasecond),
 }
 
 // Mass (kilogram) – prefixes conceptually apply to gram, so factor * 1e-3
@@ -129,24 +129,24 @@ si_prefixed_family! {
     base = Kilogram;
     to_base = to_kilogram;
 
-    (Yoctogram,  YOCTO * 1.0e-3_f32, to_yoctogram),
-    (Zeptogram,  ZEPTO * 1.0e-3_f32, to_zeptogram),
-    (Attogram,   ATTO  * 1.0e-3_f32, to_attogram),
-    (Femtogram,  FEMTO * 1.0e-3_f32, to_femtogram),
-    (Picogram,   PICO  * 1.0e-3_f32, to_picogram),
-    (Nanogram,   NANO  * 1.0e-3_f32, to_nanogram),
-    (Microgram,  MICRO * 1.0e-3_f32, to_microgram),
-    (Milligram,  MILLI * 1.0e-3_f32, to_milligram),
-    (Centigram,  CENTI * 1.0e-3_f32, to_centigram),
-    (Decigram,   DECI  * 1.0e-3_f32, to_decigram),
+    (Yoctogram, 1.0e-27, to_yoctogram),
+    (Zeptogram, 1.0e-24, to_zeptogram),
+    (Attogram, 1.0e-21, to_attogram),
+    (Femtogram, 1.0e-18, to_femtogram),
+    (Picogram, 1.0e-15, to_picogram),
+    (Nanogram, 1.0e-12, to_nanogram),
+    (Microgram, 1.0e-9, to_microgram),
+    (Milligram, 1.0e-6, to_milligram),
+    (Centigram, 1.0e-5, to_centigram),
+    (Decigram, 1.0e-4, to_decigram),
 
-    (Decagram,   DECA  * 1.0e-3_f32, to_decagram),
-    (Hectogram,  HECTO * 1.0e-3_f32, to_hectogram),
-    (Megagram,   MEGA  * 1.0e-3_f32, to_megagram),
-    (Gigagram,   GIGA  * 1.0e-3_f32, to_gigagram),
-    (Teragram,   TERA  * 1.0e-3_f32, to_teragram),
-    (Petagram,   PETA  * 1.0e-3_f32, to_petagram),
-    (Exagram,    EXA   * 1.0e-3_f32, to_exagram),
-    (Zettagram,  ZETTA * 1.0e-3_f32, to_zettagram),
-    (Yottagram,  YOTTA * 1.0e-3_f32, to_yottagram),
+    (Decagram, 1.0e-2, to_decagram),
+    (Hectogram, 1.0e-1, to_hectogram),
+    (Megagram, 1.0e3, to_megagram),
+    (Gigagram, 1.0e6, to_gigagram),
+    (Teragram, 1.0e9, to_teragram),
+    (Petagram, 1.0e12, to_petagram),
+    (Exagram, 1.0e15, to_exagram),
+    (Zettagram, 1.0e18, to_zettagram),
+    (Yottagram, 1.0e21, to_yottagram),
 }
-- 
2.43.0


From e070588698613863e1b979d04c122ef8006763ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:12 +0000
Subject: [PATCH 15/33] fix: WGS84 normal gravity squares sines and cosines

The closed-form gravity took sin(sin(x)) and cos(cos(x)) where the
squares are meant, the normal gravity lacked the square root in its
denominator, and the meridional component that of u^2 + E^2.
---
 .../src/terrestrial/wgs84/gravity/mod.rs              | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/crates/aether_models/src/terrestrial/wgs84/gravity/mod.rs b/crates/aether_models/src/terrestrial/wgs84/gravity/mod.rs
index b166853..bdb0a2a 100644
--- a/crates/aether_models/src/terrestrial/wgs84/gravity/mod.rs
+++ b/crates/aether_models/src/terrestrial/wgs84/gravity/mod.rs
@@ -11,7 +11,8 @@ use crate::{
 use core::marker::PhantomData;
 
 pub fn gravity_normal(latitude: f64) -> f64 {
-    return g_e * (1.0 + k * latitude.sin().sin()) / (1.0 - e2 * latitude.sin().sin());
+    return g_e * (1.0 + k * latitude.sin().powf(2.0))
+        / (1.0 - e2 * latitude.sin().powf(2.0)).sqrt();
 }
 
 fn ellipsoidal_beta(x: f64, y: f64, z: f64, u: f64) -> f64 {
@@ -31,7 +32,7 @@ fn ellipsoidal_height(x: f64, y: f64, z: f64) -> f64 {
 
 fn ellipsoidal_w(u: f64, beta: f64) -> f64 {
     let ellip_w =
-        ((u.powf(2.0) + E.powf(2.0) * (beta.sin().sin())) / (u.powf(2.0) + E.powf(2.0))).sqrt();
+        ((u.powf(2.0) + E.powf(2.0) * (beta.sin().powf(2.0))) / (u.powf(2.0) + E.powf(2.0))).sqrt();
     return ellip_w;
 }
 
@@ -53,9 +54,9 @@ pub fn gravity_ellipsoidal(x: f64, y: f64, z: f64) -> Vector<f64, 3> {
         * ((GM / (u.powf(2.0) + E.powf(2.0)))
             + (w.powf(2.0) * a.powf(2.0) * E) / (u.powf(2.0) + E.powf(2.0))
                 * (qprime / q_0)
-                * (0.5 * beta.sin().sin() - 1.0 / 6.0))
-        + 1.0 / ellip_w * w.powf(2.0) * u * beta.cos().cos();
-    let g_b = 1.0 / ellip_w * (w.powf(2.0) * a.powf(2.0) / (u.powf(2.0) + E.powf(2.0))) * q / q_0
+                * (0.5 * beta.sin().powf(2.0) - 1.0 / 6.0))
+        + 1.0 / ellip_w * w.powf(2.0) * u * beta.cos().powf(2.0);
+    let g_b = 1.0 / ellip_w * (w.powf(2.0) * a.powf(2.0) / (u.powf(2.0) + E.powf(2.0)).sqrt()) * q / q_0
         * beta.sin()
         * beta.cos()
         - 1.0 / ellip_w
-- 
2.43.0


From 34a00c06f06317dac37e687fd18c7b36c99c73c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:12 +0000
Subject: [PATCH 16/33] fix: closed-form geodetic conversion lacks a square
 root

Ferrari's solution needs s = cbrt(1 + c + sqrt(c^2 + 2c)).
---
 crates/aether_models/src/terrestrial/wgs84/transforms/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/aether_models/src/terrestrial/wgs84/transforms/mod.rs b/crates/aether_models/src/terrestrial/wgs84/transforms/mod.rs
index bf5eee2..ecf8c2c 100644
--- a/crates/aether_models/src/terrestrial/wgs84/transforms/mod.rs
+++ b/crates/aether_models/src/terrestrial/wgs84/transforms/mod.rs
@@ -70,7 +70,7 @@ pub fn ecef_to_geocentric_ferrari<T: Real>(x: T, y: T, z: T) -> Vector<T, 3> {
     let ff = T::from_f64(54.0) * b2 * z2;
     let g = r2 + (T::ONE - e_2) * z2 - e_2 * e2_2;
     let c = e_2.powf(two) * ff * r2 / g.powf(T::from_f64(3.0));
-    let s = (T::ONE + c + (c.powf(two) + two * c)).powf(T::ONE / T::from_f64(3.0));
+    let s = (T::ONE + c + (c.powf(two) + two * c).sqrt()).powf(T::ONE / T::from_f64(3.0));
     let pp = ff / (T::from_f64(3.0) * (s + T::ONE / s + T::ONE).powf(two) * g.powf(two));
     let q = (T::ONE + two * e_2.powf(two) * pp).sqrt();
 
-- 
2.43.0


From 9a180447212667b6097a9f2355afec103e0e5509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:12 +0000
Subject: [PATCH 17/33] fix: Moon frames count time from the epoch of the
 orientation

lirf_to_ltrf and ltrf_to_lirf ignored epoch_time, so they disagreed with
icrf_to_ltrf and ltrf_to_icrf for every Moon with a nonzero epoch.
---
 crates/aether_models/src/lunar/moon.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/aether_models/src/lunar/moon.rs b/crates/aether_models/src/lunar/moon.rs
index 11e9d21..b83d2c8 100644
--- a/crates/aether_models/src/lunar/moon.rs
+++ b/crates/aether_models/src/lunar/moon.rs
@@ -95,11 +95,11 @@ impl Moon {
     }
 
     pub fn lirf_to_ltrf(&self, time: f64) -> DirectionCosineMatrix<f64, LIRF, LTRF> {
-        transforms::lirf_to_ltrf(time)
+        transforms::lirf_to_ltrf(time - self.epoch_time)
     }
 
     pub fn ltrf_to_lirf(&self, time: f64) -> DirectionCosineMatrix<f64, LTRF, LIRF> {
-        transforms::ltrf_to_lirf(time)
+        transforms::ltrf_to_lirf(time - self.epoch_time)
     }
 
     pub fn icrf_to_lirf(&self) -> DirectionCosineMatrix<f64, ICRF<f64>, LIRF> {
-- 
2.43.0


From 72ad0a5c7316ef3e008be1efb090a75b04b86a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:12 +0000
Subject: [PATCH 18/33] fix: standard atmosphere panics at and above 1000 km

The layer search indexed one past the last base height for a height of
1000 km or more and for NaN; temperature, density, speed of sound and
viscosity turned the missing layer into a panic. Report it instead.
---
 .../src/terrestrial/atmospheres/ussa.rs       | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/crates/aether_models/src/terrestrial/atmospheres/ussa.rs b/crates/aether_models/src/terrestrial/atmospheres/ussa.rs
index b4cdb2c..1d9917b 100644
--- a/crates/aether_models/src/terrestrial/atmospheres/ussa.rs
+++ b/crates/aether_models/src/terrestrial/atmospheres/ussa.rs
@@ -46,12 +46,9 @@ impl USSA {
     }
 
     fn get_base_index(&self, geometric_height: f64) -> Result<usize, &'static str> {
-        let mut i = 0;
-        for _value in Self::base_geometric_heights {
+        for i in 0..Self::base_geometric_heights.len() - 1 {
             if geometric_height < Self::base_geometric_heights[i + 1] {
                 return Ok(i);
-            } else {
-                i += 1;
             }
         }
         return Err("yikes...");
@@ -84,7 +81,7 @@ impl USSA {
     pub fn temperature(&self, geometric_height: f64) -> Result<f64, Constraint> {
         let base_index = self
             .get_base_index(geometric_height)
-            .expect("Could not determine base index.");
+            .map_err(|_| Constraint::NoGradient)?;
         let gradient_index_result = self.get_gradient_index(base_index);
         match gradient_index_result {
             Ok(gradient_index) => {
@@ -134,7 +131,9 @@ impl USSA {
             Ok(gradient_index) => {
                 let base_temperature = Self::base_geometric_temperatures[base_index];
                 let base_pressure = Self::base_geometric_pressures[base_index];
-                let temperature = self.temperature(geometric_height).unwrap();
+                let temperature = self
+                    .temperature(geometric_height)
+                    .map_err(|_| "Could not determine temperature.")?;
                 let lapse_rate = Self::base_lapse_rates[gradient_index];
 
                 if lapse_rate != 0.0 {
@@ -158,7 +157,9 @@ impl USSA {
     }
 
     pub fn density(&self, geometric_height: f64) -> Result<f64, &'static str> {
-        let temperature = self.temperature(geometric_height).unwrap();
+        let temperature = self
+            .temperature(geometric_height)
+            .map_err(|_| "Could not determine temperature.")?;
         let pressure = self.pressure(geometric_height)?;
         let density = (pressure * Self::air_molar_mass) / (Self::R_Star * temperature);
         return Ok(density);
@@ -167,14 +168,14 @@ impl USSA {
     pub fn speed_of_sound(&self, geometric_height: f64) -> Result<f64, &'static str> {
         let temperature = self
             .temperature(geometric_height)
-            .expect("Could not determine temperature.");
+            .map_err(|_| "Could not determine temperature.")?;
         return Ok(1.4 * Self::R_Star / Self::air_molar_mass * temperature);
     }
 
     pub fn dynamic_viscosity(&self, geometric_height: f64) -> Result<f64, &'static str> {
         let temperature = self
             .temperature(geometric_height)
-            .expect("Could not determine temperature.");
+            .map_err(|_| "Could not determine temperature.")?;
         let viscosity = Self::dynamic_viscosity_nist_A * (temperature).powf(1.5)
             / (temperature + Self::dynamic_viscosity_nist_B)
             * 0.1; // 0.1 is to convert to Pascal*second
-- 
2.43.0


From b122267517e1eb19b47d5dde841cc4573c2b36a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:12 +0000
Subject: [PATCH 19/33] fix: Earth atmosphere getters report failures instead
 of panicking

---
 crates/aether_models/src/terrestrial/earth.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/crates/aether_models/src/terrestrial/earth.rs b/crates/aether_models/src/terrestrial/earth.rs
index f1026c8..d05e714 100644
--- a/crates/aether_models/src/terrestrial/earth.rs
+++ b/crates/aether_models/src/terrestrial/earth.rs
@@ -120,28 +120,28 @@ impl Earth {
     }
 
     pub fn get_temperature(&self, geometric_height: f64) -> Result<f64, &'static str> {
-        return Ok(self
+        return self
             .atmosphere
             .temperature(geometric_height)
-            .expect("Could not get temperature."));
+            .map_err(|_| "Could not get temperature.");
     }
     pub fn get_pressure(&self, geometric_height: f64) -> Result<f64, &'static str> {
-        return Ok(self
+        return self
             .atmosphere
             .pressure(geometric_height)
-            .expect("Could not get pressure."));
+            .map_err(|_| "Could not get pressure.");
     }
     pub fn get_density(&self, geometric_height: f64) -> Result<f64, &'static str> {
-        return Ok(self
+        return self
             .atmosphere
             .density(geometric_height)
-            .expect("Could not get density."));
+            .map_err(|_| "Could not get density.");
     }
     pub fn get_speed_of_sound(&self, geometric_height: f64) -> Result<f64, &'static str> {
-        return Ok(self
+        return self
             .atmosphere
             .speed_of_sound(geometric_height)
-            .expect("Could not get speed of sound."));
+            .map_err(|_| "Could not get speed of sound.");
     }
 }
 
-- 
2.43.0


From 2c015fdb5224c7712c9952551d06e117f6c0b352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:12 +0000
Subject: [PATCH 20/33] fix: speed of sound is the square root of gamma R T

---
 crates/aether_models/src/terrestrial/atmospheres/ussa.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/aether_models/src/terrestrial/atmospheres/ussa.rs b/crates/aether_models/src/terrestrial/atmospheres/ussa.rs
index 1d9917b..048e07b 100644
--- a/crates/aether_models/src/terrestrial/atmospheres/ussa.rs
+++ b/crates/aether_models/src/terrestrial/atmospheres/ussa.rs
@@ -169,7 +169,7 @@ impl USSA {
         let temperature = self
             .temperature(geometric_height)
             .map_err(|_| "Could not determine temperature.")?;
-        return Ok(1.4 * Self::R_Star / Self::air_molar_mass * temperature);
+        return Ok((1.4 * Self::R_Star / Self::air_molar_mass * temperature).sqrt());
     }
 
     pub fn dynamic_viscosity(&self, geometric_height: f64) -> Result<f64, &'static str> {
-- 
2.43.0


From 4d7f9b1c4131a437de27334ead0ed2603c2bfeff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:12 +0000
Subject: [PATCH 21/33] fix: standard atmosphere constants

Standard gravity is 9.80665 m/s^2, the lapse rate of the lower
thermosphere 12 K/km and the pressures at 500 and 1000 km are 3.0236e-7
and 7.5138e-9 Pa (U.S. Standard Atmosphere, 1976).
---
 crates/aether_models/src/terrestrial/atmospheres/ussa.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/aether_models/src/terrestrial/atmospheres/ussa.rs b/crates/aether_models/src/terrestrial/atmospheres/ussa.rs
index 048e07b..8fb3c8f 100644
--- a/crates/aether_models/src/terrestrial/atmospheres/ussa.rs
+++ b/crates/aether_models/src/terrestrial/atmospheres/ussa.rs
@@ -17,7 +17,7 @@ impl USSA {
     pub const R_Star: f64 = 8.31432e3; // J/(mol*K)
     pub const air_molar_mass: f64 = 28.9644; // kg/mol
     pub const R_Air: f64 = USSA::R_Star / USSA::air_molar_mass; // J/(kg*K)
-    pub const g_0: f64 = 9.80655; // m/s^2
+    pub const g_0: f64 = 9.80665; // m/s^2
     pub const gamma: f64 = 1.4; // dimensionless
     const base_geometric_heights: [f64; 13] = [
         0.0, 11019.0, 20063.0, 32162.0, 47350.0, 51413.0, 71802.0, 86000.0, 91000.0, 110000.0,
@@ -29,14 +29,14 @@ impl USSA {
     ];
     const base_geometric_pressures: [f64; 13] = [
         101.325e3, 226.32e2, 547.48e1, 868.01, 110.90, 669.38e-1, 395.64e-2, 373.38e-3, 153.81e-3,
-        710.42e-5, 253.82e-5, 302.36e-6, 751.38e-8,
+        710.42e-5, 253.82e-5, 302.36e-9, 751.38e-11,
     ];
     const base_geometric_densities: [f64; 13] = [
         1.225, 0.35822, 8.8035e-2, 1.3225e-2, 1.4275e-3, 8.6160e-4, 6.4211e-5, 6.958e-6, 2.860e-6,
         9.708e-8, 2.222e-8, 5.215e-13, 3.561e-15,
     ];
     const base_lapse_rates: [f64; 12] = [
-        -6.5e-3, 0.0, 1.0e-3, 2.8e-3, 0.0, -2.8e-3, -2.0e-3, 0.0, 0.0, 12.0, 12.0, 0.0,
+        -6.5e-3, 0.0, 1.0e-3, 2.8e-3, 0.0, -2.8e-3, -2.0e-3, 0.0, 0.0, 12.0e-3, 12.0e-3, 0.0,
     ];
     const dynamic_viscosity_nist_B: f64 = 110.4; // Sutherland constant in the USSA model - documented wrong in the atmosphere document (NASA wrong, never) but in here it is 110.4 -> (https://doi.org/10.6028/NBS.CIRC.564)
     const dynamic_viscosity_nist_A: f64 = 145.8 * 1e-7; // is a constant in the expression for dynamic viscosity in the USSA model -> (https://doi.org/10.6028/NBS.CIRC.564)
-- 
2.43.0


From 3c789c87136bdb92374471d05f317467b423a8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:12 +0000
Subject: [PATCH 22/33] fix: thermosphere temperatures of the standard
 atmosphere

Between 91 and 110 km the profile is an ellipse (a square root, not an
exponential), between 110 and 120 km it is linear, and the exponential
above starts from 360 K at 120 km (U.S. Standard Atmosphere, 1976).
---
 .../src/terrestrial/atmospheres/ussa.rs              | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/crates/aether_models/src/terrestrial/atmospheres/ussa.rs b/crates/aether_models/src/terrestrial/atmospheres/ussa.rs
index 8fb3c8f..fed272b 100644
--- a/crates/aether_models/src/terrestrial/atmospheres/ussa.rs
+++ b/crates/aether_models/src/terrestrial/atmospheres/ussa.rs
@@ -100,17 +100,21 @@ impl USSA {
                         + A * ((1.0
                             - ((geometric_height - Self::base_geometric_heights[base_index]) / a)
                                 .powf(2.0))
-                        .exp());
+                        .sqrt());
                     return Ok(temperature);
+                } else if geometric_height < 120000.0 {
+                    return Ok(Self::base_geometric_temperatures[base_index]
+                        + Self::base_lapse_rates[gradient_index]
+                            * (geometric_height - Self::base_geometric_heights[base_index]));
                 } else if geometric_height < 1000000.0 {
                     let t_inf = 1000.0;
                     let lambda = 0.01875;
-                    let eta = (geometric_height - Self::base_geometric_heights[9])
-                        * (Self::r_0 + Self::base_geometric_heights[9])
+                    let eta = (geometric_height - Self::base_geometric_heights[10])
+                        * (Self::r_0 + Self::base_geometric_heights[10])
                         / (Self::r_0 + geometric_height)
                         * 1e-3;
                     let expo = (-lambda * eta).exp();
-                    let temperature = t_inf - (t_inf - Self::base_geometric_temperatures[9]) * expo;
+                    let temperature = t_inf - (t_inf - Self::base_geometric_temperatures[10]) * expo;
                     return Ok(temperature);
                 } else {
                     return Ok(0.0);
-- 
2.43.0


From c558a13c1eb22424ee090232eec0d14e18b7e14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:40 +0000
Subject: [PATCH 23/33] fix: magnetic evaluation above degree 12 indexed past
 its tables

---
 crates/aether_catalogs/src/wmm/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/aether_catalogs/src/wmm/mod.rs b/crates/aether_catalogs/src/wmm/mod.rs
index 6eab05a..5902d43 100644
--- a/crates/aether_catalogs/src/wmm/mod.rs
+++ b/crates/aether_catalogs/src/wmm/mod.rs
@@ -265,7 +265,7 @@ impl WorldMagneticModel {
 		let mut y_prime_dot = 0.0;
 		let mut z_prime_dot = 0.0;
 
-		for degree in 1..=coefficients.max_degree {
+		for degree in 1..=coefficients.max_degree.min(WMM_MAX_DEGREE) {
 			let radial_scale = (wmm_reference_radius_m() / geocentric.radius_m).powi((degree + 2) as i32);
 			for order in 0..=degree {
 				let cos_term = cos_m_lambda[order];
-- 
2.43.0


From 2b25cc3cc21f5dcd050ded5cfc53f3301b5317dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:40 +0000
Subject: [PATCH 24/33] fix: grid variation at high latitudes is measured from
 the grid, not from true north

---
 crates/aether_catalogs/src/wmm/mod.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/crates/aether_catalogs/src/wmm/mod.rs b/crates/aether_catalogs/src/wmm/mod.rs
index 5902d43..bd161a8 100644
--- a/crates/aether_catalogs/src/wmm/mod.rs
+++ b/crates/aether_catalogs/src/wmm/mod.rs
@@ -328,7 +328,7 @@ impl WorldMagneticModel {
 			total_intensity_nt,
 			declination_rad,
 			inclination_rad,
-			grid_variation_rad: declination_rad,
+			grid_variation_rad: grid_variation(declination_rad, point),
 			horizontal_intensity_rate_nt_per_year,
 			total_intensity_rate_nt_per_year,
 			declination_rate_rad_per_year,
@@ -362,6 +362,19 @@ pub fn has_extracted_catalog() -> bool {
 	default_coefficients_path().is_some()
 }
 
+/// Grid variation: the declination relative to the polar grid beyond 55 degrees of latitude,
+/// where the grid is turned by the longitude; elsewhere the declination itself.
+fn grid_variation(declination_rad: f64, point: GeodeticPoint) -> f64 {
+	let limit = 55.0_f64.to_radians();
+	if point.latitude_rad > limit {
+		declination_rad - point.longitude_rad
+	} else if point.latitude_rad < -limit {
+		declination_rad + point.longitude_rad
+	} else {
+		declination_rad
+	}
+}
+
 fn geodetic_to_geocentric(point: GeodeticPoint) -> GeocentricPoint {
 	let sin_lat = point.latitude_rad.sin();
 	let cos_lat = point.latitude_rad.cos();
-- 
2.43.0


From 8d74dad1066598ef75a0dc9dff406459e506a901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:04 +0000
Subject: [PATCH 25/33] fix: catalog proper motion in right ascension includes
 cos(Dec)

---
 crates/aether_catalogs/src/star_catalogs/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/aether_catalogs/src/star_catalogs/mod.rs b/crates/aether_catalogs/src/star_catalogs/mod.rs
index 4d6bfd2..0ed958f 100644
--- a/crates/aether_catalogs/src/star_catalogs/mod.rs
+++ b/crates/aether_catalogs/src/star_catalogs/mod.rs
@@ -195,7 +195,10 @@ impl IcrsPropagator for GncRecord {
     fn icrs_sample(&self, epoch: f64) -> GncCatalogMotionSample {
         let dt = epoch - 2016.0;
 
-        let ra_deg = self.ra_2016 + (self.pmra.unwrap_or(0.0) as f64 * dt / 3_600_000.0);
+        // `pmra` is the motion along the parallel (it includes cos(Dec))
+        let cos_dec_2016 = self.de_2016.to_radians().cos();
+        let ra_deg = self.ra_2016
+            + (self.pmra.unwrap_or(0.0) as f64 * dt / 3_600_000.0 / cos_dec_2016);
         let dec_deg = self.de_2016 + (self.pmde.unwrap_or(0.0) as f64 * dt / 3_600_000.0);
 
         let ra_rad = ra_deg.to_radians();
-- 
2.43.0


From 698eef5583d1fd0f60843ac34a1338b2dd9a3fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:04 +0000
Subject: [PATCH 26/33] fix: catalog velocity is in AU per year, not km/s

---
 crates/aether_catalogs/src/star_catalogs/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/aether_catalogs/src/star_catalogs/mod.rs b/crates/aether_catalogs/src/star_catalogs/mod.rs
index 0ed958f..1cde185 100644
--- a/crates/aether_catalogs/src/star_catalogs/mod.rs
+++ b/crates/aether_catalogs/src/star_catalogs/mod.rs
@@ -226,7 +226,8 @@ impl IcrsPropagator for GncRecord {
         let velocity = match (self.plx, self.pmra, self.pmde) {
             (Some(plx), Some(pmra), Some(pmde)) if plx > 0.0 => {
                 let plx_mas = plx as f64;
-                let scale = 4.74047 / plx_mas;
+                // (mas/yr) / mas is AU/yr
+                let scale = 1.0 / plx_mas;
                 let mu_ra = pmra as f64;
                 let mu_de = pmde as f64;
 
-- 
2.43.0


From b8cc7c4e58ad26b262834cc8e52a7f216e2acb07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:08 +0000
Subject: [PATCH 27/33] fix: look_at mirrored the scene left to right

---
 crates/aether_graphics/src/graphics/transforms.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/aether_graphics/src/graphics/transforms.rs b/crates/aether_graphics/src/graphics/transforms.rs
index bdd3351..b487cd7 100644
--- a/crates/aether_graphics/src/graphics/transforms.rs
+++ b/crates/aether_graphics/src/graphics/transforms.rs
@@ -10,8 +10,8 @@ pub fn look_at<T: Real, F: ReferenceFrame>(
     up: &Cartesian<T, F>,
 ) -> Matrix<T, 4, 4> {
     let f = (center - eye).normalize().data;
-    let r = up.data.cross(&f).normalize();
-    let u = f.cross(&r);
+    let r = f.cross(&up.data).normalize();
+    let u = r.cross(&f);
 
     Matrix::new([
         [r[0], r[1], r[2], -r.dot(&eye.data)],
-- 
2.43.0


From d21b2bfda8a5a57ec928fe102a9a1df80ea5ff24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:08 +0000
Subject: [PATCH 28/33] fix: perspective matrix was transposed relative to the
 row-major view matrix

---
 crates/aether_graphics/src/graphics/transforms.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/aether_graphics/src/graphics/transforms.rs b/crates/aether_graphics/src/graphics/transforms.rs
index b487cd7..4ce91bb 100644
--- a/crates/aether_graphics/src/graphics/transforms.rs
+++ b/crates/aether_graphics/src/graphics/transforms.rs
@@ -33,13 +33,13 @@ pub fn perspective<T: Real>(aspect: T, fov_y_rad: T, near: T, far: T) -> Matrix<
         data: [
             [f / aspect, T::ZERO, T::ZERO, T::ZERO],
             [T::ZERO, f, T::ZERO, T::ZERO],
-            [T::ZERO, T::ZERO, (far + near) * nf, -T::ONE],
             [
                 T::ZERO,
                 T::ZERO,
+                (far + near) * nf,
                 (T::from_f32(2.0) * far * near) * nf,
-                T::ZERO,
             ],
+            [T::ZERO, T::ZERO, -T::ONE, T::ZERO],
         ],
     }
 }
-- 
2.43.0


From 771cb86bc3d284257873e5e4441c836bec275a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:08 +0000
Subject: [PATCH 29/33] fix: orbit camera turned against its yaw and composed
 its turns in the wrong order

---
 .../aether_graphics/src/cameras/orbit_camera.rs  | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/crates/aether_graphics/src/cameras/orbit_camera.rs b/crates/aether_graphics/src/cameras/orbit_camera.rs
index ed4d51c..f855428 100644
--- a/crates/aether_graphics/src/cameras/orbit_camera.rs
+++ b/crates/aether_graphics/src/cameras/orbit_camera.rs
@@ -14,6 +14,11 @@ impl<T: Real> ReferenceFrame for OpenGL<T> {}
 
 type CamQuat<T> = Quaternion<T, OpenGL<T>, Camera<T>>;
 
+/// Turns a world vector with the camera (the quaternions of this crate are passive).
+fn turn<T: Real>(q: &CamQuat<T>, v: &Vector<T, 3>) -> Vector<T, 3> {
+    q.conjugate().rotate_vec(v)
+}
+
 #[derive(Debug, Clone)]
 pub struct OrbitCamera<T: Real = f64> {
     pub target: Vector<T, 3>, // look-at point
@@ -59,7 +64,7 @@ impl<T: Real> OrbitCamera<T> {
 
         // Compute the post-yaw forward and right axis.
         let base_forward = Vector::new([T::ONE, T::ZERO, T::ZERO]);
-        let fwd = q_yaw.rotate_vec(&base_forward).normalize();
+        let fwd = turn(&q_yaw, &base_forward).normalize();
         let mut right = world_up.cross(&fwd);
         let n2 = right[0] * right[0] + right[1] * right[1] + right[2] * right[2];
         if n2 < T::from_f64(1.0e-16) {
@@ -67,7 +72,8 @@ impl<T: Real> OrbitCamera<T> {
         }
         right = right.normalize();
 
-        let q_pitch = CamQuat::<T>::from_axis_angle(right, pitch);
+        // a positive pitch raises the view: it turns about -(up x forward)
+        let q_pitch = CamQuat::<T>::from_axis_angle(right, -pitch);
         self.orientation = q_pitch.mul_hamilton_same(&q_yaw).normalized();
     }
 
@@ -90,14 +96,14 @@ impl<T: Real> OrbitCamera<T> {
         let tmp = q_yaw.mul_hamilton_same(&self.orientation).normalized();
 
         // 2) pitch about camera right after yaw
-        let fwd_tmp = tmp.rotate_vec(&base_forward).normalize();
+        let fwd_tmp = turn(&tmp, &base_forward).normalize();
         let mut right = world_up.cross(&fwd_tmp);
         let n2 = right[0] * right[0] + right[1] * right[1] + right[2] * right[2];
         if n2 < T::from_f64(1.0e-16) {
             right = Vector::new([T::ONE, T::ZERO, T::ZERO]).cross(&fwd_tmp);
         }
         right = right.normalize();
-        let q_pitch = CamQuat::<T>::from_axis_angle(right, dpitch);
+        let q_pitch = CamQuat::<T>::from_axis_angle(right, -dpitch);
 
         self.orientation = q_pitch.mul_hamilton_same(&tmp).normalized();
 
@@ -142,7 +148,7 @@ impl<T: Real> OrbitCamera<T> {
     #[inline]
     pub fn forward(&self) -> Vector<T, 3> {
         let base_forward = Vector::new([T::ONE, T::ZERO, T::ZERO]);
-        self.orientation.rotate_vec(&base_forward).normalize()
+        turn(&self.orientation, &base_forward).normalize()
     }
 
     #[inline]
-- 
2.43.0


From 8d370b3b15f48bfeed5d4686d0e4e5b99c4dc2fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:27 +0000
Subject: [PATCH 30/33] fix: elements already read leaked when decoding a
 matrix failed

---
 crates/aether_core/src/math/matrix.rs | 66 +++++++++++++++------------
 1 file changed, 36 insertions(+), 30 deletions(-)

diff --git a/crates/aether_core/src/math/matrix.rs b/crates/aether_core/src/math/matrix.rs
index aa7be51..0fdee32 100644
--- a/crates/aether_core/src/math/matrix.rs
+++ b/crates/aether_core/src/math/matrix.rs
@@ -1345,30 +1345,33 @@ where
                         let row_ptr = row.as_mut_ptr() as *mut T;
                         let mut inited = 0usize;
 
-                        for i in 0..N {
-                            match seq.next_element()? {
-                                Some(v) => {
-                                    unsafe { row_ptr.add(i).write(v) };
-                                    inited += 1;
-                                }
-                                None => {
-                                    unsafe {
-                                        for j in 0..inited {
-                                            ptr::drop_in_place(row_ptr.add(j));
-                                        }
+                        let filled = (|| {
+                            for i in 0..N {
+                                match seq.next_element()? {
+                                    Some(v) => {
+                                        unsafe { row_ptr.add(i).write(v) };
+                                        inited += 1;
+                                    }
+                                    None => {
+                                        return Err(serde::de::Error::invalid_length(i, &self));
                                     }
-                                    return Err(serde::de::Error::invalid_length(i, &self));
                                 }
                             }
-                        }
 
-                        if let Some(_) = seq.next_element::<serde::de::IgnoredAny>()? {
+                            if let Some(_) = seq.next_element::<serde::de::IgnoredAny>()? {
+                                return Err(serde::de::Error::invalid_length(N + 1, &self));
+                            }
+
+                            Ok(())
+                        })();
+
+                        if let Err(e) = filled {
                             unsafe {
                                 for j in 0..inited {
                                     ptr::drop_in_place(row_ptr.add(j));
                                 }
                             }
-                            return Err(serde::de::Error::invalid_length(N + 1, &self));
+                            return Err(e);
                         }
 
                         Ok(unsafe { row.assume_init() })
@@ -1400,30 +1403,33 @@ where
                 let out_ptr = out.as_mut_ptr() as *mut [T; N];
                 let mut inited = 0usize;
 
-                for i in 0..M {
-                    match seq.next_element_seed(RowSeed::<T, N>(PhantomData))? {
-                        Some(row) => {
-                            unsafe { out_ptr.add(i).write(row) };
-                            inited += 1;
-                        }
-                        None => {
-                            unsafe {
-                                for j in 0..inited {
-                                    ptr::drop_in_place(out_ptr.add(j));
-                                }
+                let filled = (|| {
+                    for i in 0..M {
+                        match seq.next_element_seed(RowSeed::<T, N>(PhantomData))? {
+                            Some(row) => {
+                                unsafe { out_ptr.add(i).write(row) };
+                                inited += 1;
+                            }
+                            None => {
+                                return Err(serde::de::Error::invalid_length(i, &self));
                             }
-                            return Err(serde::de::Error::invalid_length(i, &self));
                         }
                     }
-                }
 
-                if let Some(_) = seq.next_element::<serde::de::IgnoredAny>()? {
+                    if let Some(_) = seq.next_element::<serde::de::IgnoredAny>()? {
+                        return Err(serde::de::Error::invalid_length(M + 1, &self));
+                    }
+
+                    Ok(())
+                })();
+
+                if let Err(e) = filled {
                     unsafe {
                         for j in 0..inited {
                             ptr::drop_in_place(out_ptr.add(j));
                         }
                     }
-                    return Err(serde::de::Error::invalid_length(M + 1, &self));
+                    return Err(e);
                 }
 
                 Ok(Matrix { data: unsafe { out.assume_init() } })
-- 
2.43.0


From c1c084302b4555f01ef5d98abdeb6a8ec2171e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:34 +0000
Subject: [PATCH 31/33] fix: momentum of the stochastic descents was scaled by
 the learning rate, unlike the documented step

---
 crates/aether_opt/src/gradient_descent/stochastic.rs          | 2 +-
 crates/aether_opt/src/gradient_descent/stochastic_parallel.rs | 3 +--
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/crates/aether_opt/src/gradient_descent/stochastic.rs b/crates/aether_opt/src/gradient_descent/stochastic.rs
index 7e70b59..65dcdfd 100644
--- a/crates/aether_opt/src/gradient_descent/stochastic.rs
+++ b/crates/aether_opt/src/gradient_descent/stochastic.rs
@@ -226,7 +226,7 @@ impl<const N: usize> GDStochastic<N> {
             let alpha = self.lr_at(k);
             let mut x_next = x;
             for i in 0..N {
-                x_next[i] = x[i] + alpha * (-g[i] + self.momentum * v[i]);
+                x_next[i] = x[i] - alpha * g[i] + self.momentum * v[i];
             }
             x_next = self.project(x_next);
             for i in 0..N {
diff --git a/crates/aether_opt/src/gradient_descent/stochastic_parallel.rs b/crates/aether_opt/src/gradient_descent/stochastic_parallel.rs
index 59bfd8d..bb4a23f 100644
--- a/crates/aether_opt/src/gradient_descent/stochastic_parallel.rs
+++ b/crates/aether_opt/src/gradient_descent/stochastic_parallel.rs
@@ -307,8 +307,7 @@ impl<F: Real + Copy + Send, const N: usize> GDStochasticParallel<F, N> {
             let alpha = self.lr_at(k);
             let mut x_next = x;
             for i in 0..N {
-                let d_i = -g[i] + self.momentum * v[i];
-                x_next[i] = x[i] + alpha * d_i;
+                x_next[i] = x[i] - alpha * g[i] + self.momentum * v[i];
             }
             x_next = self.project(x_next);
 
-- 
2.43.0


From aaf280cd9abef0fd16b53fcbb19f7f34eab5ef2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:44 +0000
Subject: [PATCH 32/33] fix: single-precision integer powers without std were
 computed with a rounded exponent

powf(x, n as f32) loses the parity of exponents above 2^24, so (-1)^16777217 was 1.
---
 crates/aether_core/src/real/no_std_impl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/aether_core/src/real/no_std_impl.rs b/crates/aether_core/src/real/no_std_impl.rs
index 3fad5b4..6d6b7c7 100644
--- a/crates/aether_core/src/real/no_std_impl.rs
+++ b/crates/aether_core/src/real/no_std_impl.rs
@@ -38,7 +38,7 @@ impl Real for f32 {
     #[inline] fn ln(self) -> Self { libm::logf(self) }
     #[inline] fn log2(self) -> Self { libm::log2f(self) }
     #[inline] fn log10(self) -> Self { libm::log10f(self) }
-    #[inline] fn powi(self, n: i32) -> Self { libm::powf(self, n as f32) }
+    #[inline] fn powi(self, n: i32) -> Self { libm::pow(self as f64, n as f64) as f32 }
     #[inline] fn powf(self, n: Self) -> Self { libm::powf(self, n) }
     #[inline] fn to_degrees(self) -> Self { self * (180.0 / core::f32::consts::PI) }
     #[inline] fn to_radians(self) -> Self { self * (core::f32::consts::PI / 180.0) }
-- 
2.43.0


From cab9dd592fb67baa824baa9bf8ad6b60ed6d6807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:44 +0000
Subject: [PATCH 33/33] fix: elementary functions of f16 recursed without end
 in builds without std

core has no inherent sin, exp, ... for f16, so the trait method called itself; they are
computed in single precision and rounded, as std does.
---
 crates/aether_core/src/real/real.rs | 31 +++++++++++++++--------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/crates/aether_core/src/real/real.rs b/crates/aether_core/src/real/real.rs
index df59015..6e2f728 100644
--- a/crates/aether_core/src/real/real.rs
+++ b/crates/aether_core/src/real/real.rs
@@ -93,23 +93,24 @@ impl Real for f16 {
 
     #[inline] fn sqrt(self) -> Self { self.sqrt() }
 
-    #[inline] fn sin(self) -> Self { self.sin() }
-    #[inline] fn cos(self) -> Self { self.cos() }
-    #[inline] fn tan(self) -> Self { self.tan() }
-
-    #[inline] fn asin(self) -> Self { self.asin() }
-    #[inline] fn acos(self) -> Self { self.acos() }
-    #[inline] fn atan(self) -> Self { self.atan() }
-    #[inline] fn atan2(self, other: Self) -> Self { self.atan2(other) }
-
-    #[inline] fn exp(self) -> Self { self.exp() }
-    #[inline] fn exp2(self) -> Self { self.exp2() }
-    #[inline] fn ln(self) -> Self { self.ln() }
-    #[inline] fn log2(self) -> Self { self.log2() }
-    #[inline] fn log10(self) -> Self { self.log10() }
+    // core has no elementary functions for f16, only std does: they are those of f32, rounded
+    #[inline] fn sin(self) -> Self { Real::sin(self as f32) as f16 }
+    #[inline] fn cos(self) -> Self { Real::cos(self as f32) as f16 }
+    #[inline] fn tan(self) -> Self { Real::tan(self as f32) as f16 }
+
+    #[inline] fn asin(self) -> Self { Real::asin(self as f32) as f16 }
+    #[inline] fn acos(self) -> Self { Real::acos(self as f32) as f16 }
+    #[inline] fn atan(self) -> Self { Real::atan(self as f32) as f16 }
+    #[inline] fn atan2(self, other: Self) -> Self { Real::atan2(self as f32, other as f32) as f16 }
+
+    #[inline] fn exp(self) -> Self { Real::exp(self as f32) as f16 }
+    #[inline] fn exp2(self) -> Self { Real::exp2(self as f32) as f16 }
+    #[inline] fn ln(self) -> Self { Real::ln(self as f32) as f16 }
+    #[inline] fn log2(self) -> Self { Real::log2(self as f32) as f16 }
+    #[inline] fn log10(self) -> Self { Real::log10(self as f32) as f16 }
 
     #[inline] fn powi(self, n: i32) -> Self { self.powi(n) }
-    #[inline] fn powf(self, n: Self) -> Self { self.powf(n) }
+    #[inline] fn powf(self, n: Self) -> Self { Real::powf(self as f32, n as f32) as f16 }
 
     #[inline] fn to_degrees(self) -> Self { self.to_degrees() }
     #[inline] fn to_radians(self) -> Self { self.to_radians() }
-- 
2.43.0

