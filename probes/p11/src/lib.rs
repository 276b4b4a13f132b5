#![allow(dead_code, unused)]
#[macro_use]
#[path = "../prelude.rs"]
mod prelude;
use aether_time::time::*;
use core::cmp::Ordering;
use prelude::*;

const G: i64 = 1_000_000_000;
type D = (i64, i32);
fn canon(d: D) -> bool {
    d.1 >= 0 && d.1 < 1_000_000_000
}
fn du(s: i64, n: i32) -> Duration {
    Duration { sec: s, nano_sec: n }
}
/// total nanoseconds, modulo 2^64
fn tot(s: i64, n: i32) -> i64 {
    s.wrapping_mul(G).wrapping_add(n as i64)
}
/// (total, is the sub-second part in 0..1e9)
fn obs(d: Duration) -> (i64, bool) {
    (tot(d.sec, d.nano_sec), canon((d.sec, d.nano_sec)))
}
fn obt<T>(d: Time<T>) -> (i64, bool) {
    (tot(d.sec, d.nano_sec), canon((d.sec, d.nano_sec)))
}
fn far(s: i64) -> bool {
    s > -4_000_000_000_000_000_000 && s < 4_000_000_000_000_000_000
}

// ------------------------------------------------------------------ C11 durations and instants
ob!("C11", "zero", () -> (i64, i32), { let d = Duration::zero(); (d.sec, d.nano_sec) } == { (0, 0) });
ob!("C11", "from_secs", (s: i64) -> (i64, i32), { let d = Duration::from_secs(s); (d.sec, d.nano_sec) } == { (s, 0) });
ob!("C11", "from_nanos", (ns: i64) -> (i64, bool), { obs(Duration::from_nanos(ns)) } == { (ns, true) });
ob!("C11", "from_nanos_i64", (ns: i64) -> (i64, bool), { obs(Duration::from_nanos_i64(ns)) } == { (ns, true) });
ob!("C11", "from_micros", (us: i64) -> (i64, bool), { obs(Duration::from_micros(us)) } == { (us.wrapping_mul(1000), true) });
ob!("C11", "from_millis", (ms: i64) -> (i64, bool), { obs(Duration::from_millis(ms)) } == { (ms.wrapping_mul(1_000_000), true) });
ob!("C11", "normalize", (s: i64, n: i32) -> (i64, bool), { assume(far(s)); obs(du(s, n).normalize()) } == { (tot(s, n), true) });
ob!("C11", "add", (s: i64, n: i32, u: i64, m: i32) -> (i64, bool), { assume(canon((s, n)) && canon((u, m)) && far(s) && far(u)); obs(du(s, n) + du(u, m)) } == { (tot(s, n).wrapping_add(tot(u, m)), true) });
ob!("C11", "sub", (s: i64, n: i32, u: i64, m: i32) -> (i64, bool), { assume(canon((s, n)) && canon((u, m)) && far(s) && far(u)); obs(du(s, n) - du(u, m)) } == { (tot(s, n).wrapping_sub(tot(u, m)), true) });
ob!("C11", "time_add", (s: i64, n: i32, u: i64, m: i32) -> (i64, bool), { assume(canon((s, n)) && canon((u, m)) && far(s) && far(u)); obt(Time::<TAI>::new(s, n) + du(u, m)) } == { (tot(s, n).wrapping_add(tot(u, m)), true) });
ob!("C11", "time_add_negative_part", (s: i64, n: i32, u: i64, m: i32) -> (i64, bool), { assume(canon((s, n)) && m > -1_000_000_000 && m < 0 && far(s) && far(u)); obt(Time::<TAI>::new(s, n) + du(u, m)) } == { (tot(s, n).wrapping_add(tot(u, m)), true) });
ob!("C11", "time_add_ref", (s: i64, n: i32, u: i64, m: i32) -> (i64, bool), { assume(canon((s, n)) && canon((u, m)) && far(s) && far(u)); obt(&Time::<TAI>::new(s, n) + du(u, m)) } == { (tot(s, n).wrapping_add(tot(u, m)), true) });
ob!("C11", "time_add_ref_negative_part", (s: i64, n: i32, u: i64, m: i32) -> (i64, bool), { assume(canon((s, n)) && m > -1_000_000_000 && m < 0 && far(s) && far(u)); obt(&Time::<TAI>::new(s, n) + du(u, m)) } == { (tot(s, n).wrapping_add(tot(u, m)), true) });
ob!("C11", "time_sub", (s: i64, n: i32, u: i64, m: i32) -> (i64, bool), { assume(canon((s, n)) && canon((u, m)) && far(s) && far(u)); obs(Time::<UTC>::new(s, n) - Time::<UTC>::new(u, m)) } == { (tot(s, n).wrapping_sub(tot(u, m)), true) });
ob!("C11", "time_sub_ref", (s: i64, n: i32, u: i64, m: i32) -> (i64, bool), { assume(canon((s, n)) && canon((u, m)) && far(s) && far(u)); obs(&Time::<UTC>::new(s, n) - &Time::<UTC>::new(u, m)) } == { (tot(s, n).wrapping_sub(tot(u, m)), true) });
ob!("C11", "sub_then_add", (s: i64, n: i32, u: i64, m: i32) -> (i64, i32), { assume(canon((s, n)) && canon((u, m)) && far(s) && far(u)); let a = Time::<GPS>::new(s, n); let b = Time::<GPS>::new(u, m); let c = b + (a - b); (c.sec, c.nano_sec) } == { (s, n) });
ob!("C11", "add_then_sub", (s: i64, n: i32, u: i64, m: i32) -> (i64, i32), { assume(canon((s, n)) && canon((u, m)) && far(s) && far(u)); let a = Time::<GPS>::new(s, n); let c = (a + du(u, m)) - a; (c.sec, c.nano_sec) } == { (u, m) });
fn code(o: Ordering) -> i32 {
    match o { Ordering::Less => -1, Ordering::Equal => 0, Ordering::Greater => 1 }
}
fn lex(s: i64, n: i32, u: i64, m: i32) -> i32 {
    if s < u { -1 } else if s > u { 1 } else if n < m { -1 } else if n > m { 1 } else { 0 }
}
ob!("C11", "cmp", (s: i64, n: i32, u: i64, m: i32) -> i32, { code(du(s, n).cmp(&du(u, m))) } == { lex(s, n, u, m) });
ob!("C11", "time_cmp", (s: i64, n: i32, u: i64, m: i32) -> i32, { code(Time::<TAI>::new(s, n).cmp(&Time::<TAI>::new(u, m))) } == { lex(s, n, u, m) });
ob!("C11", "partial_cmp", (s: i64, n: i32, u: i64, m: i32) -> i32, { code(du(s, n).partial_cmp(&du(u, m)).unwrap()) } == { lex(s, n, u, m) });
ob!("C11", "time_partial_cmp", (s: i64, n: i32, u: i64, m: i32) -> i32, { code(Time::<TAI>::new(s, n).partial_cmp(&Time::<TAI>::new(u, m)).unwrap()) } == { lex(s, n, u, m) });
ob!("C11", "eq", (s: i64, n: i32, u: i64, m: i32) -> bool, { du(s, n) == du(u, m) } == { s == u && n == m });
ob!("C11", "time_eq", (s: i64, n: i32, u: i64, m: i32) -> bool, { Time::<UTC>::new(s, n) == Time::<UTC>::new(u, m) } == { s == u && n == m });
ob!("C11", "eq_is_equal_length", (a: i64, b: i64) -> bool, { Duration::from_nanos(a) == Duration::from_nanos(b) } == { a == b });

// ------------------------------------------------------------------ C12 time scales and clocks
ob!("C12", "offset_default", () -> i32, { tai_minus_utc() } == { 37 });
ob!("C12", "offset", (l: i32) -> i32, { set_leap_seconds(l); tai_minus_utc() } == { 10i32.wrapping_add(l) });
fn small(l: i32) -> bool {
    l >= -1000 && l <= 1000
}
ob!("C12", "unix_utc", (s: i64, n: i32) -> (i64, i32), { let t = Time::<Unix>::new(s, n).to_utc(); (t.sec, t.nano_sec) } == { (s, n) });
ob!("C12", "utc_unix", (s: i64, n: i32) -> (i64, i32), { let t = Time::<UTC>::new(s, n).to_unix(); (t.sec, t.nano_sec) } == { (s, n) });
ob!("C12", "utc_tai", (l: i32, s: i64, n: i32) -> (i64, i32), { assume(small(l)); set_leap_seconds(l); let t = Time::<UTC>::new(s, n).to_tai(); (t.sec, t.nano_sec) } == { (s.wrapping_add(10).wrapping_add(l as i64), n) });
ob!("C12", "tai_utc", (l: i32, s: i64, n: i32) -> (i64, i32), { assume(small(l)); set_leap_seconds(l); let t = Time::<TAI>::new(s, n).to_utc(); (t.sec, t.nano_sec) } == { (s.wrapping_sub(10).wrapping_sub(l as i64), n) });
// GPS counts from 1980-01-06 and runs 19 s behind TAI whatever the leap seconds
ob!("C12", "tai_gps", (l: i32, s: i64, n: i32) -> (i64, i32), { assume(small(l)); set_leap_seconds(l); let t = Time::<TAI>::new(s, n).to_gps(); (t.sec, t.nano_sec) } == { (s.wrapping_sub(315_964_800 + 19), n) });
ob!("C12", "gps_tai", (l: i32, s: i64, n: i32) -> (i64, i32), { assume(small(l)); set_leap_seconds(l); let t = Time::<GPS>::new(s, n).to_tai(); (t.sec, t.nano_sec) } == { (s.wrapping_add(315_964_800 + 19), n) });
ob!("C12", "utc_gps", (l: i32, s: i64, n: i32) -> (i64, i32), { assume(small(l)); set_leap_seconds(l); let t = Time::<UTC>::new(s, n).to_gps(); (t.sec, t.nano_sec) } == { (s.wrapping_sub(315_964_800 + 9).wrapping_add(l as i64), n) });
ob!("C12", "gps_utc", (l: i32, s: i64, n: i32) -> (i64, i32), { assume(small(l)); set_leap_seconds(l); let t = Time::<GPS>::new(s, n).to_utc(); (t.sec, t.nano_sec) } == { (s.wrapping_add(315_964_800 + 9).wrapping_sub(l as i64), n) });
ob!("C12", "epoch_tai", (s: i64, n: i32) -> (i64, i32), { let t = MissionEpoch::new_tai(Time::new(s, n)).start(); (t.sec, t.nano_sec) } == { (s, n) });
ob!("C12", "epoch_utc", (l: i32, s: i64, n: i32) -> (i64, i32), { assume(small(l)); set_leap_seconds(l); let t = MissionEpoch::new_utc(Time::new(s, n)).start(); (t.sec, t.nano_sec) } == { (s.wrapping_add(10).wrapping_add(l as i64), n) });
// elapsed ticks to time: whole seconds and truncated nanoseconds, across counter wrap-around
fn ticks(dt: u64, r: u64) -> (i64, i32) {
    ((dt / r) as i64, (((dt % r) as u128 * 1_000_000_000u128) / r as u128) as i32)
}
fn ep(s: i64, n: i32) -> MissionEpoch {
    MissionEpoch::new_tai(Time::new(s, n))
}
ob!("C12", "t_plus", (t0: u64, r: u64, now: u64) -> (i64, i32), { let t = TimeKeeper::<TAI>::new(ep(0, 0), t0, r).t_plus(now); (t.sec, t.nano_sec) } == { ticks(now.wrapping_sub(t0), r) });
ob!("C12", "epoch_t_plus", (t0: u64, r: u64, now: u64) -> (i64, i32), { let t = Epoch::<UTC>::new(ep(0, 0), t0, r).t_plus(now); (t.sec, t.nano_sec) } == { ticks(now.wrapping_sub(t0), r) });
ob!("C12", "epoch_mission", (s: i64, n: i32) -> (i64, i32), { let t = Epoch::<UTC>::new(ep(s, n), 0, 1).mission().start(); (t.sec, t.nano_sec) } == { (s, n) });
ob!("C12", "dt_ticks", (r: u64, last: &mut u64, now: u64) -> (i64, i32), { let d = TimeKeeper::<TAI>::new(ep(0, 0), 7, r).dt_from_ticks(last, now); (d.sec, d.nano_sec) } == { let d = ticks(now.wrapping_sub(*last), r); *last = now; d });
ob!("C12", "now_tai", (s: i64, n: i32, t0: u64, now: u64) -> (i64, bool), { assume(canon((s, n)) && far(s)); obt(TimeKeeper::<TAI>::new(ep(s, n), t0, 1_000_000).now_tai(now)) } == { let (a, b) = ticks(now.wrapping_sub(t0), 1_000_000); (tot(s, n).wrapping_add(tot(a, b)), true) });
ob!("C12", "now_utc", (l: i32, s: i64, n: i32, t0: u64, now: u64) -> (i64, i32), { assume(small(l)); set_leap_seconds(l); let t = TimeKeeper::<UTC>::new(ep(s, n), t0, 1000).now_utc(now); (t.sec, t.nano_sec) } == { let t = TimeKeeper::<UTC>::new(ep(s, n), t0, 1000).now_tai(now); (t.sec.wrapping_sub(10).wrapping_sub(l as i64), t.nano_sec) });
ob!("C12", "now_gps", (l: i32, s: i64, n: i32, t0: u64, now: u64) -> (i64, i32), { assume(small(l)); set_leap_seconds(l); let t = TimeKeeper::<GPS>::new(ep(s, n), t0, 1000).now_gps(now); (t.sec, t.nano_sec) } == { let t = TimeKeeper::<GPS>::new(ep(s, n), t0, 1000).now_tai(now); (t.sec.wrapping_sub(315_964_800 + 19), t.nano_sec) });
// GPS week: second of week, week modulo 1024, and the candidate closest to the hint
ob!("C12", "gps_sow", (s: i64, n: i32, h: u32) -> (i64, i64), { assume(s >= 0); let w = Time::<GPS>::new(s, n).to_gps_week(h); (w.sow, w.raw_week as i64) } == { (s % 604_800, s / 604_800 % 1024) });
ob!("C12", "gps_sow_before", (s: i64, n: i32, h: u32) -> (i64, i64), { assume(s < 0 && far(s)); let w = Time::<GPS>::new(s, n).to_gps_week(h); (w.sow, w.raw_week as i64) } == { (s.rem_euclid(604_800), s.div_euclid(604_800).rem_euclid(1024)) });
ob!("C12", "gps_full", (s: i64, n: i32, h: u32) -> u32, { assume(s >= 0); Time::<GPS>::new(s, n).to_gps_week(h).full_week } == {
    let raw = s / 604_800 % 1024;
    let h = h as i64;
    let f = h / 1024 * 1024 + raw;
    let d = f - h;
    (if d < -512 { f + 1024 } else if d > 512 && f >= 1024 { f - 1024 } else { f }) as u32
});

// ------------------------------------------------------------------ C13 calendar
fn civil(doe: i64) -> (i64, i64, i64) {
    // day of a Gregorian cycle that starts on 1 March
    let yoe = (doe - doe / 1_460 + doe / 36_524 - doe / 146_096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let d = doy - (153 * mp + 2) / 5 + 1;
    let m = if mp < 10 { mp + 3 } else { mp - 9 };
    (yoe + if m <= 2 { 1 } else { 0 }, m, d)
}
fn days(y: i64, m: i64, d: i64) -> i64 {
    let (y, m) = if m <= 2 { (y - 1, m + 12) } else { (y, m) };
    let era = y.div_euclid(400);
    let yoe = y.rem_euclid(400);
    let doy = (153 * (m - 3) + 2) / 5 + d - 1;
    era * 146_097 + yoe * 365 + yoe / 4 - yoe / 100 + doy - 719_468
}
fn ok_secs(s: i64) -> bool {
    s > -60_000_000_000_000_000 && s < 60_000_000_000_000_000
}
ob!("C13", "clock_fields", (s: i64, n: i32) -> (i64, i32), {
    assume(ok_secs(s));
    let t = Time::<UTC>::new(s, n).to_utc_datetime();
    (t.hour as i64 * 3600 + t.minute as i64 * 60 + t.second as i64, t.nanos)
} == { (s.rem_euclid(86_400), n) });
ob!("C13", "clock_hms", (s: i64, n: i32) -> [i64; 3], {
    assume(ok_secs(s));
    let t = Time::<UTC>::new(s, n).to_utc_datetime();
    [t.hour as i64, t.minute as i64, t.second as i64]
} == { let m = s.div_euclid(60); let h = m.div_euclid(60); [h.rem_euclid(24), m.rem_euclid(60), s.rem_euclid(60)] });
// one Gregorian cycle at a time: era k covers [k*400-03-01, (k+1)*400-03-01)
macro_rules! era {
    ($y:literal, $m:literal, $d:literal, $k:expr) => {
        ob!("C13", $y, (r: i64) -> i64, {
            assume(r >= 0 && r < 146_097 * 86_400);
            Time::<UTC>::new(r + ($k * 146_097 - 719_468) * 86_400, 0).to_utc_datetime().year as i64
        } == { let (y, m, d) = civil(r / 60 / 60 / 24); y + 400 * $k });
        ob!("C13", $m, (r: i64) -> i64, {
            assume(r >= 0 && r < 146_097 * 86_400);
            Time::<UTC>::new(r + ($k * 146_097 - 719_468) * 86_400, 0).to_utc_datetime().month as i64
        } == { let (y, m, d) = civil(r / 60 / 60 / 24); m });
        ob!("C13", $d, (r: i64) -> i64, {
            assume(r >= 0 && r < 146_097 * 86_400);
            Time::<UTC>::new(r + ($k * 146_097 - 719_468) * 86_400, 0).to_utc_datetime().day as i64
        } == { let (y, m, d) = civil(r / 60 / 60 / 24); d as u8 as i64 });
    };
}
era!("year_1600", "month_1600", "day_1600", 4);
era!("year_2000", "month_2000", "day_2000", 5);
era!("year_0", "month_0", "day_0", 0);
era!("year_b400", "month_b400", "day_b400", -1);
era!("year_400", "month_400", "day_400", 1);
era!("year_800", "month_800", "day_800", 2);
era!("year_1200", "month_1200", "day_1200", 3);
era!("year_2400", "month_2400", "day_2400", 6);
era!("year_9600", "month_9600", "day_9600", 24);
era!("year_10000", "month_10000", "day_10000", 25);
era!("year_million", "month_million", "day_million", 2500);
era!("year_last", "month_last", "day_last", 5368707);
era!("year_b800", "month_b800", "day_b800", -2);
era!("year_b4800", "month_b4800", "day_b4800", -12);
era!("year_b_million", "month_b_million", "day_b_million", -2500);
era!("year_first", "month_first", "day_first", -5368708);
ob!("C13", "from_date", (y: i32, m: u8, d: u8, h: u8, mi: u8, s: u8, n: i32) -> (i64, i32), {
    assume(m >= 1 && m <= 12);
    let t = Time::<UTC>::from_utc_datetime(UtcDateTime::new(y, m, d, h, mi, s, n));
    (t.sec, t.nano_sec)
} == { (days(y as i64, m as i64, d as i64) * 86_400 + h as i64 * 3600 + mi as i64 * 60 + s as i64, n) });
ob!("C13", "new_fields", (y: i32, m: u8, d: u8, h: u8, mi: u8, s: u8, n: i32) -> (i32, i32, i32), {
    let t = UtcDateTime::new(y, m, d, h, mi, s, n);
    (t.year, (t.month as i32) << 16 | (t.day as i32) << 8 | t.hour as i32, (t.minute as i32) << 8 | t.second as i32)
} == { (y, (m as i32) << 16 | (d as i32) << 8 | h as i32, (mi as i32) << 8 | s as i32) });

// ------------------------------------------------------------------ C14 timers, alarms, schedules
fn u(s: i64, n: i32) -> Time<UTC> {
    Time::<UTC>::new(s, n)
}
fn ge(a: D, b: D) -> bool {
    lex(a.0, a.1, b.0, b.1) >= 0
}
fn mask(b: [bool; 3]) -> u32 {
    b[0] as u32 | (b[1] as u32) << 1 | (b[2] as u32) << 2
}
ob!("C14", "alarm_once", (t: &[(i64, i32); 4]) -> [u32; 2], {
    let mut a = UtcAlarm::new(u(t[0].0, t[0].1));
    let before = a.is_done();
    let f = [a.check(u(t[1].0, t[1].1)), a.check(u(t[2].0, t[2].1)), a.check(u(t[3].0, t[3].1))];
    [mask(f), before as u32 | (a.is_done() as u32) << 1]
} == {
    let g = [ge(t[1], t[0]), ge(t[2], t[0]), ge(t[3], t[0])];
    let first = if g[0] { 1 } else if g[1] { 2 } else if g[2] { 4 } else { 0 };
    [first, if first != 0 { 2 } else { 0 }]
});
ob!("C14", "once", (t: &[(i64, i32); 4]) -> u32, {
    assume(canon(t[1]) && canon(t[2]) && canon(t[3]) && far(t[1].0) && far(t[2].0) && far(t[3].0));
    let mut a = UtcSchedule::new(u(t[0].0, t[0].1), Recurrence::Once);
    mask([a.check(u(t[1].0, t[1].1)), a.check(u(t[2].0, t[2].1)), a.check(u(t[3].0, t[3].1))])
} == {
    if ge(t[1], t[0]) { 1 } else if ge(t[2], t[0]) { 2 } else if ge(t[3], t[0]) { 4 } else { 0 }
});
// the next occurrence: the first matching second strictly after the reference
fn next(after: i64, period: i64, offset: i64) -> i64 {
    let t = after.div_euclid(period) * period + offset;
    if t <= after { t + period } else { t }
}
ob!("C14", "hourly_new", (s: i64, n: i32, m: u8, se: u8) -> (i64, i32), {
    assume(ok_secs(s) && m < 60 && se < 60);
    let a = UtcSchedule::new(u(s, n), Recurrence::Hourly { minute: m, second: se }).next_fire();
    (a.sec, a.nano_sec)
} == { (next(s, 3600, m as i64 * 60 + se as i64), 0) });
ob!("C14", "daily_new", (s: i64, n: i32, h: u8, m: u8, se: u8) -> (i64, i32), {
    assume(ok_secs(s) && h < 24 && m < 60 && se < 60);
    let a = UtcSchedule::new(u(s, n), Recurrence::Daily { hour: h, minute: m, second: se }).next_fire();
    (a.sec, a.nano_sec)
} == { (next(s, 86_400, h as i64 * 3600 + m as i64 * 60 + se as i64), 0) });
ob!("C14", "hourly_check", (s: i64, n: i32, m: u8, se: u8, now: i64, nn: i32) -> (i64, i32), {
    assume(ok_secs(s) && ok_secs(now) && canon((now, nn)) && m < 60 && se < 60);
    let mut a = UtcSchedule::new(u(s, n), Recurrence::Hourly { minute: m, second: se });
    let f = a.check(u(now, nn));
    (a.next_fire().sec, f as i32)
} == {
    let o = m as i64 * 60 + se as i64;
    let t = next(s, 3600, o);
    if now < t { (t, 0) } else { (next(now, 3600, o), 1) }
});
ob!("C14", "daily_check", (s: i64, n: i32, h: u8, m: u8, se: u8, now: i64, nn: i32) -> (i64, i32), {
    assume(ok_secs(s) && ok_secs(now) && canon((now, nn)) && h < 24 && m < 60 && se < 60);
    let mut a = UtcSchedule::new(u(s, n), Recurrence::Daily { hour: h, minute: m, second: se });
    let f = a.check(u(now, nn));
    (a.next_fire().sec, f as i32)
} == {
    let o = h as i64 * 3600 + m as i64 * 60 + se as i64;
    let t = next(s, 86_400, o);
    if now < t { (t, 0) } else { (next(now, 86_400, o), 1) }
});
ob!("C14", "interval_new", (s: i64, n: i32, p: i64, q: i32) -> (i64, bool), {
    assume(canon((s, n)) && canon((p, q)) && far(s) && far(p));
    obt(UtcSchedule::new(u(s, n), Recurrence::Interval(du(p, q))).next_fire())
} == { (tot(s, n).wrapping_add(tot(p, q)), true) });
ob!("C14", "interval_not_due", (s: i64, p: i64, now: i64) -> (i64, bool), {
    assume(ok_secs(s) && p >= 1 && p < 1_000_000 && now >= s && now < s + p);
    let mut a = UtcSchedule::new(u(s, 0), Recurrence::Interval(du(p, 0)));
    let f = a.check(u(now, 0));
    (a.next_fire().sec, f)
} == { (s + p, false) });
ob!("C14", "interval_due", (s: i64, p: i64, now: i64) -> (i64, bool), {
    assume(ok_secs(s) && p >= 1 && p < 1_000_000 && now >= s + p && now < s + 2 * p);
    let mut a = UtcSchedule::new(u(s, 0), Recurrence::Interval(du(p, 0)));
    let f = a.check(u(now, 0));
    (a.next_fire().sec, f)
} == { (s + 2 * p, true) });
ob!("C14", "interval_late", (s: i64, p: i64, now: i64) -> (i64, bool), {
    assume(ok_secs(s) && p >= 1 && p < 1_000_000 && now >= s + 2 * p && now < s + 3 * p);
    let mut a = UtcSchedule::new(u(s, 0), Recurrence::Interval(du(p, 0)));
    let f = a.check(u(now, 0));
    (a.next_fire().sec, f)
} == { (s + 3 * p, true) });
// a period that is not positive must not hang the caller
ob!("C14", "interval_degenerate", (s: i64, p: i64, now: i64) -> bool, {
    assume(ok_secs(s) && p <= 0 && p > -1_000_000 && now >= s + p);
    UtcSchedule::new(u(s, 0), Recurrence::Interval(du(p, 0))).check(u(now, 0))
} == { true });
ob!("C14", "timer_degenerate", (p: i64, dt: i64) -> bool, {
    assume(p <= 0 && p > -1_000_000 && dt >= 0 && dt < 1_000_000);
    TimerEvent::new(du(p, 0)).step(du(dt, 0))
} == { true });
ob!("C14", "timer_first", (p: i64, q: i32, s: i64, n: i32) -> bool, {
    assume(canon((p, q)) && canon((s, n)) && far(p) && far(s) && p >= 1 && s >= 0 && s < p + p - 1);
    TimerEvent::new(du(p, q)).step(du(s, n))
} == { ge((s, n), (p, q)) });
// overshoot is carried over: after firing once the timer is due again at the second multiple of the period
ob!("C14", "timer_carry", (p: i64, a: i64, b: i64) -> u32, {
    assume(p >= 1 && p < 1_000_000 && a >= 0 && a < p && b >= 0 && b < p);
    let mut t = TimerEvent::new(du(p, 0));
    mask([t.step(du(a, 0)), t.step(du(b, 0)), false])
} == { if a + b >= p { 2 } else { 0 } });
ob!("C14", "timer_carry2", (p: i64, a: i64, b: i64) -> u32, {
    assume(p >= 1 && p < 1_000_000 && a >= p && a < p + p && b >= 0 && b < p);
    let mut t = TimerEvent::new(du(p, 0));
    mask([t.step(du(a, 0)), t.step(du(b, 0)), false])
} == { if a + b >= p + p { 3 } else { 1 } });
ob!("C14", "timer_set", (p: &[i64; 3], dt: i64) -> u32, {
    assume(dt >= 0 && dt < 1_000_000);
    assume(p[0] >= 1 && p[0] < 1_000_000 && p[1] >= 1 && p[1] < 1_000_000 && p[2] >= 1 && p[2] < 1_000_000);
    assume(dt < p[0] + p[0] && dt < p[1] + p[1] && dt < p[2] + p[2]);
    let mut t = TimerSet::<3>::new([du(p[0], 0), du(p[1], 0), du(p[2], 0)]);
    mask(t.step(du(dt, 0)))
} == { mask([dt >= p[0], dt >= p[1], dt >= p[2]]) });
ob!("C14", "timer_set_event", (i: usize, dt: i64) -> u32, {
    assume(dt >= 0 && dt < 10);
    let mut t = TimerSet::<2>::new([du(5, 0), du(7, 0)]);
    match t.event_mut(i) { None => 2, Some(e) => e.step(du(dt, 0)) as u32 }
} == { if i == 0 { (dt >= 5) as u32 } else if i == 1 { (dt >= 7) as u32 } else { 2 } });
ob!("C14", "yearly_new", (s: i64, m: u8, d: u8, h: u8) -> (i64, i32), {
    assume(ok_secs(s) && m >= 1 && m <= 12 && d >= 1 && d <= 28 && h < 24);
    let a = UtcSchedule::new(u(s, 0), Recurrence::Yearly { month: m, day: d, hour: h, minute: 0, second: 0 }).next_fire();
    (a.sec, a.nano_sec)
} == {
    let y = u(s, 0).to_utc_datetime().year;
    let a = Time::<UTC>::from_utc_datetime(UtcDateTime::new(y, m, d, h, 0, 0, 0));
    if a.sec > s { (a.sec, 0) } else { (Time::<UTC>::from_utc_datetime(UtcDateTime::new(y + 1, m, d, h, 0, 0, 0)).sec, 0) }
});

// ---- longer histories
fn bits<const K: usize>(b: [bool; K]) -> u32 { let mut m = 0; for i in 0..K { m |= (b[i] as u32) << i; } m }
ob!("C14", "alarm_nine_checks", (t: &[i64; 10]) -> u32, {
    let mut a = UtcAlarm::new(u(t[0], 0));
    bits::<9>(core::array::from_fn(|i| a.check(u(t[i + 1], 0))))
} == { let mut done = false; bits::<9>(core::array::from_fn(|i| { let g = t[i + 1] >= t[0] && !done; if g { done = true; } g })) });
ob!("C14", "yearly_new_full", (s: i64, n: i32, m: u8, d: u8, h: u8, mi: u8, se: u8) -> (i64, i32), {
    assume(ok_secs(s) && canon((s, n)) && m >= 1 && m <= 12 && d >= 1 && d <= 28 && h < 24 && mi < 60 && se < 60);
    let a = UtcSchedule::new(u(s, n), Recurrence::Yearly { month: m, day: d, hour: h, minute: mi, second: se }).next_fire();
    (a.sec, a.nano_sec)
} == {
    let y = u(s, 0).to_utc_datetime().year;
    let a = Time::<UTC>::from_utc_datetime(UtcDateTime::new(y, m, d, h, mi, se, 0));
    if a.sec > s { (a.sec, 0) } else { (Time::<UTC>::from_utc_datetime(UtcDateTime::new(y + 1, m, d, h, mi, se, 0)).sec, 0) }
});
// fired at its own instants, the schedule moves on by one period each time and not in between
macro_rules! seq { ($($t:literal $p:literal),*) => { $(
ob!("C14", concat!("interval_sequence_", $t), (s: i32) -> (u32, i64), {
    let s = s as i64; let p = $p;
    let mut a = UtcSchedule::new(u(s, 0), Recurrence::Interval(du(p, 0)));
    let f = bits([a.check(u(s + p - 1, 0)), a.check(u(s + p, 0)), a.check(u(s + p, 0)), a.check(u(s + p + p, 0)), a.check(u(s + p + p + 1, 0)), a.check(u(s + 3 * p + 1, 0)), a.check(u(s + 4 * p, 0)), a.check(u(s + 4 * p + 1, 0)), a.check(u(s + 5 * p - 1, 0)), a.check(u(s + 7 * p, 0)), a.check(u(s + 8 * p - 1, 0)), a.check(u(s + 8 * p, 0))]);
    (f, a.next_fire().sec)
} == { (bits([false, true, false, true, false, true, true, false, false, true, false, true]), s as i64 + 9 * $p) });
)* } }
seq!("2" 2, "7" 7, "86400" 86_400);
ob!("C14", "interval_many", (s: i64, p: i64) -> (u32, i64), {
    assume(ok_secs(s) && p >= 1 && p < 1_000_000);
    let mut a = UtcSchedule::new(u(s, 0), Recurrence::Interval(du(p, 0)));
    let mut k = 0;
    for i in 1..40 { if a.check(u(s + p * i, 0)) { k += 1; } }
    (k, a.next_fire().sec)
} == { (39, s + 40 * p) });
ob!("C14", "interval_far_behind", (s: i64, p: i64) -> (bool, i64), {
    assume(ok_secs(s) && p >= 1 && p < 1_000_000);
    let mut a = UtcSchedule::new(u(s, 0), Recurrence::Interval(du(p, 0)));
    let f = a.check(u(s + 40 * p, 0));
    (f, a.next_fire().sec)
} == { (true, s + 41 * p) });
ob!("C14", "hourly_sequence", (s: i32, m: u8, se: u8) -> (u32, i64), {
    let s = s as i64; assume(m < 60 && se < 60);
    let mut a = UtcSchedule::new(u(s, 0), Recurrence::Hourly { minute: m, second: se });
    let t = a.next_fire().sec;
    let f = bits([a.check(u(t - 1, 999_999_999)), a.check(u(t, 0)), a.check(u(t, 1)), a.check(u(t + 3600, 0)), a.check(u(t + 7200, 0))]);
    (f, a.next_fire().sec - t)
} == { (bits([false, true, false, true, true]), 10_800) });
ob!("C14", "daily_sequence", (s: i32, h: u8, m: u8, se: u8) -> (u32, i64), {
    let s = s as i64; assume(h < 24 && m < 60 && se < 60);
    let mut a = UtcSchedule::new(u(s, 0), Recurrence::Daily { hour: h, minute: m, second: se });
    let t = a.next_fire().sec;
    let f = bits([a.check(u(t - 1, 999_999_999)), a.check(u(t, 0)), a.check(u(t, 1)), a.check(u(t + 86_400, 0)), a.check(u(t + 172_800, 0))]);
    (f, a.next_fire().sec - t)
} == { (bits([false, true, false, true, true]), 259_200) });
// equal steps shorter than the period: due whenever a multiple of the period is passed
ob!("C14", "timer_steps", (p: i64, a: i64) -> u32, {
    assume(p >= 1 && p < 1_000_000 && a >= 0 && a < p);
    let mut t = TimerEvent::new(du(p, 0));
    bits::<5>(core::array::from_fn(|_| t.step(du(a, 0))))
} == { let mut r = 0; bits::<5>(core::array::from_fn(|_| { r += a; if r >= p { r -= p; true } else { false } })) });
ob!("C14", "timer_many", (p: i64) -> u32, {
    assume(p >= 1 && p < 1_000_000);
    let mut t = TimerEvent::new(du(2 * p, 0));
    let mut k = 0;
    for _ in 0..60 { if t.step(du(p, 0)) { k += 1; } }
    k
} == { 30 });
ob!("C14", "timer_far_behind", () -> u32, {
    let p = 7;
    let mut t = TimerEvent::new(du(p, 0));
    bits([t.step(du(40 * p + 1, 0)), t.step(du(p - 2, 0)), t.step(du(1, 0)), t.step(du(p, 0))])
} == { 0b1101 });
ob!("C14", "timer_set_9", () -> u32, {
    let p = 3;
    let mut t = TimerSet::<9>::new(core::array::from_fn(|i| du(p * (i as i64 + 1), 0)));
    let (mut c, mut m) = ([0u32; 9], 1);
    for _ in 0..18 { let f = t.step(du(p, 0)); for i in 0..9 { if f[i] { c[i] += 1; } } }
    let mut r = 0;
    for i in 0..9 { r += c[i] * m; m *= 8; if i == 4 { m = 1; r = r % 32_749 * 7; } }
    r
} == {
    let (mut r, mut m) = (0, 1);
    for i in 0..9u32 { r += 18 / (i + 1) * m; m *= 8; if i == 4 { m = 1; r = r % 32_749 * 7; } }
    r
});
ob!("C14", "timer_fraction", () -> u32, {
    let q = 450_000_000;
    let mut t = TimerEvent::new(du(1, 350_000_000));
    bits([t.step(du(0, q)), t.step(du(0, q)), t.step(du(0, q)), t.step(du(0, q)), t.step(du(0, q)), t.step(du(0, q)), t.step(du(0, q))])
} == { 0b100100 });
