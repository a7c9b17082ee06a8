//! Truncation to units and extraction of fields.
use crate::gen::{any_clock, any_day, any_ts_day, date, datev, fits_i32, iv, mdt, ts, tsv, any_iv, Clock, Day as Cal};
use crate::model::*;
use crate::vf::*;
use pgdatetime::*;

use DateUnit::*;

/// Start of the week, month, ... holding the day, as a day number.
fn start(x: Cal, u: DateUnit) -> i64 {
    let first = |y: i64| day_number(y, 1, 1);
    match u {
        Week => x.n - weekday(x.n),
        Month => x.n - (x.d - 1),
        Quarter => day_number(x.y, (x.m - 1) / 3 * 3 + 1, 1),
        Year => first(x.y),
        Decade => first(fdiv(x.y, 10) * 10),
        Century => first(fdiv(x.y - 1, 100) * 100 + 1),
        Millennium => first(fdiv(x.y - 1, 1000) * 1000 + 1),
        _ => x.n,
    }
}
/// The start of the unit is in range?
fn within(n: i64) -> bool {
    n >= MIN_DATE
}
/// The Monday of a day's week.
fn monday(x: Cal) -> i64 {
    let k = weekday(x.n);
    let n = x.n - k;
    hint(n);
    if x.d <= k {
        // the week starts in the month before
        let (py, pm) = if x.m == 1 { (x.y - 1, 12) } else { (x.y, x.m - 1) };
        hint(py);
        hint(x.d - k + month_len(py, pm));
    } else {
        hint(x.d - k);
    }
    n
}
fn truncated(x: Cal, c: Clock, u: DateUnit) {
    let n = start(x, u);
    hint(n);
    let t = match u {
        MicroSec => c.t,
        MilliSec => c.t - fmod(c.us, 1000),
        Second => c.t - c.us,
        Minute => (c.h * 60 + c.mi) * 60_000_000,
        Hour => c.h * 3_600_000_000,
        _ => 0,
    };
    match ts(x.n, c.t).truncate(FieldType::Unit, u) {
        Ok(r) => {
            cover("ok");
            check(within(n), "out of range");
            check(tsv(r) == n * USECS_PER_DAY + t, "start");
        }
        Err(_) => {
            cover("err");
            check(!within(n), "rejected");
        }
    }
}
fn truncated_date(x: Cal, u: DateUnit) {
    let n = start(x, u);
    hint(n);
    match date(x.n).truncate(FieldType::Unit, u) {
        Ok(r) => {
            cover("ok");
            check(within(n) & (x.n < TS_END_DATE), "out of range");
            check(datev(r) == n, "start");
        }
        Err(_) => {
            cover("err");
            check(!within(n) | (x.n >= TS_END_DATE), "rejected");
        }
    }
}
fn noon() -> Clock {
    Clock { h: 13, mi: 14, s: 15, us: 161_718, t: ((13 * 60 + 14) * 60 + 15) * 1_000_000 + 161_718 }
}
fn clock_of(t: i64) -> Clock {
    let s = fdiv(t, 1_000_000);
    let m = fdiv(s, 60);
    Clock { h: fdiv(m, 60), mi: fmod(m, 60), s: fmod(s, 60), us: fmod(t, 1_000_000), t }
}

/// Digits of an interval: units of the clock with the sign of its time.
struct Parts {
    y: i64,
    mo: i64,
    d: i64,
    h: i64,
    mi: i64,
    s: i64,
    us: i64,
}
fn tdiv(v: i64, k: i64) -> i64 {
    if v >= 0 {
        fdiv(v, k)
    } else {
        -fdiv(-(v + k), k) - 1
    }
}
fn trem(v: i64, k: i64) -> i64 {
    v.wrapping_sub(tdiv(v, k).wrapping_mul(k))
}
fn parts(i: (i64, i64, i64)) -> Parts {
    let (m, d, t) = i;
    let s = tdiv(t, 1_000_000);
    let mi = tdiv(s, 60);
    Parts { y: tdiv(m, 12), mo: trem(m, 12), d, h: tdiv(mi, 60), mi: trem(mi, 60), s: trem(s, 60), us: trem(t, 1_000_000) }
}
fn signed_iv() -> (i64, i64, i64) {
    let neg = choice(2) == 1;
    let m = if neg { int(i32::MIN as i64, -1) } else { int(0, i32::MAX as i64) };
    let d = any_i32() as i64;
    let t = match choice(2) { 0 => int(0, i64::MAX), _ => int(i64::MIN, -1) };
    (m, d, t)
}
fn trunc_iv(i: (i64, i64, i64), u: DateUnit) {
    let (m, d, t) = i;
    let k = match u {
        Millennium => 12000,
        Century => 1200,
        Decade => 120,
        Year => 12,
        Quarter => 3,
        _ => 1,
    };
    let w = match u {
        Hour => 3_600_000_000,
        Minute => 60_000_000,
        Second => 1_000_000,
        MilliSec => 1000,
        MicroSec => 1,
        _ => 0,
    };
    let em = m - trem(m, k);
    let ed = if w > 0 || u == Day { d } else { 0 };
    let et = if w == 0 { 0 } else { t.wrapping_sub(trem(t, w)) };
    let fits = fits_i32(tdiv(t, 3_600_000_000));
    match iv(m, d, t).truncate(FieldType::Unit, u) {
        Ok(r) => {
            cover("ok");
            check(fits, "out of range");
            check(mdt(r) == (em, ed, et), "truncated");
        }
        Err(_) => {
            cover("err");
            check(!fits, "rejected");
        }
    }
}
/// Whether two numbers agree to within a thousandth of a unit in the last
/// place that matters.
fn close(a: f64, b: f64, tol: f64) -> bool {
    (a - b <= tol) & (b - a <= tol)
}
fn whole(r: Result<f64, DateTimeError>, want: i64) {
    match r {
        Ok(v) => {
            cover("ok");
            check(v == want as f64, "field");
        }
        Err(_) => check(false, "field rejected"),
    }
}
fn micros(r: Result<f64, DateTimeError>, per: f64, want: i64) {
    match r {
        Ok(v) => {
            cover("ok");
            check((v * per).round() as i64 == want, "seconds");
        }
        Err(_) => check(false, "seconds rejected"),
    }
}
/// Years are counted without a year 0.
fn era(y: i64) -> i64 {
    if y > 0 { y } else { y - 1 }
}
fn calendar_part(x: Cal, r: Result<f64, DateTimeError>, u: DateUnit) {
    let jan1 = day_number(x.y, 1, 1);
    whole(r, match u {
        Day => x.d,
        Month => x.m,
        Quarter => (x.m - 1) / 3 + 1,
        Year => era(x.y),
        Decade => fdiv(x.y, 10),
        Century => { let c = fdiv(x.y - 1, 100); if c >= 0 { c + 1 } else { c } }
        Millennium => { let c = fdiv(x.y - 1, 1000); if c >= 0 { c + 1 } else { c } }
        Dow => fmod(x.n + 6, 7),
        IsoDow => weekday(x.n) + 1,
        Doy => x.n - jan1 + 1,
        _ => {
            // ISO 8601: the week belongs to the year of its Thursday
            let th = x.n - weekday(x.n) + 3;
            let next = day_number(x.y + 1, 1, 1);
            let (y, first) = if th < jan1 {
                (x.y - 1, day_number(x.y - 1, 1, 1))
            } else if th >= next {
                (x.y + 1, next)
            } else {
                (x.y, jan1)
            };
            if u == IsoYear { era(y) } else { fdiv(th - first, 7) + 1 }
        }
    });
}
const TIMES: [DateUnit; 5] = [Hour, Minute, Second, MilliSec, MicroSec];
fn clock_part(c: Clock, r: Result<f64, DateTimeError>, u: DateUnit) {
    let s = c.s * 1_000_000 + c.us;
    match u {
        Hour => whole(r, c.h),
        Minute => whole(r, c.mi),
        Second => micros(r, 1_000_000.0, s),
        MilliSec => micros(r, 1000.0, s),
        _ => micros(r, 1.0, s),
    }
}
fn year_unit() -> DateUnit {
    match choice(4) { 0 => Year, 1 => Decade, 2 => Century, _ => Millennium }
}

harnesses! {
fn c14_week() {
    let x = any_ts_day();
    let m = monday(x);
    match ts(x.n, noon().t).truncate(FieldType::Unit, Week) {
        Ok(r) => {
            cover("ok");
            check(tsv(r) == m * USECS_PER_DAY, "week");
        }
        Err(_) => check(false, "week rejected"),
    }
}
fn c14_week_date() {
    let x = any_day();
    let m = monday(x);
    match date(x.n).truncate(FieldType::Unit, Week) {
        Ok(r) => {
            cover("ok");
            check((datev(r) == m) & (x.n < TS_END_DATE), "week");
        }
        Err(_) => {
            cover("err");
            check(x.n >= TS_END_DATE, "week rejected");
        }
    }
}
fn c14_month() { truncated(any_ts_day(), noon(), if choice(2) == 0 { Month } else { Quarter }) }
fn c14_year() { truncated(any_ts_day(), noon(), year_unit()) }
fn c14_clock() {
    let x = any_ts_day();
    let c = any_clock();
    match choice(6) {
        0 => truncated(x, c, Day),
        k => truncated(x, c, TIMES[k as usize - 1]),
    }
}
fn c14_date() {
    let x = any_day();
    match choice(2) {
        0 => truncated_date(x, if choice(2) == 0 { Month } else { Quarter }),
        _ => truncated_date(x, year_unit()),
    }
}
fn c14_none() {
    // units without a start
    let u = match choice(8) { 0 => Dow, 1 => IsoDow, 2 => Doy, 3 => JULIAN, 4 => IsoYear, 5 => Tz, 6 => Epoch, _ => Delta };
    let ok = match choice(3) {
        0 => Timestamp::from(int(MIN_TS, END_TS - 1)).truncate(FieldType::Unit, u).is_ok(),
        1 => iv(any_i32() as i64, any_i32() as i64, any_i64()).truncate(FieldType::Unit, u).is_ok(),
        _ => Time::from(int(0, USECS_PER_DAY)).truncate(FieldType::Unit, u).is_ok(),
    };
    cover("none");
    check(!ok, "accepted");
}
fn c14_interval_months() {
    let i = signed_iv();
    trunc_iv(i, match choice(7) { 0 => Month, 1 => Quarter, 2 => Day, _ => year_unit() });
}
fn c14_interval_time() {
    let i = signed_iv();
    trunc_iv(i, TIMES[choice(5) as usize]);
}
fn c14_time() {
    let t = int(0, USECS_PER_DAY);
    let c = clock_of(t);
    let u = TIMES[choice(5) as usize];
    let e = match u {
        Hour => c.h * 3_600_000_000,
        Minute => (c.h * 60 + c.mi) * 60_000_000,
        Second => t - c.us,
        MilliSec => t - fmod(t, 1000),
        _ => t,
    };
    match Time::from(t).truncate(FieldType::Unit, u) {
        Ok(r) => {
            cover("ok");
            check(i64::from(r) == e, "truncated");
        }
        Err(_) => check(false, "rejected"),
    }
}
fn c15_day() {
    let x = any_ts_day();
    let u = match choice(6) { 0 => Day, 1 => Month, 2 => Quarter, 3 => Dow, 4 => IsoDow, _ => Doy };
    calendar_part(x, ts(x.n, noon().t).date_part(FieldType::Unit, u), u);
}
fn c15_year() {
    let x = any_ts_day();
    let u = year_unit();
    calendar_part(x, ts(x.n, noon().t).date_part(FieldType::Unit, u), u);
}
fn c15_iso() {
    let x = any_ts_day();
    let u = if choice(2) == 0 { Week } else { IsoYear };
    calendar_part(x, ts(x.n, noon().t).date_part(FieldType::Unit, u), u);
}
fn c15_clock() {
    let x = any_ts_day();
    let c = any_clock();
    let u = TIMES[choice(5) as usize];
    clock_part(c, ts(x.n, c.t).date_part(FieldType::Unit, u), u);
}
fn c15_julian() {
    let x = any_ts_day();
    let c = any_clock();
    match ts(x.n, c.t).date_part(FieldType::Unit, JULIAN) {
        Ok(v) => {
            cover("ok");
            let secs = (v - (x.n - MIN_DATE) as f64) * 86400.0;
            check(close(secs, c.t as f64 / 1_000_000.0, 0.01), "julian");
        }
        Err(_) => check(false, "julian rejected"),
    }
}
fn c15_date() {
    let x = any_day();
    let u = match choice(12) {
        0 => Day, 1 => Month, 2 => Quarter, 3 => Dow, 4 => IsoDow, 5 => Doy,
        6 => Week, 7 => IsoYear, _ => year_unit(),
    };
    let r = date(x.n).date_part(FieldType::Unit, u);
    if x.n < TS_END_DATE {
        calendar_part(x, r, u);
    } else {
        cover("beyond");
        check(r.is_err(), "beyond the timestamps");
    }
}
fn c15_infinite() {
    let neg = choice(2) == 1;
    let (a, b) = if neg { (i64::MIN, i32::MIN) } else { (i64::MAX, i32::MAX) };
    let (u, grows) = match choice(18) {
        0 => (Year, true), 1 => (Decade, true), 2 => (Century, true), 3 => (Millennium, true),
        4 => (JULIAN, true), 5 => (IsoYear, true), 6 => (Epoch, true),
        7 => (Month, false), 8 => (Day, false), 9 => (Week, false), 10 => (Quarter, false),
        11 => (Dow, false), 12 => (IsoDow, false), 13 => (Doy, false), 14 => (Hour, false),
        15 => (Minute, false), 16 => (Second, false), _ => (MicroSec, false),
    };
    let want = if !grows { 0.0 } else if neg { f64::NEG_INFINITY } else { f64::INFINITY };
    cover("infinite");
    check(matches!(Timestamp::from(a).date_part(FieldType::Unit, u), Ok(v) if v == want), "timestamp");
    check(matches!(Date::from(b).date_part(FieldType::Unit, u), Ok(v) if v == want), "date");
}
fn c15_none() {
    let t = Timestamp::from(int(MIN_TS, END_TS - 1));
    let r = match choice(4) {
        0 => t.date_part(FieldType::Unit, Delta),
        1 => t.date_part(FieldType::Unit, Tz),
        2 => t.date_part(FieldType::Unit, TzHour),
        _ => t.date_part(FieldType::Epoch, Year),
    };
    cover("none");
    check(r.is_err(), "accepted");
}
fn c16_time() {
    let t = int(0, USECS_PER_DAY);
    let u = TIMES[choice(5) as usize];
    clock_part(clock_of(t), Time::from(t).date_part(FieldType::Unit, u), u);
}
fn c16_time_epoch() {
    let t = int(0, USECS_PER_DAY);
    micros(Time::from(t).date_part(FieldType::Epoch, Epoch), 1_000_000.0, t);
}
fn c16_time_none() {
    let t = Time::from(int(0, USECS_PER_DAY));
    let r = match choice(8) {
        0 => t.date_part(FieldType::Unit, Day),
        1 => t.date_part(FieldType::Unit, Month),
        2 => t.date_part(FieldType::Unit, Year),
        3 => t.date_part(FieldType::Unit, Week),
        4 => t.date_part(FieldType::Unit, Epoch),
        5 => t.date_part(FieldType::Unit, Dow),
        6 => t.date_part(FieldType::Epoch, Hour),
        _ => t.date_part(FieldType::Unit, Quarter),
    };
    cover("none");
    check(r.is_err(), "accepted");
}
fn c16_interval() {
    let i = signed_iv();
    let p = parts(i);
    let u = match choice(12) {
        0 => Millennium, 1 => Century, 2 => Decade, 3 => Year, 4 => Quarter, 5 => Month, 6 => Day,
        k => TIMES[k as usize - 7],
    };
    let r = iv(i.0, i.1, i.2).date_part(FieldType::Unit, u);
    if !fits_i32(p.h) {
        cover("long");
        check(r.is_err(), "long accepted");
        return;
    }
    let s = p.s * 1_000_000 + p.us;
    match u {
        Millennium => whole(r, tdiv(p.y, 1000)),
        Century => whole(r, tdiv(p.y, 100)),
        Decade => whole(r, tdiv(p.y, 10)),
        Year => whole(r, p.y),
        Quarter => whole(r, tdiv(p.mo, 3) + 1),
        Month => whole(r, p.mo),
        Day => whole(r, p.d),
        Hour => whole(r, p.h),
        Minute => whole(r, p.mi),
        Second => micros(r, 1_000_000.0, s),
        MilliSec => micros(r, 1000.0, s),
        _ => micros(r, 1.0, s),
    }
}
fn c16_interval_epoch() {
    let fine = choice(2) == 0;
    let (m, d, t) = match fine {
        true => (int(-1_000_000, 1_000_000), int(-100_000_000, 100_000_000), int(-(1 << 52), 1 << 52)),
        _ => (any_i32() as i64, any_i32() as i64, any_i64()),
    };
    let p = parts((m, d, 0));
    let secs = p.y * 31_557_600 + p.mo * 2_592_000 + d * 86400 + tdiv(t, 1_000_000);
    match iv(m, d, t).date_part(FieldType::Epoch, Epoch) {
        Ok(v) => {
            let rest = trem(t, 1_000_000) as f64 / 1_000_000.0;
            let err = v - secs as f64;
            if fine {
                cover("fine");
                check(close(err, rest, 0.125), "epoch");
            } else {
                // doubles of this size are up to one second apart
                cover("coarse");
                check(close(err, rest, 8.0), "epoch");
            }
        }
        Err(_) => check(false, "epoch rejected"),
    }
}
fn c16_interval_clock_epoch() {
    // without months and days, to the microsecond
    let t = int(-(1 << 49), 1 << 49);
    micros(iv(0, 0, t).date_part(FieldType::Epoch, Epoch), 1_000_000.0, t);
}
fn c16_interval_none() {
    let i = iv(any_i32() as i64, any_i32() as i64, any_i64());
    let r = match choice(7) {
        0 => i.date_part(FieldType::Unit, Week),
        1 => i.date_part(FieldType::Unit, Dow),
        2 => i.date_part(FieldType::Unit, Doy),
        3 => i.date_part(FieldType::Unit, JULIAN),
        4 => i.date_part(FieldType::Unit, IsoYear),
        5 => i.date_part(FieldType::Unit, Epoch),
        _ => i.date_part(FieldType::Epoch, Year),
    };
    cover("none");
    check(r.is_err(), "accepted");
}
}
