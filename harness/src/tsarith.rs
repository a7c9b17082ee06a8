//! Timestamp construction, arithmetic and conversions.
use crate::gen::*;
use crate::model::*;
use crate::vf::*;
use pgdatetime::*;
use std::convert::TryFrom;

fn in_ts(v: i64) -> bool {
    v >= MIN_TS && v < END_TS
}

/// Adds the interval, in one of the ways to say so: to the timestamp, or to
/// the date when it is midnight; or subtracts the opposite interval.
fn plus(n: i64, t: i64, m: i64, d: i64, us: i64) -> Result<Timestamp, DateTimeError> {
    match if t == 0 { choice(4) } else { choice(2) } {
        0 => ts(n, t).add_interval(iv(m, d, us)),
        2 => date(n).add_interval(iv(m, d, us)),
        w => {
            // the most negative counts have no opposite
            assume(m > i32::MIN as i64 && d > i32::MIN as i64 && us > i64::MIN);
            if w == 1 {
                ts(n, t).sub_interval(iv(-m, -d, -us))
            } else {
                date(n).sub_interval(iv(-m, -d, -us))
            }
        }
    }
}
fn clock() -> i64 {
    let t = int(0, USECS_PER_DAY - 1);
    hint(t);
    t
}

/// Any year from `lo` to the end of the cycle: close to `y`, or not.
fn far_or_near(y: i64, lo: i64, cycle: i64) -> i64 {
    let r = match choice(4) {
        0 => y - 1,
        1 => y,
        2 => y + 1,
        _ => {
            let r = int(-12, cycle) * 400 + int(0, 399);
            assume((r < y - 1) | (r > y + 1));
            r
        }
    };
    assume(r >= lo && r <= 400 * cycle + 399);
    r
}

/// Adds months to a timestamp: the target month is (y, m), the interval the
/// distance to it.
fn months(day: Day, t: i64, y: i64, m: i64) {
    let k = 12 * (y - day.y) + m - day.m;
    assume(k != 0);
    let r = plus(day.n, t, k, 0, 0);
    let m = concrete(m);
    let l = month_len(y, m);
    let n = day_number(y, m, if day.d > l { l } else { day.d });
    let ok = n >= MIN_DATE && n < TS_END_DATE;
    match r {
        Ok(v) => {
            cover("ok");
            check(ok, "months: out of range accepted");
            check(tsv(v) == n * USECS_PER_DAY + t, "months: value");
        }
        Err(_) => {
            cover("err");
            check(!ok, "months: in range rejected");
        }
    }
}

/// The age of `a` at `p` since `b` at `q`, field by field.
fn age(a: Day, p: Clock, b: Day, q: Clock) {
    let x = ts(a.n, p.t);
    let y = ts(b.n, q.t);
    let r = match x.age(y) {
        Ok(i) => mdt(i),
        Err(_) => {
            check(false, "rejected");
            return;
        }
    };
    // from the earlier to the later one
    let later = (a.n > b.n) | ((a.n == b.n) & (p.t >= q.t));
    let (e, et, l, lt, s) = if later {
        cover("later");
        (b, q.t, a, p.t, 1)
    } else {
        cover("earlier");
        (a, p.t, b, q.t, -1)
    };
    let borrow = (lt < et) as i64;
    let t = lt - et + borrow * USECS_PER_DAY;
    let d0 = l.d - e.d - borrow;
    let day_borrow = (d0 < 0) as i64;
    let d = d0 + day_borrow * month_len(e.y, e.m);
    let m = 12 * (l.y - e.y) + l.m - e.m - day_borrow;
    check(r.2 == s * t, "time of day");
    check(r.1 == s * d, "days");
    check(r.0 == s * m, "months");
}

harnesses! {
fn c02_ymdhms() {
    let m = choice(12) as i32 + 1;
    let y = any_i32();
    let d = any_i32();
    let h = any_i32();
    let mi = any_i32();
    let e = int(-8_000_000 * 61, 8_000_000 * 61);
    let r = Timestamp::try_from_ymd_hms(y, m, d, h, mi, eighths(e));
    let y = y as i64;
    let date_ok = y >= 1 && y < 294277 && d >= 1 && d as i64 <= month_len(y, m as i64);
    let time_ok = h >= 0 && mi >= 0 && e >= 0 && e <= 8_000_000 * 60
        && ((h <= 23 && mi <= 59) || (h == 24 && mi == 0 && e == 0));
    if date_ok && time_ok {
        let n = day_number(y, m as i64, d as i64);
        let v = n * USECS_PER_DAY + (h as i64 * 60 + mi as i64) * 60_000_000;
        let (lo, hi) = nearest(e);
        if v + lo >= END_TS {
            cover("late");
            check(r.is_err(), "accepted late");
        } else {
            cover("valid");
            match r {
                Ok(x) => check(tsv(x) >= v + lo && tsv(x) <= v + hi, "value"),
                Err(_) => check(v + hi >= END_TS, "rejected valid"),
            }
        }
        return;
    }
    cover("invalid");
    check(r.is_err(), "accepted invalid");
}
fn c02_special() {
    let s = match choice(3) { 0 => f64::NAN, 1 => f64::INFINITY, _ => f64::NEG_INFINITY };
    let m = any_i32();
    let r = Timestamp::try_from_ymd_hms(any_i32(), m, any_i32(), any_i32(), any_i32(), s);
    cover("special");
    check(r.is_err(), "accepted");
}
fn c02_month() {
    let m = any_i32();
    assume(m < 1 || m > 12);
    let r = Timestamp::try_from_ymd_hms(any_i32(), m, any_i32(), any_i32(), any_i32(), 0.0);
    cover("month");
    check(r.is_err(), "accepted");
}
fn c04_months() {
    let day = day_in(-4712, 294275);
    let t = clock();
    let y2 = far_or_near(day.y, -4712, 734);
    months(day, t, y2, int(1, 12));
}
fn c04_time() {
    let t = any_i64();
    let (v, r) = if choice(2) == 0 {
        let v = int(MIN_TS, END_TS - 1);
        let x = Timestamp::from(v);
        (v, if choice(2) == 0 { x.add_interval(iv(0, 0, t)) } else { assume(t > i64::MIN); x.sub_interval(iv(0, 0, -t)) })
    } else {
        let n = int(MIN_DATE, TS_END_DATE - 1);
        let x = date(n);
        (n * USECS_PER_DAY, if choice(2) == 0 { x.add_interval(iv(0, 0, t)) } else { assume(t > i64::MIN); x.sub_interval(iv(0, 0, -t)) })
    };
    let (sum, o) = v.overflowing_add(t);
    let ok = !o && in_ts(sum);
    match r {
        Ok(x) => {
            cover("ok");
            check(ok, "time: out of range accepted");
            check(tsv(x) == sum, "time: value");
        }
        Err(_) => {
            cover("err");
            check(!ok, "time: in range rejected");
        }
    }
}
fn c04_months_edge() {
    // sources in the first and last supported years, any target
    let day = if choice(2) == 0 { day_in(-4713, -4713) } else { day_in(294276, 294276) };
    assume(day.n >= MIN_DATE);
    let t = clock();
    let y2 = far_or_near(day.y, -4714, 735);
    months(day, t, y2, int(1, 12));
}
fn c04_months_far() {
    // targets that no timestamp has
    let day = day_in(-4712, 294275);
    let t = clock();
    let k = any_i32() as i64;
    let z = 12 * day.y + day.m - 1 + k;
    assume(z < -4714 * 12 || z >= 294278 * 12);
    let r = plus(day.n, t, k, 0, 0);
    cover("far");
    check(r.is_err(), "months: far target accepted");
}
fn c04_days() {
    let a = any_ts_day();
    let t = clock();
    let b = any_ts_day();
    assume(a.n != b.n);
    let r = plus(a.n, t, 0, b.n - a.n, 0);
    match r {
        Ok(v) => {
            cover("ok");
            check(tsv(v) == b.n * USECS_PER_DAY + t, "days: value");
        }
        Err(_) => check(false, "days: in range rejected"),
    }
}
fn c04_days_beyond() {
    // days that no timestamp and no date has
    let a = any_ts_day();
    let t = clock();
    let k = any_i32() as i64;
    let n = a.n + k;
    assume(n < MIN_DATE || n > i32::MAX as i64 + MIN_DATE);
    let r = plus(a.n, t, 0, k, 0);
    if k < 0 { cover("before") } else { cover("after") }
    check(r.is_err(), "days: out of range accepted");
}
fn c04_days_late() {
    // days after the last timestamp
    let a = any_ts_day();
    let t = clock();
    let b = day_in(294277, 5874898);
    assume(b.n <= i32::MAX as i64 + MIN_DATE);
    let k = b.n - a.n;
    assume(fits_i32(k));
    let r = plus(a.n, t, 0, k, 0);
    cover("late");
    check(r.is_err(), "days: late accepted");
}
fn c04_order() {
    // months first (clamping the day), then days, then microseconds
    let day = day_of(1, -4712, 294275);
    let t = clock();
    let m = choice(12) as i64 + 1;
    let l = month_len(day.y, m);
    let d = if day.d > l { l } else { day.d };
    let e = int(1, 31);
    assume((e <= l) & (e != d) & (m != day.m));
    let n = day_number(day.y, m, e);
    hint(e);
    hint(n);
    let u = any_i64();
    let r = ts(day.n, t).add_interval(iv(m - day.m, e - d, u));
    let v = n * USECS_PER_DAY + t;
    let (sum, o) = v.overflowing_add(u);
    let ok = !o && in_ts(sum);
    match r {
        Ok(x) => {
            cover("ok");
            check(ok, "order: out of range accepted");
            check(tsv(x) == sum, "order: value");
        }
        Err(_) => {
            cover("err");
            check(!ok, "order: in range rejected");
        }
    }
}
fn c04_parts_edge() {
    // months and days of either sign around the ends of the range
    let e = choice(2);
    let (m, y) = match choice(3) {
        0 => if e == 0 { (12, -4713) } else { (12, 294276) },
        1 => if e == 0 { (1, -4712) } else { (11, 294276) },
        _ => if e == 0 { (3, -4712) } else { (6, 294276) },
    };
    let a = day_of(m, y, y);
    let t = clock();
    let (p, z) = match choice(3) {
        0 => if e == 0 { (12, -4713) } else { (12, 294276) },
        1 => if e == 0 { (2, -4712) } else { (9, 294276) },
        _ => if e == 0 { (6, -4712) } else { (2, 294276) },
    };
    let k = 12 * (z - y) + p - m;
    assume(k != 0);
    let l = month_len(z, p);
    let d = if a.d > l { l } else { a.d };
    let n = day_number(z, p, d);
    hint(d);
    hint(n);
    let j = int(-400, 400);
    assume((j != 0) & (n + j < TS_END_DATE + 5));
    let r = ts(a.n, t).add_interval(iv(k, j, 0));
    let v = (n + j) * USECS_PER_DAY + t;
    match r {
        Ok(x) => {
            cover("ok");
            check(in_ts(v), "parts: out of range accepted");
            check(tsv(x) == v, "parts: value");
        }
        Err(_) => {
            cover("err");
            check(!in_ts(v), "parts: in range rejected");
        }
    }
}
fn c04t_all() {
    // all three parts, to any day
    let a = day_in(-4712, 294275);
    let t = clock();
    let y = far_or_near(a.y, -4712, 734);
    let m = choice(12) as i64 + 1;
    let k = 12 * (y - a.y) + m - a.m;
    assume(k != 0);
    let l = month_len(y, m);
    let d = if a.d > l { l } else { a.d };
    let n = day_number(y, m, d);
    hint(y);
    hint(n);
    let b = any_ts_day();
    assume(b.n != n);
    let u = any_i64();
    let r = plus(a.n, t, k, b.n - n, u);
    let v = b.n * USECS_PER_DAY + t;
    let (sum, o) = v.overflowing_add(u);
    let ok = !o && in_ts(sum);
    match r {
        Ok(x) => {
            cover("ok");
            check(ok, "all: out of range accepted");
            check(tsv(x) == sum, "all: value");
        }
        Err(_) => {
            cover("err");
            check(!ok, "all: in range rejected");
        }
    }
}
fn c04_timeofday() {
    let v = int(MIN_TS, END_TS - 1);
    let t = int(0, USECS_PER_DAY);
    let neg = choice(2) == 0;
    let x = Timestamp::from(v);
    let r = if neg { x.sub_time(Time::from(t)) } else { x.add_time(Time::from(t)) };
    let e = if neg { v - t } else { v + t };
    match r {
        Ok(a) => {
            cover("ok");
            check(in_ts(e) & (tsv(a) == e), "time of day: value");
        }
        Err(_) => {
            cover("err");
            check(!in_ts(e), "time of day: rejected");
        }
    }
}
fn c04_date_late() {
    let n = int(TS_END_DATE, END_DATE - 1);
    let (m, d, t) = any_iv();
    let r = if choice(2) == 0 { date(n).sub_interval(iv(m, d, t)) } else { date(n).add_interval(iv(m, d, t)) };
    cover("late");
    check(r.is_err(), "date: late accepted");
}
fn c04_date_time() {
    let n = int(MIN_DATE, END_DATE - 1);
    let t = int(0, USECS_PER_DAY);
    let r = date(n).add_time(Time::from(t));
    match r {
        Ok(a) => {
            cover("ok");
            check(n < TS_END_DATE, "date + time: late date accepted");
            check((tsv(a) == n * USECS_PER_DAY + t) & in_ts(tsv(a)), "date + time: value");
        }
        Err(_) => {
            cover("err");
            check(n >= TS_END_DATE || n * USECS_PER_DAY + t >= END_TS, "date + time: rejected");
        }
    }
}
fn c04_inf() {
    let e = choice(2) == 0;
    let v = if e { i64::MIN } else { i64::MAX };
    let i = any_iv();
    let x = Timestamp::from(v);
    let y = Date::from(if e { i32::MIN } else { i32::MAX });
    let t = Time::from(int(0, USECS_PER_DAY));
    let r = match choice(4) {
        0 => x.add_interval(iv(i.0, i.1, i.2)),
        1 => x.add_time(t),
        2 => y.add_interval(iv(i.0, i.1, i.2)),
        _ => y.add_time(t),
    };
    cover("inf");
    match r {
        Ok(w) => check(tsv(w) == v, "infinity moved"),
        Err(_) => check(false, "infinity rejected"),
    }
}
fn c05_diff() {
    let a = int(MIN_TS, END_TS - 1);
    let b = int(MIN_TS, END_TS - 1);
    let (e, o) = a.overflowing_sub(b);
    match Timestamp::from(a).sub_timestamp(Timestamp::from(b)) {
        Ok(i) => {
            let (m, d, t) = mdt(i);
            if e >= 0 { cover("later") } else { cover("earlier") }
            check(!o, "overflow accepted");
            check(m == 0, "months");
            check(t < USECS_PER_DAY && t > -USECS_PER_DAY, "time part");
            check((d <= 0 || t >= 0) && (d >= 0 || t <= 0), "signs");
            check(d * USECS_PER_DAY + t == e, "total");
        }
        Err(_) => {
            cover("overflow");
            check(o, "rejected");
        }
    }
}
fn c05_date() {
    let a = int(MIN_TS, END_TS - 1);
    let n = int(MIN_DATE, END_DATE - 1);
    let r = Timestamp::from(a).sub_date(date(n));
    if n >= TS_END_DATE {
        cover("late");
        check(r.is_err(), "late date accepted");
        return;
    }
    let (e, o) = a.overflowing_sub(n * USECS_PER_DAY);
    match r {
        Ok(i) => {
            cover("ok");
            let (m, d, t) = mdt(i);
            check(!o, "overflow accepted");
            check(m == 0, "months");
            check(t < USECS_PER_DAY && t > -USECS_PER_DAY, "time part");
            check(d * USECS_PER_DAY + t == e, "total");
        }
        Err(_) => {
            cover("overflow");
            check(o, "rejected");
        }
    }
}
fn c05_inf() {
    let a = int(MIN_TS, END_TS - 1);
    let e = choice(2) == 0;
    let x = Timestamp::from(if e { i64::MIN } else { i64::MAX });
    let v = Timestamp::from(a);
    let r = match choice(4) {
        0 => x.sub_timestamp(v),
        1 => v.sub_timestamp(x),
        2 => x.sub_timestamp(x),
        _ => v.sub_date(Date::from(if e { i32::MIN } else { i32::MAX })),
    };
    cover("inf");
    check(r.is_err(), "accepted");
}
fn c05_back() {
    // adding the difference back gives the first operand
    let a = any_ts_day();
    let b = any_ts_day();
    let t = clock();
    let u = int(1 - USECS_PER_DAY, USECS_PER_DAY - 1);
    let y = ts(b.n, t);
    let v = a.n * USECS_PER_DAY + t + u;
    assume(in_ts(v));
    assume(((a.n > b.n) & (u >= 0)) | ((a.n < b.n) & (u <= 0)));
    let d = match Timestamp::from(v).sub_timestamp(y) {
        Ok(d) => d,
        Err(_) => {
            cover("overflow");
            return;
        }
    };
    match y.add_interval(d) {
        Ok(x) => {
            cover("back");
            check(tsv(x) == v, "does not come back");
        }
        Err(_) => check(false, "cannot come back"),
    }
}
fn c06_age() {
    let a = any_ts_day();
    let b = if choice(2) == 0 {
        // in the same year
        let m = choice(12) as i64 + 1;
        let d = int(1, 31);
        assume(d <= month_len(a.y, m));
        let n = day_number(a.y, m, d);
        assume(n >= MIN_DATE && n < TS_END_DATE);
        hint(d);
        hint(n);
        Day { y: a.y, m, d, n }
    } else {
        let b = any_ts_day();
        if choice(2) == 0 {
            assume(a.y < b.y);
            check(days_before_year(b.y) - days_before_year(a.y) >= 365 + leap(a.y) as i64, "lemma: years");
        } else {
            assume(a.y > b.y);
            check(days_before_year(a.y) - days_before_year(b.y) >= 365 + leap(b.y) as i64, "lemma: years");
        }
        b
    };
    let p = any_clock();
    let q = any_clock();
    age(a, p, b, q);
}
fn c06_self() {
    let a = any_ts_day();
    let p = any_clock();
    let x = ts(a.n, p.t);
    match x.age(x) {
        Ok(i) => {
            cover("self");
            check(mdt(i) == (0, 0, 0), "not zero");
        }
        Err(_) => check(false, "rejected"),
    }
}
fn c13_date_ts() {
    let n = int(MIN_DATE, END_DATE - 1);
    match Timestamp::try_from(date(n)) {
        Ok(t) => {
            cover("ok");
            check(n < TS_END_DATE, "late accepted");
            check(tsv(t) == n * USECS_PER_DAY, "value");
        }
        Err(_) => {
            cover("late");
            check(n >= TS_END_DATE, "rejected");
        }
    }
}
fn c13_ts_date() {
    let a = any_ts_day();
    let t = clock();
    match Date::try_from(ts(a.n, t)) {
        Ok(d) => {
            cover("ok");
            check(datev(d) == a.n, "value");
        }
        Err(_) => check(false, "rejected"),
    }
}
fn c13_ts_time() {
    let a = any_ts_day();
    let t = clock();
    match <Option<Time> as TryFrom<Timestamp>>::try_from(ts(a.n, t)) {
        Ok(Some(d)) => {
            cover("ok");
            check(i64::from(d) == t, "value");
        }
        _ => check(false, "rejected"),
    }
}
fn c13_inf() {
    let e = choice(2) == 0;
    let x = Timestamp::from(if e { i64::MIN } else { i64::MAX });
    let d = Date::from(if e { i32::MIN } else { i32::MAX });
    cover("inf");
    check(x.is_infinite() && !x.is_finite() && d.is_infinite() && !d.is_finite(), "not infinite");
    match Timestamp::try_from(d) {
        Ok(t) => check(tsv(t) == tsv(x), "date to timestamp"),
        Err(_) => check(false, "date to timestamp"),
    }
    match Date::try_from(x) {
        Ok(t) => check(datev(t) == datev(d), "timestamp to date"),
        Err(_) => check(false, "timestamp to date"),
    }
    match <Option<Time> as TryFrom<Timestamp>>::try_from(x) {
        Ok(None) => {}
        _ => check(false, "timestamp to time"),
    }
}
fn c13_finite() {
    let n = int(MIN_DATE, END_DATE - 1);
    let v = int(MIN_TS, END_TS - 1);
    cover("finite");
    check(date(n).is_finite() && !date(n).is_infinite(), "date");
    check(Timestamp::from(v).is_finite() && !Timestamp::from(v).is_infinite(), "timestamp");
}
fn c13_time_interval() {
    let t = int(0, USECS_PER_DAY);
    let i = Interval::from(Time::from(t));
    cover("ok");
    check(mdt(i) == (0, 0, t), "value");
}
fn c13_interval_time() {
    let (m, d, t) = any_iv();
    let r = Time::from(iv(m, d, t));
    if t < 0 { cover("negative") } else { cover("positive") }
    check(i64::from(r) == fmod(t, USECS_PER_DAY), "value");
}
fn c13_raw() {
    // the integer representation is unchecked and round trips
    let v = any_i64();
    let n = any_i32();
    cover("raw");
    check(i64::from(Timestamp::from(v)) == v, "timestamp");
    check(i64::from(Time::from(v)) == v, "time");
    check(i32::from(Date::from(n)) == n, "date");
    let (m, d, t) = any_iv();
    let total = i128::from(iv(m, d, t));
    let sum = t as i128 + d as i128 * USECS_PER_DAY as i128 + m as i128 * (30 * USECS_PER_DAY) as i128;
    check(total == sum, "interval");
}
}
