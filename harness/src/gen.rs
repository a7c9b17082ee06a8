//! Symbolic values: every supported date is the image of its calendar
//! fields, every supported timestamp that of a day and a time of day.
use crate::model::*;
use crate::vf::*;
use pgdatetime::*;

#[derive(Clone, Copy)]
pub struct Day {
    /// astronomical year
    pub y: i64,
    pub m: i64,
    pub d: i64,
    /// days since 2000-01-01
    pub n: i64,
}

/// Any day of the years `ylo..=yhi`.
#[inline(never)]
pub fn day_in(ylo: i64, yhi: i64) -> Day {
    let m = choice(12) as i64 + 1;
    day_of(m, ylo, yhi)
}
/// Any day of month `m` of the years `ylo..=yhi`.
#[inline(never)]
pub fn day_of(m: i64, ylo: i64, yhi: i64) -> Day {
    let c = int(ylo.div_euclid(400), yhi.div_euclid(400));
    let y = 400 * c + int(0, 399);
    assume(y >= ylo && y <= yhi);
    let d = int(1, 31);
    assume(d <= month_len(y, m));
    let n = day_number(y, m, d);
    hint(y);
    hint(d);
    hint(n);
    Day { y, m, d, n }
}
/// Any supported date.
pub fn any_day() -> Day {
    let x = day_in(-4713, 5874897);
    assume(x.n >= MIN_DATE && x.n < END_DATE);
    x
}
/// Any date of the timestamp range.
pub fn any_ts_day() -> Day {
    let x = day_in(-4713, 294276);
    assume(x.n >= MIN_DATE && x.n < TS_END_DATE);
    x
}
#[derive(Clone, Copy)]
pub struct Clock {
    pub h: i64,
    pub mi: i64,
    pub s: i64,
    pub us: i64,
    /// microseconds since midnight
    pub t: i64,
}
/// Any time before 24:00.
#[inline(never)]
pub fn any_clock() -> Clock {
    let h = int(0, 23);
    let mi = int(0, 59);
    let s = int(0, 59);
    let us = int(0, 999_999);
    hint(h);
    hint(mi);
    hint(s);
    hint(us);
    let t = ((h * 60 + mi) * 60 + s) * 1_000_000 + us;
    hint(t);
    Clock { h, mi, s, us, t }
}
pub fn ts(n: i64, t: i64) -> Timestamp {
    Timestamp::from(n * USECS_PER_DAY + t)
}
pub fn tsv(t: Timestamp) -> i64 {
    i64::from(t)
}
pub fn date(n: i64) -> Date {
    Date::from(n as i32)
}
pub fn datev(d: Date) -> i64 {
    i32::from(d) as i64
}

/// Months, days, microseconds of an interval (its serialised components).
pub fn mdt(i: Interval) -> (i64, i64, i64) {
    use crate::ser::*;
    use serde::Serialize;
    match i.serialize(Bin(false)) {
        Ok(Out::Struct(f)) => {
            let (mut t, mut d, mut m) = (0, 0, 0);
            for k in 0..f.n {
                match f.name[k] {
                    "time" => t = f.val[k],
                    "day" => d = f.val[k],
                    "month" => m = f.val[k],
                    _ => {}
                }
            }
            (m, d, t)
        }
        _ => {
            check(false, "interval components");
            (0, 0, 0)
        }
    }
}
/// The interval with these components.
pub fn iv(month: i64, day: i64, time: i64) -> Interval {
    use crate::ser::*;
    use serde::Deserialize;
    let f = [("time", time), ("day", day), ("month", month)];
    match Interval::deserialize(De(In::Map(&f), false)) {
        Ok(i) => i,
        Err(_) => {
            check(false, "interval from components");
            Interval::new()
        }
    }
}
pub fn fits_i32(v: i64) -> bool {
    v >= i32::MIN as i64 && v <= i32::MAX as i64
}
pub fn any_iv() -> (i64, i64, i64) {
    (any_i32() as i64, any_i32() as i64, any_i64())
}
/// `n` units of 1/8 microsecond, as seconds.
pub fn eighths(n: i64) -> f64 {
    n as f64 / 8_000_000.0
}
/// The nearest whole microseconds to `n` eighths (two at a tie).
pub fn nearest(n: i64) -> (i64, i64) {
    (fdiv(n + 3, 8), fdiv(n + 4, 8))
}
