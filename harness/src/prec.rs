//! Precision and field ranges.
use crate::gen::*;
use crate::model::*;
use crate::txt::*;
use crate::vf::*;
use pgdatetime::*;
use DateOrder::*;

const SCALE: [i64; 7] = [1_000_000, 100_000, 10_000, 1000, 100, 10, 1];

/// `v` to a multiple of the scale of precision `p`, halves away from zero.
fn rounded(v: i64, p: i64) -> i64 {
    let k = SCALE[p as usize];
    if v >= 0 { fdiv(v + k / 2, k) * k } else { -(fdiv(-v + k / 2, k) * k) }
}
fn pick(n: u32) -> i64 {
    match n {
        7 => {
            if choice(2) == 0 { choice(3) as i64 } else { choice(4) as i64 + 3 }
        }
        _ => choice(3) as i64,
    }
}
/// hh:mm:ss and the microseconds it means.
fn clock(t: &mut Txt) -> i64 {
    let h = t.num(2, 0, 23);
    t.lit(":");
    let m = t.num(2, 0, 59);
    t.lit(":");
    let s = t.num(2, 0, 59);
    ((h * 60 + m) * 60 + s) * 1_000_000
}
fn frac(t: &mut Txt) -> i64 {
    t.lit(".");
    t.num(6, 0, 999_999)
}
harnesses! {
fn c17_timestamp() {
    let p = pick(7);
    let mut t = Txt::new();
    // both signs, the ends of the range included
    let day = match choice(4) {
        0 => { t.lit("1999-12-31 "); day_number(1999, 12, 31) }
        1 => { t.lit("2000-01-01 "); day_number(2000, 1, 1) }
        2 => { t.lit("294276-12-31 "); day_number(294276, 12, 31) }
        _ => { t.lit("4714-11-24 "); MIN_DATE }
    };
    let c = clock(&mut t) + frac(&mut t);
    if day == MIN_DATE { t.lit(" BC") }
    let v = day * USECS_PER_DAY + c;
    let w = rounded(v, p);
    match Timestamp::try_from_str(t.s(), p as i32, YMD) {
        Ok(r) => {
            cover("ok");
            check(tsv(r) == w, "rounded");
            check(w < END_TS, "in range");
        }
        Err(_) => {
            cover("err");
            check(w >= END_TS, "accepted");
        }
    }
}
fn c17t_any() {
    // any day
    let p = match choice(3) { 0 => 0, 1 => 3, _ => 6 };
    let x = any_ts_day();
    assume(x.y >= 1);
    let mut t = Txt::new();
    let y = t.num(if choice(2) == 0 { 4 } else { 6 }, 1, 294276);
    assume(y == x.y);
    t.lit("-");
    let _ = x;
    let m = t.num(2, x.m, x.m);
    let _ = m;
    t.lit("-");
    let d = t.num(2, 1, 31);
    assume(d == x.d);
    t.lit(" 12:34:56");
    let f = frac(&mut t);
    let v = x.n * USECS_PER_DAY + 45_296_000_000 + f;
    match Timestamp::try_from_str(t.s(), p as i32, YMD) {
        Ok(r) => {
            cover("ok");
            check(tsv(r) == rounded(v, p), "rounded");
        }
        Err(_) => check(false, "accepted"),
    }
}
fn c17_invalid() {
    let p = any_i32();
    assume(p < -1 || p > 6);
    cover("bad");
    check(Timestamp::try_from_str("2001-02-03 04:05:06.5", p, YMD).is_err(), "invalid precision");
    check(Timestamp::try_from_str("infinity", p, YMD) == Ok(Timestamp::from(i64::MAX)), "infinity has no precision");
}
fn c17_exact() {
    let mut t = Txt::of("2001-02-03 ");
    let c = clock(&mut t) + frac(&mut t);
    cover("exact");
    match Timestamp::try_from_str(t.s(), -1, YMD) {
        Ok(r) => check(tsv(r) == day_number(2001, 2, 3) * USECS_PER_DAY + c, "exact"),
        Err(_) => check(false, "accepted"),
    }
}
fn c17_time() {
    let p = pick(7);
    let mut t = Txt::new();
    let v = clock(&mut t) + frac(&mut t);
    match Time::try_from_str(t.s(), p as i32, YMD) {
        Ok(r) => {
            cover("ok");
            check(i64::from(r) == rounded(v, p), "rounded");
        }
        Err(_) => check(false, "accepted"),
    }
}
fn c17_interval() {
    let p = pick(7);
    let neg = choice(2) == 1;
    let mut t = Txt::of(if neg { "-" } else { "" });
    let v = clock(&mut t) + frac(&mut t);
    let v = if neg { -v } else { v };
    match Interval::try_from_str(t.s(), 0x7FFF_0000 | p as i32, IntervalStyle::Postgres) {
        Ok(r) => {
            cover("ok");
            check(mdt(r) == (0, 0, rounded(v, p)), "rounded");
        }
        Err(_) => check(false, "accepted"),
    }
}
fn c17_interval_hours() {
    // any number of hours: rounding past the largest interval is an error
    let p = pick(0);
    let neg = choice(2) == 1;
    let mut t = Txt::of(if neg { "-" } else { "" });
    let h = t.num(10, 0, 2_147_483_647);
    t.lit(":59:59");
    let f = frac(&mut t);
    let v = h * 3_600_000_000 + 3_599_000_000 + f;
    let v = if neg { -v } else { v };
    match Interval::try_from_str(t.s(), 0x7FFF_0000 | p as i32, IntervalStyle::Postgres) {
        Ok(r) => {
            cover("ok");
            check(mdt(r) == (0, 0, rounded(v, p)), "rounded");
        }
        Err(_) => check(false, "accepted"),
    }
}
fn c17_range() {
    const MON: i64 = 1 << 1;
    const YR: i64 = 1 << 2;
    const DAY: i64 = 1 << 3;
    const H: i64 = 1 << 10;
    const M: i64 = 1 << 11;
    const S: i64 = 1 << 12;
    // (range, months kept, days kept, microseconds kept: the unit)
    let (r, mo, da, un) = match choice(14) {
        0 => (YR, 12, false, 0),
        1 => (MON, 1, false, 0),
        2 => (YR | MON, 1, false, 0),
        3 => (DAY, 1, true, 0),
        4 => (H, 1, true, 3_600_000_000),
        5 => (M, 1, true, 60_000_000),
        6 => (S, 1, true, 1),
        7 => (DAY | H, 1, true, 3_600_000_000),
        8 => (DAY | H | M, 1, true, 60_000_000),
        9 => (DAY | H | M | S, 1, true, 1),
        10 => (H | M, 1, true, 60_000_000),
        11 => (H | M | S, 1, true, 1),
        12 => (M | S, 1, true, 1),
        _ => (0x7FFF, 1, true, 1),
    };
    let neg = choice(2) == 1;
    let sg = if neg { "-" } else { "" };
    let mut t = Txt::of(sg);
    let mm = t.num(5, 0, 99999);
    t.lit(" mons ");
    t.lit(sg);
    let dd = t.num(5, 0, 99999);
    t.lit(" days ");
    t.lit(sg);
    let c = clock(&mut t) + frac(&mut t);
    let tr = |v: i64, k: i64| if k == 0 { 0 } else { fdiv(v, k) * k };
    let k = if neg { -1 } else { 1 };
    let want = (k * tr(mm, mo), if da { k * dd } else { 0 }, k * tr(c, un));
    match Interval::try_from_str(t.s(), ((r << 16) | 0xFFFF) as i32, IntervalStyle::Postgres) {
        Ok(v) => {
            cover("ok");
            check(mdt(v) == want, "limited");
        }
        Err(_) => check(false, "accepted"),
    }
}
fn c17_range_invalid() {
    // every combination of the year..second bits that is not a range of SQL
    let r = int(0, 0x7FFF);
    const OK: [i64; 14] = [0x7FFF, 4, 2, 6, 8, 0x400, 0x800, 0x1000, 0x408, 0xC08, 0x1C08, 0xC00, 0x1C00, 0x1800];
    for k in OK {
        assume(r != k);
    }
    cover("bad");
    check(Interval::try_from_str("1 mon 2 days 3:4:5", ((r << 16) | 0xFFFF) as i32, IntervalStyle::Postgres).is_err(), "invalid range");
}
fn c17_interval_precision_invalid() {
    let p = int(7, 0xFFFE);
    cover("bad");
    check(Interval::try_from_str("1 mon 2 days 3:4:5", (0x7FFF_0000 | p) as i32, IntervalStyle::Postgres).is_err(), "invalid precision");
}
fn c17_range_precision() {
    // a range ending in seconds and a precision together
    let p = pick(0);
    let mut t = Txt::of("-1 mon -2 days +");
    let v = clock(&mut t) + frac(&mut t);
    match Interval::try_from_str(t.s(), (0x1C08_0000 | p) as i32, IntervalStyle::Postgres) {
        Ok(r) => {
            cover("ok");
            check(mdt(r) == (-1, -2, rounded(v, p)), "rounded");
        }
        Err(_) => check(false, "accepted"),
    }
}
}
