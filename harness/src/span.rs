//! Interval arithmetic and comparison, times of day.
use crate::gen::*;
use crate::model::*;
use crate::vf::*;
use core::cmp::Ordering;
use core::hash::{Hash, Hasher};
use pgdatetime::*;

const DAY: i128 = USECS_PER_DAY as i128;

/// Length in microseconds: 30-day months, 24-hour days.
fn length(i: (i64, i64, i64)) -> i128 {
    i.2 as i128 + i.1 as i128 * DAY + i.0 as i128 * (30 * DAY)
}
fn span(i: (i64, i64, i64)) -> Interval {
    iv(i.0, i.1, i.2)
}

/// Records what is hashed.
struct Tape {
    b: [u8; 32],
    n: usize,
}
impl Hasher for Tape {
    fn write(&mut self, bytes: &[u8]) {
        let mut i = 0;
        while i < bytes.len() && self.n < 32 {
            self.b[self.n] = bytes[i];
            self.n += 1;
            i += 1;
        }
    }
    fn write_i32(&mut self, v: i32) {
        self.write(&v.to_ne_bytes())
    }
    fn write_i64(&mut self, v: i64) {
        self.write(&v.to_ne_bytes())
    }
    fn finish(&self) -> u64 {
        0
    }
}
fn tape<T: Hash>(v: T) -> Tape {
    let mut t = Tape { b: [0; 32], n: 0 };
    v.hash(&mut t);
    t
}
fn same_tape(a: &Tape, b: &Tape) -> bool {
    let w = |t: &Tape, k: usize| {
        u64::from_ne_bytes([
            t.b[k], t.b[k + 1], t.b[k + 2], t.b[k + 3], t.b[k + 4], t.b[k + 5], t.b[k + 6], t.b[k + 7],
        ])
    };
    a.n == b.n && (w(a, 0) == w(b, 0)) & (w(a, 8) == w(b, 8)) & (w(a, 16) == w(b, 16)) & (w(a, 24) == w(b, 24))
}
fn checked(v: i64, lo: i64, hi: i64) -> bool {
    (v >= lo) & (v <= hi)
}
fn ord(lt: bool, gt: bool) -> Ordering {
    if lt {
        Ordering::Less
    } else if gt {
        Ordering::Greater
    } else {
        Ordering::Equal
    }
}
/// All the comparison operators against one ordering.
fn compare<T: Ord + Hash + Copy>(x: T, y: T, e: Ordering) {
    match e {
        Ordering::Less => cover("less"),
        Ordering::Equal => cover("equal"),
        _ => cover("greater"),
    }
    check(x.cmp(&y) == e, "cmp");
    check(x.partial_cmp(&y) == Some(e), "partial_cmp");
    check((x == y) == (e == Ordering::Equal), "eq");
    check((x != y) == (e != Ordering::Equal), "ne");
    check((x < y) == (e == Ordering::Less), "lt");
    check((x <= y) == (e != Ordering::Greater), "le");
    check((x > y) == (e == Ordering::Greater), "gt");
    check((x >= y) == (e != Ordering::Less), "ge");
    if e == Ordering::Equal {
        check(same_tape(&tape(x), &tape(y)), "hash");
    }
}

/// Is `r` the exact sum of products, or an error when it does not fit?
fn components(r: Result<Interval, DateTimeError>, m: i64, d: i64, t: i128) {
    let ok = fits_i32(m) & fits_i32(d) & (t >= i64::MIN as i128) & (t <= i64::MAX as i128);
    match r {
        Ok(i) => {
            cover("ok");
            let (rm, rd, rt) = mdt(i);
            check(ok, "does not fit");
            check(rm == m, "months");
            check(rd == d, "days");
            check(rt as i128 == t, "time");
        }
        Err(_) => {
            cover("err");
            check(!ok, "rejected");
        }
    }
}
fn opposite(a: i64, b: i64) -> bool {
    ((a > 0) & (b < 0)) | ((a < 0) & (b > 0))
}

/// Truncating division.
fn tdiv(v: i64, k: i64) -> i64 {
    if v >= 0 {
        fdiv(v, k)
    } else {
        -fdiv(-(v + k), k) - 1
    }
}
/// Rounding division, halves away from zero.
fn rdiv(v: i64, k: i64) -> i64 {
    if v >= 0 {
        fdiv(2 * v + k, 2 * k)
    } else {
        -fdiv(2 * -v + k, 2 * k)
    }
}

/// The interval scaled by p/2^k, computed exactly in integers: everything
/// involved is a whole number of 2^-k units, and doubles hold them exactly.
fn scaled(r: Result<Interval, DateTimeError>, i: (i64, i64, i64), p: i64, q: i64) {
    let (m, d, t) = i;
    let (mp, dp) = (m * p, d * p);
    let (mq, dq) = (tdiv(mp, q), tdiv(dp, q));
    // fractions of months and days, in 1/q
    let (mr, dr) = (mp - mq * q, dp - dq * q);
    let down = 30 * mr;
    let whole = tdiv(down, q);
    let part = dr + (down - whole * q);
    // part/q days are 86400e6/q*part microseconds
    let carry = tdiv(part, q);
    let us = (part - carry * q) * (USECS_PER_DAY / q);
    let day = dq + whole + carry;
    let time = rdiv(t * p + us * q, q);
    // the fraction of a value next to the limits may be taken to not fit
    let (lo, hi) = (i32::MIN as i64, i32::MAX as i64);
    let fits = (mp >= lo * q) & (mp <= hi * q) & (dp >= lo * q) & (dp <= hi * q) & fits_i32(day);
    let out = !fits_i32(mq) | !fits_i32(dq) | !fits_i32(day);
    match r {
        Ok(x) => {
            cover("ok");
            let (a, b, c) = mdt(x);
            check(!out, "scaled: does not fit");
            check(a == mq, "scaled: months");
            check(b == day, "scaled: days");
            check(c == time, "scaled: time");
        }
        Err(_) => {
            cover("err");
            check(!fits, "scaled: rejected");
        }
    }
}
/// Intervals whose products with small fractions are exact in doubles.
fn exact_iv() -> (i64, i64, i64) {
    (any_i32() as i64, any_i32() as i64, int(-(1 << 42), 1 << 42))
}

/// Whole factors; the time may leave what doubles hold exactly.
fn whole(r: Result<Interval, DateTimeError>, i: (i64, i64, i64), k: i64) {
    let t = i.2 as i128 * k as i128;
    let big = i64::MAX as i128;
    let exact = (i.2 < 1 << 43) & (i.2 > -(1 << 43));
    let slack = if exact { 0i128 } else { 2 * k.abs() as i128 * 2048 };
    let small = fits_i32(i.0 * k) & fits_i32(i.1 * k);
    match r {
        Ok(x) => {
            if exact { cover("exact") } else { cover("rounded") }
            let (a, b, c) = mdt(x);
            check(small, "whole: does not fit");
            check((a == i.0 * k) & (b == i.1 * k), "whole: months or days");
            let c = c as i128;
            check((c >= t - slack) & (c <= t + slack), "whole: time");
        }
        Err(_) => {
            cover("err");
            check(!small | (t > big - slack) | (t < -big + slack), "whole: rejected");
        }
    }
}

/// A scaled interval is as long as the factor says, up to the rounding of
/// days to millionths and of doubles.
fn about(r: Result<Interval, DateTimeError>, i: (i64, i64, i64), p: i64, q: i64) {
    let want = length(i) * p as i128; // in 1/q microseconds
    match r {
        Ok(x) => {
            cover("about");
            let got = length(mdt(x)) * q as i128;
            // 2 seconds-millionths per rounded field, one microsecond for the time
            let tol = 400_000 * q as i128;
            check((got - want <= tol) & (want - got <= tol), "scaled: length");
        }
        Err(_) => {
            cover("about err");
            let pp = if p < 0 { -p } else { p };
            let small = |v: i64, lim: i64| (v * pp <= lim * q) & (v * pp >= -lim * q);
            check(!(small(i.0, 2147483000) & small(i.1, 2147000000)), "scaled: rejected");
        }
    }
}
/// Factors that doubles do not hold exactly.
fn general(i: (i64, i64, i64)) {
    match choice(4) {
        0 => about(span(i).mul_f64(0.1), i, 1, 10),
        1 => about(span(i).mul_f64(-2.3), i, -23, 10),
        2 => about(span(i).div_f64(3.0), i, 1, 3),
        _ => about(span(i).div_f64(-0.7), i, -10, 7),
    }
}

harnesses! {
fn c07_add() {
    let (a, b) = (any_iv(), any_iv());
    components(span(a).add_interval(span(b)), a.0 + b.0, a.1 + b.1, a.2 as i128 + b.2 as i128);
}
fn c07_sub() {
    let (a, b) = (any_iv(), any_iv());
    components(span(a).sub_interval(span(b)), a.0 - b.0, a.1 - b.1, a.2 as i128 - b.2 as i128);
}
fn c07_neg() {
    let a = any_iv();
    components(span(a).negate(), -a.0, -a.1, -(a.2 as i128));
}
fn c07_operator() {
    // the + operator, where the sum fits
    let (a, b) = (any_iv(), any_iv());
    let (t, o) = a.2.overflowing_add(b.2);
    assume(fits_i32(a.0 + b.0) & fits_i32(a.1 + b.1) & !o);
    cover("ok");
    check(mdt(span(a) + span(b)) == (a.0 + b.0, a.1 + b.1, t), "operator");
}
fn c08_hours() {
    let a = any_iv();
    let r = mdt(span(a).justify_hours());
    let w = tdiv(a.2, USECS_PER_DAY);
    check(r.0 == a.0, "hours: months");
    check(checked(r.2, 1 - USECS_PER_DAY, USECS_PER_DAY - 1), "hours: time below a day");
    check(!opposite(r.1, r.2), "hours: signs");
    if fits_i32(a.1 + w) {
        cover("fits");
        check(length(r) == length(a), "hours: length");
    } else {
        cover("wraps");
    }
}
fn c08_days() {
    let a = any_iv();
    let r = mdt(span(a).justify_days());
    check(r.2 == a.2, "days: time");
    check(checked(r.1, -29, 29), "days: days below a month");
    check(!opposite(r.0, r.1), "days: signs");
    if fits_i32(a.0 + tdiv(a.1, 30)) {
        cover("fits");
        check(length(r) == length(a), "days: length");
    } else {
        cover("wraps");
    }
}
fn c08_interval() {
    let a = any_iv();
    let r = mdt(span(a).justify_interval());
    let d = a.1 + tdiv(a.2, USECS_PER_DAY);
    check(checked(r.2, 1 - USECS_PER_DAY, USECS_PER_DAY - 1), "interval: time below a day");
    check(checked(r.1, -29, 29) | !fits_i32(d), "interval: days below a month");
    if fits_i32(d) && fits_i32(a.0 + tdiv(d, 30)) {
        cover("fits");
        check(length(r) == length(a), "interval: length");
        check(!opposite(r.0, r.1) & !opposite(r.1, r.2) & !opposite(r.0, r.2), "interval: signs");
    } else {
        cover("wraps");
    }
}
fn c09_interval() {
    let (a, b) = (any_iv(), any_iv());
    let (x, y) = (length(a), length(b));
    compare(span(a), span(b), ord(x < y, x > y));
}
fn c09_close() {
    // lengths that differ by microseconds, of every magnitude
    let m = match choice(5) { 0 => 0, 1 => i32::MAX as i64, 2 => i32::MIN as i64, 3 => -3000, _ => 1_000_000 };
    let d = match choice(4) { 0 => 0, 1 => i32::MAX as i64, 2 => i32::MIN as i64, _ => 2_000_000 };
    let t = match choice(4) { 0 => i64::MAX, 1 => i64::MIN + 3, 2 => 0, _ => 1 << 53 };
    let e = match choice(4) { 0 => 0, 1 => 1, 2 => 2, _ => 3 };
    let f = match choice(4) { 0 => 0, 1 => 1, 2 => 2, _ => 3 };
    compare(span((m, d, t - e)), span((m, d, t - f)), ord(e > f, e < f));
    // the same length in other fields
    if (m < i32::MAX as i64) & (d > i32::MIN as i64 + 30) & (d < i32::MAX as i64) & (t < 1 << 60) {
        cover("carried");
        compare(span((m + 1, d - 30, t - e)), span((m, d, t - f)), ord(e > f, e < f));
        compare(span((m, d - 1, t + USECS_PER_DAY - e)), span((m, d, t - f)), ord(e > f, e < f));
    }
}
fn c09_timestamp() {
    let (a, b) = (any_i64(), any_i64());
    compare(Timestamp::from(a), Timestamp::from(b), ord(a < b, a > b));
}
fn c09_date() {
    let (a, b) = (any_i32(), any_i32());
    compare(Date::from(a), Date::from(b), ord(a < b, a > b));
}
fn c09_time() {
    let (a, b) = (any_i64(), any_i64());
    compare(Time::from(a), Time::from(b), ord(a < b, a > b));
}
fn c10_whole() {
    let i = any_iv();
    if (i.2 < 1 << 43) & (i.2 > -(1 << 43)) {
        cover("small");
    } else {
        cover("large");
    }
    match choice(7) {
        0 => whole(span(i).mul_f64(0.0), i, 0),
        1 => whole(span(i).mul_f64(1.0), i, 1),
        2 => whole(span(i).mul_f64(-1.0), i, -1),
        3 => whole(span(i).mul_f64(2.0), i, 2),
        4 => whole(span(i).mul_f64(-3.0), i, -3),
        5 => whole(span(i).mul_f64(12.0), i, 12),
        _ => whole(span(i).mul_f64(1000.0), i, 1000),
    }
}
fn c10_huge() {
    // a factor that only zero counts survive
    let i = any_iv();
    let r = match choice(2) { 0 => span(i).mul_f64(1e20), _ => span(i).mul_f64(-1e20) };
    match r {
        Ok(x) => {
            cover("zero");
            check((i.0 == 0) & (i.1 == 0) & (i.2 == 0), "huge: accepted");
            check(mdt(x) == (0, 0, 0), "huge: zero");
        }
        Err(_) => {
            cover("err");
            check((i.0 != 0) | (i.1 != 0) | (i.2 != 0), "huge: zero rejected");
        }
    }
}
fn c10_half() {
    let i = exact_iv();
    let (f, p, q) = match choice(5) {
        0 => (0.5, 1, 2),
        1 => (-0.5, -1, 2),
        2 => (1.5, 3, 2),
        3 => (0.25, 1, 4),
        _ => (-2.75, -11, 4),
    };
    scaled(span(i).mul_f64(f), i, p, q);
}
fn c10_div() {
    let i = exact_iv();
    let (f, p, q) = match choice(5) {
        0 => (1.0, 1, 1),
        1 => (-1.0, -1, 1),
        2 => (2.0, 1, 2),
        3 => (-4.0, -1, 4),
        _ => (0.5, 2, 1),
    };
    scaled(span(i).div_f64(f), i, p, q);
}
fn c10_time() {
    general((0, 0, int(-(1 << 52), 1 << 52)));
}
fn c10_finer() {
    let i = exact_iv();
    match choice(4) {
        0 => scaled(span(i).mul_f64(2.625), i, 21, 8),
        1 => scaled(span(i).mul_f64(-0.015625), i, -1, 64),
        2 => scaled(span(i).div_f64(8.0), i, 1, 8),
        _ => scaled(span(i).div_f64(-64.0), i, -1, 64),
    }
}
fn c10_special() {
    let i = any_iv();
    let r = match choice(5) {
        0 => span(i).mul_f64(f64::NAN),
        1 => span(i).mul_f64(f64::INFINITY),
        2 => span(i).mul_f64(f64::NEG_INFINITY),
        3 => span(i).div_f64(f64::NAN),
        _ => span(i).div_f64(if choice(2) == 0 { 0.0 } else { -0.0 }),
    };
    cover("special");
    check(r.is_err(), "special: accepted");
}
fn c11_add() {
    let t = int(0, USECS_PER_DAY);
    let i = any_iv();
    let r = i64::from(Time::from(t).add_interval(span(i)));
    if i.2 < 0 { cover("back") } else { cover("forth") }
    check(checked(r, 0, USECS_PER_DAY - 1), "add: range");
    check(r == fmod(t + fmod(i.2, USECS_PER_DAY), USECS_PER_DAY), "add: value");
}
fn c11_sub() {
    let t = int(0, USECS_PER_DAY);
    let i = any_iv();
    let r = i64::from(Time::from(t).sub_interval(span(i)));
    if i.2 < 0 { cover("forth") } else { cover("back") }
    check(checked(r, 0, USECS_PER_DAY - 1), "sub: range");
    check(r == fmod(t - fmod(i.2, USECS_PER_DAY), USECS_PER_DAY), "sub: value");
}
fn c11_diff() {
    let (a, b) = (int(0, USECS_PER_DAY), int(0, USECS_PER_DAY));
    let d = Time::from(a).sub_time(Time::from(b));
    cover("diff");
    check(mdt(d) == (0, 0, a - b), "diff: value");
    let c = i64::from(Time::from(b).add_interval(d));
    check(c == if a == USECS_PER_DAY { 0 } else { a }, "diff: back");
}
fn c11_time() {
    let i = any_iv();
    let r = i64::from(Time::from(span(i)));
    if i.2 < 0 { cover("negative") } else { cover("positive") }
    check(checked(r, 0, USECS_PER_DAY - 1), "to time: range");
    check(r == fmod(i.2, USECS_PER_DAY), "to time: value");
}
fn c12_hms() {
    let h = any_i32();
    let m = any_i32();
    let e = int(-8_000_000 * 61, 8_000_000 * 61);
    let r = Time::try_from_hms(h, m, eighths(e));
    let ok = ((h >= 0) & (h <= 23) & (m >= 0) & (m <= 59) & (e >= 0) & (e <= 8_000_000 * 60))
        | ((h == 24) & (m == 0) & (e == 0));
    let v = (h as i64 * 60 + m as i64) * 60_000_000;
    let (lo, hi) = nearest(e);
    match r {
        Ok(x) => {
            cover("ok");
            check(ok, "accepted invalid");
            check(checked(i64::from(x), v + lo, v + hi), "value");
        }
        Err(_) => {
            cover("err");
            check(!ok, "rejected valid");
        }
    }
}
fn c12_special() {
    let s = match choice(6) {
        0 => f64::NAN,
        1 => f64::INFINITY,
        2 => f64::NEG_INFINITY,
        3 => 60.000001,
        4 => 1e300,
        _ => -1e-7,
    };
    cover("special");
    check(Time::try_from_hms(any_i32(), any_i32(), s).is_err(), "special: accepted");
}
fn c29_units() {
    let (y, mo, w, d) = (any_i32(), any_i32(), any_i32(), any_i32());
    let (h, mi) = (any_i32(), any_i32());
    let e = int(-8_000_000 * 100_000, 8_000_000 * 100_000);
    let months = 12 * y as i64 + mo as i64;
    let days = 7 * w as i64 + d as i64;
    assume(fits_i32(months) & fits_i32(days));
    let r = Interval::try_from_ymwd_hms(y, mo, w, d, h, mi, eighths(e));
    let t = h as i64 * 3_600_000_000 + mi as i64 * 60_000_000;
    let (lo, hi) = nearest(e);
    match r {
        Ok(i) => {
            cover("ok");
            let (a, b, c) = mdt(i);
            check(a == months, "months");
            check(b == days, "days");
            check(checked(c, t + lo, t + hi), "time");
        }
        Err(_) => check(false, "rejected"),
    }
}
fn c29_total() {
    let e = int(-8_000_000 * 100_000, 8_000_000 * 100_000);
    let r = Interval::try_from_ymwd_hms(any_i32(), any_i32(), any_i32(), any_i32(), any_i32(), any_i32(), eighths(e));
    cover("total");
    check(r.is_ok(), "rejected");
}
fn c29_special() {
    let s = match choice(3) { 0 => f64::NAN, 1 => f64::INFINITY, _ => f64::NEG_INFINITY };
    let r = Interval::try_from_ymwd_hms(any_i32(), any_i32(), any_i32(), any_i32(), any_i32(), any_i32(), s);
    cover("special");
    check(r.is_err(), "accepted");
    check(mdt(Interval::new()) == (0, 0, 0), "the new interval");
}
}
