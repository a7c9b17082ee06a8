//! Clock times in text.
use crate::gen::*;
use crate::model::*;
use crate::txt::*;
use crate::vf::*;
use pgdatetime::*;
use DateOrder::*;

#[derive(Clone, Copy, PartialEq)]
enum Half { No, Am, Pm }

/// Microseconds since midnight, or none for a time that does not exist.
fn meaning(h: i64, m: i64, s: i64, us: i64, half: Half) -> (bool, i64) {
    let top = if half == Half::No { 24 } else { 12 };
    let g = match half {
        Half::No => h,
        Half::Am => if h == 12 { 0 } else { h },
        Half::Pm => if h == 12 { 12 } else { h + 12 },
    };
    let v = g * 3_600_000_000 + m * 60_000_000 + s * 1_000_000 + us;
    ((h <= top) & (m <= 59) & (s <= 60) & (v <= USECS_PER_DAY), v)
}
/// The same text alone and after (or before) a date.
fn both(t: &Txt, ok: bool, v: i64) {
    let day = day_number(2001, 2, 3);
    match choice(2) {
        0 => match Time::try_from_str(t.s(), -1, YMD) {
            Ok(r) => {
                cover("ok");
                check(ok, "accepts a time that does not exist");
                check(i64::from(r) == v, "time");
            }
            Err(_) => {
                cover("err");
                check(!ok, "rejects a time");
            }
        },
        _ => {
            let mut u = Txt::of("2001-02-03 ");
            u.lit(t.s());
            match Timestamp::try_from_str(u.s(), -1, YMD) {
                Ok(r) => {
                    cover("stamp ok");
                    check(ok, "stamp: accepts a time that does not exist");
                    check(tsv(r) == day * USECS_PER_DAY + v, "stamp: time");
                }
                Err(_) => {
                    cover("stamp err");
                    check(!ok, "stamp: rejects a time");
                }
            }
        }
    }
}
fn half(t: &mut Txt) -> Half {
    match choice(5) {
        0 => Half::No,
        1 => { t.lit(" am"); Half::Am }
        2 => { t.lit("PM"); Half::Pm }
        3 => { t.lit(" pM"); Half::Pm }
        _ => { t.lit("Am"); Half::Am }
    }
}
fn two(t: &mut Txt) -> i64 {
    t.num(2, 0, 99)
}
harnesses! {
fn c24_minutes() {
    let mut t = Txt::new();
    let h = match choice(3) { 0 => t.num(1, 0, 9), 1 => two(&mut t), _ => t.num(3, 0, 999) };
    t.lit(":");
    let m = match choice(3) { 0 => t.num(1, 0, 9), 1 => two(&mut t), _ => t.num(3, 0, 999) };
    let x = half(&mut t);
    let (ok, v) = meaning(h, m, 0, 0, x);
    both(&t, ok, v);
}
fn c24_seconds() {
    let mut t = Txt::new();
    let h = two(&mut t);
    t.lit(":");
    let m = two(&mut t);
    t.lit(":");
    let s = match choice(3) { 0 => t.num(1, 0, 9), 1 => two(&mut t), _ => t.num(3, 0, 999) };
    let x = half(&mut t);
    let (ok, v) = meaning(h, m, s, 0, x);
    both(&t, ok, v);
}
fn c24_fraction() {
    let mut t = Txt::new();
    let h = two(&mut t);
    t.lit(":");
    let m = two(&mut t);
    t.lit(":");
    let s = two(&mut t);
    t.lit(".");
    let us = match choice(6) {
        0 => t.num(1, 0, 9) * 100_000,
        1 => t.num(2, 0, 99) * 10_000,
        2 => t.num(3, 0, 999) * 1000,
        3 => t.num(4, 0, 9999) * 100,
        4 => t.num(5, 0, 99999) * 10,
        _ => t.num(6, 0, 999999),
    };
    let x = half(&mut t);
    let (ok, v) = meaning(h, m, s, us, x);
    both(&t, ok, v);
}
fn c24_long() {
    // numbers of any size: never a different time, never a panic
    let mut t = Txt::new();
    let w = choice(3);
    let n = 4 + choice(7) as usize;
    let h = if w == 0 { t.num(n, 0, 2_499_999_999) } else { two(&mut t) };
    t.lit(":");
    let m = if w == 1 { t.num(n, 0, 9_999_999_999) } else { two(&mut t) };
    t.lit(":");
    let s = if w == 2 { t.num(n, 0, 9_999_999_999) } else { two(&mut t) };
    let (ok, v) = meaning(h, m, s, 0, Half::No);
    both(&t, ok, v);
}
fn c24_fraction_rounded() {
    // seven digits of a fraction are rounded to the nearest microsecond
    let mut t = Txt::of("");
    let h = t.num(2, 0, 23);
    t.lit(":59:");
    let s = t.num(2, 0, 59);
    t.lit(".");
    let f = t.num(7, 0, 9_999_999);
    let v = h * 3_600_000_000 + 59 * 60_000_000 + s * 1_000_000;
    match Time::try_from_str(t.s(), -1, YMD) {
        Ok(r) => {
            cover("ok");
            let e = (i64::from(r) - v) * 10 - f;
            check((e >= -5) & (e <= 5), "nearest microsecond");
        }
        Err(_) => check(false, "rejects a time"),
    }
}
fn c24_date_after() {
    // a date of month names may follow the clock
    let mut t = Txt::of("");
    let h = two(&mut t);
    t.lit(":");
    let m = two(&mut t);
    let x = half(&mut t);
    t.lit(" Feb 3 2001");
    let (ok, v) = meaning(h, m, 0, 0, x);
    match Timestamp::try_from_str(t.s(), -1, MDY) {
        Ok(r) => {
            cover("stamp ok");
            check(ok, "stamp: accepts a time that does not exist");
            check(tsv(r) == day_number(2001, 2, 3) * USECS_PER_DAY + v, "stamp: time");
        }
        Err(_) => {
            cover("stamp err");
            check(!ok, "stamp: rejects a time");
        }
    }
}
fn c24_iso() {
    // the forms of ISO 8601
    let mut t = Txt::of("2001-02-03T");
    let h = two(&mut t);
    t.lit(":");
    let m = two(&mut t);
    t.lit(":");
    let s = two(&mut t);
    let us = match choice(2) { 0 => 0, _ => { t.lit("."); t.num(3, 0, 999) * 1000 } };
    let (ok, v) = meaning(h, m, s, us, Half::No);
    match Timestamp::try_from_str(t.s(), -1, YMD) {
        Ok(r) => {
            cover("stamp ok");
            check(ok, "stamp: accepts a time that does not exist");
            check(tsv(r) == day_number(2001, 2, 3) * USECS_PER_DAY + v, "stamp: time");
        }
        Err(_) => {
            cover("stamp err");
            check(!ok, "stamp: rejects a time");
        }
    }
}
fn c24_minutes_seconds() {
    // mm:ss.f is minutes and seconds
    let mut t = Txt::new();
    let m = match choice(2) { 0 => t.num(1, 0, 9), _ => two(&mut t) };
    t.lit(":");
    let s = match choice(2) { 0 => t.num(1, 0, 9), _ => two(&mut t) };
    t.lit(".");
    let us = match choice(4) {
        0 => 0,
        1 => t.num(1, 0, 9) * 100_000,
        2 => t.num(3, 0, 999) * 1000,
        _ => t.num(6, 0, 999999),
    };
    let x = half(&mut t);
    let (ok, v) = meaning(0, m, s, us, x);
    both(&t, ok, v);
}
}
