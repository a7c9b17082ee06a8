//! Serialised forms.
use crate::gen::*;
use crate::model::*;
use crate::ser::*;
use crate::vf::*;
use pgdatetime::*;
use serde::{Deserialize, Serialize};

fn text<T: Serialize + for<'a> Deserialize<'a>>(v: T) -> Result<T, E> {
    match v.serialize(Bin(true)) {
        Ok(Out::Str(s)) => T::deserialize(De(In::Str(&s), true)),
        _ => {
            check(false, "no text");
            Err(E)
        }
    }
}
fn binary<T: Serialize + for<'a> Deserialize<'a>>(v: T) -> Result<T, E> {
    match v.serialize(Bin(false)) {
        Ok(Out::I32(x)) => T::deserialize(De(In::I32(x), false)),
        Ok(Out::I64(x)) => T::deserialize(De(In::I64(x), false)),
        Ok(Out::Struct(f)) => T::deserialize(De(In::Seq(&f.val[..f.n]), false)),
        _ => {
            check(false, "no binary form");
            Err(E)
        }
    }
}
fn back_date(n: i64) {
    cover("date");
    match text(Date::from(n as i32)) {
        Ok(r) => check(datev(r) == n, "date text"),
        Err(_) => check(false, "date text is not read"),
    }
}
fn back_stamp(v: i64) {
    cover("stamp");
    match text(Timestamp::from(v)) {
        Ok(r) => check(tsv(r) == v, "timestamp text"),
        Err(_) => check(false, "timestamp text is not read"),
    }
}
fn back_span(m: i64, d: i64, t: i64) {
    const LONG: i64 = (1 << 31) * 3_600_000_000;
    if t >= LONG || t <= -LONG - 3_600_000_000 {
        // no text form: the hours do not fit
        cover("long");
        return;
    }
    cover("span");
    match text(span(m, d, t)) {
        Ok(r) => check(mdt(r) == (m, d, t), "interval text"),
        Err(_) => check(false, "interval text is not read"),
    }
}
/// An interval, without the serialised form.
fn span(m: i64, d: i64, t: i64) -> Interval {
    let md = Interval::try_from_ymwd_hms(0, m as i32, 0, d as i32, 0, 0, 0.0);
    match md {
        Ok(i) => match i.add_interval(Interval::from(Time::from(t))) {
            Ok(i) => i,
            Err(_) => {
                check(false, "interval");
                i
            }
        },
        Err(_) => {
            check(false, "interval");
            Interval::new()
        }
    }
}
fn little() -> i64 {
    match choice(3) { 0 => 0, 1 => int(1, 9), _ => int(-9, -1) }
}
const NAMES: [&str; 3] = ["time", "day", "month"];
fn from_map(f: &[(&str, i64)]) -> Result<Interval, E> {
    Interval::deserialize(De(In::Map(f), false))
}
harnesses! {
fn c27_integers() {
    // binary forms of every integer
    match choice(3) {
        0 => {
            let v = any_i32();
            cover("date");
            match binary(Date::from(v)) {
                Ok(r) => check(r == Date::from(v), "date"),
                Err(_) => check(false, "date is not read"),
            }
        }
        1 => {
            let v = any_i64();
            cover("time");
            match binary(Time::from(v)) {
                Ok(r) => check(i64::from(r) == v, "time"),
                Err(_) => check(false, "time is not read"),
            }
        }
        _ => {
            let v = any_i64();
            cover("stamp");
            match binary(Timestamp::from(v)) {
                Ok(r) => check(r == Timestamp::from(v), "timestamp"),
                Err(_) => check(false, "timestamp is not read"),
            }
        }
    }
}
fn c27_interval() {
    let x = any_iv();
    cover("span");
    let i = span(x.0, x.1, x.2);
    check(mdt(i) == x, "components");
    match binary(i) {
        Ok(r) => check(mdt(r) == x, "interval"),
        Err(_) => check(false, "interval is not read"),
    }
}
fn c27_fields() {
    // named components, in any order
    let x = any_iv();
    let f = [("month", x.0), ("day", x.1), ("time", x.2)];
    let a = choice(3) as usize;
    let b = choice(2) as usize;
    let p = (a + 1 + b) % 3;
    let q = 3 - a - p;
    cover("order");
    let want = span(x.0, x.1, x.2);
    match from_map(&[f[a], f[p], f[q]]) {
        Ok(r) => check((mdt(r) == x) & (mdt(want) == x), "interval"),
        Err(_) => check(false, "interval is not read"),
    }
    // with one named again
    let g = choice(3) as usize;
    let e = (NAMES[choice(3) as usize], int(-9, 9));
    let all = match g {
        0 => [f[a], f[p], f[q], e],
        1 => [f[a], f[p], e, f[q]],
        _ => [f[a], e, f[p], f[q]],
    };
    check(from_map(&all).is_err(), "named again");
    // a strange one
    let s = (match choice(5) { 0 => "", 1 => "months", 2 => "Day", 3 => "tim", _ => "year" }, 1);
    let all = match g {
        0 => [f[a], f[p], f[q], s],
        1 => [f[a], f[p], s, f[q]],
        _ => [s, f[a], f[p], f[q]],
    };
    check(from_map(&all).is_err(), "strange name");
}
fn c27_missing() {
    let x = any_iv();
    let f = [("month", x.0), ("day", x.1), ("time", x.2)];
    let a = choice(3) as usize;
    let b = choice(3) as usize;
    cover("missing");
    check(from_map(&[]).is_err(), "nothing");
    check(from_map(&[f[a]]).is_err(), "one of three");
    check(from_map(&[f[a], f[b]]).is_err(), "two of three");
    check(from_map(&[f[a], f[b], f[a]]).is_err(), "two of three, one again");
    let v = [x.0, x.1, x.2];
    check(Interval::deserialize(De(In::Seq(&v[..a]), false)).is_err(), "short sequence");
}
fn c27_text_dates() { back_date(any_day().n) }
fn c27_text_times() {
    let c = any_clock();
    let t = if choice(2) == 0 { c.t } else { USECS_PER_DAY };
    cover("time");
    match text(Time::from(t)) {
        Ok(r) => check(i64::from(r) == t, "time text"),
        Err(_) => check(false, "time text is not read"),
    }
}
fn c27_text_stamps() {
    let x = any_ts_day();
    back_stamp(x.n * USECS_PER_DAY + any_clock().t);
}
fn c27_text_infinite() {
    match choice(2) {
        0 => back_date(if choice(2) == 0 { i32::MAX as i64 } else { i32::MIN as i64 }),
        _ => back_stamp(if choice(2) == 0 { i64::MAX } else { i64::MIN }),
    }
}
fn c27_text_months() {
    let m = match choice(2) { 0 => int(0, i32::MAX as i64), _ => int(i32::MIN as i64, -1) };
    back_span(m, little(), 3_723_000_001 * little());
}
fn c27_text_days() {
    let d = match choice(2) { 0 => int(0, i32::MAX as i64), _ => int(i32::MIN as i64, -1) };
    let t = match choice(3) { 0 => 0, 1 => 3_723_000_001, _ => -3_723_000_001 };
    back_span(little(), d, t);
}
fn c27_text_clocks() {
    let t = int(0, 23) * 3_600_000_000 + int(0, 59) * 60_000_000 + int(0, 59) * 1_000_000 + int(0, 999_999);
    let (m, d) = match choice(4) { 0 => (0, 0), 1 => (14, 3), 2 => (-14, 3), _ => (0, -3) };
    back_span(m, d, if choice(2) == 0 { t } else { -t });
}
fn c27_text_hours() {
    let h = match choice(2) { 0 => int(0, 2_562_047_787), _ => int(-2_562_047_787, -1) };
    let r = match choice(2) { 0 => 0, _ => 3_599_999_999 };
    let t = h * 3_600_000_000 + if h < 0 { -r } else { r };
    let (m, d) = match choice(4) { 0 => (0, 0), 1 => (14, 3), 2 => (-14, 3), _ => (0, -3) };
    back_span(m, d, t);
}
}
