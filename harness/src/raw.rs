//! Values outside the supported range: `From` accepts any integer.
use crate::gen::*;
use crate::model::*;
use crate::vf::*;
use pgdatetime::*;
use std::convert::TryFrom;

fn unit() -> DateUnit {
    use DateUnit::*;
    match choice(23) {
        0 => Delta,
        1 => Second,
        2 => Minute,
        3 => Hour,
        4 => Day,
        5 => Week,
        6 => Month,
        7 => Quarter,
        8 => Year,
        9 => Decade,
        10 => Century,
        11 => MilliSec,
        12 => MicroSec,
        13 => JULIAN,
        14 => Dow,
        15 => IsoDow,
        16 => Doy,
        17 => Tz,
        18 => TzMinute,
        19 => TzHour,
        20 => Millennium,
        21 => IsoYear,
        _ => Epoch,
    }
}
fn ty() -> FieldType {
    match choice(2) { 0 => FieldType::Unit, _ => FieldType::Epoch }
}
fn style() -> DateStyle {
    match choice(5) {
        0 => DateStyle::Postgres,
        1 => DateStyle::ISO,
        2 => DateStyle::SQL,
        3 => DateStyle::German,
        _ => DateStyle::XSD,
    }
}
fn order() -> DateOrder {
    match choice(3) { 0 => DateOrder::YMD, 1 => DateOrder::DMY, _ => DateOrder::MDY }
}
/// Any date value that is neither supported nor infinite.
fn raw_date() -> Date {
    let v = match choice(2) {
        0 => int(i32::MIN as i64 + 1, MIN_DATE - 1),
        _ => int(END_DATE, i32::MAX as i64 - 1),
    };
    Date::from(v as i32)
}
/// Any timestamp value after the supported range.
fn late() -> Timestamp {
    let n = TS_END_DATE + choice(9) as i64;
    let t = int(0, USECS_PER_DAY - 1);
    assume(n < TS_END_DATE + 8 || t < i64::MAX % USECS_PER_DAY);
    ts(n, t)
}
/// Any timestamp value before the supported range.
fn early() -> Timestamp {
    Timestamp::from(int(i64::MIN + 1, MIN_TS - 1))
}
fn raw_ts() -> Timestamp {
    match choice(2) { 0 => early(), _ => late() }
}
/// A timestamp with any value.
fn some_ts() -> Timestamp {
    match choice(4) {
        0 => early(),
        1 => late(),
        2 => {
            let d = day_of(match choice(2) { 0 => 2, _ => 12 }, -4712, 294275);
            ts(d.n, any_clock().t)
        }
        _ => match choice(2) { 0 => Timestamp::from(i64::MIN), _ => Timestamp::from(i64::MAX) },
    }
}
fn raw_time() -> Time {
    let v = match choice(2) {
        0 => int(i64::MIN, -1),
        _ => int(USECS_PER_DAY + 1, i64::MAX),
    };
    Time::from(v)
}
fn some_iv() -> Interval {
    let (m, d, t) = any_iv();
    iv(m, d, t)
}
fn seen<T>(r: Result<T, DateTimeError>) {
    match r {
        Ok(_) => cover("ok"),
        Err(_) => cover("err"),
    }
}
/// The date, if any, is supported, or the infinite one it was.
fn day(r: Result<Date, DateTimeError>) {
    match r {
        Ok(d) => {
            cover("date");
            let v = datev(d);
            check((v == i32::MIN as i64) | (v == i32::MAX as i64) | ((v >= MIN_DATE) & (v < END_DATE)), "supported date");
        }
        Err(_) => cover("err"),
    }
}
fn stamp(r: Result<Timestamp, DateTimeError>) {
    match r {
        Ok(d) => {
            cover("timestamp");
            let v = tsv(d);
            check((v == i64::MIN) | (v == i64::MAX) | ((v >= MIN_TS) & (v < END_TS)), "supported timestamp");
        }
        Err(_) => cover("err"),
    }
}
fn clock(t: Time) {
    let t = unsafe { std::mem::transmute::<Time, i64>(t) };
    cover("time");
    check((t >= 0) & (t < USECS_PER_DAY), "time of day");
}

harnesses! {
fn c30_date_days() {
    let d = raw_date();
    match choice(2) {
        0 => day(d.add_days(any_i32())),
        _ => day(d.sub_days(any_i32())),
    }
}
fn c30_date_diff() {
    let d = any_i32();
    let e = any_i32();
    match Date::from(d).sub_date(Date::from(e)) {
        Ok(n) => {
            cover("ok");
            check(n as i64 == d as i64 - e as i64, "difference");
        }
        Err(_) => {
            cover("err");
            let w = d as i64 - e as i64;
            let inf = |v: i32| (v == i32::MIN) | (v == i32::MAX);
            check(inf(d) | inf(e) | (w < i32::MIN as i64) | (w > i32::MAX as i64), "no difference");
        }
    }
}
fn c30_date_format() {
    seen(raw_date().format(style(), order()));
}
fn c30_date_ops() {
    let d = raw_date();
    match choice(6) {
        0 => stamp(d.add_interval(some_iv())),
        1 => stamp(d.sub_interval(some_iv())),
        2 => stamp(d.add_time(Time::from(any_i64()))),
        3 => seen(d.date_part(ty(), unit())),
        4 => seen(d.truncate(ty(), unit())),
        _ => stamp(Timestamp::try_from(d)),
    }
}
fn c30_ts_format() {
    seen(raw_ts().format(style(), order()));
}
fn c30_ts_time_ops() {
    let t = raw_ts();
    match choice(4) {
        0 => stamp(t.add_interval(iv(0, 0, any_i64()))),
        1 => stamp(t.sub_interval(iv(0, 0, any_i64()))),
        2 => stamp(t.add_time(Time::from(any_i64()))),
        _ => stamp(t.sub_time(Time::from(any_i64()))),
    }
}
fn c30_ts_add_days() {
    stamp(raw_ts().add_interval(iv(0, any_i32() as i64, any_i64())));
}
fn c30_ts_add_months() {
    stamp(raw_ts().add_interval(iv(any_i32() as i64, 0, any_i64())));
}
fn c30_ts_diff() {
    let t = raw_ts();
    match choice(3) {
        0 => seen(t.sub_timestamp(Timestamp::from(any_i64()))),
        1 => seen(Timestamp::from(any_i64()).sub_timestamp(t)),
        _ => seen(t.sub_date(Date::from(any_i32()))),
    }
}
fn c30_ts_date() {
    seen(Date::try_from(raw_ts()));
}
fn c30_ts_time() {
    let t: Result<Option<Time>, DateTimeError> = TryFrom::try_from(raw_ts());
    match t {
        Ok(Some(t)) => clock(t),
        Ok(None) => check(false, "no time"),
        Err(_) => cover("err"),
    }
}
fn c30_ts_part() {
    seen(raw_ts().date_part(ty(), unit()));
}
fn c30_ts_trunc() {
    seen(raw_ts().truncate(ty(), unit()));
}
fn c30_ts_age() {
    seen(match choice(2) {
        0 => raw_ts().age(some_ts()),
        _ => some_ts().age(raw_ts()),
    });
}
fn c30_time_format() {
    seen(raw_time().format(style()));
}
fn c30_time_ops() {
    let t = raw_time();
    match choice(5) {
        0 => clock(t.add_interval(some_iv())),
        1 => clock(t.sub_interval(some_iv())),
        2 => { t.sub_time(Time::from(any_i64())); }
        3 => seen(t.date_part(ty(), unit())),
        _ => seen(t.truncate(ty(), unit())),
    }
}
fn c30_interval_time() {
    clock(Time::from(some_iv()));
}
}
