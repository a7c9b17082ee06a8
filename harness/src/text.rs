//! Formatting and reading back.
use crate::gen::*;
use crate::model::*;
use crate::vf::*;
use pgdatetime::*;
use DateOrder::*;
use DateStyle::*;

fn ymd_order() -> DateOrder {
    match choice(3) { 0 => YMD, 1 => DMY, _ => MDY }
}
fn mdy_dmy() -> DateOrder {
    if choice(2) == 0 { DMY } else { MDY }
}
fn date_back(x: Day, st: DateStyle, o: DateOrder) {
    let d = date(x.n);
    match d.format(st, o) {
        Ok(s) => {
            cover("format");
            obs("len", s.len() as i64);
            check(Date::try_from_str(&s, o) == Ok(d), "round trip");
        }
        Err(_) => check(false, "format"),
    }
}
fn stamp_back(n: i64, t: i64, st: DateStyle, o: DateOrder) {
    let v = ts(n, t);
    match v.format(st, o) {
        Ok(s) => {
            cover("format");
            obs("len", s.len() as i64);
            match Timestamp::try_from_str(&s, -1, o) {
                Ok(r) => check(tsv(r) == n * USECS_PER_DAY + t, "round trip"),
                Err(_) => check(false, "does not parse"),
            }
        }
        Err(_) => check(false, "format"),
    }
}
fn stamp_formats(n: i64, t: i64, st: DateStyle, o: DateOrder) {
    cover("format");
    check(ts(n, t).format(st, o).is_ok(), "format");
}
fn special(st: DateStyle, o: DateOrder) {
    let neg = choice(2) == 1;
    let d = Date::from(if neg { i32::MIN } else { i32::MAX });
    let t = Timestamp::from(if neg { i64::MIN } else { i64::MAX });
    cover("special");
    match d.format(st, o) {
        Ok(s) => check(Date::try_from_str(&s, o) == Ok(d), "special date"),
        Err(_) => check(false, "special date format"),
    }
    match t.format(st, o) {
        Ok(s) => check(Timestamp::try_from_str(&s, -1, o) == Ok(t), "special timestamp"),
        Err(_) => check(false, "special timestamp format"),
    }
}
fn style() -> DateStyle {
    match choice(5) { 0 => Postgres, 1 => ISO, 2 => SQL, 3 => German, _ => XSD }
}
/// Zero, or small of either sign.
fn little() -> i64 {
    match choice(3) { 0 => 0, 1 => int(1, 9), _ => int(-9, -1) }
}
fn little_time() -> i64 {
    let h = little();
    h * 3_600_000_000 + if h == 0 { 0 } else if h > 0 { 61_500_000 } else { -61_500_000 }
}
fn ivstyle() -> IntervalStyle {
    match choice(4) {
        0 => IntervalStyle::Postgres,
        1 => IntervalStyle::PostgresVerbose,
        2 => IntervalStyle::SQLStandard,
        _ => IntervalStyle::ISO8601,
    }
}
fn span_back(m: i64, d: i64, t: i64, st: IntervalStyle) {
    match iv(m, d, t).format(st) {
        Ok(s) => {
            cover("format");
            obs("len", s.len() as i64);
            match Interval::try_from_str(&s, -1, st) {
                Ok(r) => check(mdt(r) == (m, d, t), "round trip"),
                Err(_) => check(false, "does not parse"),
            }
        }
        Err(_) => {
            cover("err");
            const HOUR: i64 = 3_600_000_000;
            check((t >= (1 << 31) * HOUR) | (t <= -(1 << 31) * HOUR - HOUR), "format");
        }
    }
}
/// Months and days of each combination of signs.
fn few() -> (i64, i64) {
    match choice(7) {
        0 => (0, 0),
        1 => (14, 3),
        2 => (-14, -3),
        3 => (14, -3),
        4 => (-14, 3),
        5 => (0, -1),
        _ => (1, 0),
    }
}
harnesses! {
fn c21_months() {
    let m = match choice(2) { 0 => int(0, i32::MAX as i64), _ => int(i32::MIN as i64, -1) };
    let (d, t) = (little(), little_time());
    span_back(m, d, t, ivstyle());
}
fn c21_days() {
    let d = match choice(2) { 0 => int(0, i32::MAX as i64), _ => int(i32::MIN as i64, -1) };
    let (m, t) = (little(), little_time());
    span_back(m, d, t, ivstyle());
}
fn c21_seconds() {
    let t = match choice(2) { 0 => 0, _ => 427 * 60_000_000 };
    let t = t + int(0, 59) * 1_000_000 + int(0, 999_999);
    let (m, d) = match choice(4) { 0 => (0, 0), 1 => (14, 3), 2 => (-14, 3), _ => (0, -3) };
    span_back(m, d, if choice(2) == 0 { t } else { -t }, ivstyle());
}
fn c21_minutes() {
    let t = match choice(3) { 0 => 0, 1 => 3_000_000, _ => 45_600_000 };
    let t = t + (int(0, 23) * 60 + int(0, 59)) * 60_000_000;
    let (m, d) = few();
    span_back(m, d, if choice(2) == 0 { t } else { -t }, ivstyle());
}
fn c21_hours() {
    // the longest times only lose their minutes
    let h = match choice(2) { 0 => int(0, 2_562_047_787), _ => int(-2_562_047_787, -1) };
    let r = match choice(3) { 0 => 0, 1 => 62_500_000, _ => 3_599_999_999 };
    let t = h * 3_600_000_000 + if h < 0 { -r } else { r };
    let (m, d) = few();
    span_back(m, d, t, ivstyle());
}
fn c18_iso() { date_back(any_day(), if choice(2) == 0 { ISO } else { XSD }, ymd_order()) }
fn c18_sql() { date_back(any_day(), SQL, mdy_dmy()) }
fn c18_postgres() { date_back(any_day(), Postgres, mdy_dmy()) }
fn c18_german() { date_back(any_day(), German, DMY) }
fn c18_formats() {
    let x = any_day();
    let (s, o) = match choice(4) { 0 => (SQL, YMD), 1 => (Postgres, YMD), 2 => (German, YMD), _ => (German, MDY) };
    cover("format");
    check(date(x.n).format(s, o).is_ok(), "format");
}
fn c18_special() { special(style(), ymd_order()) }
fn c19_iso() {
    let x = any_ts_day();
    let c = any_clock();
    stamp_back(x.n, c.t, if choice(2) == 0 { ISO } else { XSD }, ymd_order());
}
fn c19_postgres() {
    // the clock in every order, on Thursdays of one month
    let x = day_of(2, -4713, 294276);
    assume(weekday(x.n) == 3 && x.n >= MIN_DATE);
    let c = any_clock();
    stamp_back(x.n, c.t, Postgres, ymd_order());
}
fn c19_postgres_days() {
    let x = any_ts_day();
    let t = match choice(2) { 0 => 0, _ => ((23 * 60 + 4) * 60 + 50) * 1_000_000 + 60_700 };
    stamp_back(x.n, t, Postgres, ymd_order());
}
fn c19_sql() {
    let x = any_ts_day();
    let c = any_clock();
    stamp_back(x.n, c.t, SQL, mdy_dmy());
}
fn c19_german() {
    let x = any_ts_day();
    let c = any_clock();
    stamp_back(x.n, c.t, German, DMY);
}
fn c19_formats() {
    let x = any_ts_day();
    let c = any_clock();
    let (s, o) = match choice(3) { 0 => (SQL, YMD), 1 => (German, YMD), _ => (German, MDY) };
    stamp_formats(x.n, c.t, s, o);
}
fn c19_special() { special(style(), ymd_order()) }
fn c20_time() {
    let c = any_clock();
    let t = if choice(2) == 0 { c.t } else { USECS_PER_DAY };
    let o = ymd_order();
    match Time::from(t).format(style()) {
        Ok(s) => {
            cover("format");
            match Time::try_from_str(&s, -1, o) {
                Ok(r) => check(i64::from(r) == t, "round trip"),
                Err(_) => check(false, "does not parse"),
            }
        }
        Err(_) => check(false, "format"),
    }
}
}
