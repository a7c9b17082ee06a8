//! Run-together, ordinal, Julian and labelled notations.
use crate::dates::{era, exists, order, verdict, year};
use crate::gen::*;
use crate::model::*;
use crate::txt::*;
use crate::vf::*;
use pgdatetime::*;
use DateOrder::*;

const SEC: i64 = 1_000_000;

/// A timestamp text names this day and time, if they exist.
fn stamp(t: &Txt, o: DateOrder, ok: bool, n: i64, v: i64) {
    match Timestamp::try_from_str(t.s(), -1, o) {
        Ok(r) => {
            cover("stamp");
            check(ok, "accepts a timestamp that does not exist");
            check(tsv(r) == n * USECS_PER_DAY + v, "timestamp");
        }
        Err(_) => {
            cover("no stamp");
            check(!ok, "rejects a timestamp");
        }
    }
}
fn clock_ok(h: i64, m: i64, s: i64, us: i64) -> (bool, i64) {
    let v = ((h * 60 + m) * 60 + s) * SEC + us;
    ((m <= 59) & (s <= 60) & (v <= USECS_PER_DAY), v)
}
/// hhmm, hhmmss or hhmmss.f
fn run_time(t: &mut Txt) -> (i64, i64, i64, i64) {
    let h = t.num(2, 0, 99);
    let m = t.num(2, 0, 99);
    let mut s = 0;
    let mut us = 0;
    let k = choice(5);
    if k > 0 {
        s = t.num(2, 0, 99);
    }
    if k > 1 {
        t.lit(".");
        us = match k { 2 => t.num(1, 0, 9) * 100_000, 3 => t.num(3, 0, 999) * 1000, _ => t.num(6, 0, 999_999) };
    }
    (h, m, s, us)
}
fn half(t: &mut Txt, h: i64) -> (bool, i64) {
    match choice(3) {
        0 => (h <= 24, h),
        1 => { t.lit(" am"); (h <= 12, if h == 12 { 0 } else { h }) }
        _ => { t.lit("pm"); (h <= 12, if h == 12 { 12 } else { h + 12 }) }
    }
}
harnesses! {
fn c33_run_date() {
    // the last four digits are month and day
    let o = order();
    let mut t = Txt::new();
    let w = 2 + choice(6) as usize;
    let y = t.num(w, 0, 9_999_999);
    let m = t.num(2, 0, 99);
    let d = t.num(2, 0, 99);
    let bc = era(&mut t);
    let (yok, y) = year(y, w, bc);
    verdict(&t, o, yok, y, m, d);
}
fn c33_run_stamp() {
    // both run together
    let o = order();
    let mut t = Txt::new();
    let w = 2 + choice(3) as usize;
    let y = t.num(w, 0, 9999);
    let m = t.num(2, 0, 99);
    let d = t.num(2, 0, 99);
    t.lit(match choice(3) { 0 => "T", 1 => " ", _ => " t" });
    let h = t.num(2, 0, 99);
    let mi = t.num(2, 0, 99);
    let s = t.num(2, 0, 99);
    let (yok, y) = year(y, w, false);
    let m = concrete(m);
    let there = m >= 1 && m <= 12;
    let ok = if there { yok & exists(y, m, d) } else { false };
    let n = if there { day_number(y, m, d) } else { 0 };
    hint(n);
    let (c, v) = clock_ok(h, mi, s, 0);
    stamp(&t, o, ok & c, n, v);
}
fn c33_run_time() {
    // as a time
    let o = order();
    let mut t = Txt::of(match choice(3) { 0 => "", 1 => "T", _ => "t " });
    let (h, m, s, us) = run_time(&mut t);
    let (hok, h) = half(&mut t, h);
    let (ok, v) = clock_ok(h, m, s, us);
    let ok = hok & ok;
    match Time::try_from_str(t.s(), -1, o) {
        Ok(r) => {
            cover("time");
            check(ok, "accepts a time that does not exist");
            check(i64::from(r) == v, "time");
        }
        Err(_) => {
            cover("no time");
            check(!ok, "rejects a time");
        }
    }
}
fn c33_date_run_time() {
    // after a date
    let mut t = Txt::of(match choice(4) { 0 => "2001-02-03 ", 1 => "2001-02-03T", 2 => "20010203 t ", _ => "Feb 3 2001 " });
    let (h, m, s, us) = run_time(&mut t);
    let (hok, h) = half(&mut t, h);
    let (ok, v) = clock_ok(h, m, s, us);
    stamp(&t, MDY, hok & ok, day_number(2001, 2, 3), v);
}
fn c33_ordinal() {
    // the day of the year counts from 1 January
    let o = order();
    let k = choice(12) as usize;
    let y = ["2000", "1999", "2004", "1900", "0001", "4713", "4714", "0005", "9999", "10000", "294276", "5874897"][k];
    let mut t = Txt::of(y);
    // six digits and more before a blank would be a date
    let sep = choice(4);
    assume(k < 10 || sep < 3);
    t.lit(match sep { 0 => "-", 1 => "/", 2 => ".", _ => " " });
    let d = t.num(3, 0, 999);
    let bc = if k < 10 { era(&mut t) } else { false };
    let y = [2000, 1999, 2004, 1900, 1, 4713, 4714, 5, 9999, 10000, 294276, 5874897][k];
    let y = if bc { 1 - y } else { y };
    let n = day_number(y, 1, 1) + d - 1;
    let ok = (d >= 1) & (d <= 366) & (n >= MIN_DATE) & (n < END_DATE);
    match Date::try_from_str(t.s(), o) {
        Ok(r) => {
            cover("date");
            check(ok, "accepts an ordinal date that does not exist");
            check(datev(r) == n, "ordinal date");
        }
        Err(_) => {
            cover("no date");
            check(!ok, "rejects an ordinal date");
        }
    }
}
fn c33_ordinal_stamp() {
    let k = choice(5) as usize;
    let y = ["2000", "1999", "294276", "1900", "0001"][k];
    let mut t = Txt::of(y);
    t.lit(match choice(2) { 0 => "-", _ => "." });
    let d = t.num(3, 0, 999);
    t.lit(match choice(2) { 0 => " 04:05:06", _ => "T040506" });
    let y = [2000, 1999, 294276, 1900, 1][k];
    let n = day_number(y, 1, 1) + d - 1;
    stamp(&t, YMD, (d >= 1) & (d <= 366) & (n < TS_END_DATE), n, 14_706 * SEC);
}
fn c33_julian() {
    // days since 24 November 4714 BC
    let mut t = Txt::of(match choice(3) { 0 => "J", 1 => "julian ", _ => "jd" });
    let k = choice(8) as usize;
    t.lit(["", "2451", "245", "2299", "1721", "109203", "2147483", "10"][k]);
    let p = [0, 2451, 245, 2299, 1721, 109_203, 2_147_483, 10][k];
    let n = p * 1000 + t.num(3, 0, 999) + MIN_DATE;
    match choice(2) {
        0 => match Date::try_from_str(t.s(), order()) {
            Ok(r) => {
                cover("date");
                check(n < END_DATE, "accepts a day outside the range");
                check(datev(r) == n, "julian day");
            }
            Err(_) => {
                cover("no date");
                check(n >= END_DATE, "rejects a julian day");
            }
        },
        _ => {
            t.lit(" 04:05:06.7");
            stamp(&t, YMD, n < TS_END_DATE, n, 14_706 * SEC + 700_000);
        }
    }
}
fn c33_no_year() {
    // six or more digits by themselves are a date or a time run together, not
    // the year of two other numbers
    let mut t = Txt::new();
    t.num(1 + choice(2) as usize, 0, 99);
    t.lit(" ");
    t.num(1 + choice(2) as usize, 0, 99);
    t.lit(" ");
    t.num(6 + choice(3) as usize, 0, 99_999_999);
    let o = order();
    cover("no year");
    check(Date::try_from_str(t.s(), o).is_err(), "a date without a year");
    check(Timestamp::try_from_str(t.s(), -1, o).is_err(), "a timestamp without a year");
}
fn c33_julian_era() {
    // an era beside it changes nothing
    let k = choice(3) as usize;
    let mut t = Txt::of(["J2451", "julian 1722", "jd148"][k]);
    let n = [2451, 1722, 148][k] * 1000 + t.num(3, 0, 999) + MIN_DATE;
    let era = if choice(2) == 0 { " BC" } else { " AD" };
    if choice(2) == 0 {
        t.lit(era);
        match Date::try_from_str(t.s(), order()) {
            Ok(r) => {
                cover("date");
                check(datev(r) == n, "julian day");
            }
            Err(_) => check(false, "rejects a julian day"),
        }
    } else {
        t.lit(" 04:05");
        t.lit(era);
        stamp(&t, YMD, true, n, 14_700 * SEC);
    }
}
fn c33_julian_fraction() {
    // the fraction of a day is the time, to the microsecond
    let bc = choice(2) == 1;
    let mut t = Txt::of(if bc { "J187." } else { "J2451187." });
    let us = match choice(3) {
        0 => t.num(1, 0, 9) * 8_640_000_000,
        1 => t.num(2, 0, 99) * 864_000_000,
        _ => t.num(3, 0, 999) * 86_400_000,
    };
    let n = (if bc { 187 } else { 2451187 }) + MIN_DATE;
    cover("fraction");
    match Timestamp::try_from_str(t.s(), -1, YMD) {
        Ok(r) => {
            let v = tsv(r) - n * USECS_PER_DAY - us;
            check((v >= -1) & (v <= 1), "time of a julian day");
        }
        Err(_) => check(false, "rejects a julian day"),
    }
    match Time::try_from_str(t.s(), -1, YMD) {
        Ok(r) => {
            let v = i64::from(r) - us;
            check((v >= -1) & (v <= 1), "time");
        }
        Err(_) => check(false, "rejects the time of a julian day"),
    }
}
fn c33_labels() {
    // labelled parts in any order
    let o = order();
    let mut t = Txt::new();
    let k = choice(4) as usize;
    let mut v = [0i64; 3];
    for p in [[0, 1, 2], [2, 1, 0], [1, 0, 2], [2, 0, 1]][k] {
        t.lit(["y", "m", "d"][p]);
        v[p] = match p {
            0 => match choice(4) { 0 => t.num(2, 0, 99), 1 => t.num(4, 0, 9999), 2 => t.num(1, 0, 9), _ => t.num(7, 0, 9_999_999) },
            _ => t.num(2, 0, 99),
        };
    }
    let bc = era(&mut t);
    let (yok, y) = year(v[0], 4, bc);
    verdict(&t, o, yok, y, v[1], v[2]);
}
fn c33_label_blanks() {
    let mut t = Txt::of("Y ");
    let y = t.num(4, 0, 9999);
    t.lit(" M ");
    let m = match choice(2) { 0 => t.num(1, 0, 9), _ => t.num(2, 0, 99) };
    t.lit(" D");
    let d = match choice(2) { 0 => t.num(1, 0, 9), _ => t.num(2, 0, 99) };
    let (yok, y) = year(y, 4, false);
    verdict(&t, MDY, yok, y, m, d);
}
fn c33_label_clock() {
    // labelled hours, minutes and seconds
    let o = order();
    let mut t = Txt::of("y2001m02d03");
    t.lit("h");
    let h = t.num(2, 0, 99);
    let k = choice(5);
    let (mut m, mut s, mut us) = (0, 0, 0);
    if k > 0 {
        t.lit(match choice(2) { 0 => "m", _ => "mm" });
        m = t.num(2, 0, 99);
    }
    if k > 1 {
        t.lit("s");
        s = t.num(2, 0, 99);
    }
    if k > 2 {
        t.lit(".");
        us = match k { 3 => t.num(2, 0, 99) * 10_000, _ => t.num(6, 0, 999_999) };
    }
    let (hok, h) = half(&mut t, h);
    let (ok, v) = clock_ok(h, m, s, us);
    let ok = hok & ok;
    if k > 0 && choice(2) == 1 {
        match Time::try_from_str(t.s(), -1, o) {
            Ok(r) => {
                cover("time");
                check(ok, "accepts a time that does not exist");
                check(i64::from(r) == v, "time");
            }
            Err(_) => {
                cover("no time");
                check(!ok, "rejects a time");
            }
        }
    } else {
        stamp(&t, o, ok, day_number(2001, 2, 3), v);
    }
}
}
