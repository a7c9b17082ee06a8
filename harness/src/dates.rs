//! Numeric dates and dates with month names in text.
use crate::gen::*;
use crate::model::*;
use crate::txt::*;
use crate::vf::*;
use pgdatetime::*;
use DateOrder::*;

const MON: [&str; 12] = ["Jan", "Feb", "Mar", "April", "May", "JUNE", "jul", "August", "Sept", "Oct", "november", "Dec"];

pub fn order() -> DateOrder {
    match choice(3) { 0 => YMD, 1 => DMY, _ => MDY }
}
fn sep() -> &'static str {
    match choice(3) { 0 => "-", 1 => "/", _ => "." }
}
/// The astronomical year a field of `w` digits means, and whether it is one.
pub fn year(v: i64, w: usize, bc: bool) -> (bool, i64) {
    if bc {
        (v > 0, 1 - v)
    } else if w <= 2 {
        (true, if v < 70 { v + 2000 } else { v + 1900 })
    } else {
        (v > 0, v)
    }
}
/// Does the date exist (in the supported range)?
pub fn exists(y: i64, m: i64, d: i64) -> bool {
    let l = if m == 2 { 28 + leap(y) as i64 } else { month_len(y, concrete(m)) };
    (m >= 1) & (m <= 12) & (d >= 1) & (d <= l)
}
pub fn verdict(t: &Txt, o: DateOrder, yok: bool, y: i64, m: i64, d: i64) {
    // case split on the month
    let m = concrete(m);
    let ok = if m >= 1 && m <= 12 { yok & exists(y, m, d) } else { false };
    let n = if m >= 1 && m <= 12 { day_number(y, m, d) } else { 0 };
    hint(n);
    let ok = ok & (n >= MIN_DATE) & (n < END_DATE);
    match Date::try_from_str(t.s(), o) {
        Ok(r) => {
            cover("ok");
            check(ok, "accepts a date that does not exist");
            check(datev(r) == n, "date");
        }
        Err(_) => {
            cover("err");
            check(!ok, "rejects a date");
        }
    }
}
pub fn era(t: &mut Txt) -> bool {
    match choice(3) {
        0 => false,
        1 => { t.lit(" BC"); true }
        _ => { t.lit(" AD"); false }
    }
}
fn w2(t: &mut Txt) -> (i64, usize) {
    match choice(2) { 0 => (t.num(1, 0, 9), 1), _ => (t.num(2, 0, 99), 2) }
}
fn w3(t: &mut Txt) -> (i64, usize) {
    match choice(3) { 0 => (t.num(1, 0, 9), 1), 1 => (t.num(2, 0, 99), 2), _ => (t.num(3, 0, 999), 3) }
}
fn wyear(t: &mut Txt) -> (i64, usize) {
    match choice(5) {
        0 => (t.num(1, 0, 9), 1),
        1 => (t.num(2, 0, 99), 2),
        2 => (t.num(3, 0, 999), 3),
        3 => (t.num(4, 0, 9999), 4),
        _ => (t.num(5, 0, 99999), 5),
    }
}
/// The same date beside a clock in a time: looked at, and left out.
fn beside(mut t: Txt, o: DateOrder, yok: bool, y: i64, m: i64, d: i64) {
    let h = int(0, 24);
    t.lit(" ");
    t.ch(b'0' + (h / 10) as u8);
    t.ch(b'0' + (h % 10) as u8);
    t.lit(":05:06.5");
    let m = concrete(m);
    let ok = if m >= 1 && m <= 12 { yok & exists(y, m, d) } else { false };
    let n = if m >= 1 && m <= 12 { day_number(y, m, d) } else { 0 };
    hint(n);
    match Time::try_from_str(t.s(), -1, o) {
        Ok(r) => {
            cover("time");
            check(ok & (h < 24), "accepts a time beside a date that does not exist");
            check(i64::from(r) == h * 3_600_000_000 + 306_500_000, "time beside a date");
        }
        Err(_) => {
            cover("no time");
            check(!(ok & (h < 24)), "rejects a time beside a date");
        }
    }
}
harnesses! {
fn c24_beside_date() {
    let o = order();
    let s = sep();
    let mut t = Txt::new();
    let (y, w, m, d);
    match o {
        YMD => {
            (y, w) = wyear(&mut t);
            t.lit(s);
            m = w2(&mut t).0;
            t.lit(s);
            d = w3(&mut t).0;
        }
        DMY => {
            d = w2(&mut t).0;
            t.lit(s);
            m = t.num(2, 0, 99);
            t.lit(s);
            (y, w) = wyear(&mut t);
        }
        MDY => {
            m = w2(&mut t).0;
            t.lit(s);
            d = t.num(2, 0, 99);
            t.lit(s);
            (y, w) = wyear(&mut t);
        }
    }
    let (yok, y) = year(y, w, false);
    beside(t, o, yok, y, m, d);
}
fn c24_beside_name() {
    let o = order();
    let k = match choice(3) { 0 => 1, 1 => 3, _ => 11 };
    let s = match choice(3) { 0 => "-", 1 => "/", _ => "." };
    let mut t = Txt::new();
    let d = t.num(2, 0, 99);
    t.lit(s);
    t.lit(MON[k]);
    t.lit(s);
    let w = 3 + choice(2) as usize;
    let y = t.num(w, 0, 9999);
    let (yok, y) = year(y, w, false);
    beside(t, o, yok, y, k as i64 + 1, d);
}
fn c23_order() {
    // a-b-c with the year where the order puts it
    let o = order();
    let s = sep();
    let mut t = Txt::new();
    let (y, w, m, d);
    match o {
        YMD => {
            (y, w) = wyear(&mut t);
            t.lit(s);
            m = w2(&mut t).0;
            t.lit(s);
            d = w3(&mut t).0;
        }
        DMY => {
            d = w2(&mut t).0;
            t.lit(s);
            m = w2(&mut t).0;
            t.lit(s);
            (y, w) = wyear(&mut t);
        }
        MDY => {
            m = w2(&mut t).0;
            t.lit(s);
            d = w2(&mut t).0;
            t.lit(s);
            (y, w) = wyear(&mut t);
        }
    }
    let (yok, y) = year(y, w, false);
    verdict(&t, o, yok, y, m, d);
}
fn c23_year_first() {
    // three or more digits first are the year in every order
    let o = order();
    let s = sep();
    let mut t = Txt::new();
    let w = 3 + choice(5) as usize;
    let y = t.num(w, 0, 9_999_999);
    t.lit(s);
    let m = w2(&mut t).0;
    t.lit(s);
    let d = t.num(2, 0, 99);
    let bc = era(&mut t);
    let (yok, y) = year(y, w, bc);
    verdict(&t, o, yok, y, m, d);
}
fn c23_era() {
    // eras with short years
    let o = if choice(2) == 0 { DMY } else { MDY };
    let mut t = Txt::new();
    let a = t.num(2, 0, 99);
    t.lit("/");
    let b = t.num(2, 0, 99);
    t.lit("/");
    let (y, w) = wyear(&mut t);
    let bc = era(&mut t);
    let (yok, y) = year(y, w, bc);
    let (d, m) = if o == DMY { (a, b) } else { (b, a) };
    verdict(&t, o, yok, y, m, d);
}
fn c23_name_first() {
    // Mon d y
    let o = order();
    let k = choice(12) as usize;
    let mut t = Txt::of(MON[k]);
    let s = match choice(4) { 0 => " ", 1 => "-", 2 => "/", _ => ", " };
    t.lit(if s == ", " { " " } else { s });
    let d = w2(&mut t).0;
    t.lit(s);
    let w = 3 + choice(2) as usize;
    let y = t.num(w, 0, 9999);
    let bc = era(&mut t);
    let (yok, y) = year(y, w, bc);
    verdict(&t, o, yok, y, k as i64 + 1, d);
}
fn c23_name_middle() {
    // d Mon y
    let o = order();
    let k = choice(12) as usize;
    let s = match choice(3) { 0 => " ", 1 => "-", _ => "/" };
    let mut t = Txt::new();
    let d = w2(&mut t).0;
    t.lit(s);
    t.lit(MON[k]);
    t.lit(s);
    let w = 3 + choice(2) as usize;
    let y = t.num(w, 0, 9999);
    let bc = era(&mut t);
    let (yok, y) = year(y, w, bc);
    verdict(&t, o, yok, y, k as i64 + 1, d);
}
fn c23_name_after_year() {
    // y Mon d
    let o = order();
    let k = choice(12) as usize;
    let s = match choice(3) { 0 => " ", 1 => "-", _ => "/" };
    let mut t = Txt::new();
    let w = 3 + choice(2) as usize;
    let y = t.num(w, 0, 9999);
    t.lit(s);
    t.lit(MON[k]);
    t.lit(s);
    let d = w2(&mut t).0;
    let bc = era(&mut t);
    let (yok, y) = year(y, w, bc);
    verdict(&t, o, yok, y, k as i64 + 1, d);
}
fn c23_name_widths() {
    // a month name and two numbers: three or more digits are the year, shorter
    // ones stand as the order says
    let o = order();
    let place = choice(3);
    let sp = if choice(2) == 0 { " " } else { "-" };
    let k = match choice(3) { 0 => 1, 1 => 3, _ => 11 };
    let mut t = Txt::new();
    if place == 0 {
        t.lit(MON[k]);
        t.lit(sp);
    }
    let (a, wa) = wyear(&mut t);
    t.lit(sp);
    if place == 1 {
        t.lit(MON[k]);
        t.lit(sp);
    }
    let (b, wb) = if wa >= 3 { w2(&mut t) } else { wyear(&mut t) };
    if place == 2 {
        t.lit(sp);
        t.lit(MON[k]);
    }
    let year_first = wa >= 3 || (o == YMD && wb < 3);
    let ((y, w), d) = if year_first { ((a, wa), b) } else { ((b, wb), a) };
    // "5 2001 March" is left open
    assume(place < 2 || year_first && sp == " ");
    let (yok, y) = year(y, w, false);
    verdict(&t, o, yok, y, k as i64 + 1, d);
}
fn c23_run_together() {
    // yyyymmdd and yymmdd
    let o = order();
    let mut t = Txt::new();
    let w = match choice(3) { 0 => 2, 1 => 4, _ => 5 };
    let y = t.num(w, 0, 99999);
    let m = t.num(2, 0, 99);
    let d = t.num(2, 0, 99);
    let (yok, y) = year(y, w, false);
    verdict(&t, o, yok, y, m, d);
}
fn c23_timestamp() {
    // the same date in a timestamp
    let o = order();
    let mut t = Txt::new();
    let w = match choice(2) { 0 => 4, _ => 6 };
    let y = t.num(w, 0, 999_999);
    t.lit("-");
    let m = t.num(2, 0, 99);
    t.lit("-");
    let d = t.num(2, 0, 99);
    t.lit(" 12:00");
    let bc = era(&mut t);
    let (yok, y) = year(y, w, bc);
    let m = concrete(m);
    let ok = if m >= 1 && m <= 12 { yok & exists(y, m, d) } else { false };
    let n = if m >= 1 && m <= 12 { day_number(y, m, d) } else { 0 };
    hint(n);
    let ok = ok & (n >= MIN_DATE) & (n < TS_END_DATE);
    match Timestamp::try_from_str(t.s(), -1, o) {
        Ok(r) => {
            cover("ok");
            check(ok, "accepts a date that does not exist");
            check(tsv(r) == n * USECS_PER_DAY + 43_200_000_000, "timestamp");
        }
        Err(_) => {
            cover("err");
            check(!ok, "rejects a date");
        }
    }
}
}
