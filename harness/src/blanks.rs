//! Blanks and punctuation between the fields of a text.
use crate::gen::*;
use crate::txt::*;
use crate::vf::*;
use pgdatetime::*;
use DateOrder::*;

fn blank() -> u8 {
    let c = int(9, 32);
    assume((c == 9) | (c == 10) | (c == 12) | (c == 13) | (c == 32));
    c as u8
}
/// A mark that is no part of a number, a date, a time or a name.
fn mark() -> u8 {
    let c = int(33, 126);
    assume(((c >= 33) & (c <= 42)) | (c == 44) | ((c >= 59) & (c <= 64)) | ((c >= 91) & (c <= 94)) | (c == 96) | (c >= 123));
    c as u8
}
/// After a blank the underscore is a mark as well (within a name it is not).
fn mark_after_blank() -> u8 {
    let c = int(33, 126);
    assume(((c >= 33) & (c <= 42)) | (c == 44) | ((c >= 59) & (c <= 64)) | ((c >= 91) & (c <= 96)) | (c >= 123));
    c as u8
}
/// The same fields twice: with single blanks, and with another gap at one
/// place (or the same other gap at every place).
struct Two {
    a: Txt,
    b: Txt,
    kind: u32,
    at: u32,
    first: bool,
}
impl Two {
    fn new() -> Two {
        let at = choice(8);
        Two { a: Txt::new(), b: Txt::new(), kind: choice(7), at, first: true }
    }
    fn other(&mut self) {
        if self.at == 0 {
            match self.kind {
                0 => self.b.lit("\t"),
                1 => self.b.lit("\r\n"),
                2 => self.b.lit(","),
                3 => self.b.lit(";\n"),
                4 => self.b.lit(" )"),
                6 => self.b.lit(" "),
                _ => self.b.lit("                    "),
            }
            return;
        }
        self.at -= 1;
        if self.at == 0 {
            match self.kind {
                0 => self.b.ch(blank()),
                1 => { self.b.ch(blank()); self.b.ch(blank()); }
                2 => self.b.ch(mark()),
                3 => { self.b.ch(mark()); self.b.ch(blank()); }
                4 => { self.b.ch(blank()); self.b.ch(mark_after_blank()); }
                6 => self.b.lit(" "),
                _ => { self.b.ch(mark()); self.b.ch(mark()); }
            }
            self.at = 100;
        } else if !self.first {
            self.b.lit(" ");
        }
    }
    fn gap(&mut self) {
        if !self.first {
            self.a.ch(b' ');
        }
        self.first = false;
        self.other();
    }
    /// Between a number and a word the gap may be missing.
    fn joint(&mut self) {
        if self.kind != 6 {
            return self.gap();
        }
        self.a.ch(b' ');
        if self.at != 0 {
            self.at -= 1;
            if self.at != 0 {
                self.b.ch(b' ');
            } else {
                self.at = 100;
            }
        }
    }
    /// Between a sign and its number blanks may stand, but no marks.
    fn after_sign(&mut self) {
        if self.kind < 2 {
            self.other();
        }
    }
    fn lit(&mut self, s: &str) {
        self.a.lit(s);
        self.b.lit(s);
    }
    fn word(&mut self, s: &str) {
        self.gap();
        self.lit(s);
    }
    /// A word after a number.
    fn unit(&mut self, s: &str) {
        self.joint();
        self.lit(s);
    }
    fn num(&mut self, w: usize, lo: i64, hi: i64) {
        let mut p = 1;
        for _ in 1..w {
            p *= 10;
        }
        let v = int(lo, hi);
        hint(v);
        for _ in 0..w {
            let d = b'0' + (v / p % 10) as u8;
            self.a.ch(d);
            self.b.ch(d);
            p /= 10;
        }
    }
    fn clock(&mut self) {
        self.gap();
        self.num(2, 0, 11);
        self.lit(":");
        self.num(2, 0, 59);
        match choice(2) {
            0 => {}
            _ => {
                self.lit(":");
                self.num(2, 0, 59);
                self.lit(".");
                self.num(3, 0, 999);
            }
        }
    }
}
fn same<T: Copy, E>(a: Result<T, E>, b: Result<T, E>, eq: fn(T, T) -> bool) {
    match (a, b) {
        (Ok(x), Ok(y)) => {
            cover("ok");
            check(eq(x, y), "another value");
        }
        (Err(_), Err(_)) => cover("err"),
        (Ok(_), Err(_)) => check(false, "rejected"),
        (Err(_), Ok(_)) => check(false, "accepted"),
    }
}
fn stamps(mut t: Two, o: DateOrder) {
    t.other();
    same(Timestamp::try_from_str(t.a.s(), -1, o), Timestamp::try_from_str(t.b.s(), -1, o), |x, y| tsv(x) == tsv(y));
}
fn spans(mut t: Two, st: IntervalStyle) {
    t.other();
    same(Interval::try_from_str(t.a.s(), -1, st), Interval::try_from_str(t.b.s(), -1, st), |x, y| mdt(x) == mdt(y));
}
fn style() -> IntervalStyle {
    match choice(2) { 0 => IntervalStyle::Postgres, _ => IntervalStyle::SQLStandard }
}
fn sign(t: &mut Two) {
    match choice(3) {
        0 => {}
        1 => { t.lit("-"); t.after_sign() }
        _ => { t.lit("+"); t.after_sign() }
    }
}
fn era(t: &mut Two) {
    match choice(2) { 0 => {}, _ => t.unit("BC") }
}
harnesses! {
fn c32_numeric() {
    let mut t = Two::new();
    t.gap();
    t.num(4, 1, 9999);
    t.lit("-");
    t.num(2, 1, 12);
    t.lit("-");
    t.num(2, 1, 31);
    t.clock();
    match choice(4) {
        0 => {}
        1 => t.unit("pm"),
        2 => t.unit("BC"),
        _ => { t.unit("Pm"); t.word("bc") }
    }
    stamps(t, YMD);
}
fn c32_names() {
    let mut t = Two::new();
    let day_first = choice(2) == 0;
    t.word("Sat");
    if day_first {
        t.gap();
        t.num(2, 1, 31);
        t.unit("Feb");
    } else {
        t.word("Feb");
        t.joint();
        t.num(2, 1, 31);
    }
    t.clock();
    t.gap();
    t.num(4, 1, 9999);
    era(&mut t);
    stamps(t, match choice(2) { 0 => DMY, _ => MDY });
}
fn c32_clock_first() {
    let mut t = Two::new();
    t.clock();
    t.unit("AM");
    t.joint();
    t.num(2, 1, 31);
    t.unit("April");
    t.joint();
    t.num(4, 1, 9999);
    era(&mut t);
    stamps(t, DMY);
}
fn c32_date() {
    let mut t = Two::new();
    t.gap();
    match choice(3) {
        0 => { t.num(2, 1, 12); t.lit("/"); t.num(2, 1, 31); t.lit("/"); t.num(4, 1, 9999); }
        1 => { t.lit("June"); t.joint(); t.num(2, 1, 31); t.gap(); t.num(4, 1, 9999); }
        _ => { t.num(2, 1, 31); t.unit("dec"); t.joint(); t.num(4, 1, 9999); }
    }
    era(&mut t);
    t.other();
    same(Date::try_from_str(t.a.s(), MDY), Date::try_from_str(t.b.s(), MDY), |x, y| datev(x) == datev(y));
}
fn c32_time() {
    let mut t = Two::new();
    t.clock();
    match choice(3) { 0 => {}, 1 => t.unit("am"), _ => t.unit("PM") }
    t.other();
    same(Time::try_from_str(t.a.s(), -1, YMD), Time::try_from_str(t.b.s(), -1, YMD), |x, y| i64::from(x) == i64::from(y));
}
fn c32_special() {
    let mut t = Two::new();
    t.gap();
    match choice(3) { 0 => t.lit("infinity"), _ => { t.lit("-"); t.after_sign(); t.lit("infinity") } }
    stamps(t, YMD);
}
fn c32_units() {
    // two numbers with units and perhaps "ago"
    let mut t = Two::new();
    t.gap();
    sign(&mut t);
    t.num(2, 0, 99);
    t.unit(match choice(2) { 0 => "years", _ => "mon" });
    t.gap();
    sign(&mut t);
    t.num(2, 0, 99);
    t.unit(match choice(2) { 0 => "day", _ => "hours" });
    match choice(2) { 0 => {}, _ => t.word("ago") }
    spans(t, style());
}
fn c32_span_clock() {
    // days and a time, each with its own sign
    let mut t = Two::new();
    t.gap();
    sign(&mut t);
    t.num(2, 0, 99);
    t.unit("days");
    t.gap();
    sign(&mut t);
    t.num(2, 0, 99);
    t.lit(":");
    t.num(2, 0, 59);
    t.lit(":");
    t.num(2, 0, 59);
    spans(t, style());
}
fn c32_sql() {
    // year-month, days and a time without units
    let mut t = Two::new();
    t.gap();
    sign(&mut t);
    t.num(2, 0, 99);
    t.lit("-");
    t.num(1, 0, 9);
    t.gap();
    sign(&mut t);
    t.num(2, 0, 99);
    t.gap();
    sign(&mut t);
    t.num(2, 0, 99);
    t.lit(":");
    t.num(2, 0, 59);
    spans(t, style());
}
}
