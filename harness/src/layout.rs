//! The text of values, byte by byte.
use crate::gen::*;
use crate::model::*;
use crate::vf::*;
use pgdatetime::*;
use DateOrder::*;
use DateStyle::*;

/// Reads a text from left to right.
struct Rd<'a> {
    b: &'a [u8],
    i: usize,
    ok: bool,
}
fn digit(c: u8) -> bool {
    c >= b'0' && c <= b'9'
}
impl<'a> Rd<'a> {
    fn new(s: &'a str) -> Self {
        obs("len", s.len() as i64);
        Rd { b: s.as_bytes(), i: 0, ok: true }
    }
    fn lit(&mut self, s: &str) {
        for &c in s.as_bytes() {
            if self.i < self.b.len() {
                self.ok &= self.b[self.i] == c;
                self.i += 1;
            } else {
                self.ok = false;
            }
        }
    }
    /// A number as long as its digits go on: its value and width.
    fn digits(&mut self) -> (i64, usize) {
        let (mut v, mut w) = (0i64, 0);
        while self.i < self.b.len() && w < 18 && digit(self.b[self.i]) {
            v = v * 10 + (self.b[self.i] - b'0') as i64;
            w += 1;
            self.i += 1;
        }
        (v, w)
    }
    /// Exactly `w` digits.
    fn fixed(&mut self, w: usize, v: i64) {
        let (x, k) = self.digits();
        self.ok &= (k == w) & (x == v);
    }
    /// At least `w` digits, no more than needed.
    fn padded(&mut self, w: usize, v: i64) {
        let (x, k) = self.digits();
        let mut least = 1;
        for _ in 1..k {
            least *= 10;
        }
        self.ok &= (k >= w) & ((k == w) | (x >= least)) & (x == v);
    }
    fn year(&mut self, y: i64) {
        let v = if y > 0 { y } else { 1 - y };
        self.padded(4, v);
    }
    /// The fraction of a second: a point and digits without trailing zeros.
    fn fraction(&mut self, us: i64) {
        if self.i < self.b.len() && self.b[self.i] == b'.' {
            self.i += 1;
            let (x, k) = self.digits();
            if k >= 1 && k <= 6 {
                let mut scale = 1;
                for _ in k..6 {
                    scale *= 10;
                }
                let last = self.b[self.i - 1];
                self.ok &= (x * scale == us) & (last != b'0');
            } else {
                self.ok = false;
            }
        } else {
            self.ok &= us == 0;
        }
    }
    fn clock(&mut self, c: &Clock) {
        self.fixed(2, c.h);
        self.lit(":");
        self.fixed(2, c.mi);
        self.lit(":");
        self.fixed(2, c.s);
        self.fraction(c.us);
    }
    fn era(&mut self, y: i64) {
        if y <= 0 {
            self.lit(" BC");
        }
    }
    fn end(self, id: &str) {
        check(self.ok & (self.i == self.b.len()), id);
    }
}
fn style() -> DateStyle {
    match choice(5) { 0 => Postgres, 1 => ISO, 2 => SQL, 3 => German, _ => XSD }
}
fn order() -> DateOrder {
    match choice(3) { 0 => YMD, 1 => DMY, _ => MDY }
}
const MON: [&str; 12] = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"];
const DOW: [&str; 7] = ["Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat"];

/// The day in numbers: which comes first, and between what.
fn numeric(r: &mut Rd, x: &Day, st: DateStyle, o: DateOrder) {
    let dmy = o == DMY;
    match st {
        ISO | XSD => {
            r.year(x.y);
            r.lit("-");
            r.fixed(2, x.m);
            r.lit("-");
            r.fixed(2, x.d);
        }
        _ => {
            let day_first = st == German || dmy;
            let sep = match st {
                SQL => "/",
                German => ".",
                _ => if dmy { "-" } else { "." },
            };
            r.fixed(2, if day_first { x.d } else { x.m });
            r.lit(sep);
            r.fixed(2, if day_first { x.m } else { x.d });
            r.lit(sep);
            r.year(x.y);
        }
    }
}
fn stamp(r: &mut Rd, x: &Day, c: &Clock, st: DateStyle, o: DateOrder) {
    if st == Postgres {
        let w = concrete(fmod(x.n + 6, 7));
        r.lit(DOW[w as usize]);
        r.lit(" ");
        if o == DMY {
            r.fixed(2, x.d);
            r.lit(" ");
            r.lit(MON[x.m as usize - 1]);
        } else {
            r.lit(MON[x.m as usize - 1]);
            r.lit(" ");
            r.fixed(2, x.d);
        }
        r.lit(" ");
        r.clock(c);
        r.lit(" ");
        r.year(x.y);
    } else {
        numeric(r, x, st, o);
        r.lit(if st == XSD { "T" } else { " " });
        r.clock(c);
    }
    r.era(x.y);
}
fn stamp_text(x: Day, c: Clock, st: DateStyle, o: DateOrder) {
    match ts(x.n, c.t).format(st, o) {
        Ok(s) => {
            cover(if x.y > 0 { "ad" } else { "bc" });
            let mut r = Rd::new(&s);
            stamp(&mut r, &x, &c, st, o);
            r.end("timestamp text");
        }
        Err(_) => check(false, "no text"),
    }
}

/// The parts of an interval, all of the sign of the stored component.
struct Parts {
    y: i64,
    mo: i64,
    d: i64,
    h: i64,
    mi: i64,
    s: i64,
    us: i64,
}
fn abs(v: i64) -> i64 {
    if v < 0 { -v } else { v }
}
impl<'a> Rd<'a> {
    fn signed(&mut self, v: i64) {
        if v < 0 {
            self.lit("-");
            self.padded(1, -v);
        } else {
            self.padded(1, v);
        }
    }
    fn seconds(&mut self, w: usize, p: &Parts) {
        self.padded(w, abs(p.s));
        self.fraction(abs(p.us));
    }
    fn h_m_s(&mut self, w: usize, p: &Parts) {
        self.padded(w, abs(p.h));
        self.lit(":");
        self.fixed(2, abs(p.mi));
        self.lit(":");
        self.seconds(2, p);
    }
}
fn postgres(r: &mut Rd, p: &Parts) {
    // "1 year 2 mons -3 days +04:05:06.7": a positive part after a negative
    // one has a plus sign
    let (mut some, mut negative) = (false, false);
    for (v, unit) in [(p.y, "year"), (p.mo, "mon"), (p.d, "day")] {
        if v != 0 {
            if some {
                r.lit(" ");
            }
            if negative && v > 0 {
                r.lit("+");
            }
            r.signed(v);
            r.lit(" ");
            r.lit(unit);
            if v != 1 {
                r.lit("s");
            }
            some = true;
            negative = v < 0;
        }
    }
    let time = p.h != 0 || p.mi != 0 || p.s != 0 || p.us != 0;
    if time || !some {
        if some {
            r.lit(" ");
        }
        if p.h < 0 || p.mi < 0 || p.s < 0 || p.us < 0 {
            r.lit("-");
        } else if negative {
            r.lit("+");
        }
        r.h_m_s(2, p);
    }
}
fn verbose(r: &mut Rd, p: &Parts) {
    // "@ 1 year 2 mons 3 days 4 hours 5 mins 6.7 secs": signs are relative to
    // the first part, "ago" tells that it is negative
    r.lit("@");
    let mut sign = 0;
    for (v, unit) in [(p.y, "year"), (p.mo, "mon"), (p.d, "day"), (p.h, "hour"), (p.mi, "min")] {
        if v != 0 {
            if sign == 0 {
                sign = if v < 0 { -1 } else { 1 };
            }
            r.lit(" ");
            r.signed(if sign < 0 { -v } else { v });
            r.lit(" ");
            r.lit(unit);
            if (if sign < 0 { -v } else { v }) != 1 {
                r.lit("s");
            }
        }
    }
    if p.s != 0 || p.us != 0 {
        let n = p.s < 0 || p.us < 0;
        if sign == 0 {
            sign = if n { -1 } else { 1 };
        }
        r.lit(" ");
        if n != (sign < 0) {
            r.lit("-");
        }
        r.seconds(1, p);
        r.lit(" sec");
        if abs(p.s) != 1 || p.us != 0 {
            r.lit("s");
        }
    }
    if sign == 0 {
        r.lit(" 0");
    }
    if sign < 0 {
        r.lit(" ago");
    }
}
fn iso(r: &mut Rd, p: &Parts) {
    // "P1Y2M3DT4H5M6.7S"
    r.lit("P");
    let time = p.h != 0 || p.mi != 0 || p.s != 0 || p.us != 0;
    if !time && p.y == 0 && p.mo == 0 && p.d == 0 {
        r.lit("T0S");
        return;
    }
    for (v, unit) in [(p.y, "Y"), (p.mo, "M"), (p.d, "D")] {
        if v != 0 {
            r.signed(v);
            r.lit(unit);
        }
    }
    if time {
        r.lit("T");
        for (v, unit) in [(p.h, "H"), (p.mi, "M")] {
            if v != 0 {
                r.signed(v);
                r.lit(unit);
            }
        }
        if p.s != 0 || p.us != 0 {
            if p.s < 0 || p.us < 0 {
                r.lit("-");
            }
            r.seconds(1, p);
            r.lit("S");
        }
    }
}
fn sql(r: &mut Rd, p: &Parts) {
    // "1-2", "3 4:05:06.7", "4:05:06.7" with one sign before all of it, or
    // "+1-2 -3 +4:05:06.7"
    let months = p.y != 0 || p.mo != 0;
    let neg_m = p.y < 0 || p.mo < 0;
    let neg_t = p.h < 0 || p.mi < 0 || p.s < 0 || p.us < 0;
    let time = p.h != 0 || p.mi != 0 || p.s != 0 || p.us != 0;
    let neg = neg_m || p.d < 0 || neg_t;
    let pos = (months && !neg_m) || p.d > 0 || (time && !neg_t);
    if !neg && !pos {
        r.lit("0");
        return;
    }
    if (neg && pos) || (months && (p.d != 0 || time)) {
        r.lit(if neg_m { "-" } else { "+" });
        r.padded(1, abs(p.y));
        r.lit("-");
        r.padded(1, abs(p.mo));
        r.lit(if p.d < 0 { " -" } else { " +" });
        r.padded(1, abs(p.d));
        r.lit(if neg_t { " -" } else { " +" });
        r.h_m_s(1, p);
        return;
    }
    if neg {
        r.lit("-");
    }
    if months {
        r.padded(1, abs(p.y));
        r.lit("-");
        r.padded(1, abs(p.mo));
    } else {
        if p.d != 0 {
            r.padded(1, abs(p.d));
            r.lit(" ");
        }
        r.h_m_s(1, p);
    }
}
fn span_text(m: i64, d: i64, t: i64, p: Parts) {
    let k = choice(4);
    let st = match k {
        0 => IntervalStyle::Postgres,
        1 => IntervalStyle::PostgresVerbose,
        2 => IntervalStyle::ISO8601,
        _ => IntervalStyle::SQLStandard,
    };
    match iv(m, d, t).format(st) {
        Ok(s) => {
            cover("text");
            let mut r = Rd::new(&s);
            match k {
                0 => postgres(&mut r, &p),
                1 => verbose(&mut r, &p),
                2 => iso(&mut r, &p),
                _ => sql(&mut r, &p),
            }
            r.end("interval text");
        }
        Err(_) => check(false, "no text"),
    }
}
fn sign() -> i64 {
    if choice(2) == 0 { 1 } else { -1 }
}
/// A few months, days or times of any sign: nothing, one of each, more.
fn few() -> Parts {
    let (y, mo) = match choice(4) { 0 => (0, 0), 1 => (0, 1), 2 => (-1, 0), _ => (2, 3) };
    let d = match choice(4) { 0 => 0, 1 => 1, 2 => -1, _ => -20 };
    let (h, mi, s, us) = match choice(5) {
        0 => (0, 0, 0, 0),
        1 => (0, 0, 1, 0),
        2 => (0, 0, -1, 0),
        3 => (-1, -1, -1, -500_000),
        _ => (10, 0, 0, 120),
    };
    Parts { y, mo, d, h, mi, s, us }
}
fn usecs(p: &Parts) -> i64 {
    ((p.h * 60 + p.mi) * 60 + p.s) * 1_000_000 + p.us
}

harnesses! {
fn c31_date() {
    let x = any_day();
    let st = style();
    let o = order();
    match date(x.n).format(st, o) {
        Ok(s) => {
            cover(if x.y > 0 { "ad" } else { "bc" });
            let mut r = Rd::new(&s);
            numeric(&mut r, &x, st, o);
            r.era(x.y);
            r.end("date text");
        }
        Err(_) => check(false, "no text"),
    }
}
fn c31_infinite() {
    let st = style();
    let o = order();
    let d = [Date::from(i32::MIN).format(st, o), Timestamp::from(i64::MIN).format(st, o)];
    let e = [Date::from(i32::MAX).format(st, o), Timestamp::from(i64::MAX).format(st, o)];
    cover("infinite");
    check(d.iter().all(|x| x.as_deref() == Ok("-infinity")), "-infinity");
    check(e.iter().all(|x| x.as_deref() == Ok("infinity")), "infinity");
}
fn c31_time() {
    let mut c = any_clock();
    if choice(2) == 1 {
        c = Clock { h: 24, mi: 0, s: 0, us: 0, t: USECS_PER_DAY };
    }
    match Time::from(c.t).format(style()) {
        Ok(s) => {
            cover("text");
            let mut r = Rd::new(&s);
            r.clock(&c);
            r.end("time text");
        }
        Err(_) => check(false, "no text"),
    }
}
fn c31_ts_days() {
    // every day, at two times
    let x = any_ts_day();
    let c = match choice(2) {
        0 => Clock { h: 0, mi: 0, s: 0, us: 0, t: 0 },
        _ => Clock { h: 23, mi: 59, s: 59, us: 999_999, t: USECS_PER_DAY - 1 },
    };
    stamp_text(x, c, style(), order());
}
fn c31_ts_clocks() {
    // every time, on the days of one month
    let x = match choice(2) { 0 => day_of(2, -400, 2400), _ => day_of(12, -4712, -4712) };
    stamp_text(x, any_clock(), style(), order());
}
fn c31_months() {
    let s = sign();
    let y = int(0, 178_956_970);
    let mo = int(0, 11);
    let m = s * (12 * y + mo);
    assume(m >= i32::MIN as i64 && m <= i32::MAX as i64);
    hint(y);
    hint(mo);
    let f = few();
    span_text(m, f.d, usecs(&f), Parts { y: s * y, mo: s * mo, ..f });
}
fn c31_days() {
    let d = any_i32() as i64;
    let f = few();
    span_text(12 * f.y + f.mo, d, usecs(&f), Parts { d, ..f });
}
fn c31_hours() {
    let s = sign();
    let h = int(0, i32::MAX as i64);
    let f = few();
    let (mi, sec) = match choice(2) { 0 => (0, 0), _ => (59, 1) };
    let p = Parts { h: s * h, mi: s * mi, s: s * sec, us: 0, ..f };
    span_text(12 * p.y + p.mo, p.d, usecs(&p), p);
}
fn c31_clocks() {
    // every time within a day, after few months and days
    let s = sign();
    let c = any_clock();
    let (y, mo, d) = match choice(4) { 0 => (0, 0, 0), 1 => (0, 0, 1), 2 => (-1, 0, -2), _ => (0, 1, 0) };
    let p = Parts { y, mo, d, h: s * c.h, mi: s * c.mi, s: s * c.s, us: s * c.us };
    span_text(12 * y + mo, d, s * c.t, p);
}
}
