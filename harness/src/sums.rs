//! Interval text as the sum of its parts.
use crate::gen::*;
use crate::txt::*;
use crate::vf::*;
use pgdatetime::*;
use IntervalStyle::*;

const HOUR: i64 = 3_600_000_000;
const MINUTE: i64 = 60_000_000;
const SEC: i64 = 1_000_000;
const DAYU: i64 = 86_400_000_000;

#[derive(Clone, Copy)]
struct Unit {
    name: &'static str,
    m: i64,
    d: i64,
    t: i64,
}
const fn u(name: &'static str, m: i64, d: i64, t: i64) -> Unit {
    Unit { name, m, d, t }
}
const UNITS: [Unit; 12] = [
    u("years", 12, 0, 0),
    u("mons", 1, 0, 0),
    u("days", 0, 1, 0),
    u("hours", 0, 0, HOUR),
    u("mins", 0, 0, MINUTE),
    u("secs", 0, 0, SEC),
    u("weeks", 0, 7, 0),
    u("millisecond", 0, 0, 1000),
    u("us", 0, 0, 1),
    u("decades", 120, 0, 0),
    u("century", 1200, 0, 0),
    u("millennium", 12000, 0, 0),
];
fn style() -> IntervalStyle {
    match choice(4) {
        0 => Postgres,
        1 => PostgresVerbose,
        2 => SQLStandard,
        _ => ISO8601,
    }
}
#[derive(Clone, Copy)]
struct Sum {
    m: i64,
    d: i64,
    t: i64,
    /// some number or intermediate sum has more than 32 bits: may be an error
    big: bool,
    /// some part does not exist
    bad: bool,
    /// the last number, which `ago` negates on its own
    last: i64,
}
const ZERO: Sum = Sum { m: 0, d: 0, t: 0, big: false, bad: false, last: 0 };
impl Sum {
    fn add(self, n: i64, x: Unit) -> Sum {
        Sum { m: self.m + n * x.m, d: self.d + n * x.d, t: self.t + n * x.t, big: self.big | !fits_i32(n) | !fits_i32(n * x.d), bad: false, last: n }
    }
    fn neg(self) -> Sum {
        Sum { m: -self.m, d: -self.d, t: -self.t, big: self.big | !fits_i32(self.m) | !fits_i32(self.d) | !fits_i32(-self.last), bad: self.bad, last: 0 }
    }
}
fn verdict(t: &Txt, st: IntervalStyle, w: Sum) {
    let fits = !w.bad & fits_i32(w.m) & fits_i32(w.d);
    match Interval::try_from_str(t.s(), -1, st) {
        Ok(r) => {
            cover("ok");
            check(fits, "accepted although it does not fit");
            check(mdt(r) == (w.m, w.d, w.t), "sum");
        }
        Err(_) => {
            cover("err");
            check(!fits | w.big, "rejected");
        }
    }
}
fn must_fail(t: &Txt, st: IntervalStyle) {
    cover("bad");
    check(Interval::try_from_str(t.s(), -1, st).is_err(), "accepted");
}
fn sign(t: &mut Txt) -> i64 {
    match choice(3) {
        0 => 1,
        1 => { t.lit("-"); -1 }
        _ => { t.lit("+"); 1 }
    }
}
fn minus(t: &mut Txt) -> i64 {
    match choice(2) {
        0 => 1,
        _ => { t.lit("-"); -1 }
    }
}
/// hh:mm:ss.ffffff
fn clock(t: &mut Txt) -> i64 {
    let h = t.num(2, 0, 99);
    t.lit(":");
    let m = t.num(2, 0, 59);
    let mut v = h * HOUR + m * MINUTE;
    match choice(3) {
        0 => {}
        1 => {
            t.lit(":");
            v += t.num(2, 0, 59) * SEC;
        }
        _ => {
            t.lit(":");
            v += t.num(2, 0, 59) * SEC;
            t.lit(".");
            v += t.num(6, 0, 999_999);
        }
    }
    v
}
harnesses! {
fn c25_one() {
    // any number of any unit
    let x = UNITS[choice(12) as usize];
    let mut t = Txt::of(if choice(2) == 0 { "" } else { "@ " });
    let k = sign(&mut t);
    let n = k * match choice(3) { 0 => t.num(1, 0, 9), 1 => t.num(4, 0, 9999), _ => t.num(10, 0, 2_499_999_999) };
    t.lit(if choice(2) == 0 { " " } else { "" });
    t.lit(x.name);
    let w = ZERO.add(n, x);
    let w = if choice(2) == 0 { w } else { t.lit(" ago"); w.neg() };
    verdict(&t, style(), w);
}
fn c25_two() {
    // two different units
    let i = choice(12) as usize;
    let j = choice(12) as usize;
    assume(i != j);
    let mut t = Txt::new();
    let n = minus(&mut t) * t.num(5, 0, 99999);
    t.lit(" ");
    t.lit(UNITS[i].name);
    t.lit(" ");
    let k = sign(&mut t) * t.num(5, 0, 99999);
    t.lit(" ");
    t.lit(UNITS[j].name);
    let w = ZERO.add(n, UNITS[i]).add(k, UNITS[j]);
    let w = if choice(2) == 0 { w } else { t.lit(" ago"); w.neg() };
    verdict(&t, Postgres, w);
}
fn c25_big_sum() {
    // sums of months and of days at the limits
    let mut t = Txt::new();
    let (i, j) = match choice(3) { 0 => (0, 1), 1 => (6, 2), _ => (9, 0) };
    let n = minus(&mut t) * t.num(9, 0, 999_999_999);
    t.lit(" ");
    t.lit(UNITS[i].name);
    t.lit(" ");
    let k = minus(&mut t) * t.num(10, 0, 2_147_483_647);
    t.lit(" ");
    t.lit(UNITS[j].name);
    let w = ZERO.add(n, UNITS[i]).add(k, UNITS[j]);
    let w = if choice(2) == 0 { w } else { t.lit(" ago"); w.neg() };
    // the years are counted on their own first
    let years = if i == 9 { 10 * n + k } else { n };
    let w = if i == 9 { Sum { big: w.big | !fits_i32(years) | !fits_i32(10 * n), ..w } } else { w };
    verdict(&t, Postgres, w);
}
fn c25_many() {
    let mut t = Txt::of("");
    let a = minus(&mut t) * t.num(3, 0, 999);
    t.lit(" years ");
    let b = minus(&mut t) * t.num(3, 0, 999);
    t.lit(" mons ");
    let c = minus(&mut t) * t.num(3, 0, 999);
    t.lit(" weeks ");
    let d = minus(&mut t) * t.num(3, 0, 999);
    t.lit(" days ");
    let e = minus(&mut t) * t.num(3, 0, 999);
    t.lit(" hours ");
    let f = minus(&mut t) * t.num(3, 0, 999);
    t.lit(" mins ");
    let g = minus(&mut t) * t.num(3, 0, 999);
    t.lit(" secs");
    let w = Sum { m: 12 * a + b, d: 7 * c + d, t: e * HOUR + f * MINUTE + g * SEC, big: false, ..ZERO };
    let w = if choice(2) == 0 { w } else { t.lit(" ago"); w.neg() };
    verdict(&t, Postgres, w);
}
fn c25_twice() {
    // the same unit twice, under two of its names
    let (a, b) = match choice(12) {
        0 => ("year", "yrs"),
        1 => ("mons", "month"),
        2 => ("d", "days"),
        3 => ("hour", "hrs"),
        4 => ("mins", "m"),
        5 => ("secs", "s"),
        6 => ("weeks", "w"),
        7 => ("ms", "millisecond"),
        8 => ("us", "usecs"),
        9 => ("decades", "dec"),
        10 => ("century", "c"),
        _ => ("mil", "millennium"),
    };
    let mut t = Txt::new();
    t.num(2, 0, 99);
    t.lit(" ");
    t.lit(a);
    t.lit(" ");
    t.num(2, 0, 99);
    t.lit(" ");
    t.lit(b);
    must_fail(&t, style());
}
fn c25_clock() {
    // a signed clock alone, with ago, or after days
    let mut t = Txt::new();
    let st = if choice(2) == 0 { Postgres } else { PostgresVerbose };
    let mut w = ZERO;
    match choice(4) {
        0 => {}
        1 => {
            let n = minus(&mut t) * t.num(4, 0, 9999);
            t.lit(" ");
            w = w.add(n, UNITS[2]);
        }
        2 => {
            let n = minus(&mut t) * t.num(4, 0, 9999);
            t.lit(" days ");
            w = w.add(n, UNITS[2]);
        }
        _ => {
            let n = minus(&mut t) * t.num(4, 0, 9999);
            t.lit(" mons ");
            w = w.add(n, UNITS[1]);
        }
    }
    let k = sign(&mut t);
    w.t = k * clock(&mut t);
    let w = if choice(2) == 0 { w } else { t.lit(" ago"); w.neg() };
    verdict(&t, st, w);
}
fn c25_clock_range() {
    // minutes above 59 and seconds above 60 do not exist; hours of any size
    let mut t = Txt::new();
    let k = minus(&mut t);
    let h = t.num(10, 0, 2_499_999_999);
    t.lit(":");
    let m = t.num(2, 0, 99);
    t.lit(":");
    let s = t.num(2, 0, 99);
    let w = Sum { t: k * (h * HOUR + m * MINUTE + s * SEC), ..ZERO };
    verdict(&t, Postgres, Sum { big: !fits_i32(h), bad: (m > 59) | (s > 60), ..w });
}
fn c25_year_month() {
    // [-]y-m, alone or before days and a clock
    let mut t = Txt::new();
    let st = style();
    let k = sign(&mut t);
    let y = match choice(2) { 0 => t.num(2, 0, 99), _ => t.num(9, 0, 999_999_999) };
    t.lit("-");
    let m = match choice(2) { 0 => t.num(1, 0, 9), _ => t.num(2, 0, 99) };
    let w = Sum { m: k * (12 * y + m), bad: m > 11, ..ZERO };
    verdict(&t, st, w);
}
fn c25_sql() {
    // y-m d hh:mm:ss, all signs written
    let mut t = Txt::new();
    let k = sign(&mut t);
    let y = t.num(2, 0, 99);
    t.lit("-");
    let m = t.num(1, 0, 9);
    t.lit(" ");
    let l = match choice(2) { 0 => { t.lit("+"); 1 } _ => { t.lit("-"); -1 } };
    let d = t.num(3, 0, 999);
    t.lit(" ");
    let q = match choice(2) { 0 => { t.lit("+"); 1 } _ => { t.lit("-"); -1 } };
    let c = clock(&mut t);
    verdict(&t, style(), Sum { m: k * (12 * y + m), d: l * d, t: q * c, big: false, ..ZERO });
}
fn c25_sql_sign() {
    // the SQL style applies a single leading sign to all parts
    let mut t = Txt::of("-");
    let d = t.num(3, 0, 999);
    t.lit(" ");
    let c = clock(&mut t);
    let st = style();
    let k = if st == SQLStandard { -1 } else { 1 };
    verdict(&t, st, Sum { d: -d, t: k * c, ..ZERO });
}
fn c25_bare() {
    // a number without a unit counts seconds
    let mut t = Txt::new();
    let k = minus(&mut t);
    let n = t.num(6, 0, 999_999);
    let f = match choice(2) { 0 => 0, _ => { t.lit("."); t.num(6, 0, 999_999) } };
    verdict(&t, Postgres, Sum { t: k * (n * SEC + f), ..ZERO });
}
fn c25_fraction() {
    // fractions of units: a day of 24 hours, a month of 30 days
    let i = choice(8) as usize;
    let mut t = Txt::new();
    let k = minus(&mut t);
    let n = t.num(3, 0, 999);
    t.lit(".");
    // tenths (of years, halves)
    let f = if i == 0 { t.lit("5"); 5 } else { concrete(t.num(1, 0, 9)) };
    t.lit(" ");
    let x = UNITS[i];
    t.lit(x.name);
    let mut w = ZERO.add(k * n, x);
    match i {
        0 => w.m += k * 6,
        1 => w.d += k * 3 * f,
        2 => w.t += k * f * (DAYU / 10),
        6 => {
            w.d += k * fdiv(7 * f, 10);
            w.t += k * fmod(7 * f, 10) * (DAYU / 10);
        }
        _ => w.t += k * f * (x.t / 10),
    }
    let w = if choice(2) == 0 { w } else { t.lit(" ago"); w.neg() };
    verdict(&t, Postgres, w);
}
fn c25_fraction_seconds() {
    let mut t = Txt::new();
    let k = minus(&mut t);
    let n = t.num(3, 0, 999);
    t.lit(".");
    let f = t.num(6, 0, 999_999);
    t.lit(" secs");
    let w = Sum { t: k * (n * SEC + f), ..ZERO };
    let w = if choice(2) == 0 { w } else { t.lit(" ago"); w.neg() };
    verdict(&t, Postgres, w);
}
fn c25_fraction_years() {
    // tenths of decades, centuries and millennia are whole months
    let i = 9 + choice(3) as usize;
    let mut t = Txt::new();
    let k = minus(&mut t);
    let n = t.num(3, 0, 999);
    t.lit(".");
    let f = concrete(t.num(1, 0, 9));
    t.lit(" ");
    t.lit(UNITS[i].name);
    let w = Sum { m: k * (n * UNITS[i].m + f * (UNITS[i].m / 10)), ..ZERO };
    verdict(&t, Postgres, w);
}
fn c25_fraction_clock() {
    // a fraction of a day and a clock, in either order
    let mut t = Txt::new();
    let w;
    match choice(2) {
        0 => {
            let f = t.num(1, 0, 9);
            t.lit(".5 days ");
            w = Sum { d: f, t: DAYU / 2 + clock(&mut t), ..ZERO };
        }
        _ => {
            let c = clock(&mut t);
            t.lit(" ");
            let f = t.num(1, 0, 9);
            t.lit(".5 days");
            w = Sum { d: f, t: DAYU / 2 + c, ..ZERO };
        }
    }
    verdict(&t, Postgres, w);
}
fn c25_iso() {
    // P..Y..M..W..DT..H..M..S, signed
    let mut t = Txt::of("P");
    let st = if choice(2) == 0 { Postgres } else { ISO8601 };
    let mut w = ZERO;
    let skip = choice(3);
    if skip != 1 {
        w = w.add(minus(&mut t) * t.num(3, 0, 999), UNITS[0]);
        t.lit("Y");
        w = w.add(t.num(2, 0, 99), UNITS[1]);
        t.lit("M");
        w = w.add(t.num(2, 0, 99), UNITS[6]);
        t.lit("W");
        w = w.add(minus(&mut t) * t.num(2, 0, 99), UNITS[2]);
        t.lit("D");
    }
    if skip != 2 {
        t.lit("T");
        w = w.add(t.num(2, 0, 99), UNITS[3]);
        t.lit("H");
        w = w.add(t.num(2, 0, 99), UNITS[4]);
        t.lit("M");
        let k = minus(&mut t);
        w.t += k * t.num(2, 0, 99) * SEC;
        t.lit(".");
        w.t += k * t.num(6, 0, 999_999);
        t.lit("S");
    }
    verdict(&t, st, w);
}
fn c25_iso_fraction() {
    // quarters of designators
    let (p, i, q) = match choice(7) {
        0 => ("P", 0, "Y"),
        1 => ("P", 1, "M"),
        2 => ("P", 6, "W"),
        3 => ("P", 2, "D"),
        4 => ("PT", 3, "H"),
        5 => ("PT", 4, "M"),
        _ => ("PT", 5, "S"),
    };
    let x = UNITS[i];
    let mut t = Txt::of(p);
    let k = minus(&mut t);
    let n = t.num(2, 0, 99);
    let mut w = ZERO.add(k * n, x);
    t.lit(".");
    let f = match choice(3) { 0 => { t.lit("25"); 1 } 1 => { t.lit("5"); 2 } _ => { t.lit("75"); 3 } };
    match i {
        0 => w.m += k * 3 * f,
        1 | 6 => {
            let quarters = f * if i == 1 { 30 } else { 7 };
            w.d += k * (quarters / 4);
            w.t += k * (quarters % 4) * (DAYU / 4);
        }
        2 => w.t += k * f * (DAYU / 4),
        _ => w.t += k * f * (x.t / 4),
    }
    t.lit(q);
    verdict(&t, style(), w);
}
fn c25_fraction_before_clock() {
    // halves of weeks, months or years, or small fractions, beside a clock
    let mut t = Txt::new();
    let first = choice(2) == 0;
    let mut c = 0;
    if first {
        c = clock(&mut t);
        t.lit(" ");
    }
    let f = t.num(2, 0, 99);
    let k = choice(5);
    t.lit(if k < 3 { ".5 " } else { ".00005 " });
    let mut w = ZERO;
    match k {
        3 => { t.lit("weeks"); w.d = 7 * f; w.t = 30_240_000; }
        4 => { t.lit("days"); w.d = f; w.t = 4_320_000; }
        0 => { t.lit("weeks"); w.d = 7 * f + 3; w.t = DAYU / 2; }
        1 => { t.lit("mons"); w.m = f; w.d = 15; }
        _ => { t.lit("years"); w.m = 12 * f + 6; }
    }
    if !first {
        t.lit(" ");
        c = clock(&mut t);
    }
    w.t += c;
    verdict(&t, style(), w);
}
fn c25_iso_one() {
    // any number of each designator
    let (p, x, q) = match choice(7) {
        0 => ("P", 0, "Y"),
        1 => ("P", 1, "M"),
        2 => ("P", 6, "W"),
        3 => ("P", 2, "D"),
        4 => ("PT", 3, "H"),
        5 => ("PT", 4, "M"),
        _ => ("PT", 5, "S"),
    };
    let mut t = Txt::of(p);
    let k = minus(&mut t);
    let n = k * match choice(2) { 0 => t.num(1, 0, 9), _ => t.num(10, 0, 2_499_999_999) };
    t.lit(q);
    verdict(&t, Postgres, ZERO.add(n, UNITS[x]));
}
fn c25_iso_alternative() {
    // Pyyyy-mm-ddThh:mm:ss and PyyyymmddThhmmss
    let mut t = Txt::of("P");
    let s = if choice(2) == 0 { "-" } else { "" };
    let y = t.num(4, 0, 9999);
    t.lit(s);
    let mo = t.num(2, 0, 99);
    t.lit(s);
    let d = t.num(2, 0, 99);
    t.lit("T");
    let s = if choice(2) == 0 { ":" } else { "" };
    let h = t.num(2, 0, 99);
    t.lit(s);
    let m = t.num(2, 0, 99);
    t.lit(s);
    let c = t.num(2, 0, 99);
    verdict(&t, style(), Sum { m: 12 * y + mo, d, t: h * HOUR + m * MINUTE + c * SEC, big: false, ..ZERO });
}
fn c25_iso_widths() {
    // only eight digits are a date run together, and only six a time: others
    // are years and hours
    let mut t = Txt::of("P");
    let date = choice(2) == 0;
    if !date {
        t.lit("T");
    }
    let w = 1 + choice(10) as usize;
    let v = t.num(w, 0, if w < 9 { 99_999_999 } else { 399_999_999 });
    if date {
        let w = match choice(3) { 0 => 0, 1 => { t.lit("T1"); 1 } _ => { t.lit("T010203"); 6 } };
        let rest = match w { 0 => 0, 1 => HOUR, _ => HOUR + 2 * MINUTE + 3 * SEC };
        let whole = t.s().len() - (if w > 0 { w + 1 } else { 0 }) - 1;
        if whole == 8 {
            let (y, m, d) = (v / 10000, v / 100 % 100, v % 100);
            verdict(&t, style(), Sum { m: 12 * y + m, d, t: rest, big: false, ..ZERO });
        } else {
            verdict(&t, style(), Sum { m: 12 * v, d: 0, t: rest, big: false, ..ZERO });
        }
    } else if w == 6 {
        let (h, m, c) = (v / 10000, v / 100 % 100, v % 100);
        verdict(&t, style(), Sum { m: 0, d: 0, t: h * HOUR + m * MINUTE + c * SEC, big: false, ..ZERO });
    } else {
        verdict(&t, style(), Sum { m: 0, d: 0, t: v * HOUR, big: false, ..ZERO });
    }
}
}
