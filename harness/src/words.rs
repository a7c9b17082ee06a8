//! The vocabulary.
use crate::gen::*;
use crate::model::*;
use crate::txt::*;
use crate::vf::*;
use pgdatetime::*;
use DateOrder::*;
use IntervalStyle::*;

const HOUR: i64 = 3_600_000_000;
type U = (&'static str, i64, i64, i64);
/// (word, months, days, microseconds)
const UNITS: [U; 55] = [
    ("c", 1200, 0, 0), ("cent", 1200, 0, 0), ("centuries", 1200, 0, 0), ("century", 1200, 0, 0),
    ("d", 0, 1, 0), ("day", 0, 1, 0), ("days", 0, 1, 0),
    ("dec", 120, 0, 0), ("decade", 120, 0, 0), ("decades", 120, 0, 0), ("decs", 120, 0, 0),
    ("h", 0, 0, HOUR), ("hour", 0, 0, HOUR), ("hours", 0, 0, HOUR), ("hr", 0, 0, HOUR), ("hrs", 0, 0, HOUR),
    ("m", 0, 0, 60_000_000), ("min", 0, 0, 60_000_000), ("mins", 0, 0, 60_000_000), ("minute", 0, 0, 60_000_000),
    ("minutes", 0, 0, 60_000_000),
    ("mon", 1, 0, 0), ("mons", 1, 0, 0), ("month", 1, 0, 0), ("months", 1, 0, 0),
    ("mil", 12000, 0, 0), ("mils", 12000, 0, 0), ("millennia", 12000, 0, 0), ("millennium", 12000, 0, 0),
    ("ms", 0, 0, 1000), ("msec", 0, 0, 1000), ("msecs", 0, 0, 1000), ("msecond", 0, 0, 1000), ("mseconds", 0, 0, 1000),
    ("millisecond", 0, 0, 1000), ("milliseconds", 0, 0, 1000),
    ("s", 0, 0, 1_000_000), ("sec", 0, 0, 1_000_000), ("secs", 0, 0, 1_000_000), ("second", 0, 0, 1_000_000),
    ("seconds", 0, 0, 1_000_000),
    ("us", 0, 0, 1), ("usec", 0, 0, 1), ("usecs", 0, 0, 1), ("usecond", 0, 0, 1), ("useconds", 0, 0, 1),
    ("microsecond", 0, 0, 1), ("microseconds", 0, 0, 1),
    ("w", 0, 7, 0), ("week", 0, 7, 0), ("weeks", 0, 7, 0),
    ("y", 12, 0, 0), ("year", 12, 0, 0), ("years", 12, 0, 0), ("yr", 12, 0, 0),
];
const YRS: U = ("yrs", 12, 0, 0);

const MONTHS: [(&str, i64); 24] = [
    ("jan", 1), ("january", 1), ("feb", 2), ("february", 2), ("mar", 3), ("march", 3), ("apr", 4), ("april", 4),
    ("may", 5), ("jun", 6), ("june", 6), ("jul", 7), ("july", 7), ("aug", 8), ("august", 8), ("sep", 9),
    ("sept", 9), ("september", 9), ("oct", 10), ("october", 10), ("nov", 11), ("november", 11), ("dec", 12),
    ("december", 12),
];
const DAYS: [&str; 19] = [
    "sun", "sunday", "mon", "monday", "tue", "tues", "tuesday", "wed", "weds", "wednesday", "thu", "thur", "thurs",
    "thursday", "fri", "friday", "sat", "saturday", "",
];

/// The word, each of its first four (or all five) letters in either case, the others all in one.
fn any_case(t: &mut Txt, w: &str) {
    let rest = if w.len() > 5 { int(0, 1) } else { 0 };
    for (k, c) in w.as_bytes().iter().enumerate() {
        t.ch(*c - 32 * (if k < 4 || w.len() <= 5 { int(0, 1) } else { rest }) as u8);
    }
}
/// Any word of `n` small letters.
fn any_word(t: &mut Txt, n: usize) -> [u8; 12] {
    let mut w = [0; 12];
    for k in 0..n {
        let c = byte(b'a', b'z');
        w[k] = c;
        t.ch(c);
    }
    w
}
fn same(w: &[u8; 12], n: usize, s: &str) -> bool {
    let s = s.as_bytes();
    if s.len() != n {
        return false;
    }
    let mut r = true;
    for k in 0..n {
        r = r & (w[k] == s[k]);
    }
    r
}
fn units_of(n: usize) {
    let mut t = Txt::new();
    let v = t.num(2, 0, 99);
    t.lit(" ");
    let w = any_word(&mut t, n);
    let r = Interval::try_from_str(t.s(), -1, Postgres);
    let mut known = same(&w, n, YRS.0);
    for x in UNITS {
        known = known | same(&w, n, x.0);
    }
    match r {
        Ok(r) => {
            cover("unit");
            check(known, "a word that is no unit");
            let g = mdt(r);
            let mut right = same(&w, n, YRS.0) & (g == (v * 12, 0, 0));
            for x in UNITS {
                right = right | (same(&w, n, x.0) & (g.0 == v * x.1) & (g.1 == v * x.2) & (g.2 == v * x.3));
            }
            check(right, "meaning");
        }
        Err(_) => {
            cover("no unit");
            check(!known, "a unit is rejected");
        }
    }
}
fn months_of(n: usize) {
    let mut t = Txt::new();
    let w = any_word(&mut t, n);
    t.lit(" 3 2001");
    let r = Date::try_from_str(t.s(), MDY);
    let mut known = false;
    let mut want = 0;
    for x in MONTHS {
        let e = same(&w, n, x.0);
        known = known | e;
        if x.0.len() == n {
            want += e as i64 * day_number(2001, x.1, 3);
        }
    }
    // Julian day 3, at 20:01
    let julian = same(&w, n, "j") | same(&w, n, "jd") | same(&w, n, "julian");
    match r {
        Ok(r) => {
            cover("month");
            check(known | julian, "a word that is no month");
            check(if julian { datev(r) == MIN_DATE + 3 } else { datev(r) == want }, "meaning");
        }
        Err(_) => {
            cover("no month");
            check(!known, "a month is rejected");
        }
    }
}
fn day3(m: i64) -> i64 {
    day_number(2001, m, 3)
}
fn is_day(r: Result<Date, DateTimeError>, n: i64) -> bool {
    match r {
        Ok(d) => datev(d) == n,
        Err(_) => false,
    }
}
harnesses! {
fn c26_units() {
    // every unit word in any case
    let k = choice(56) as usize;
    let x = if k == 55 { YRS } else { UNITS[k] };
    let mut t = Txt::new();
    let n = t.num(2, 0, 99);
    t.lit(if choice(2) == 0 { " " } else { "" });
    any_case(&mut t, x.0);
    let ago = choice(2) == 1;
    if ago {
        t.lit(" ");
        any_case(&mut t, "ago");
    }
    let n = if ago { -n } else { n };
    match Interval::try_from_str(t.s(), -1, Postgres) {
        Ok(r) => {
            cover("ok");
            check(mdt(r) == (n * x.1, n * x.2, n * x.3), "meaning");
        }
        Err(_) => check(false, "rejected"),
    }
}
fn c26_months() {
    let x = MONTHS[choice(24) as usize];
    let mut t = Txt::new();
    match choice(3) {
        0 => {
            any_case(&mut t, x.0);
            t.lit(" 3 2001");
        }
        1 => {
            t.lit("3-");
            any_case(&mut t, x.0);
            t.lit("-2001");
        }
        _ => {
            t.lit("2001 ");
            any_case(&mut t, x.0);
            t.lit(" 3");
        }
    }
    cover("month");
    check(is_day(Date::try_from_str(t.s(), MDY), day3(x.1)), "month");
    check(Timestamp::try_from_str(t.s(), -1, MDY) == Ok(ts(day3(x.1), 0)), "month in a timestamp");
}
fn c26_weekdays() {
    // a weekday may accompany a date
    let x = DAYS[choice(18) as usize];
    let mut t = Txt::new();
    match choice(2) {
        0 => {
            any_case(&mut t, x);
            t.lit(" Feb 3 2001");
        }
        _ => {
            t.lit("2001-02-03 ");
            any_case(&mut t, x);
        }
    }
    cover("weekday");
    check(is_day(Date::try_from_str(t.s(), MDY), day3(2)), "weekday");
}
fn c26_era() {
    let mut t = Txt::of("2001-02-03 ");
    let bc = choice(2) == 1;
    any_case(&mut t, if bc { "bc" } else { "ad" });
    cover("era");
    let n = if bc { day_number(-2000, 2, 3) } else { day3(2) };
    check(is_day(Date::try_from_str(t.s(), YMD), n), "era");
    t.lit(" 04:05");
    check(Timestamp::try_from_str(t.s(), -1, YMD) == Ok(ts(n, 14_700_000_000)), "era in a timestamp");
}
fn c26_meridiem() {
    let mut t = Txt::of("4:05 ");
    let pm = choice(2) == 1;
    any_case(&mut t, if pm { "pm" } else { "am" });
    cover("meridiem");
    let v = 14_700_000_000 + if pm { 12 * HOUR } else { 0 };
    check(Time::try_from_str(t.s(), -1, YMD) == Ok(Time::from(v)), "meridiem");
    t.lit(" Feb 3 2001");
    check(Timestamp::try_from_str(t.s(), -1, MDY) == Ok(ts(day3(2), v)), "meridiem in a timestamp");
}
fn c26_special() {
    let mut t = Txt::new();
    let k = choice(3);
    match k {
        0 => any_case(&mut t, "infinity"),
        1 => {
            t.lit("-");
            any_case(&mut t, "infinity");
        }
        _ => any_case(&mut t, "allballs"),
    }
    cover("special");
    let d = Date::try_from_str(t.s(), YMD);
    let s = Timestamp::try_from_str(t.s(), -1, YMD);
    let c = Time::try_from_str(t.s(), -1, YMD);
    match k {
        0 => check((d == Ok(Date::from(i32::MAX))) & (s == Ok(Timestamp::from(i64::MAX))) & c.is_err(), "infinity"),
        1 => check((d == Ok(Date::from(i32::MIN))) & (s == Ok(Timestamp::from(i64::MIN))) & c.is_err(), "-infinity"),
        _ => check(c == Ok(Time::from(0)), "allballs"),
    }
    check(Interval::try_from_str(t.s(), -1, Postgres).is_err(), "no interval");
}
fn c26_prefix() {
    // labels of ISO parts
    let mut t = Txt::new();
    any_case(&mut t, "y");
    t.lit("2001");
    any_case(&mut t, "m");
    t.lit("02");
    any_case(&mut t, "d");
    t.lit("03");
    cover("labels");
    check(is_day(Date::try_from_str(t.s(), YMD), day3(2)), "labels");
    any_case(&mut t, "t");
    t.lit("040506");
    check(Timestamp::try_from_str(t.s(), -1, YMD) == Ok(ts(day3(2), 14_706_000_000)), "labels and time");
}
fn c26_filler() {
    // "at" and "on" mean nothing
    let mut t = Txt::new();
    any_case(&mut t, "on");
    t.lit(" 2001-02-03 ");
    any_case(&mut t, "at");
    t.lit(" 04:05");
    cover("filler");
    check(Timestamp::try_from_str(t.s(), -1, YMD) == Ok(ts(day3(2), 14_700_000_000)), "filler");
}
fn c26_filler_places() {
    // before, between and after the parts of a text
    let k = choice(5);
    let parts: &[&str] = match k {
        0 => &["2001-02-0", "04:05", "pm"],
        1 => &["04:05", "Feb", "", "2001"],
        2 => &["2001-02-0"],
        3 => &["Feb", "", "2001", "BC"],
        _ => &["04:05", "pm"],
    };
    let at = choice(5) as usize;
    assume(at <= parts.len());
    let word = match choice(4) { 0 => "at", 1 => "on", 2 => "AT", _ => "On" };
    let mut t = Txt::new();
    let mut day = 3;
    let mut i = 0;
    while i < parts.len() {
        if i == at {
            t.lit(word);
            t.lit(" ");
        }
        let x = parts[i];
        t.lit(x);
        if x.len() == 0 || x.len() == 9 {
            day = t.num(1, 1, 9);
        }
        if i + 1 < parts.len() {
            t.lit(" ");
        }
        i += 1;
    }
    if at == parts.len() {
        t.lit(" ");
        t.lit(word);
    }
    cover("filler");
    let n = day3(2) - 3 + day;
    match k {
        0 => check(Timestamp::try_from_str(t.s(), -1, MDY) == Ok(ts(n, 14_700_000_000 + 12 * HOUR)), "filler and am/pm"),
        1 => check(Timestamp::try_from_str(t.s(), -1, MDY) == Ok(ts(n, 14_700_000_000)), "filler and a clock"),
        2 => check(is_day(Date::try_from_str(t.s(), MDY), n), "filler and a date"),
        3 => check(is_day(Date::try_from_str(t.s(), MDY), day_number(-2000, 2, 0) + day), "filler and an era"),
        _ => check(Time::try_from_str(t.s(), -1, MDY) == Ok(Time::from(14_700_000_000 + 12 * HOUR)), "filler and a time"),
    }
}
fn c26_julian() {
    let mut t = Txt::new();
    t.lit(match choice(6) { 0 => "j", 1 => "jd", 2 => "julian", 3 => "J", 4 => "jD ", _ => "JuLiaN " });
    let n = if choice(2) == 0 { t.num(3, 0, 999) } else { 2_460_000 + { t.lit("2460"); t.num(3, 0, 999) } };
    cover("julian");
    check(is_day(Date::try_from_str(t.s(), YMD), n + MIN_DATE), "julian day");
}
fn c26_other_units() { units_of(1 + choice(5) as usize) }
fn c26_long_units() { units_of(6 + choice(4) as usize) }
fn c26_other_months() { months_of(1 + choice(5) as usize) }
fn c26_long_months() { months_of(6 + choice(4) as usize) }
}
