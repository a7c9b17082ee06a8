//! What was parsed before does not matter.
use crate::gen::*;
use crate::model::*;
use crate::txt::*;
use crate::vf::*;
use pgdatetime::*;
use DateOrder::*;
use IntervalStyle::*;

#[derive(Clone, Copy)]
enum What {
    ADate(DateOrder),
    AStamp(DateOrder),
    ATime,
    ASpan,
}
use What::*;
fn read(w: What, s: &str) -> [i64; 4] {
    match w {
        ADate(o) => match Date::try_from_str(s, o) {
            Ok(d) => [1, datev(d), 0, 0],
            Err(_) => [0; 4],
        },
        AStamp(o) => match Timestamp::try_from_str(s, -1, o) {
            Ok(d) => [2, tsv(d), 0, 0],
            Err(_) => [0; 4],
        },
        ATime => match Time::try_from_str(s, -1, YMD) {
            Ok(d) => [3, unsafe { std::mem::transmute::<Time, i64>(d) }, 0, 0],
            Err(_) => [0; 4],
        },
        ASpan => span(s, -1, Postgres),
    }
}
fn span(s: &str, m: i32, y: IntervalStyle) -> [i64; 4] {
    match Interval::try_from_str(s, m, y) {
        Ok(d) => {
            let x = mdt(d);
            [4, x.0, x.1, x.2]
        }
        Err(_) => [0; 4],
    }
}
fn same(a: [i64; 4], b: [i64; 4]) -> bool {
    (a[0] == b[0]) & (a[1] == b[1]) & (a[2] == b[2]) & (a[3] == b[3])
}
/// What to read, and its settings.
type As = [i32; 3];
const DATE: i32 = 0;
const STAMP: i32 = 1;
const TIME: i32 = 2;
const SPAN: i32 = 3;
fn read_as(a: As, s: &str) -> [i64; 4] {
    let o = match a[2] { 0 => YMD, 1 => DMY, _ => MDY };
    match a[0] {
        DATE => read(ADate(o), s),
        STAMP => match Timestamp::try_from_str(s, a[1], o) {
            Ok(d) => [2, tsv(d), 0, 0],
            Err(_) => [0; 4],
        },
        TIME => match Time::try_from_str(s, a[1], o) {
            Ok(d) => [3, unsafe { std::mem::transmute::<Time, i64>(d) }, 0, 0],
            Err(_) => [0; 4],
        },
        _ => span(s, a[1], match a[2] { 0 => Postgres, 1 => SQLStandard, 2 => ISO8601, _ => PostgresVerbose }),
    }
}
/// Whether `t` reads the same at first and after itself with other settings.
fn after_as(h: As, w: As, t: &Txt) {
    let cold = alone(|| read_as(w, t.s()));
    read_as(h, t.s());
    let warm = read_as(w, t.s());
    cover(if cold[0] == 0 { "no value" } else { "value" });
    obs("value", warm[1]);
    check(same(cold, warm), "same as alone");
    check(same(warm, read_as(w, t.s())), "same again");
}
/// Whether `t` reads the same at first and after `h`.
fn after(h: &[(What, &Txt)], w: What, t: &Txt) {
    let cold = alone(|| read(w, t.s()));
    for x in h {
        read(x.0, x.1.s());
    }
    let warm = read(w, t.s());
    cover(if cold[0] == 0 { "no value" } else { "value" });
    obs("value", warm[1]);
    check(same(cold, warm), "same as alone");
    check(same(warm, read(w, t.s())), "same again");
}
fn any_word(t: &mut Txt, n: usize) {
    for _ in 0..n {
        t.ch(byte(b'a', b'z'));
    }
}
const UNITS: [&str; 56] = [
    "c", "cent", "centuries", "century", "d", "day", "days", "dec", "decade", "decades", "decs", "h", "hour", "hours",
    "hr", "hrs", "m", "min", "mins", "minute", "minutes", "mon", "mons", "month", "months", "mil", "mils", "millennia",
    "millennium", "ms", "msec", "msecs", "msecond", "mseconds", "millisecond", "milliseconds", "s", "sec", "secs",
    "second", "seconds", "us", "usec", "usecs", "usecond", "useconds", "microsecond", "microseconds", "w", "week",
    "weeks", "y", "year", "years", "yr", "yrs",
];
const MONTHS: [&str; 24] = [
    "jan", "january", "feb", "february", "mar", "march", "apr", "april", "may", "jun", "june", "jul", "july", "aug",
    "august", "sep", "sept", "september", "oct", "october", "nov", "november", "dec", "december",
];
const SOME_UNITS: [&str; 10] = [
    "d", "decade", "hours", "m", "mons", "millennium", "microsecond", "secs", "weeks", "years",
];
const SOME_MONTHS: [&str; 6] = ["jan", "mar", "march", "may", "sept", "december"];
const FEW: [&str; 8] = ["d", "day", "days", "m", "mon", "min", "ago", "nonsense"];

fn unit(t: &mut Txt, w: &str) {
    t.ch(b'1');
    t.ch(b' ');
    t.lit(w);
}
fn units(u: &str, n: usize) {
    // a known unit, then any word
    let (mut a, mut b) = (Txt::new(), Txt::new());
    unit(&mut a, u);
    b.lit("1 ");
    any_word(&mut b, n);
    after(&[(ASpan, &a)], ASpan, &b);
}
fn months(m: &str, n: usize) {
    let (mut a, mut b) = (Txt::new(), Txt::new());
    a.lit(m);
    a.lit(" 3 2001");
    any_word(&mut b, n);
    b.lit(" 3 2001");
    after(&[(ADate(MDY), &a)], ADate(MDY), &b);
}
/// Texts of many kinds.
const KINDS: [(What, &str); 27] = [
    (ADate(MDY), "feb 3 2001"),
    (ADate(MDY), "3-mar-2001"),
    (ADate(YMD), "2001-02-03"),
    (ADate(YMD), "2001-02-03 bc"),
    (ADate(MDY), "february 3 2001 bc"),
    (ADate(YMD), "01-02-03"),
    (ADate(DMY), "01-02-03"),
    (ADate(YMD), "infinity"),
    (ADate(YMD), "-infinity"),
    (ADate(YMD), "j2451945"),
    (ADate(MDY), "sat feb 3 2001"),
    (ADate(YMD), "y2001m02d03"),
    (ADate(MDY), "maybe 3 2001"),
    (AStamp(YMD), "2001-02-03 04:05 pm"),
    (AStamp(YMD), "2001-02-03 04:05 am bc"),
    (AStamp(MDY), "sat feb 3 04:05:06 2001"),
    (AStamp(MDY), "2001 m"),
    (AStamp(YMD), "infinity"),
    (ATime, "04:05 pm"),
    (ATime, "04:05 am"),
    (ATime, "040506"),
    (ATime, "allballs"),
    (ASpan, "1 day 2 mons"),
    (ASpan, "1 mon 2 days ago"),
    (ASpan, "1 d 2 m 3 s"),
    (ASpan, "1 s 2 min 3 days"),
    (ASpan, "@ 1 year 2 mons 3 fortnights"),
];
harnesses! {
fn c28_units_short() { units(UNITS[choice(56) as usize], 1 + choice(3) as usize) }
fn c28_units_long() { units(SOME_UNITS[choice(10) as usize], 4 + choice(6) as usize) }
fn c28t_units_long() { units(UNITS[choice(56) as usize], 4 + choice(6) as usize) }
fn c28_unknown_unit() {
    // any word, then any known unit
    let (mut a, mut b) = (Txt::of("1 "), Txt::new());
    any_word(&mut a, 1 + choice(6) as usize);
    unit(&mut b, SOME_UNITS[choice(10) as usize]);
    after(&[(ASpan, &a)], ASpan, &b);
}
fn c28_months() { months(SOME_MONTHS[choice(6) as usize], 1 + choice(5) as usize) }
fn c28_months_long() { months(SOME_MONTHS[choice(6) as usize], 6 + choice(4) as usize) }
fn c28t_months() { months(MONTHS[choice(24) as usize], 1 + choice(5) as usize) }
fn c28t_months_long() { months(MONTHS[choice(24) as usize], 6 + choice(4) as usize) }
fn c28_months_longest() {
    // words as long as the longest known ones, and longer
    months(SOME_MONTHS[choice(6) as usize], 10 + choice(2) as usize)
}
fn c28_units_longest() { units(SOME_UNITS[choice(10) as usize], 10 + choice(2) as usize) }
fn c28_two_units() {
    // two units, after two units
    let (mut a, mut b) = (Txt::new(), Txt::new());
    for k in 0..2 {
        for t in [&mut a, &mut b] {
            if k == 1 { t.lit(" 2 ") } else { t.lit("1 ") }
            t.lit(FEW[choice(8) as usize]);
        }
    }
    after(&[(ASpan, &a)], ASpan, &b);
}
fn c28_two_before() {
    // after two others
    let (mut a, mut b, mut c) = (Txt::new(), Txt::new(), Txt::new());
    for t in [&mut a, &mut b, &mut c] {
        unit(t, FEW[choice(8) as usize]);
    }
    after(&[(ASpan, &a), (ASpan, &b)], ASpan, &c);
}
fn c28_kinds() {
    // texts of all kinds after texts of all kinds
    let x = KINDS[choice(27) as usize];
    let y = KINDS[choice(27) as usize];
    after(&[(x.0, &Txt::of(x.1))], y.0, &Txt::of(y.1));
}
fn c28_numbers() {
    // numbers
    let (mut a, mut b) = (Txt::new(), Txt::new());
    let w = match choice(4) { 0 => ADate(YMD), 1 => AStamp(YMD), 2 => ATime, _ => ASpan };
    for t in [&mut a, &mut b] {
        match w {
            ADate(_) | AStamp(_) => {
                t.num(4, 1, 9999);
                t.lit("-");
                t.num(2, 1, 12);
                t.lit("-");
                t.num(2, 1, 31);
            }
            ATime => {
                t.num(2, 0, 24);
                t.lit(":");
                t.num(2, 0, 60);
                t.lit(":");
                t.num(2, 0, 60);
            }
            ASpan => {
                t.num(3, 0, 999);
                t.lit(" mons ");
                t.num(4, 0, 9999);
                t.lit(" days");
            }
        }
    }
    after(&[(w, &a)], w, &b);
}
fn c28_span_settings() {
    // one text, first with other settings
    let mut t = Txt::new();
    match choice(6) {
        0 => { t.lit("-"); t.num(1, 0, 9); t.lit("-"); t.num(1, 0, 9); t.lit(" "); t.num(1, 0, 9); t.lit(" 4:05:06.789"); }
        1 => { t.lit("-"); t.num(1, 0, 9); t.lit(" days 4:05:06"); }
        2 => { t.lit("-"); t.num(2, 0, 99); }
        3 => { t.num(1, 0, 9); t.lit(":"); t.num(2, 0, 59); }
        4 => { t.num(1, 0, 9); t.lit(" mons "); t.num(1, 0, 9); t.lit(" days "); t.num(1, 0, 9); t.lit(".56789 secs"); }
        _ => { t.lit("P"); t.num(1, 0, 9); t.lit("Y"); t.num(1, 0, 9); t.lit("DT1.56789S"); }
    }
    let how = || [
        SPAN,
        match choice(7) { 0 => -1, 1 => 0x7FFF_0000, 2 => 0x7FFF_0003, 3 => 0x0004_FFFF, 4 => 0x0008_FFFF, 5 => 0x0C08_FFFF, _ => 0x1800_FFFF },
        choice(4) as i32,
    ];
    let (a, b) = (how(), how());
    after_as(a, b, &t);
}
fn c28_settings() {
    let mut t = Txt::new();
    let kind = choice(6);
    match kind {
        0 | 1 => { t.num(2, 1, 12); t.lit("-"); t.num(2, 1, 12); t.lit("-"); t.num(2, 0, 12); }
        2 => { t.lit("feb "); t.num(2, 1, 12); t.lit(" "); t.num(2, 1, 12); }
        3 => { t.num(2, 1, 12); t.lit("/"); t.num(2, 1, 12); t.lit("/2003 04:05:06.54321"); }
        4 => { t.num(2, 0, 23); t.lit(":05:06.54321"); }
        _ => { t.num(2, 0, 23); t.lit("0506.54321"); }
    }
    let digits = || match choice(3) { 0 => -1, 1 => 0, _ => 3 };
    let how = || match kind {
        0 | 2 => [DATE, 0, choice(3) as i32],
        1 | 3 => [STAMP, digits(), choice(3) as i32],
        _ => if choice(2) == 0 { [TIME, digits(), 0] } else { [SPAN, -1, 0] },
    };
    let (a, b) = (how(), how());
    after_as(a, b, &t);
}
}
