//! Any text gives a value or an error.
use crate::gen::*;
use crate::model::*;
use crate::txt::*;
use crate::vf::*;
use pgdatetime::*;
use DateOrder::*;
use IntervalStyle::*;

fn date_ok(s: &str, o: DateOrder) {
    match Date::try_from_str(s, o) {
        Ok(d) => {
            cover("date");
            let n = datev(d);
            check((n >= MIN_DATE) & (n < END_DATE) | (n == i32::MAX as i64) | (n == i32::MIN as i64), "a supported date");
        }
        Err(_) => cover("no date"),
    }
}
fn stamp_ok(s: &str, o: DateOrder) {
    match Timestamp::try_from_str(s, -1, o) {
        Ok(t) => {
            cover("stamp");
            let v = tsv(t);
            check((v >= MIN_DATE * USECS_PER_DAY) & (v < TS_END_DATE * USECS_PER_DAY) | (v == i64::MAX) | (v == i64::MIN), "a supported timestamp");
        }
        Err(_) => cover("no stamp"),
    }
}
fn time_ok(s: &str, o: DateOrder) {
    match Time::try_from_str(s, -1, o) {
        Ok(t) => {
            cover("time");
            let v = i64::from(t);
            check((v >= 0) & (v <= USECS_PER_DAY), "a time of day");
        }
        Err(_) => cover("no time"),
    }
}
fn span_ok(s: &str, st: IntervalStyle) {
    match Interval::try_from_str(s, -1, st) {
        Ok(_) => cover("span"),
        Err(_) => cover("no span"),
    }
}
fn every(s: &str) {
    match choice(4) {
        0 => date_ok(s, YMD),
        1 => stamp_ok(s, YMD),
        2 => time_ok(s, YMD),
        _ => span_ok(s, if choice(2) == 0 { Postgres } else { SQLStandard }),
    }
}
fn ascii(n: usize) {
    let mut t = Txt::new();
    for _ in 0..n {
        t.ch(byte(0, 127));
    }
    every(t.s());
}
fn digits(t: &mut Txt, n: usize) {
    match n {
        1 => { t.num(1, 0, 9); }
        2 => { t.num(2, 0, 99); }
        // a day of the year, perhaps
        3 => t.lit(match choice(7) { 0 => "000", 1 => "001", 2 => "060", 3 => "365", 4 => "366", 5 => "367", _ => "999" }),
        4 => { t.num(4, 0, 9999); }
        5 => {
            t.lit(match choice(3) { 0 => "00", 1 => "69", _ => "99" });
            digits(t, 3);
        }
        7 => {
            t.lit(YEARS[choice(4) as usize]);
            digits(t, 3);
        }
        6 => {
            digits(t, 2);
            digits(t, 2);
            digits(t, 2);
        }
        8 => {
            digits(t, 4);
            digits(t, 2);
            digits(t, 2);
        }
        14 => {
            digits(t, 8);
            digits(t, 6);
        }
        _ => raw(t, n),
    }
}
fn raw(t: &mut Txt, n: usize) {
    for _ in 0..n {
        t.ch(byte(b'0', b'9'));
    }
}
fn order() -> DateOrder {
    match choice(3) { 0 => YMD, 1 => DMY, _ => MDY }
}
const YEARS: [&str; 4] = ["0000", "0001", "2000", "9999"];
const SEPS: [&str; 8] = [" ", "-", "/", ".", ":", "+", ",", " -"];
/// One word of each kind.
const WORDS: [&str; 22] = [
    "feb", "sat", "bc", "pm", "z", "j", "y", "m", "d", "h", "s", "t", "at", "ago", "infinity", "epoch", "allballs",
    "utc", "day", "mons", "nonsense", "p",
];
fn piece(t: &mut Txt) {
    let k = choice(34) as usize;
    match k {
        22 => digits(t, 1),
        23 => digits(t, 2),
        24 => t.lit(YEARS[choice(4) as usize]),
        25 => digits(t, 6),
        26 => { t.lit(match choice(2) { 0 => "200102", _ => "999912" }); digits(t, 2); }
        27 => { digits(t, 1); t.lit(":"); digits(t, 1); }
        28 => { digits(t, 2); t.lit("-"); digits(t, 1); t.lit("-"); digits(t, 1); }
        29 => { digits(t, 1); t.lit("."); digits(t, 1); }
        30 => { t.lit("-"); digits(t, 1); }
        31 => { t.lit("+"); digits(t, 1); t.lit(":"); digits(t, 1); }
        32 => t.lit("."),
        33 => t.lit("@"),
        _ => t.lit(WORDS[k]),
    }
}
fn pieces(n: usize) {
    let mut t = Txt::new();
    for k in 0..n {
        if k > 0 && choice(2) == 0 {
            t.lit(" ");
        }
        piece(&mut t);
    }
    every(t.s());
}
fn iso_span(n: usize) {
    // labelled parts
    let mut t = Txt::of("P");
    for k in 0..n {
        if k > 0 && choice(2) == 0 {
            t.lit("T");
        }
        if k + 1 == n { digits(&mut t, 1) } else { t.lit(if choice(2) == 0 { "1" } else { "12" }) }
        t.lit(match choice(4) { 0 => "", 1 => ".", 2 => ".5", _ => ".1" });
        match choice(10) {
            0 => {}
            k => t.lit(["Y", "M", "W", "D", "H", "S", "-", ":", "T"][k as usize - 1]),
        }
    }
    span_ok(t.s(), ISO8601);
}
fn run_span(any: bool) {
    // counts of any length and unit
    let mut t = Txt::new();
    t.lit(match choice(4) { 0 => "", 1 => "-", 2 => "@ ", _ => "P" });
    raw(&mut t, 1 + choice(24) as usize);
    match choice(3) {
        0 => {}
        1 => t.lit("."),
        _ => {
            t.lit(".");
            if any { raw(&mut t, 3) } else { t.lit(if choice(2) == 0 { "5" } else { "999" }) }
        }
    }
    t.lit(match choice(14) {
        0 => "", 1 => " c", 2 => " d", 3 => " dec", 4 => " h", 5 => " m", 6 => " mon", 7 => " mil", 8 => " ms", 9 => " s",
        10 => "us", 11 => "w", 12 => "Y", _ => "M",
    });
    t.lit(match choice(2) { 0 => "", _ => " ago" });
    span_ok(t.s(), if choice(2) == 0 { Postgres } else { SQLStandard });
}
harnesses! {
fn c22_ascii1() { ascii(choice(2) as usize) }
fn c22_ascii2() { ascii(2) }
fn c22_ascii3() { ascii(3) }
fn c22t_ascii4() { ascii(4) }
fn c22_pieces2() { pieces(2) }
fn c22t_pieces3() { pieces(3) }
fn c22_run() {
    // a run of digits of any length, with a sign, a point, a word
    let mut t = Txt::new();
    t.lit(match choice(5) { 0 => "", 1 => "-", 2 => "+", 3 => "2001-02-03 ", _ => "feb " });
    let n = 1 + choice(24) as usize;
    let tail = choice(4) as usize;
    if n <= 4 && tail == 3 {
        t.lit(&YEARS[choice(4) as usize][4 - n..]);
    } else if n <= 10 && tail == 3 {
        t.lit(match choice(2) { 0 => &"0000000019"[10 - n..], _ => &"2000000000"[..n] });
    } else {
        digits(&mut t, n);
    }
    if tail > 0 {
        t.lit(".");
        digits(&mut t, if tail == 1 { 0 } else { tail });
    }
    t.lit(match choice(2) { 0 => "", _ => " bc" });
    match choice(3) {
        0 => date_ok(t.s(), order()),
        1 => stamp_ok(t.s(), order()),
        _ => time_ok(t.s(), YMD),
    }
}
fn c22_julian() {
    let mut t = Txt::of(match choice(3) { 0 => "j", 1 => "J ", _ => "julian" });
    match choice(4) {
        0 => { t.num(1, 0, 9); }
        1 => { t.lit(match choice(3) { 0 => "2299160", 1 => "2460361", _ => "214748364" }); t.num(1, 0, 9); }
        2 => { t.lit(match choice(3) { 0 => "229916", 1 => "2147483", _ => "246036" }); t.num(1, 0, 9); }
        _ => match choice(3) {
            0 => t.lit(match choice(4) { 0 => "00000000", 1 => "99999999", 2 => "2145031948", _ => "2145031949" }),
            _ => digits(&mut t, 11 + choice(13) as usize),
        }
    }
    t.lit(match choice(7) { 0 => "", 1 => "t", 2 => "t040506", 3 => ".5", 4 => "-08", 5 => " bc", _ => "." });
    every(t.s());
}
fn c22_run_span() { run_span(false) }
fn c22t_run_span() { run_span(true) }
fn c22_three() {
    // three numbers, any separators
    let mut t = Txt::new();
    let doy = choice(2) == 1;
    if doy {
        t.lit(YEARS[choice(4) as usize]);
    } else {
        digits(&mut t, 1 + choice(3) as usize);
    }
    let s = choice(8) as usize;
    t.lit(SEPS[s]);
    if doy {
        digits(&mut t, 3);
    } else {
        // a month, perhaps
        t.lit(["0", "1", "2", "4", "9", "00", "02", "12", "13", "30", "31", "99"][choice(12) as usize]);
    }
    t.lit(SEPS[match choice(3) { 0 => s, 1 => 0, _ => 3 }]);
    digits(&mut t, 1 + choice(2) as usize);
    every(t.s());
}
fn c22_clock() {
    // clock numbers of any length
    let mut t = Txt::of(match choice(4) { 0 => "", 1 => "-", 2 => "2001-02-03 ", _ => "P0001-02-03T" });
    let k = choice(3);
    raw(&mut t, if k == 0 { 1 + choice(20) as usize } else { 1 });
    t.lit(":");
    raw(&mut t, if k == 1 { 1 + choice(20) as usize } else { 1 });
    match choice(3) {
        0 => {}
        1 => { t.lit(":"); raw(&mut t, if k == 2 { 1 + choice(20) as usize } else { 1 }); }
        _ => { t.lit(".") ; raw(&mut t, if k == 2 { 1 + choice(20) as usize } else { 1 }); }
    }
    match choice(3) {
        0 => {}
        1 => { t.lit("."); raw(&mut t, choice(9) as usize); }
        _ => t.lit(" pm"),
    }
    every(t.s());
}
fn c22_iso_span() { iso_span(2) }
fn c22t_iso_span() { iso_span(3) }
fn c22_many() {
    // many fields
    let n = choice(45) as usize;
    let mut t = Txt::new();
    let w = match choice(4) { 0 => "1", 1 => "on", 2 => ":", _ => "1d" };
    for _ in 0..n {
        t.lit(w);
        t.lit(" ");
    }
    every(t.s());
}
fn c22_type_mod() {
    // any precision or field restriction, valid or not
    let m = any_i32();
    let t = Txt::of(match choice(8) {
        0 => "04:05:06.789", 1 => "2001-02-03 04:05:06.789", 2 => "infinity", 3 => "1 year 2 mons 3 days 04:05:06.789",
        4 => "1-2", 5 => "7", 6 => "-3.5 hours", _ => "24:00:00",
    });
    match choice(3) {
        0 => cover(if Time::try_from_str(t.s(), m, YMD).is_ok() { "time" } else { "no time" }),
        1 => cover(if Timestamp::try_from_str(t.s(), m, YMD).is_ok() { "stamp" } else { "no stamp" }),
        _ => cover(if Interval::try_from_str(t.s(), m, Postgres).is_ok() { "span" } else { "no span" }),
    }
}
fn c22_other_bytes() {
    // beyond ASCII
    let mut t = Txt::new();
    piece(&mut t);
    t.ch(byte(0xc2, 0xdf));
    t.ch(byte(0x80, 0xbf));
    if choice(2) == 0 {
        piece(&mut t);
    }
    every(t.s());
}
}
