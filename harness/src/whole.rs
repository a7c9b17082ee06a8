//! Texts that name too little or too much.
use crate::txt::*;
use crate::vf::*;
use pgdatetime::*;
use DateOrder::*;

/// What the pieces of a text name, and how often.
#[derive(Clone, Copy, Default)]
struct Named {
    y: u8, m: u8, d: u8,
    h: u8, mi: u8, s: u8,
    half: u8, era: u8, dow: u8,
    special: u8,
    /// a label at the end
    open: bool,
}
fn d1(t: &mut Txt) {
    t.num(1, 1, 9);
}
fn full(n: &mut Named) {
    n.y += 1;
    n.m += 1;
    n.d += 1;
}
fn clock(n: &mut Named) {
    n.h += 1;
    n.mi += 1;
    n.s += 1;
}
/// One of 20 pieces.
fn piece(k: u32, t: &mut Txt, n: &mut Named) {
    n.open = false;
    match k {
        0 => { t.lit("200"); d1(t); t.lit("-02-03"); full(n); }
        1 => { t.lit("Feb-"); d1(t); t.lit("-2001"); full(n); }
        2 => { t.lit("2001020"); d1(t); full(n); }
        3 => { t.lit("J24511"); d1(t); d1(t); full(n); }
        4 => { t.lit("y200"); d1(t); t.lit("m02d03");
            n.y += 1;
            // after a month and an hour, "m" is the minute
            if n.m >= 1 && n.h >= 1 { n.mi += 1 } else { n.m += 1 }
            n.d += 1;
        }
        5 => { t.lit("0"); d1(t); t.lit(":05"); clock(n); }
        6 => { t.lit("04:05:0"); d1(t); t.lit(".5"); clock(n); }
        7 => { t.lit("h0"); d1(t); n.h += 1; }
        8 => { t.lit("mm0"); d1(t); n.mi += 1; }
        9 => { t.lit("s0"); d1(t); n.s += 1; }
        10 => { t.lit("y200"); d1(t); n.y += 1; }
        11 => { t.lit("March"); n.m += 1; }
        12 => { t.lit("d0"); d1(t); n.d += 1; }
        13 => { t.lit("pm"); n.half += 1; }
        14 => { t.lit("AM"); n.half += 1; }
        15 => { t.lit("BC"); n.era += 1; }
        16 => { t.lit("ad"); n.era += 1; }
        17 => { t.lit("Sat"); n.dow += 1; }
        18 => { t.lit("infinity"); n.special += 1; }
        19 => { t.lit("at"); }
        20 => { t.lit("-infinity"); n.special += 1; }
        _ => { t.lit("allballs"); n.special += 1; clock(n); }
    }
}
fn label(k: u32, t: &mut Txt, n: &mut Named) {
    t.lit(match k { 0 => "y", 1 => "m", 2 => "d", 3 => "h", 4 => "mm", 5 => "s", 6 => "j", _ => "t" });
    n.open = true;
}
fn judge(t: &Txt, n: Named) {
    let one = n.y == 1 && n.m == 1 && n.d == 1;
    let alone = n.y + n.m + n.d + n.h + n.mi + n.s + n.half + n.era + n.dow == 0 && !n.open;
    let once = n.h <= 1 && n.mi <= 1 && n.s <= 1 && n.half <= 1 && n.era <= 1 && n.dow <= 1 && !n.open;
    // a date, with a time or without; or infinity alone
    match choice(3) {
        0 => match Date::try_from_str(t.s(), MDY) {
            Ok(r) => {
                cover("date");
                let i = i32::from(r);
                if i == i32::MAX || i == i32::MIN {
                    check(n.special == 1 && alone, "infinity and more");
                } else {
                    check(one && once, "no date, or too much");
                }
            }
            Err(_) => cover("no date"),
        },
        1 => match Timestamp::try_from_str(t.s(), -1, MDY) {
            Ok(r) => {
                cover("stamp");
                let i = i64::from(r);
                if i == i64::MAX || i == i64::MIN {
                    check(n.special == 1 && alone, "infinity and more in a timestamp");
                } else if n.special == 1 && n.h == 1 && n.y + n.m + n.d == 0 {
                    // allballs alone: see DESIGN.md
                    check(once, "allballs and more");
                } else {
                    check(one && once, "no timestamp, or too much");
                }
            }
            Err(_) => cover("no stamp"),
        },
        _ => match Time::try_from_str(t.s(), -1, MDY) {
            Ok(_) => {
                cover("time");
                check(n.h == 1 && n.mi == 1 && once && n.y <= 1 && n.m <= 1 && n.d <= 1, "no time, or too much");
            }
            Err(_) => cover("no time"),
        },
    }
}
fn text(len: u32, pieces: u32) {
    let mut t = Txt::new();
    let mut n = Named::default();
    for i in 0..len {
        if i > 0 {
            t.lit(" ");
        }
        let k = match pieces { 0 => choice(22), _ => choice(18) };
        piece(k, &mut t, &mut n);
    }
    judge(&t, n);
}
harnesses! {
fn c34_one() { text(1, 0) }
fn c34_two() { text(2, 0) }
fn c34_three() { text(3, 1) }
fn c34t_three() { text(3, 0) }
fn c34t_four() { text(4, 1) }
fn c34_label() {
    // a label at the end
    let mut t = Txt::new();
    let mut n = Named::default();
    if choice(2) == 1 {
        piece(choice(22), &mut t, &mut n);
        t.lit(" ");
    }
    piece(choice(22), &mut t, &mut n);
    t.lit(match choice(2) { 0 => " ", _ => ", " });
    label(choice(8), &mut t, &mut n);
    if choice(2) == 1 {
        t.lit(" ");
    }
    judge(&t, n);
}
fn c34_two_labels() {
    // a label whose value is missing, before another label and its value
    let mut t = Txt::new();
    let mut n = Named::default();
    let first = choice(3);
    if first > 0 {
        piece(match choice(4) { 0 => 0, 1 => 3, 2 => 5, _ => 11 }, &mut t, &mut n);
        t.lit(" ");
    }
    label(choice(8), &mut t, &mut n);
    t.lit(" ");
    match choice(9) {
        0 => piece(4, &mut t, &mut n),
        1 => piece(7, &mut t, &mut n),
        2 => piece(8, &mut t, &mut n),
        3 => piece(9, &mut t, &mut n),
        4 => piece(10, &mut t, &mut n),
        5 => piece(12, &mut t, &mut n),
        6 => piece(3, &mut t, &mut n),
        7 => { t.lit("t040"); d1(&mut t); clock(&mut n); }
        _ => { t.lit("h04 mm0"); d1(&mut t); n.h += 1; n.mi += 1; }
    }
    if first > 1 {
        t.lit(" ");
        piece(match choice(3) { 0 => 5, 1 => 12, _ => 10 }, &mut t, &mut n);
    }
    n.open = true;
    judge(&t, n);
}
fn c34_numbers() {
    // one to three numbers: a date needs three parts, a time four digits
    let mut t = Txt::new();
    let o = match choice(3) { 0 => YMD, 1 => DMY, _ => MDY };
    let k = 1 + choice(3);
    let mut day = false;
    let mut clock = false;
    let mut ordinal = false;
    for i in 0..k {
        if i > 0 {
            t.lit(match choice(2) { 0 => " ", _ => "-" });
        }
        let w = 1 + choice(6) as usize;
        t.num(w, 0, 999_999);
        day = day | (w >= 6);
        clock = clock | (w == 4) | (w == 6);
        ordinal = ordinal | (w == 3 && i > 0);
    }
    if choice(2) == 0 {
        assume(!(k == 3 || day || (ordinal && k == 2)));
        cover("date");
        check(Date::try_from_str(t.s(), o).is_err(), "no date");
        check(Timestamp::try_from_str(t.s(), -1, o).is_err(), "no timestamp");
    } else {
        assume(!clock);
        cover("time");
        check(Time::try_from_str(t.s(), -1, o).is_err(), "no time");
    }
}
fn c34_joined() {
    // two to five parts joined into one date: three parts with at most one
    // month name, or a year and a day of the year, and nothing else
    let mut t = Txt::new();
    let o = match choice(3) { 0 => YMD, 1 => DMY, _ => MDY };
    let k = 2 + choice(4);
    let sep = match choice(3) { 0 => "-", 1 => "/", _ => "." };
    let mut names = 0;
    let mut first = 0;
    let mut last = 0;
    for i in 0..k {
        if i > 0 {
            t.lit(sep);
        }
        last = 0;
        match choice(5) {
            0 => { t.lit("Feb"); names += 1; }
            1 => { last = 1; d1(&mut t); }
            2 => { last = 2; t.lit("0"); d1(&mut t); }
            3 => { last = 3; t.lit("06"); d1(&mut t); }
            _ => { last = 4; t.lit("200"); d1(&mut t); }
        }
        if i == 0 {
            first = last;
        }
    }
    let may = (k == 3 && names <= 1) || (k == 2 && names == 0 && (first >= 3 || (first > 0 && o == YMD)) && last == 3);
    let d = Date::try_from_str(t.s(), o);
    if d.is_ok() { cover("date") } else { cover("no date") }
    check(may || d.is_err(), "no date, or too much");
    let d = Timestamp::try_from_str(t.s(), -1, o);
    if d.is_ok() { cover("stamp") } else { cover("no stamp") }
    check(may || d.is_err(), "no timestamp, or too much");
}
fn c34_julian_clock() {
    // the fraction of a Julian day is its time: a clock beside it is a second one
    let mut t = Txt::new();
    let clock = match choice(5) { 0 => "04:05", 1 => "04:05:06.5", 2 => "040506", 3 => "t0405", _ => "h4m5s6" };
    let first = choice(2) == 0;
    if first {
        t.lit(clock);
        t.lit(" ");
    }
    t.lit("J2451");
    t.num(3, 0, 999);
    t.lit(".");
    t.num(1 + choice(3) as usize, 0, 999);
    if !first {
        t.lit(" ");
        t.lit(clock);
    }
    cover("two times");
    check(Date::try_from_str(t.s(), YMD).is_err(), "a date with two times");
    check(Timestamp::try_from_str(t.s(), -1, YMD).is_err(), "a timestamp with two times");
    check(Time::try_from_str(t.s(), -1, YMD).is_err(), "a time with two times");
}
}
