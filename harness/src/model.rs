//! Reference definitions, written from the calendar rules and the documented
//! behaviour, independent of the library's algorithms.

use crate::vf::*;

pub const USECS_PER_DAY: i64 = 86_400_000_000;

/// Proleptic Gregorian leap year, astronomical numbering (0 = 1 BC).
pub fn leap(y: i64) -> bool {
    // no short circuits: keeps this one condition for the solver
    (fmod(y, 4) == 0) & ((fmod(y, 100) != 0) | (fmod(y, 400) == 0))
}
pub fn month_len(y: i64, m: i64) -> i64 {
    match m {
        1 | 3 | 5 | 7 | 8 | 10 | 12 => 31,
        4 | 6 | 9 | 11 => 30,
        2 => 28 + leap(y) as i64,
        _ => 0,
    }
}
/// Days before year `y`, counted from astronomical year 0.
pub fn days_before_year(y: i64) -> i64 {
    let p = y - 1;
    365 * y + fdiv(p, 4) - fdiv(p, 100) + fdiv(p, 400) + 1
}
pub fn days_before_month(y: i64, m: i64) -> i64 {
    const CUM: [i64; 12] = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334];
    CUM[(m - 1) as usize] + if m > 2 { leap(y) as i64 } else { 0 }
}
/// Days since 2000-01-01.
pub fn day_number(y: i64, m: i64, d: i64) -> i64 {
    days_before_year(y) + days_before_month(y, m) + d - 1 - days_before_year(2000)
}
pub const MIN_DATE: i64 = -2451545; // 4714-11-24 BC
pub const END_DATE: i64 = 2145031949; // 5874898-01-01
pub const TS_END_DATE: i64 = 106751983; // 294277-01-01
pub const MIN_TS: i64 = MIN_DATE * USECS_PER_DAY;
pub const END_TS: i64 = TS_END_DATE * USECS_PER_DAY;

/// The calendar day `months` months after (y, m, d), clamped to the month.
pub fn add_months(y: i64, m: i64, d: i64, months: i64) -> (i64, i64, i64) {
    let t = m - 1 + months;
    let (y, m) = (y + fdiv(t, 12), fmod(t, 12) + 1);
    let l = month_len(y, m);
    (y, m, if d > l { l } else { d })
}
/// 0 = Monday .. 6 = Sunday.
pub fn weekday(n: i64) -> i64 {
    fmod(n + 5, 7)
}
