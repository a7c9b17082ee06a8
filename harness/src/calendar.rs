use crate::gen::*;
use crate::model::*;
use crate::vf::*;
use pgdatetime::*;

harnesses! {
fn c01_ymd() {
    let m = choice(12) as i32 + 1;
    let y = any_i32();
    let d = any_i32();
    let r = Date::try_from_ymd(y, m, d);
    let ay = if y < 0 { y as i64 + 1 } else { y as i64 };
    let ok = y != 0 && ay > -4800 && ay < 5_900_000 && d >= 1 && d as i64 <= month_len(ay, m as i64);
    if ok {
        let n = day_number(ay, m as i64, d as i64);
        if n >= MIN_DATE && n < END_DATE {
            cover("valid");
            obs("n", n);
            match r {
                Ok(v) => check(i32::from(v) as i64 == n, "value"),
                Err(_) => check(false, "rejected valid"),
            }
            return;
        }
    }
    cover("invalid");
    check(r.is_err(), "accepted invalid");
}
fn c01_month() {
    // months outside 1..=12 never form a date
    let y = any_i32();
    let m = any_i32();
    let d = any_i32();
    assume(m < 1 || m > 12);
    cover("invalid");
    check(Date::try_from_ymd(y, m, d).is_err(), "accepted invalid month");
}
fn c03_add() {
    let n = int(MIN_DATE, END_DATE - 1);
    let k = any_i32();
    obs("n", n);
    let r = n + k as i64;
    let ok = r >= MIN_DATE && r < END_DATE;
    match date(n).add_days(k) {
        Ok(v) => {
            cover("ok");
            check(ok, "out of range accepted");
            check(datev(v) == r, "value");
        }
        Err(_) => {
            cover("err");
            check(!ok, "in range rejected");
        }
    }
}
fn c03_sub() {
    let n = int(MIN_DATE, END_DATE - 1);
    let k = any_i32();
    let r = n - k as i64;
    let ok = r >= MIN_DATE && r < END_DATE;
    match date(n).sub_days(k) {
        Ok(v) => {
            cover("ok");
            check(ok, "out of range accepted");
            check(datev(v) == r, "value");
        }
        Err(_) => {
            cover("err");
            check(!ok, "in range rejected");
        }
    }
}
fn c03_diff() {
    let a = int(MIN_DATE, END_DATE - 1);
    let b = int(MIN_DATE, END_DATE - 1);
    let r = date(a).sub_date(date(b));
    cover("ok");
    check(r == Ok((a - b) as i32) && fits_i32(a - b), "difference");
    if let Ok(k) = r {
        check(date(b).add_days(k) == Ok(date(a)), "inverse");
        check(date(a).sub_days(k) == Ok(date(b)), "inverse sub");
    }
}
fn c03_inf() {
    let inf = if choice(2) == 0 { i32::MIN } else { i32::MAX };
    let x = Date::from(inf);
    let k = any_i32();
    cover("inf");
    check(x.is_infinite() && !x.is_finite(), "infinite");
    check(x.add_days(k) == Ok(x), "add");
    check(x.sub_days(k) == Ok(x), "sub");
    let n = int(MIN_DATE, END_DATE - 1);
    check(date(n).is_finite() && !date(n).is_infinite(), "finite");
    check(x < date(n) || inf == i32::MAX, "order low");
    check(x > date(n) || inf == i32::MIN, "order high");
    check(x.sub_date(date(n)).is_err(), "inf - finite");
    check(date(n).sub_date(x).is_err(), "finite - inf");
    check(x.sub_date(x).is_err(), "inf - inf");
}
}
