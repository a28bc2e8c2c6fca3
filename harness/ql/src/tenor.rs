//! Tenor arithmetic and coupon schedules.
use crate::daycount::{len, year_start, Ymd};
use crate::s;
use quantlib::utils::string_arithmetic::{add_period, add_period_date, sub_period, sub_period_date};
use time::{Date, Month, OffsetDateTime, Time, UtcOffset};

/// a date (m counts from 0) and the second of the day
#[derive(Clone, Copy)]
pub struct At { pub y: i64, pub m: i64, pub d: i64, pub sec: i64 }
/// a whole-day or intraday step is counted from the day number; the rest is calendar arithmetic
pub enum Where { Civil(At), Line(i64) }
fn line(a: &At) -> i64 { (year_start(a.y as i32) + (1..=a.m).map(|k| len(a.y as i32, k as u8) as i64).sum::<i64>() + a.d - 1) * 86400 + a.sec }
/// the date k months later (or earlier): same day of the month, or its last day
pub fn months(a: &At, k: i64) -> At {
    let z = a.y * 12 + a.m + k;
    let (y, m) = (z.div_euclid(12), z.rem_euclid(12));
    let l = len(y as i32, m as u8 + 1) as i64;
    At { y, m, d: if a.d > l { l } else { a.d }, sec: a.sec }
}
pub const JULIAN: i64 = 1721426; // 1 January of year 1
const UNITS: [&str; 7] = ["Y", "M", "W", "D", "h", "min", "sec"];
const SECONDS: [i64; 7] = [0, 0, 7 * 86400, 86400, 3600, 60, 1];
fn seconds(t: &OffsetDateTime) -> i64 { (t.date().to_julian_day() as i64 - JULIAN) * 86400 + t.hour() as i64 * 3600 + t.minute() as i64 * 60 + t.second() as i64 }
fn offset(k: u8) -> UtcOffset { UtcOffset::from_hms([0, 9, -5][k as usize % 3], 0, 0).unwrap() }
/// operation 0 add, 1 subtract, 2 and 3 the same on dates
fn run(op: u64, at: &OffsetDateTime, t: &str) -> OffsetDateTime {
    let on = |d: Date| OffsetDateTime::new_in_offset(d, at.time(), at.offset());
    match op { 0 => add_period(at, t), 1 => sub_period(at, t), 2 => on(add_period_date(&at.date(), t)), _ => on(sub_period_date(&at.date(), t)) }
}
fn check_at(r: &OffsetDateTime, w: &At) {
    s::check(r.year() as i64 == w.y && r.month() as i64 == w.m + 1, "month and year steps reach the right month");
    s::check(r.day() as i64 == w.d, "month and year steps keep the day or take the last one");
    s::check(r.hour() as i64 * 3600 + r.minute() as i64 * 60 + r.second() as i64 == w.sec, "the time of day is kept");
}
/// params: [operation, unit, first year, smallest count, number of counts, step]
#[no_mangle]
pub extern "C" fn tenor_one() {
    let (op, u, y) = (s::param(0), s::param(1) as usize, s::param(2) as i32);
    let v = s::param(3) as i64 + (s::choose(s::param(4)) * s::param(5)) as i64;
    let sign = if op % 2 == 0 { 1 } else { -1 };
    let a = Ymd::any(y);
    let off = offset(a.m);
    let at = OffsetDateTime::new_in_offset(a.date(), Time::from_hms(7, 30, 1).unwrap(), off);
    let from = At { y: y as i64, m: a.m as i64 - 1, d: a.d, sec: 27001 };
    let r = run(op, &at, &format!("{}{}", v, UNITS[u]));
    s::check(r.offset() == off, "the offset is kept");
    if u < 2 {
        let w = months(&from, sign * v * if u == 0 { 12 } else { 1 });
        // sub_period_date goes wrong when the count exceeds the month by more than a year
        if op == 3 && u == 1 && v > 12 + from.m { s::check(r.year() as i64 == w.y, "sub_period_date by more months than a year and the month of the date"); }
        check_at(&r, &w);
    } else { s::check(seconds(&r) == line(&from) + sign * v * SECONDS[u], "week, day and shorter steps move by exactly that much"); }
    s::obs(r.date().to_julian_day() as u64);
    s::cover("end");
}
/// several units one after the other; params: [operation, list, first year, any hour]
#[no_mangle]
pub extern "C" fn tenor_many() {
    let (op, y) = (s::param(0), s::param(2) as i32);
    let list: &[(i64, usize)] = [&[(1, 0), (1, 1), (1, 3), (1, 4), (1, 5), (1, 6)][..], &[(20, 4), (1, 1)], &[(1, 1), (1, 1), (3, 3)], &[(2, 2), (1, 0)], &[(40, 5), (2, 0), (7, 6)], &[(1, 0), (18, 1)]][s::param(1) as usize];
    let sign = if op % 2 == 0 { 1 } else { -1 };
    let a = Ymd { y, m: 1 + s::choose(12) as u8, d: 26 + s::choose(3) as i64 };
    let hour = if s::param(3) != 0 { s::range(0, 23) } else { [0, 9, 23][s::choose(3) as usize] };
    let off = UtcOffset::from_hms(9, 0, 0).unwrap();
    let at = OffsetDateTime::new_in_offset(a.date(), Time::from_hms(hour as u8, 10, 5).unwrap(), off);
    let mut x = At { y: y as i64, m: a.m as i64 - 1, d: a.d, sec: hour * 3600 + 605 };
    for &(v, u) in list {
        if u < 2 { x = months(&x, sign * v * if u == 0 { 12 } else { 1 }); continue; }
        let z = line(&x) + sign * v * SECONDS[u];
        let (mut n, sec) = (z.div_euclid(86400), z.rem_euclid(86400));
        // back to a date: all days are concrete up to the hour
        let base = line(&At { sec: 0, ..x }) / 86400;
        let mut moved = None;
        for k in -40..=40 { if n == base + k { moved = Some(k); break; } }
        n = base + moved.unwrap();
        let (mut yy, mut mm) = (x.y - 1, 0);
        while line(&At { y: yy, m: mm, d: len(yy as i32, mm as u8 + 1) as i64, sec: 0 }) / 86400 < n { mm += 1; if mm == 12 { mm = 0; yy += 1; } }
        x = At { y: yy, m: mm, d: n - line(&At { y: yy, m: mm, d: 1, sec: 0 }) / 86400 + 1, sec };
    }
    let t: String = list.iter().map(|&(v, u)| format!("{}{}", v, UNITS[u])).collect();
    let r = run(op, &at, &t);
    check_at(&r, &x);
    s::check(r.offset() == off, "the offset is kept");
    s::cover("end");
}
