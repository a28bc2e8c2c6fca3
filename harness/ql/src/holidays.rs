//! Market holiday rules, stated independently: each year's holidays are computed as a list of dates.
use crate::daycount::{calendar, len, midnight, year_start, Ymd};
use crate::lunar::LUNAR;
use crate::s;
use quantlib::time::calendar_trait::CalendarTrait;
use time::UtcOffset;

/// 0 is Monday
fn weekday(x: &Ymd) -> i64 { x.n() % 7 }
fn ymd(y: i32, m: u8, d: i64) -> i64 { Ymd { y, m, d }.n() }
/// the k-th given weekday of a month (k = 0: the last)
fn nth(y: i32, m: u8, k: i64, w: i64) -> i64 {
    if k > 0 { let f = ymd(y, m, 1); f + (w - f % 7).rem_euclid(7) + 7 * (k - 1) }
    else { let l = ymd(y, m, len(y, m) as i64); l - (l % 7 - w).rem_euclid(7) }
}
/// a fixed date, moved off Sunday to Monday and (if asked) off Saturday to Friday
fn observed(y: i32, m: u8, d: i64, friday: bool) -> i64 {
    let n = ymd(y, m, d);
    match n % 7 { 6 => n + 1, 5 if friday => n - 1, _ => n }
}
/// western Easter Sunday (Meeus/Jones/Butcher)
fn easter(y: i32) -> i64 {
    let (a, b, c) = (y % 19, y / 100, y % 100);
    let (d, e) = (b / 4, b % 4);
    let g = (b - (b + 8) / 25 + 1) / 3;
    let h = (19 * a + b - d - g + 15) % 30;
    let l = (32 + 2 * e + 2 * (c / 4) - h - c % 4) % 7;
    let m = (a + 11 * h + 22 * l) / 451;
    let k = h + l - 7 * m + 114;
    ymd(y, (k / 31) as u8, (k % 31 + 1) as i64)
}
const SETTLEMENT: u64 = 3;
const NYSE: u64 = 4;
const BOND: u64 = 5;
const SOFR: u64 = 6;
const FED: u64 = 7;
fn united_states(k: u64, y: i32) -> Vec<i64> {
    let friday = k != FED;
    let mut v = vec![observed(y, 1, 1, false), observed(y, 7, 4, friday), observed(y, 12, 25, friday), nth(y, 9, 1, 0), nth(y, 11, 4, 3)];
    if k == SETTLEMENT && ymd(y + 1, 1, 1) % 7 == 5 { v.push(ymd(y, 12, 31)); }
    if y >= if k == NYSE { 1998 } else { 1983 } { v.push(nth(y, 1, 3, 0)); }
    if y >= 1971 { v.push(nth(y, 2, 3, 0)); v.push(nth(y, 5, 0, 0)); } else { v.push(observed(y, 2, 22, true)); v.push(observed(y, 5, 30, true)); }
    if y >= 2022 { v.push(observed(y, 6, 19, friday)); }
    if k != NYSE {
        if y >= 1971 { v.push(nth(y, 10, 2, 0)); }
        if (1971..1978).contains(&y) { v.push(nth(y, 10, 4, 0)); } else { v.push(observed(y, 11, 11, k == SETTLEMENT)); }
    }
    let good = easter(y) - 2;
    if k == NYSE || k == SOFR || (k == BOND && ![2015, 2021, 2023].contains(&y)) { v.push(good); }
    if k == NYSE && y <= 1980 && y % 4 == 0 { v.push(nth(y, 11, 1, 0) + 1); }
    let bond: &[(i32, u8, i64)] = &[(2018, 12, 5), (2012, 10, 30), (2004, 6, 11)];
    let nyse: &[(i32, u8, i64)] = &[(2018, 12, 5), (2012, 10, 29), (2012, 10, 30), (2007, 1, 2), (2004, 6, 11), (2001, 9, 11), (2001, 9, 12), (2001, 9, 13), (2001, 9, 14), (1994, 4, 27),
        (1985, 9, 27), (1977, 7, 14), (1973, 1, 25), (1972, 12, 28), (1969, 7, 21), (1969, 3, 31), (1969, 2, 10)];
    for &(cy, m, d) in match k { NYSE => nyse, BOND | SOFR => bond, _ => &[] } { if cy == y { v.push(ymd(y, m, d)); } }
    v
}
fn korea(k: u64, y: i32) -> Vec<i64> {
    let mut v: Vec<i64> = [(1, 1), (3, 1), (5, 1), (5, 5), (6, 6), (8, 15), (10, 3), (10, 9), (12, 25)].iter().map(|&(m, d)| ymd(y, m, d)).collect();
    let l = LUNAR[(y - 1951) as usize];
    let day = |n: u16| year_start(y) + n as i64 - 1;
    v.extend([day(l[0]) - 1, day(l[0]), day(l[0]) + 1, day(l[1]), day(l[2]) - 1, day(l[2]), day(l[2]) + 1]);
    for (cy, m, d) in [(2023, 1, 24), (2023, 5, 29), (2023, 10, 2), (2024, 2, 12), (2024, 5, 6)] { if cy == y { v.push(ymd(y, m, d)); } }
    if k == 1 { let n = ymd(y, 12, 31); v.push(n - (n % 7 - 4).max(0)); }
    v
}
/// params: [calendar, first year, number of years]
#[no_mangle]
pub extern "C" fn hol_rules() {
    let k = s::param(0);
    let y = s::param(1) as i32 + s::choose(s::param(2)) as i32;
    let c = calendar(k);
    let own = UtcOffset::from_hms(if k < 3 { 9 } else { -5 }, 0, 0).unwrap();
    let d = Ymd::any(y);
    let list = if k < 3 { korea(k, y) } else { united_states(k, y) };
    let mut want = weekday(&d) >= 5;
    for x in &list { want = want | (*x == d.n()); }
    s::check(c.is_holiday(&midnight(d.date(), own)) == want, "exactly the days given by the market's rules are holidays");
    s::cover("end");
}
