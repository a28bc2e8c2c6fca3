//! Day-count fractions, business-day adjustment and holiday sets.
use crate::s;
use anyhow::Result;
use quantlib::time::calendar::Calendar;
use quantlib::time::calendar_trait::CalendarTrait;
use quantlib::time::calendars::nullcalendar::NullCalendar;
use quantlib::time::calendars::southkorea::{SouthKorea, SouthKoreaType};
use quantlib::time::calendars::unitedstates::{UnitedStates, UnitedStatesType};
use quantlib::time::conventions::{BusinessDayConvention as B, DayCountConvention as D};
use quantlib::time::jointcalendar::JointCalendar;
use time::{Date, Duration, Month, OffsetDateTime, Time, UtcOffset, Weekday};

pub fn close32(got: f32, want: f32) -> bool { got.to_bits() == want.to_bits() || (got - want).abs() <= 2e-6 * (want.abs() + 1.0) }
pub fn leap(y: i32) -> bool { (y % 4 == 0 && y % 100 != 0) || y % 400 == 0 }
pub fn len(y: i32, m: u8) -> u8 { match m { 2 => 28 + leap(y) as u8, 4 | 6 | 9 | 11 => 30, _ => 31 } }
fn month(m: u8) -> Month { Month::try_from(m).unwrap() }
/// days before the month in its year
fn before(y: i32, m: u8) -> i64 { (1..m).map(|k| len(y, k) as i64).sum() }
/// days from a fixed origin to 1 January of the year (proleptic Gregorian)
pub fn year_start(y: i32) -> i64 { let p = y as i64 - 1; 365 * p + p.div_euclid(4) - p.div_euclid(100) + p.div_euclid(400) }
pub struct Ymd { pub y: i32, pub m: u8, pub d: i64 }
impl Ymd {
    /// a date with chosen month and symbolic day
    pub fn any(y: i32) -> Ymd { let m = 1 + s::choose(12) as u8; Ymd { y, m, d: s::range(1, len(y, m) as i64) } }
    pub fn date(&self) -> Date { Date::from_ordinal_date(self.y, (before(self.y, self.m) + self.d) as u16).unwrap() }
    /// day number
    pub fn n(&self) -> i64 { year_start(self.y) + before(self.y, self.m) + self.d - 1 }
}
pub fn midnight(d: Date, o: UtcOffset) -> OffsetDateTime { OffsetDateTime::new_in_offset(d, Time::MIDNIGHT, o) }
fn conv(k: u64) -> D { match k { 0 => D::Actual365Fixed, 1 => D::Actual360, 2 => D::Actual364, 3 => D::Thirty360, 4 => D::ActActIsda, 5 => D::StreetConvention, _ => D::Dummy } }
pub fn calendar(k: u64) -> Calendar {
    match k {
        0 => Calendar::NullCalendar(NullCalendar::default()),
        1 => Calendar::SouthKorea(SouthKorea::new(SouthKoreaType::Krx)),
        2 => Calendar::SouthKorea(SouthKorea::new(SouthKoreaType::Settlement)),
        3 => Calendar::UnitedStates(UnitedStates::new(UnitedStatesType::Settlement)),
        4 => Calendar::UnitedStates(UnitedStates::new(UnitedStatesType::Nyse)),
        5 => Calendar::UnitedStates(UnitedStates::new(UnitedStatesType::GovernmentBond)),
        6 => Calendar::UnitedStates(UnitedStates::new(UnitedStatesType::Sofr)),
        _ => Calendar::UnitedStates(UnitedStates::new(UnitedStatesType::FederalReserve)),
    }
}
fn formula(k: u64, a: &Ymd, b: &Ymd) -> f32 {
    let thirty = |x: i64, y: i64| (360 * (b.y - a.y) as i64 + 30 * (b.m as i64 - a.m as i64) + y - x) as f32 / 360.0;
    match k {
        0 => (b.n() - a.n()) as f32 / 365.0,
        1 => (b.n() - a.n()) as f32 / 360.0,
        2 => (b.n() - a.n()) as f32 / 364.0,
        3 => thirty(a.d, b.d),
        4 => {
            let w = |y: i32| if leap(y) { 366.0f32 } else { 365.0 };
            if a.y == b.y { return (b.n() - a.n()) as f32 / w(a.y); }
            let mut f = (year_start(a.y + 1) - a.n()) as f32 / w(a.y);
            for _ in a.y + 1..b.y { f += 1.0; }
            f + (b.n() - year_start(b.y)) as f32 / w(b.y)
        }
        _ => { let x = if a.d == 31 { 30 } else { a.d }; let y = if a.d == 31 && b.d == 31 { 30 } else { b.d }; thirty(x, y) }
    }
}
/// params: [convention, first year, years apart, calendar, joint]
#[no_mangle]
pub extern "C" fn dc_formula() {
    let (k, y, n) = (s::param(0), s::param(1) as i32, s::param(2) as i32);
    let (a, b) = (Ymd::any(y), Ymd::any(y + n));
    let o = UtcOffset::from_hms(s::param(3) as i8 % 3 * 4, 0, 0).unwrap();
    let (t1, t2) = (midnight(a.date(), o), midnight(b.date(), o));
    let c = calendar(s::param(3));
    let f = |x: &OffsetDateTime, y: &OffsetDateTime| if s::param(4) != 0 { JointCalendar::new(vec![c.clone(), calendar(3)]).unwrap().year_fraction(x, y, &conv(k)) } else { c.year_fraction(x, y, &conv(k)) };
    let r = f(&t1, &t2);
    if a.n() > b.n() { s::check(r.is_err(), "reversed dates are refused"); return; }
    let Ok(r) = r else { s::check(false, "dates in order are accepted"); return };
    s::check(close32(r, formula(k, &a, &b)), "the fraction equals the formula of the convention");
    if a.n() == b.n() { s::check(r == 0.0, "the fraction of an empty period is zero"); }
    s::obs(r.to_bits() as u64);
    s::cover("end");
}
/// the end date moves forward by 1 to 40 days; params: [convention, year]
#[no_mangle]
pub extern "C" fn dc_monotone() {
    let (k, y) = (s::param(0), s::param(1) as i32);
    let a = Ymd::any(y);
    let o = UtcOffset::UTC;
    let t1 = midnight(a.date(), o);
    // b and the day after it
    let b = Ymd::any(y + s::choose(2) as i32);
    s::assume(a.n() <= b.n());
    let last = b.d == len(b.y, b.m) as i64;
    let e = if !last { Ymd { y: b.y, m: b.m, d: b.d + 1 } } else if b.m < 12 { Ymd { y: b.y, m: b.m + 1, d: 1 } } else { Ymd { y: b.y + 1, m: 1, d: 1 } };
    let c = NullCalendar::default();
    let x = c.year_fraction(&t1, &midnight(b.date(), o), &conv(k)).unwrap();
    let z = c.year_fraction(&t1, &midnight(e.date(), o), &conv(k)).unwrap();
    s::check(x <= z, "a later end date does not shorten the fraction");
    s::check(c.year_fraction(&t1, &t1, &D::Dummy).is_err(), "the placeholder convention is refused");
    s::cover("end");
}
/// times of day, seconds apart; params: [year, years apart, hour, month, day, whole days only]
#[no_mangle]
pub extern "C" fn dc_time() {
    let (y, n) = (s::param(0) as i32, s::param(1) as i32);
    let (a, b) = (Ymd { y, m: s::param(3) as u8, d: s::param(4) as i64 }, if s::param(5) != 0 { Ymd { y: y + n, m: 3, d: 1 } } else { Ymd::any(y + n) });
    let h = s::param(2) as i64;
    let (h1, h2) = (h, s::range(0, h));
    let at = |x: &Ymd, h: i64| OffsetDateTime::new_in_offset(x.date(), Time::from_hms(h as u8, 0, 0).unwrap(), UtcOffset::UTC);
    let (t1, t2) = (at(&a, h1), at(&b, h2));
    let c = NullCalendar::default();
    let (x, z) = (a.n() * 24 + h1, b.n() * 24 + h2);
    s::assume(x <= z);
    let w = |y: i32| if leap(y) { 366.0f32 } else { 365.0 };
    let d = |h: i64| ((h * 3600) as f64) as f32 / (24.0 * 60.0 * 60.0);
    // split: the day of December whose midnight ends the old year
    let want = |split: i64| if n == 0 { d(z - x) / w(y) } else {
        let mut f = d((year_start(y + 1) + split) * 24 - x) / w(y);
        for _ in 1..n { f += 1.0; }
        f + d(z - (year_start(y + n) + split) * 24) / w(y + n)
    };
    let r = c.get_time_difference(&t1, &t2);
    s::check(close32(r, want(-1)), "the time difference is the sum of the parts of each year");
    if s::param(5) != 0 { s::check(close32(r, want(0)), "31 December counts with the length of its own year"); }
    s::check(c.year_fraction(&t1, &t2, &D::Actual365Fixed).unwrap() == ((z - x) / 24) as f32 / 365.0, "day counts use whole days");
    s::cover("end");
}
/// every year: leap rule and length of months
#[no_mangle]
pub extern "C" fn dc_months() {
    let y = s::range(1, 9998) as i32;
    let c = NullCalendar::default();
    s::check(c.is_leap_year(y) == ((y % 4 == 0) && (y % 100 != 0 || y % 400 == 0)), "leap years");
    let m = 1 + s::choose(12) as u8;
    let y = 1999 + s::choose(6) as i32;
    s::check(c.last_day_of_month(y, month(m)) == Date::from_calendar_date(y, month(m), len(y, m)).unwrap(), "last day of the month");
    s::cover("end");
}

// ---- adjustment ----
/// A calendar with an arbitrary holiday set: day `base + i` is a market holiday when bit i is set.
struct Any { base: i32, bits: u64, name: String }
impl Any { fn hol(&self, d: Date) -> bool { let i = d.to_julian_day() - self.base; i >= 0 && i < 64 && self.bits >> i & 1 != 0 } }
impl CalendarTrait for Any {
    fn is_weekend(&self, _: &OffsetDateTime) -> bool { false }
    fn display_holidays(&self, _: &OffsetDateTime, _: &OffsetDateTime, _: bool) {}
    fn is_removed_holiday(&self, _: &OffsetDateTime) -> bool { false }
    fn is_added_holiday(&self, _: &OffsetDateTime) -> bool { false }
    fn is_base_holiday(&self, d: &OffsetDateTime) -> bool { self.hol(d.date()) }
    fn calendar_name(&self) -> &String { &self.name }
    fn add_holidays(&mut self, _: &Date) -> Result<()> { Ok(()) }
    fn remove_holidays(&mut self, _: &Date) -> Result<()> { Ok(()) }
    fn is_holiday(&self, d: &OffsetDateTime) -> bool { self._is_holiday(d) }
}
pub fn bdc(k: u64) -> B { match k { 0 => B::Unadjusted, 1 => B::Following, 2 => B::Preceding, 3 => B::ModifiedFollowing, 4 => B::ModifiedPreceding, _ => B::Dummy } }
/// where a convention sends day x: the first business day in its direction, turned back when that leaves the month
pub fn target(k: u64, x: i32, business: &dyn Fn(i32) -> bool, same_month: &dyn Fn(i32) -> bool) -> i32 {
    let go = |step: i32| { let mut z = x; while !business(z) { z += step; } z };
    match k {
        0 => x,
        1 => go(1),
        2 => go(-1),
        3 => { let z = go(1); if same_month(z) { z } else { go(-1) } }
        _ => { let z = go(-1); if same_month(z) { z } else { go(1) } }
    }
}
/// params: [convention, year, month, day of the window's middle, half width]
#[no_mangle]
pub extern "C" fn adj_any() {
    let (k, y, m, d, w) = (s::param(0), s::param(1) as i32, s::param(2) as u8, s::param(3) as u8, s::param(4) as i32);
    let mid = Date::from_calendar_date(y, month(m), d).unwrap();
    let off = s::choose(5) as i32 - 2;
    let date = mid + Duration::days(off as i64);
    let c = Any { base: mid.to_julian_day() - w, bits: s::u64() & ((1u64 << (2 * w + 1)) - 1), name: String::new() };
    let o = UtcOffset::from_hms([0, 9, -5, -12][s::choose(4) as usize], 0, 0).unwrap();
    let t = OffsetDateTime::new_in_offset(date, Time::from_hms(s::range(0, 23) as u8, 59, 1).unwrap(), o);
    let r = c.adjust(&t, &bdc(k)).unwrap();
    let z = target(k, date.to_julian_day(), &|x| !c.hol(Date::from_julian_day(x).unwrap()), &|x| Date::from_julian_day(x).unwrap().month() == date.month());
    s::check(r.date().to_julian_day() == z, "the adjusted date");
    s::check(r.time() == t.time() && r.offset() == t.offset(), "time of day and offset are kept");
    s::check(c.adjust(&t, &B::Dummy).is_err(), "the placeholder convention is refused");
    s::obs(r.date().to_julian_day() as u64);
    s::cover("end");
}
/// adjustment under the built-in calendars with two more holidays; params: [convention, calendar, year]
#[no_mangle]
pub extern "C" fn adj_market() {
    let (k, mut c, y) = (s::param(0), calendar(s::param(1)), s::param(2) as i32);
    let o = UtcOffset::from_hms(match s::param(1) { 0 => 0, 1 | 2 => 9, _ => -5 }, 0, 0).unwrap();
    let m = 1 + s::choose(12) as u8;
    let n = before(y, m) + 1 + s::choose(len(y, m) as u64) as i64;
    let day = |n: i64| Date::from_ordinal_date(y, n as u16).unwrap();
    for _ in 0..2 { c.add_holidays(&day(before(y, m) + s::range(1, len(y, m) as i64))).unwrap(); }
    let t = midnight(day(n), o);
    let r = c.adjust(&t, &bdc(k)).unwrap();
    let business = |x: i32| !c.is_holiday(&midnight(Date::from_julian_day(x).unwrap(), o));
    let z = target(k, t.to_julian_day(), &business, &|x| Date::from_julian_day(x).unwrap().month() == t.month());
    s::check(r.to_julian_day() == z, "the adjusted date");
    s::cover("end");
}

// ---- holiday sets ----
/// params: [calendar, year, added, removed, offset hours + 12]
#[no_mangle]
pub extern "C" fn hol_sets() {
    let (k, y, na, nr, off) = (s::param(0), s::param(1) as i32, s::param(2), s::param(3), s::param(4) as i8 - 12);
    let mut c = calendar(k);
    let own: i64 = match k { 0 => off as i64, 1 | 2 => 9, _ => -5 };
    let m = 1 + s::choose(12) as u8;
    let day = |lo: i64| before(y, m) + s::range(1, len(y, m) as i64 - lo);
    let (mut added, mut removed) = (vec![], vec![]);
    let date = |n: i64| Date::from_ordinal_date(y, n as u16).unwrap();
    for _ in 0..na { let n = day(0); c.add_holidays(&date(n)).unwrap(); added.push(n); }
    for _ in 0..nr { let n = day(0); c.remove_holidays(&date(n)).unwrap(); removed.push(n); }
    let (n, h) = (day(0), s::range(0, 23));
    let t = OffsetDateTime::new_in_offset(date(n), Time::from_hms(h as u8, 30, 0).unwrap(), UtcOffset::from_hms(off, 0, 0).unwrap());
    // the date in the calendar's own zone
    let hours = h - off as i64 + own;
    let local = if hours < 0 { n - 1 } else if hours >= 24 { n + 1 } else { n };
    s::assume(local >= 1 && local <= 365);
    // 1 January of year 1 was a Monday
    let weekday = (year_start(y) + local - 1) % 7;
    let weekend = weekday >= 5;
    let base = c.is_base_holiday(&midnight(date(local), UtcOffset::from_hms(own as i8, 0, 0).unwrap()));
    let has = |v: &Vec<i64>| k != 0 && v.iter().any(|x| *x == local);
    let want = weekend || (!has(&removed) && (base || has(&added)));
    s::check(c.is_holiday(&t) == want, "weekend, then removed, then market rules and added days");
    s::check(c.is_business_day(&t) != want, "a business day is a day that is no holiday");
    s::check(c.is_weekend(&t) == weekend, "weekends are judged in the calendar's zone");
    s::cover("end");
}
/// params: [calendar, calendar, year, offset hours + 12]
#[no_mangle]
pub extern "C" fn hol_joint() {
    let (k1, k2, y, off) = (s::param(0), s::param(1), s::param(2) as i32, s::param(3) as i8 - 12);
    let (mut a, mut b) = (calendar(k1), calendar(k2));
    let d = Ymd::any(y);
    let x = Ymd { y, m: d.m, d: s::range(1, len(y, d.m) as i64) };
    a.remove_holidays(&x.date()).unwrap();
    b.add_holidays(&x.date()).unwrap();
    let t = OffsetDateTime::new_in_offset(d.date(), Time::from_hms(s::range(0, 23) as u8, 0, 0).unwrap(), UtcOffset::from_hms(off, 0, 0).unwrap());
    let members = if s::param(4) != 0 { vec![a.clone(), b.clone(), calendar(0)] } else { vec![a.clone(), b.clone()] };
    let mut j = JointCalendar::new(members).unwrap();
    let want = a.is_holiday(&t) || b.is_holiday(&t) || (s::param(4) != 0 && calendar(0).is_holiday(&t));
    s::check(CalendarTrait::is_holiday(&j, &t) == want, "a joint holiday is a holiday of some member");
    s::check(j.is_business_day(&t) != want && CalendarTrait::is_business_day(&j, &t) != want, "a joint business day is one of every member");
    s::check(j.add_holidays(&x.date()).is_err() && j.remove_holidays(&x.date()).is_err(), "a joint calendar has no days of its own");
    s::check(JointCalendar::new(vec![]).is_err(), "a joint calendar needs a member");
    s::cover("end");
}
