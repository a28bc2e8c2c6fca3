//! Coupon schedules.
use crate::daycount::{bdc, calendar, len, target, Ymd};
use crate::s;
use crate::tenor::{months, At, JULIAN};
use quantlib::instruments::schedule::build_schedule;
use quantlib::time::calendar_trait::CalendarTrait;
use quantlib::time::conventions::{BusinessDayConvention as B, PaymentFrequency as F};
use quantlib::time::jointcalendar::JointCalendar;
use time::{Date, Duration, OffsetDateTime, Time, UtcOffset};

fn freq(k: u64) -> (F, i64, i64) {
    match k {
        0 => (F::Quarterly, 3, 0), 1 => (F::SemiAnnually, 6, 0), 2 => (F::Annually, 12, 0), 3 => (F::Monthly, 1, 0), 4 => (F::TriAnnually, 4, 0),
        5 => (F::SemiQuarterly, 2, 0), 6 => (F::Weekly, 0, 7), 7 => (F::BiWeekly, 0, 14), 8 => (F::Daily, 0, 1), _ => (F::SemiMonthly, 0, 14),
    }
}
fn at(j: i64) -> Date { Date::from_julian_day(j as i32).unwrap() }
/// params: [forward, frequency, convention, year, month, months to maturity, days to maturity, calendar, extra holidays]
#[no_mangle]
pub extern "C" fn sched() {
    let (fwd, (f, fm, fd), k) = (s::param(0) != 0, freq(s::param(1)), s::param(2));
    let (y, m) = (s::param(3) as i32, s::param(4) as u8);
    let pick = s::choose(6) as usize;
    let day = [1, 15, 28, 29, 30, 31][pick].min(len(y, m) as i64);
    let a = At { y: y as i64, m: m as i64 - 1, d: day, sec: 0 };
    let julian = |a: &At| Ymd { y: a.y as i32, m: a.m as u8 + 1, d: a.d }.n() + JULIAN;
    let (start, end) = (julian(&a), julian(&months(&a, s::param(5) as i64)) + s::param(6) as i64);
    let (fix, pay) = [(0, 0), (1, 2), (2, 0), (5, 1)][(pick + m as usize + y as usize) % 4];
    let mut c = calendar(s::param(7));
    let own = UtcOffset::from_hms(match s::param(7) { 0 => 0, 1 | 2 => 9, _ => -5 }, 0, 0).unwrap();
    let ty = at(end).year();
    for _ in 0..s::param(8) { c.add_holidays(&Date::from_ordinal_date(ty, s::range(1, 365) as u16).unwrap()).unwrap(); }
    let j = JointCalendar::new(vec![c.clone(), calendar(0)]).unwrap();
    let when = |x: i64| OffsetDateTime::new_in_offset(at(x), Time::from_hms(16, 30, 0).unwrap(), own);
    let r = build_schedule(fwd, &when(start), &when(end), &j, &bdc(k), &f, fix, pay);

    // raw dates: whole multiples of the frequency from the anchor
    let step = |anchor: i64, n: i64| {
        let d = at(anchor);
        let b = At { y: d.year() as i64, m: d.month() as i64 - 1, d: d.day() as i64, sec: 0 };
        if fm > 0 { julian(&months(&b, n * fm)) } else { anchor + n * fd }
    };
    let mut raw = vec![];
    if fwd { let mut n = 0; loop { let x = step(start, n); raw.push(x); if x >= end { break; } n += 1; } }
    else { let mut n = 0; loop { let x = step(end, -n); raw.insert(0, x); if x <= start { break; } n += 1; } }
    let adj = |k: u64, x: i64| target(k, x as i32, &|z| !c.is_holiday(&when(z as i64)), &|z| at(z as i64).month() == at(x).month() ) as i64;
    let n = raw.len() - 1;
    let mut cut: Vec<i64> = raw.iter().map(|x| adj(k, *x)).collect();
    cut[0] = start;
    cut[n] = end;
    let ok = (0..n).all(|i| cut[i] < cut[i + 1]);
    s::cover("end");
    let Ok(r) = r else { s::check(!ok, "a schedule with increasing periods is built"); return };
    s::check(ok, "periods that do not increase are refused");
    s::check(r.len() == n, "the number of periods");
    for i in 0..n {
        let p = &r[i];
        s::check(*p.get_calc_start_date() == when(cut[i]), "a period starts where the one before it ends, the first on the effective date");
        s::check(*p.get_calc_end_date() == when(cut[i + 1]), "a period ends on its adjusted tenor step, the last at maturity");
        s::check(*p.get_fixing_date() == when(adj(2, cut[i] - fix)), "the fixing date lies the given days before the start, moved back to a business day");
        let w = if i + 1 == n { end } else { adj(k, cut[i + 1] + pay) };
        s::check(*p.get_payment_date() == when(w), "the payment date lies the given days after the end, the last at maturity");
        s::check(p.get_amount().is_none(), "no amount is fixed");
    }
    s::obs(n as u64);
}
/// negative gaps are refused; params: [0]
#[no_mangle]
pub extern "C" fn sched_refuse() {
    let j = JointCalendar::new(vec![calendar(0)]).unwrap();
    let (f, p) = (s::range(-3, 0), s::range(-3, 0));
    let d = |n: i64| OffsetDateTime::new_utc(at(2460000 + n), Time::MIDNIGHT);
    s::assume(f < 0 || p < 0);
    let (a, b) = (s::range(0, 0), 10);
    s::check(build_schedule(true, &d(a), &d(b), &j, &B::Following, &F::Weekly, f, p).is_err(), "negative gaps are refused");
    s::cover("end");
}
