//! Zero curves, cash flows of bonds and swaps, floating coupons, and the prices made of them.
use crate::daycount::close32;
use crate::s;
use ndarray::Array1;
use quantlib::currency::Currency;
use quantlib::data::vector_data::VectorData;
use quantlib::enums::*;
use quantlib::evaluation_date::EvaluationDate;
use quantlib::instrument::{Instrument, InstrumentTrait};
use quantlib::instruments::{bond::Bond, futures::Futures, fx_futures::FxFutures, plain_swap::PlainSwap, schedule::{BaseSchedule, Schedule}};
use quantlib::math::interpolator::{ExtraPolationType, InterpolatorReal1D};
use quantlib::math::interpolators::linear_interpolator::LinearInterpolator1D;
use quantlib::parameters::{discrete_ratio_dividend::DiscreteRatioDividend, market_price::MarketPrice, past_price::DailyClosePrice, rate_index::RateIndex, zero_curve::ZeroCurve};
use quantlib::pricing_engines::pricer::PricerTrait;
use quantlib::pricing_engines::{bond_pricer::BondPricer, futures_pricer::FuturesPricer, fx_futures_pricer::FxFuturesPricer, plain_swap_pricer::PlainSwapPricer};
use quantlib::time::calendar::Calendar;
use quantlib::time::calendar_trait::CalendarTrait;
use quantlib::time::calendars::nullcalendar::NullCalendar;
use quantlib::time::conventions::{BusinessDayConvention, DayCountConvention, PaymentFrequency};
use quantlib::time::jointcalendar::JointCalendar;
use quantlib::utils::string_arithmetic::add_period;
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;
use time::{Date, Duration, OffsetDateTime, Time, UtcOffset};

type R<T> = Rc<RefCell<T>>;
fn rc<T>(x: T) -> R<T> { Rc::new(RefCell::new(x)) }
/// day d counted from the first of 2024, h o'clock in Seoul
fn at(d: i64, h: u8) -> OffsetDateTime { OffsetDateTime::new_in_offset(Date::from_ordinal_date(2024, 1).unwrap(), Time::from_hms(h, 0, 0).unwrap(), UtcOffset::from_hms(9, 0, 0).unwrap()) + Duration::days(d) }
fn nul() -> NullCalendar { NullCalendar::default() }
fn joint() -> JointCalendar { JointCalendar::new(vec![Calendar::NullCalendar(nul())]).unwrap() }
const AS_IS: BusinessDayConvention = BusinessDayConvention::Unadjusted;
const D365: DayCountConvention = DayCountConvention::Actual365Fixed;
fn data(times: &[f32], rates: &[f32]) -> VectorData { VectorData::new(Array1::from_vec(rates.to_vec()), None, Some(Array1::from_vec(times.to_vec())), None, Currency::KRW, String::new(), String::new()).unwrap() }
fn curve(date: &R<EvaluationDate>, times: &[f32], rates: &[f32]) -> ZeroCurve { ZeroCurve::new(date.clone(), &data(times, rates), String::from("c"), String::from("c")).unwrap() }
const TENORS: [&str; 29] = ["0D", "1D", "1W", "2W", "1M", "2M", "3M", "4M", "5M", "6M", "9M", "1Y", "1Y6M", "2Y", "2Y6M", "3Y", "4Y", "5Y", "6Y", "7Y", "8Y", "9Y", "10Y", "12Y", "15Y", "20Y", "30Y", "50Y", "100Y"];

/// the same number, or at least equal
fn same(x: f32, y: f32) -> bool { x.to_bits() == y.to_bits() || x == y }
/// rates of any value at given times, as read at the tenors, and discount factors; params: [nodes, day]
#[no_mangle]
pub extern "C" fn zc_values() {
    let (n, d) = (s::param(0) as usize, s::param(1) as i64);
    let date = rc(EvaluationDate::new(at(d, 16)));
    let times = &[0.5, 2.0, 7.0][..n];
    let rates: Vec<f32> = (0..n).map(|_| s::range(-1024, 4096) as f32 / 16384.0).collect();
    let c = curve(&date, times, &rates);
    let (t, r, f) = (c.get_cached_discount_times_clone(), c.get_interpolated_rates(), c.get_cached_discount_factors_clone());
    s::check(t.len() >= 2 && t.len() == r.len() && t.len() == f.len(), "one rate and one factor for each time");
    for x in TENORS { let y = nul().get_time_difference(&at(d, 16), &add_period(&at(d, 16), x)); s::check(t.iter().any(|z| *z == y), "each tenor is cached"); }
    let ip = if n > 1 { Some(LinearInterpolator1D::new(Array1::from_vec(times.to_vec()), Array1::from_vec(rates.clone()), ExtraPolationType::Flat, true).unwrap()) } else { None };
    for i in 0..t.len() {
        let want = match &ip { Some(ip) => ip.interpolate(t[i]).unwrap(), None => rates[0] };
        s::check(r[i] == want, "the rate at a tenor is the one between the given rates");
        s::check(f[i] == (-(r[i] * t[i])).exp(), "the discount factor is the exponential of minus rate times time");
        s::check(c.get_discount_factor(t[i]).unwrap() == f[i] || close32(c.get_discount_factor(t[i]).unwrap(), f[i]), "the factor at a cached time");
    }
    // forward rates of any such curve
    for (p, q) in [(0.0f32, 1.0f32), (0.0, 0.02), (0.3, 0.4), (0.9, 30.0), (3.0, 3.01), (60.0, 90.0)] {
        let df = c.get_discount_factor(q).unwrap() / c.get_discount_factor(p).unwrap();
        s::check(same(c.get_discount_factor_between_times(p, q).unwrap(), df), "the factor between two times is the quotient");
        s::check(same(c.get_forward_rate_between_times(p, q, Compounding::Simple).unwrap(), (1.0 - df) / (q - p)), "simple forward rate");
        s::check(same(c.get_forward_rate_between_times(p, q, Compounding::Continuous).unwrap(), -df.ln() / (q - p)), "continuous forward rate");
        s::check(c.get_discount_factor_between_times(q, p).is_err() && c.get_forward_rate_between_times(q, p, Compounding::Simple).is_err(), "reversed times are refused");
    }
    s::cover("end");
}
fn fixed(d: i64) -> (R<EvaluationDate>, ZeroCurve) { let date = rc(EvaluationDate::new(at(d, 16))); let c = curve(&date, &[0.25, 1.0, 5.0, 20.0], &[0.02, 0.035, 0.03, 0.045]); (date, c) }
/// factors at any time, between any times, forward rates; params: [what, day, latest time, which other time]
#[no_mangle]
pub extern "C" fn zc_query() {
    let (_, c) = fixed(s::param(1) as i64);
    let (t, f) = (c.get_cached_discount_times_clone(), c.get_cached_discount_factors_clone());
    let ip = LinearInterpolator1D::new(t.clone(), f.clone(), ExtraPolationType::None, false).unwrap();
    let a = s::f32();
    s::assume(a >= 0.0 && a <= s::param(2) as f32);
    match s::param(0) {
        0 => {
            let x = c.get_discount_factor(a).unwrap();
            s::check(x == ip.interpolate(a).unwrap(), "between cached times the factor lies on the line joining them");
            s::check(f[0] == 1.0, "now counts fully");
            let mut k = 0;
            while k + 2 < t.len() && t[k + 1] <= a { k += 1; }
            s::check(x <= f[k] * 1.000001 && x >= f[k + 1] * 0.999999, "later is worth less");
        }
        _ => {
            let b = [0.0, 0.1, 1.0, 7.5, 40.0][s::param(3) as usize];
            let (p, q) = if s::boolean() { (a, b) } else { (b, a) };
            let r = c.get_discount_factor_between_times(p, q);
            if p > q {
                let simple = c.get_forward_rate_between_times(p, q, Compounding::Simple);
                let cont = c.get_forward_rate_between_times(p, q, Compounding::Continuous);
                s::check(r.is_err() && simple.is_err() && cont.is_err(), "reversed times are refused");
                s::cover("end");
                return;
            }
            let df = c.get_discount_factor(q).unwrap() / c.get_discount_factor(p).unwrap();
            s::check(r.unwrap() == df, "the factor between two times is the quotient");
        }
    }
    s::cover("end");
}
/// forward rates over nothing are those of the instant after; params: [day]
#[no_mangle]
pub extern "C" fn zc_instant() {
    let (_, c) = fixed(s::param(0) as i64);
    for t in [0.0f32, 0.01, 0.3, 0.9, 2.0] {
        let r = c.get_forward_rate_between_times(t, t, Compounding::Simple).unwrap();
        let k = c.get_forward_rate_between_times(t, t, Compounding::Continuous).unwrap();
        s::check(r.is_finite() && r > -0.05 && r < 0.15, "the forward rate over nothing is a rate");
        s::check(k.is_finite() && k > -0.05 && k < 0.15, "and so is the continuous one");
    }
    s::cover("end");
}
/// factors at dates; params: [day, how many later]
#[no_mangle]
pub extern "C" fn zc_dates() {
    let d = s::param(0) as i64;
    let (date, c) = fixed(d);
    let k = s::range(-3, s::param(1) as i64);
    let h = if s::boolean() { 16 } else { 9 };
    let to = at(d + k, h);
    let r = c.get_discount_factor_at_date(&to);
    if to < at(d, 16) { s::check(r.is_err(), "a date before the evaluation date is refused"); s::cover("before"); return; }
    let t = nul().get_time_difference(&date.borrow().get_date_clone(), &to);
    s::check(r.unwrap() == c.get_discount_factor(t).unwrap(), "the factor at a date is that at its time");
    s::cover("after");
}
/// bumps; integer rates, so that sums are exact; params: [nodes, bumps]
#[no_mangle]
pub extern "C" fn zc_bump() {
    let n = s::param(0) as usize;
    let date = rc(EvaluationDate::new(at(0, 16)));
    let mut c = curve(&date, &[1.0, 5.0, 30.0][..n], &[24.0, 24.0, 24.0][..n]);
    let t = c.get_cached_discount_times_clone();
    let before = (c.get_interpolated_rates(), c.get_cached_discount_factors_clone());
    let mut rates: Vec<f32> = before.0.to_vec();
    let mut undo = vec![];
    for _ in 0..s::param(1) {
        let v = s::range(-3, 3) as f32;
        let pick = |k: u64| match k { 0 => None, 1 => Some(t[4]), 2 => Some(t[11]), 3 => Some(t[11] + 0.125), _ => Some(t[17]) };
        let (a, b) = (pick(s::choose(5)), pick(s::choose(5)));
        let r = c.bump_time_interval(a, b, v);
        if a.is_some() && b.is_some() && a.unwrap() > b.unwrap() { s::check(r.is_err(), "a reversed interval is refused"); }
        else {
            s::check(r.is_ok(), "bumped");
            for i in 0..t.len() { if a.map_or(true, |a| t[i] > a) && b.map_or(true, |b| t[i] <= b) { rates[i] += v; } }
            undo.push((a, b, v));
        }
        let (r, f) = (c.get_interpolated_rates(), c.get_cached_discount_factors_clone());
        for i in 0..t.len() {
            s::check(r[i] == rates[i], "exactly the rates after the start and up to the end are bumped");
            s::check(f[i] == (-(r[i] * t[i])).exp(), "discount factors follow the bumped rates");
            if i % 7 == 3 { s::check(close32(c.get_discount_factor(t[i]).unwrap(), f[i]), "and are the ones used"); }
        }
    }
    for (a, b, v) in undo.into_iter().rev() { c.bump_time_interval(a, b, -v).unwrap(); }
    let (r, f) = (c.get_interpolated_rates(), c.get_cached_discount_factors_clone());
    for i in 0..t.len() { s::check(r[i] == before.0[i] && f[i] == (-(r[i] * t[i])).exp(), "bumping back restores the curve"); }
    s::cover("end");
}
/// any interval, one bump; params: [-]
#[no_mangle]
pub extern "C" fn zc_bump_any() {
    let date = rc(EvaluationDate::new(at(0, 16)));
    let mut c = curve(&date, &[1.0], &[2.0]);
    let t = c.get_cached_discount_times_clone();
    let (a, b) = (s::range(0, 40) as f32 / 4.0, s::range(0, 40) as f32 / 4.0);
    s::assume(a <= b);
    let (d1, d2) = (s::boolean(), s::boolean());
    c.bump_time_interval(if d1 { Some(a) } else { None }, if d2 { Some(b) } else { None }, 1.0).unwrap();
    let r = c.get_interpolated_rates();
    for i in 0..t.len() {
        let inside = (!d1 || t[i] > a) && (!d2 || t[i] <= b);
        s::check(r[i] == if inside { 3.0 } else { 2.0 }, "exactly the rates after the start and up to the end are bumped");
    }
    s::cover("end");
}

// ---- cash flows
/// payments: (fixing, start, end, payment) days
const LEG: [(i64, i64, i64, i64); 4] = [(8, 10, 40, 41), (38, 40, 71, 71), (69, 71, 100, 103), (98, 100, 131, 131)];
fn leg(n: usize, amount: &[Option<f32>], hour: u8) -> Schedule { Schedule::new((0..n).map(|i| { let l = LEG[i]; BaseSchedule::new(at(l.0, hour), at(l.1, hour), at(l.2, hour), at(l.3, hour), amount[i]) }).collect()) }
fn frac(i: usize) -> f32 { joint().year_fraction(&at(LEG[i].1, 16), &at(LEG[i].2, 16), &D365).unwrap() }
fn index() -> RateIndex { RateIndex::new(String::from("1M"), Currency::KRW, String::from("X"), String::from("X")).unwrap() }
fn fixings(rates: &[f32]) -> Rc<DailyClosePrice> {
    let mut m = HashMap::new();
    for (i, r) in rates.iter().enumerate() { m.insert(at(LEG[i].0, 16).date(), *r); }
    Rc::new(DailyClosePrice::new(m, Time::from_hms(16, 0, 0).unwrap(), UtcOffset::from_hms(9, 0, 0).unwrap(), Calendar::NullCalendar(nul()), String::new(), String::new()))
}
/// the flows are exactly these (day -> amounts added in order)
fn flows(got: &HashMap<OffsetDateTime, f32>, want: &[(i64, f32)], now: i64) {
    let mut days: Vec<(i64, f32)> = vec![];
    for (d, x) in want {
        if *d < now { continue; }
        match days.iter_mut().find(|y| y.0 == *d) { Some(y) => y.1 += *x, None => days.push((*d, *x)) }
    }
    s::check(got.len() == days.len(), "exactly the payments not yet past");
    for (d, x) in &days { match got.get(&at(*d, 16)) { Some(y) => s::check(*y == *x, "each payment date pays its sum"), None => s::check(false, "no payment not yet past is missing") } }
}
fn bond(kind: u64, legs: Schedule, rate: f32, spread: Option<f32>, strip: bool, priced: Option<OffsetDateTime>, maturity: i64) -> Bond {
    Bond::new(IssuerType::Government, CreditRating::None, String::new(), RankType::Senior, Currency::KRW, 100.0, strip, legs,
        if kind == 0 { Some(rate) } else { None }, spread, if kind == 0 { None } else { Some(index()) }, None,
        at(0, 16), at(10, 16), priced, at(maturity, 16), joint(), D365, AS_IS, PaymentFrequency::Quarterly, 0, 0, String::new(), String::new()).unwrap()
}
/// a fixed-rate bond priced on any day; params: [coupons, which amounts are given (mask), strip, redemption day]
#[no_mangle]
pub extern "C" fn cf_bond() {
    let (n, mask, strip, end) = (s::param(0) as usize, s::param(1), s::param(2) != 0, s::param(3) as i64);
    let rate = s::range(-100, 1000) as f32 / 4096.0;
    let given = s::range(0, 50) as f32;
    let amount: Vec<Option<f32>> = (0..n).map(|i| if mask >> i & 1 == 1 { Some(given) } else { None }).collect();
    let b = bond(0, leg(n, &amount, 16), rate, None, strip, None, end);
    let now = s::range(0, 140);
    let h = if s::boolean() { 23 } else { 1 };
    let got = b.get_cashflows(&at(now, h), None, None).unwrap();
    let mut want: Vec<(i64, f32)> = (0..n).map(|i| (LEG[i].3, match amount[i] { Some(x) => x, None => frac(i) * rate })).collect();
    if !strip { want.push((end, 1.0)); }
    flows(&got, &want, now);
    s::cover("end");
}
/// a swap with fixed coupons and exchanged amounts, priced on any day; params: [coupons, amounts exchanged, redemption day]
#[no_mangle]
pub extern "C" fn cf_swap() {
    let (n, ex, end) = (s::param(0) as usize, s::param(1) != 0, s::param(2) as i64);
    let rate = s::range(0, 1000) as f32 / 4096.0;
    let amt: Vec<f32> = (0..4).map(|_| s::range(1, 2000) as f32).collect();
    let o = |i: usize| if ex { Some(amt[i]) } else { None };
    let w = PlainSwap::new(leg(n, &[None; 4], 16), Schedule::default(), Some(rate), Some(index()), None, joint(), 1.0, at(0, 16), at(10, 16), at(end, 16), Currency::KRW, if ex { Currency::USD } else { Currency::KRW }, o(0), o(1), o(2), o(3), D365, D365, AS_IS, AS_IS, PaymentFrequency::Quarterly, PaymentFrequency::Quarterly, 0, 0, String::new(), String::new()).unwrap();
    let now = s::range(0, 140);
    let h = if s::boolean() { 23 } else { 1 };
    let got = w.get_fixed_cashflows(&at(now, h)).unwrap();
    let mut want = vec![];
    if ex { want.push((10, amt[0])); want.push((end, -amt[2])); }
    for i in 0..n { want.push((LEG[i].3, -rate * frac(i) * if ex { amt[0] } else { 1.0 })); }
    flows(&got, &want, now);
    let got = w.get_floating_cashflows(&at(now, h), None, None).unwrap();
    let mut want = vec![];
    if ex { want.push((10, -amt[1])); want.push((end, amt[3])); }
    flows(&got, &want, now);
    s::cover("end");
}
/// floating coupons: fixings already known and forward rates; params: [coupons, 0 bond 1 swap 2 exchanging swap, fixings known]
#[no_mangle]
pub extern "C" fn cf_float() {
    let (n, kind, known) = (s::param(0) as usize, s::param(1), s::param(2) as usize);
    let date = rc(EvaluationDate::new(at(0, 16)));
    let c = rc(curve(&date, &[0.25, 1.0], &[0.02, 0.035]));
    let past: Vec<f32> = (0..known).map(|_| s::range(-50, 500) as f32 / 4096.0).collect();
    let spread = s::range(-50, 500) as f32 / 4096.0;
    let a = s::range(1, 2000) as f32;
    let h = if s::boolean() { 23 } else { 1 };
    let now = s::range(0, 140);
    let pricing = at(now, h);
    let data = Some(fixings(&past));
    let (got, spread, a) = match kind {
        0 => (bond(1, leg(n, &[None; 4], 16), 0.0, Some(spread), true, None, 131).get_cashflows(&pricing, Some(c.clone()), data).unwrap(), spread, 1.0),
        k => {
            let o = |x: f32| if k == 2 { Some(x) } else { None };
            let w = PlainSwap::new(Schedule::default(), leg(n, &[None; 4], 16), Some(0.0), Some(index()), None, joint(), 1.0, at(0, 16), at(10, 16), at(131, 16), Currency::KRW, if k == 2 { Currency::USD } else { Currency::KRW }, o(a), o(a), o(a), o(a), D365, D365, AS_IS, AS_IS, PaymentFrequency::Quarterly, PaymentFrequency::Quarterly, 0, 0, String::new(), String::new()).unwrap();
            (w.get_floating_cashflows(&pricing, Some(c.clone()), data).unwrap(), 0.0, if k == 2 { a } else { 1.0 })
        }
    };
    let mut want = vec![];
    if kind == 2 { want.push((10, -a)); want.push((131, a)); }
    for i in 0..n {
        let fixing = at(LEG[i].0, 16);
        let rate = if fixing < pricing {
            if i < known { past[i] } else { c.borrow().get_forward_rate_from_evaluation_date(&add_period(&fixing, "1M"), Compounding::Simple).unwrap() }
        } else { c.borrow().get_forward_rate_between_dates(&fixing, &add_period(&fixing, "1M"), Compounding::Simple).unwrap() };
        want.push((LEG[i].3, (rate + spread) * frac(i) * a));
    }
    flows(&got, &want, now);
    s::cover("end");
}
/// an overnight coupon compounds the daily rates; params: [days of the period, known fixings, weekdays only]
#[no_mangle]
pub extern "C" fn cf_overnight() {
    let (m, known) = (s::param(0) as i64, s::param(1) as i64);
    let date = rc(EvaluationDate::new(at(0, 16)));
    let c = rc(curve(&date, &[0.25], &[0.03]));
    let ix = RateIndex::new(String::from("1D"), Currency::KRW, String::from("O"), String::from("O")).unwrap();
    let mut table = HashMap::new();
    let mut past = vec![];
    for i in 0..known { let r = s::range(-50, 500) as f32 / 4096.0; past.push(r); table.insert(at(10 + i, 16).date(), r); }
    let data = Rc::new(DailyClosePrice::new(table, Time::from_hms(16, 0, 0).unwrap(), UtcOffset::from_hms(9, 0, 0).unwrap(), Calendar::NullCalendar(nul()), String::new(), String::new()));
    let spread = s::range(-50, 500) as f32 / 4096.0;
    let now = 11 + s::choose(m as u64 + 2) as i64;
    let pricing = at(now, 1);
    let b = BaseSchedule::new(at(10, 16), at(10, 16), at(10 + m, 16), at(10 + m, 16), None);
    let tenor = String::from("1D");
    let got = ix.get_coupon_amount(&b, Some(spread), c.clone(), data, &pricing, Some(&tenor), &joint(), &D365, 0).unwrap();
    let spot = c.borrow().get_forward_rate_between_dates(&pricing, &add_period(&pricing, "1D"), Compounding::Simple).unwrap();
    let mut v = 1.0f32;
    for i in 0..m {
        // fixed on the day itself, or on the Friday before a weekend
        let f = if (10 + i) % 7 == 5 { 9 + i } else if (10 + i) % 7 == 6 { 8 + i } else { 10 + i };
        let fixing = at(f, 16);
        let rate = if fixing < pricing { if f >= 10 && f < 10 + known { past[(f - 10) as usize] } else { spot } } else { c.borrow().get_forward_rate_between_dates(&fixing, &at(f + 1, 16), Compounding::Simple).unwrap() };
        v *= 1.0 + (rate + spread) * joint().year_fraction(&at(10 + i, 16), &at(11 + i, 16), &D365).unwrap();
    }
    s::check(got == v - 1.0, "the coupon compounds every day at its fixing");
    s::cover("end");
}

// ---- prices
fn flat(date: &R<EvaluationDate>, r: f32) -> R<ZeroCurve> { rc(curve(date, &[1.0], &[r])) }
/// what a bond is worth: payments after the pricing date, discounted to it; params: [coupons, now, pricing date (0 none), amounts: 0 any with zero rates, 1 given with a curve]
#[no_mangle]
pub extern "C" fn pr_bond() {
    let (n, now, priced, real) = (s::param(0) as usize, s::param(1) as i64, s::param(2) as i64, s::param(3) != 0);
    let date = rc(EvaluationDate::new(at(now, 16)));
    let c = if real { rc(curve(&date, &[0.25, 1.0], &[0.02, 0.055])) } else { flat(&date, 0.0) };
    let amount: Vec<Option<f32>> = (0..n).map(|i| Some(if real { 3.0 + i as f32 } else { s::range(-1000, 1000) as f32 })).collect();
    let day = if priced == 0 { now } else { priced };
    let strip = s::choose(2) == 1;
    let b = Instrument::Bond(bond(0, leg(n, &amount, 16), 0.0, None, strip, if priced == 0 { None } else { Some(at(priced, 16)) }, 131));
    let p = BondPricer::new(date.clone(), c.clone(), None, None);
    let mut want = 0.0f32;
    let mut listed = vec![];
    for i in 0..n {
        if LEG[i].3 > day { want += amount[i].unwrap() * c.borrow().get_discount_factor_at_date(&at(LEG[i].3, 16)).unwrap(); }
        if LEG[i].3 >= day { listed.push((LEG[i].3, amount[i].unwrap())); }
    }
    if !strip && 131 > day { want += c.borrow().get_discount_factor_at_date(&at(131, 16)).unwrap(); }
    if !strip && 131 >= day { listed.push((131, 1.0)); }
    want /= c.borrow().get_discount_factor_at_date(&at(day, 16)).unwrap();
    let v = p.npv(&b).unwrap();
    let r = p.npv_result(&b).unwrap();
    if real { s::check(close32(v, want) && close32(r.get_npv(), want), "a bond is worth its discounted payments"); } else { s::check(v == want && r.get_npv() == want, "a bond is worth its payments"); }
    flows(&r.get_expected_coupon_amount().unwrap(), &listed, day);
    let e = p.fx_exposure(&b, v).unwrap();
    s::check(e.len() == 1 && e[&Currency::KRW] == v * 100.0, "the exposure is the value times the notional");
    s::cover("end");
}
/// what a swap is worth; params: [coupons, now, real rates, exchanging amounts]
#[no_mangle]
pub extern "C" fn pr_swap() {
    let (n, now, real, ex) = (s::param(0) as usize, s::param(1) as i64, s::param(2) != 0, s::param(3) != 0);
    let date = rc(EvaluationDate::new(at(now, 16)));
    let (c, k) = if real { (rc(curve(&date, &[0.25, 1.0], &[0.02, 0.055])), rc(curve(&date, &[0.5, 2.0], &[0.05, 0.01]))) } else { (flat(&date, 0.0), flat(&date, 0.0)) };
    let fxv = if real { 3.0 } else { s::range(1, 1000) as f32 };
    let amt: Vec<f32> = (0..4).map(|i| if real { [7.0, 5.0, 9.0, 4.0][i] } else { s::range(1, 1000) as f32 }).collect();
    let o = |i: usize| if ex { Some(amt[i]) } else { None };
    let rate = if real { 0.3 } else { 0.0 };
    let other = if ex { Currency::USD } else { Currency::KRW };
    let w = Instrument::PlainSwap(PlainSwap::new(leg(n, &[None; 4], 16), leg(n, &[None; 4], 16), Some(rate), Some(index()), None, joint(), 10.0, at(0, 16), at(10, 16), at(131, 16), Currency::KRW, other, o(0), o(1), o(2), o(3), D365, D365, AS_IS, AS_IS, PaymentFrequency::Quarterly, PaymentFrequency::Quarterly, 0, 0, String::new(), String::new()).unwrap());
    let past = Some(fixings(&if real { [0.5, 0.25, 0.5, 0.25] } else { [0.0; 4] }));
    let fx = if ex { Some(rc(MarketPrice::new(fxv, at(now, 16), None, Currency::KRW, String::new(), String::new()))) } else { None };
    let fxv = if ex { fxv } else { 1.0 };
    let p = PlainSwapPricer::new(date.clone(), c.clone(), k.clone(), Some(c.clone()), past.clone(), fx).unwrap();
    let today = at(now, 16);
    let (fixed, floating) = (w.get_fixed_cashflows(&today).unwrap(), w.get_floating_cashflows(&today, Some(c.clone()), past).unwrap());
    let (mut a, mut b, mut listed) = (0.0f32, 0.0f32, vec![]);
    for d in [10, 41, 71, 103, 131] {
        let day = at(d, 16);
        if let Some(x) = fixed.get(&day) { if d > now { a += x * c.borrow().get_discount_factor_at_date(&day).unwrap(); } listed.push((d, *x)); }
        if let Some(x) = floating.get(&day) { if d > now { b += x * k.borrow().get_discount_factor_at_date(&day).unwrap(); } listed.push((d, x * fxv)); }
    }
    let want = a + b * fxv;
    let (v, r) = (p.npv(&w).unwrap(), p.npv_result(&w).unwrap());
    let same = |x: f32, y: f32| if real { close32(x, y) } else { x == y };
    s::check(same(v, want) && same(r.get_npv(), want), "a swap is worth its discounted payments");
    let cash = r.get_expected_coupon_amount().unwrap();
    for d in [10, 41, 71, 103, 131] {
        let mut sum = None;
        for (e, x) in &listed { if *e == d { sum = Some(sum.unwrap_or(0.0) + x); } }
        match (sum, cash.get(&at(d, 16))) { (None, x) => s::check(x.is_none(), "no payment that is not there"), (Some(y), x) => s::check(x.is_some() && same(*x.unwrap(), y), "payments of both legs on a day add up") }
    }
    let e = p.fx_exposure(&w, v).unwrap();
    if ex { s::check(e.len() == 2 && same(e[&Currency::KRW], a * 10.0) && same(e[&Currency::USD], b * 10.0), "each leg is exposed to its currency"); } else { s::check(e.len() == 1 && same(e[&Currency::KRW], (a + b) * 10.0), "one currency, one exposure"); }
    s::cover("end");
}
/// futures: spot carried forward; params: [maturity, dividends]
#[no_mangle]
pub extern "C" fn pr_futures() {
    let (m, k) = (s::param(0) as i64, s::param(1) as usize);
    let date = rc(EvaluationDate::new(at(20, 16)));
    let (c, b) = (rc(curve(&date, &[0.25, 1.0], &[0.02, 0.055])), flat(&date, 0.01));
    let spot = s::range(1, 100000) as f32 / 16.0;
    let trade = s::range(1, 100000) as f32 / 16.0;
    let ex = [(30, 0.5f32), (60, 0.25), (90, 0.5)];
    let div = if k > 0 {
        let d = VectorData::new(Array1::from_vec(ex[..k].iter().map(|x| x.1 * 64.0).collect()), Some(ex[..k].iter().map(|x| at(x.0, 9)).collect()), None, Some(at(20, 16)), Currency::KRW, String::new(), String::new()).unwrap();
        Some(rc(DiscreteRatioDividend::new(date.clone(), &d, 64.0, String::new(), String::new()).unwrap()))
    } else { None };
    let price = rc(MarketPrice::new(spot, at(20, 16), div, Currency::KRW, String::new(), String::new()));
    let f = Instrument::Futures(Futures::new(trade, at(0, 16), at(m, 16), at(m, 16), at(m, 16), 8.0, Currency::KRW, Currency::KRW, String::from("U"), String::new(), String::new()));
    let p = FuturesPricer::new(price.clone(), c.clone(), b.clone());
    let mut kept = 1.0f32;
    for x in &ex[..k] { if x.0 <= m { kept *= 1.0 - x.1; } }
    let end = at(m, 16);
    let want = spot * b.borrow().get_discount_factor_at_date(&end).unwrap() / c.borrow().get_discount_factor_at_date(&end).unwrap() * kept;
    let v = p.npv(&f).unwrap();
    s::check(v == want && p.npv_result(&f).unwrap().get_npv() == want && p.fair_forward(&end).unwrap() == want, "a future is worth the spot carried to its maturity less the dividends until then");
    let e = p.fx_exposure(&f, v).unwrap();
    s::check(e.len() == 1 && e[&Currency::KRW] == (want - trade) * 8.0, "the exposure is the gain since the trade times the notional");
    // the same for currencies
    let x = Instrument::FxFutures(FxFutures::new(trade, at(0, 16), end, end, end, 8.0, Currency::KRW, Currency::USD, String::new(), String::new()));
    let p = FxFuturesPricer::new(price, b.clone(), c.clone());
    let (u, w) = (b.borrow().get_discount_factor_at_date(&end).unwrap(), c.borrow().get_discount_factor_at_date(&end).unwrap());
    let v = p.npv(&x).unwrap();
    s::check(v == spot * u / w && p.npv_result(&x).unwrap().get_npv() == v, "a currency future is worth the spot times the quotient of the factors");
    let e = p.fx_exposure(&x, v).unwrap();
    s::check(e.len() == 2 && e[&Currency::KRW] == -w * trade && e[&Currency::USD] == u, "each currency is exposed by its leg");
    s::cover("end");
}
