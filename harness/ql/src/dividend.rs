//! Market price and remaining dividends as the evaluation date moves.
use crate::daycount::close32;
use crate::s;
use ndarray::Array1;
use quantlib::currency::Currency;
use quantlib::data::vector_data::VectorData;
use quantlib::evaluation_date::EvaluationDate;
use quantlib::parameters::discrete_ratio_dividend::DiscreteRatioDividend;
use quantlib::parameters::market_price::MarketPrice;
use std::cell::RefCell;
use std::rc::Rc;
use time::{Date, OffsetDateTime, Time, UtcOffset};

fn at(y: i32, day: i64, h: u8) -> OffsetDateTime { OffsetDateTime::new_in_offset(Date::from_ordinal_date(y, day as u16).unwrap(), Time::from_hms(h, 0, 0).unwrap(), UtcOffset::from_hms(9, 0, 0).unwrap()) }
type R<T> = Rc<RefCell<T>>;
struct World { date: R<EvaluationDate>, price: R<MarketPrice>, dividend: R<DiscreteRatioDividend>, spot: f32 }
fn world(start: OffsetDateTime, ex: &[OffsetDateTime], ratio: &[f32], spot: f32) -> World {
    let date = Rc::new(RefCell::new(EvaluationDate::new(start)));
    let amounts: Vec<f32> = ratio.iter().map(|r| r * spot).collect();
    let first = at(2023, 1, 0);
    let data = VectorData::new(Array1::from_vec(amounts), Some(ex.to_vec()), None, Some(first), Currency::NIL, String::new(), String::new()).unwrap();
    let d = DiscreteRatioDividend::new(date.clone(), &data, spot, String::new(), String::new());
    s::check(d.is_ok(), "sorted dividends are accepted whatever the evaluation date");
    let dividend = Rc::new(RefCell::new(d.unwrap()));
    let price = Rc::new(RefCell::new(MarketPrice::new(spot, start, Some(dividend.clone()), Currency::NIL, String::new(), String::new())));
    date.borrow_mut().add_marketprice_observer(price.clone());
    date.borrow_mut().add_dividend_observer(dividend.clone());
    World { date, price, dividend, spot }
}
/// dividends not yet passed at `now` reduce the price at a later date
fn ahead(w: &World, ex: &[OffsetDateTime], ratio: &[f32], now: &OffsetDateTime, probe: &OffsetDateTime) {
    let mut want = 1.0f32;
    for i in 0..ex.len() { if ex[i] > *now && ex[i].date() <= probe.date() { want *= 1.0 - ratio[i]; } }
    s::check(w.dividend.borrow().get_deduction_ratio(probe).unwrap() == want, "the remaining dividends are exactly those still ahead");
    s::check(w.price.borrow().get_dividend_deduction_ratio(probe).unwrap() == want, "the price sees the same dividends");
}
const RATIO: [f32; 4] = [0.5, 0.75, 0.5, 0.875];
/// ex-dates anywhere, moves anywhere; ratios are powers of two so that moving back is exact
/// params: [dividends, moves, bump after move (0 none), hour of ex-dates, hour of the evaluation dates]
#[no_mangle]
pub extern "C" fn div_moves() {
    let (n, m, bump) = (s::param(0) as usize, s::param(1), s::param(2));
    let (xh, eh) = (s::param(3) as u8, s::param(4) as u8);
    let days: Vec<i64> = (0..n).map(|_| s::range(50, 66)).collect();
    for i in 1..n { s::assume(days[i - 1] < days[i]); }
    let ex: Vec<OffsetDateTime> = days.iter().map(|d| at(2024, *d, xh)).collect();
    let mut ratio = RATIO[..n].to_vec();
    let start = at(2024, s::range(45, 70), eh);
    let w = world(start, &ex, &ratio, 4096.0);
    let probe = at(2024, s::range(45, 75), 10);
    ahead(&w, &ex, &ratio, &start, &probe);
    let (mut now, mut value) = (start, 4096.0f32);
    for k in 1..=m {
        let to = at(2024, s::range(45, 70), eh);
        w.date.borrow_mut().set_date(to);
        for i in 0..n {
            if now < ex[i] && ex[i] <= to { value *= 1.0 - ratio[i]; }
            if to < ex[i] && ex[i] <= now { value /= 1.0 - ratio[i]; }
        }
        now = to;
        s::check(w.price.borrow().get_value() == value, "the price changes by exactly the dividends passed");
        s::check(*w.price.borrow().get_market_datetime() == to, "the price is as of the new date");
        if k == bump {
            // an eighth of the spot on every dividend
            w.dividend.borrow_mut().bump_date_interval(None, None, w.spot / 8.0).unwrap();
            for r in ratio.iter_mut() { *r += 0.125; }
        }
        ahead(&w, &ex, &ratio, &now, &probe);
        if k == bump { w.dividend.borrow_mut().bump_date_interval(None, None, -w.spot / 8.0).unwrap(); for r in ratio.iter_mut() { *r -= 0.125; } ahead(&w, &ex, &ratio, &now, &probe); }
    }
    let back = at(2024, 45, eh.min(xh));
    // all the way back: what remains is the start's value with every dividend before the start added back
    w.date.borrow_mut().set_date(start);
    s::check(w.price.borrow().get_value() == w.spot, "moving back to the start restores the price");
    w.date.borrow_mut().set_date(back);
    ahead(&w, &ex, &ratio, &back, &probe);
    s::cover("end");
}
/// any price and amounts, one step by a tenor over the ex-dates; params: [dividends]
#[no_mangle]
pub extern "C" fn div_values() {
    let n = s::param(0) as usize;
    let spot = s::range(1, 100000) as f32;
    let ratio: Vec<f32> = (0..n).map(|_| s::range(0, 400) as f32 / 1024.0).collect();
    let ex: Vec<OffsetDateTime> = (0..n).map(|i| at(2024, 60 + 3 * i as i64, 0)).collect();
    let start = at(2024, 59, 16);
    let date = Rc::new(RefCell::new(EvaluationDate::new(start)));
    let amounts: Vec<f32> = ratio.clone();
    let data = VectorData::new(Array1::from_vec(amounts), Some(ex.clone()), None, Some(at(2023, 1, 0)), Currency::NIL, String::new(), String::new()).unwrap();
    let d = Rc::new(RefCell::new(DiscreteRatioDividend::new(date.clone(), &data, 1.0, String::new(), String::new()).unwrap()));
    let p = Rc::new(RefCell::new(MarketPrice::new(spot, start, Some(d.clone()), Currency::NIL, String::new(), String::new())));
    date.borrow_mut().add_marketprice_observer(p.clone());
    date.borrow_mut().add_dividend_observer(d.clone());
    let late = at(2024, 100, 0);
    let mut want = 1.0f32;
    for r in &ratio { want *= 1.0 - r; }
    s::check(close32(d.borrow().get_deduction_ratio(&late).unwrap(), want), "all dividends ahead reduce a late price");
    let step = 1 + 3 * s::choose(n as u64);
    *date.borrow_mut() += format!("{}D", step).as_str();
    let k = (step as usize + 2) / 3;
    let (mut v, mut rest) = (spot, 1.0f32);
    for i in 0..k { v *= 1.0 - ratio[i]; }
    for i in k..n { rest *= 1.0 - ratio[i]; }
    s::check(close32(p.borrow().get_value(), v), "the price loses the passed dividends");
    s::check(close32(d.borrow().get_deduction_ratio(&late).unwrap(), rest), "the rest is still ahead");
    *date.borrow_mut() -= format!("{}D", step).as_str();
    s::check(close32(d.borrow().get_deduction_ratio(&late).unwrap(), want), "moving back brings the dividends back");
    s::check(*date.borrow().get_date() == start, "the date is back");
    s::cover("end");
}
/// a bump reaches the dividends after the first and up to the second date, wherever the evaluation date is, and a bump back undoes it
/// params: [dividends, 0 no bounds / 1 lower / 2 upper / 3 both]
#[no_mangle]
pub extern "C" fn div_bump() {
    let (n, form) = (s::param(0) as usize, s::param(1));
    let days: Vec<i64> = (0..n).map(|_| [51, 54, 55, 60, 61, 65][s::choose(6) as usize]).collect();
    for i in 1..n { s::assume(days[i - 1] < days[i]); }
    let ex: Vec<OffsetDateTime> = days.iter().map(|d| at(2024, *d, 0)).collect();
    let ratio = &RATIO[..n];
    let start = at(2024, s::range(45, 70), 16);
    let w = world(start, &ex, ratio, 4096.0);
    let (lo, hi) = (if form & 1 == 1 { s::range(47, 68) } else { 50 }, if form & 2 == 2 { s::range(47, 69) } else { 50 });
    let (lo_at, hi_at) = (at(2024, lo, 5), at(2024, hi, 20));
    let (a, b) = (if form & 1 == 1 { Some(&lo_at) } else { None }, if form & 2 == 2 { Some(&hi_at) } else { None });
    let r = w.dividend.borrow_mut().bump_date_interval(a, b, w.spot / 8.0);
    if form == 3 && lo >= hi { s::check(r.is_err(), "an empty interval is refused"); s::cover("refused"); return; }
    s::check(r.is_ok(), "an interval is accepted");
    let up: Vec<f32> = (0..n).map(|i| if (form & 1 == 0 || days[i] > lo) && (form & 2 == 0 || days[i] <= hi) { ratio[i] + 0.125 } else { ratio[i] }).collect();
    let probe = at(2024, s::range(45, 75), 10);
    ahead(&w, &ex, &up, &start, &probe);
    let d = w.dividend.borrow().get_dividend_ratio();
    for i in 0..n { s::check(d[i].1 == up[i] && d[i].0 == ex[i], "the bumped ratio is on record"); }
    w.dividend.borrow_mut().bump_date_interval(a, b, -w.spot / 8.0).unwrap();
    ahead(&w, &ex, ratio, &start, &probe);
    s::cover("end");
}
