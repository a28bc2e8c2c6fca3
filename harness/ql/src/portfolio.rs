//! Portfolios: what queries return, how instruments are distributed to engines.
use crate::s;
use quantlib::currency::{Currency, FxCode};
use quantlib::enums::*;
use quantlib::instrument::{Instrument, InstrumentTrait, Instruments};
use quantlib::instruments::{cash::Cash, futures::Futures, fx_futures::FxFutures, plain_swap::PlainSwap, schedule::Schedule, stock::Stock, vanilla_option::VanillaOption};
use quantlib::parameters::rate_index::RateIndex;
use quantlib::pricing_engines::calculation_configuration::CalculationConfiguration;
use quantlib::pricing_engines::engine_generator::{EngineGenerator, InstrumentCategory};
use quantlib::pricing_engines::match_parameter::MatchParameter;
use quantlib::time::calendar::Calendar;
use quantlib::time::calendars::nullcalendar::NullCalendar;
use quantlib::time::conventions::{BusinessDayConvention, DayCountConvention, PaymentFrequency};
use quantlib::time::jointcalendar::JointCalendar;
use std::collections::HashMap;
use std::rc::Rc;
use time::{Date, OffsetDateTime, Time, UtcOffset};

pub fn day(d: i64) -> OffsetDateTime { OffsetDateTime::new_in_offset(Date::from_ordinal_date(2024, d as u16).unwrap(), Time::from_hms(16, 0, 0).unwrap(), UtcOffset::from_hms(9, 0, 0).unwrap()) }
fn cur(i: u64) -> Currency { if i == 0 { Currency::KRW } else { Currency::USD } }
const UND: [&str; 2] = ["AAA", "BBB"];
const KINDS: [&str; 9] = ["Stock", "Cash", "Futures", "FxFutures", "VanillaCall", "VanillaPut", "IRS", "CRS", "FxForward"];
/// what an instrument is, said independently of it
#[derive(Clone, Copy)]
pub struct I { kind: usize, cur: u64, und: u64, mat: i64 }
impl I {
    fn has_und(&self) -> bool { matches!(self.kind, 0 | 2 | 4 | 5) }
    fn has_maturity(&self) -> bool { self.kind >= 2 }
    /// (underlying or floating currency)
    fn second(&self) -> Option<u64> { match self.kind { 2 => Some(self.cur), 3 => Some(1 - self.cur), 6 => Some(self.cur), 7 | 8 => Some(1 - self.cur), _ => None } }
}
fn build(w: &I, code: &str) -> Instrument {
    let (c, o, und) = (cur(w.cur), cur(1 - w.cur), UND[w.und as usize].to_string());
    let (start, end) = (day(1), day(w.mat));
    let (name, code) = (String::from("same name"), code.to_string());
    match w.kind {
        0 => Instrument::Stock(Stock::new(name, code, vec![und], c, None)),
        1 => Instrument::Cash(Cash::new(c, name, code)),
        2 => Instrument::Futures(Futures::new(100.0, start, end, end, end, 10.0, c, c, und, name, code)),
        3 => Instrument::FxFutures(FxFutures::new(100.0, start, end, end, end, 10.0, c, o, name, code)),
        4 | 5 => Instrument::VanillaOption(VanillaOption::new(100.0, 10.0, start, end, end, end, vec![und], if w.und == 1 { o } else { c }, c, if w.kind == 4 { OptionType::Call } else { OptionType::Put }, OptionExerciseType::European, if w.und == 0 { OptionDailySettlementType::Settled } else { OptionDailySettlementType::NotSettled }, name, code)),
        k => {
            let cal = JointCalendar::new(vec![Calendar::NullCalendar(NullCalendar::default())]).unwrap();
            let index = RateIndex::new(String::from("91D"), c, String::from("CD"), String::from("CD")).unwrap();
            let (rate, index, amounts) = match k { 6 => (Some(0.02), Some(index), [None; 4]), 7 => (Some(0.02), Some(index), [Some(1.0); 4]), _ => (None, None, [None, None, Some(1.0), Some(1.0)]) };
            let b = BusinessDayConvention::Unadjusted;
            let (d, f) = (DayCountConvention::Actual365Fixed, PaymentFrequency::Quarterly);
            Instrument::PlainSwap(PlainSwap::new(Schedule::default(), Schedule::default(), rate, index, None, cal, 10.0, start, start, end, c, if k == 6 { c } else { o }, amounts[0], amounts[1], amounts[2], amounts[3], d.clone(), d, b, b, f, f, 0, 0, name, code).unwrap())
        }
    }
}
/// groups of kinds, one chosen per run
const SETS: [&[usize]; 6] = [&[0, 2, 4], &[1, 3, 2], &[6, 7, 3], &[5, 8, 2], &[4, 6, 1], &[0, 1, 2, 3, 4, 5, 6, 7, 8]];
fn any(set: u64) -> I {
    let k = SETS[set as usize];
    let kind = k[s::choose(k.len() as u64) as usize];
    let mut w = I { kind, cur: s::choose(2), und: 0, mat: 0 };
    if w.has_und() { w.und = s::choose(2); }
    w.mat = 10;
    w
}
const CODES: [&str; 4] = ["C1", "C2", "C3", "C4"];
fn portfolio(n: usize, set: u64, dates: bool) -> (Vec<I>, Vec<Rc<Instrument>>) {
    let mut w: Vec<I> = (0..n).map(|_| any(set)).collect();
    if dates { for x in w.iter_mut() { if x.has_maturity() { x.mat = s::range(5, 30); } } }
    let v = (0..n).map(|i| Rc::new(build(&w[i], CODES[i]))).collect();
    (w, v)
}
/// the result is exactly the wanted members, each once, in portfolio order
fn exactly(got: &[Rc<Instrument>], v: &[Rc<Instrument>], want: impl Fn(usize) -> bool, label: &'static str) {
    let mut k = 0;
    for i in 0..v.len() { if want(i) { s::check(k < got.len() && Rc::ptr_eq(&got[k], &v[i]), label); k += 1; } }
    s::check(k == got.len(), label);
}
fn once<T: PartialEq>(got: &[T], want: Vec<T>, label: &'static str) {
    let mut u: Vec<T> = vec![];
    for x in want { if !u.contains(&x) { u.push(x); } }
    s::check(got.len() == u.len(), label);
    for x in &u { s::check(got.contains(x), label); }
}
/// by type, currency and underlying; the lists; params: [instruments, kinds]
#[no_mangle]
pub extern "C" fn pf_lists() {
    let n = s::param(0) as usize;
    let (w, v) = portfolio(n, s::param(1), false);
    let p = Instruments::new(v.clone());
    s::check(p.len() == n && p.is_empty() == (n == 0), "the number of instruments");
    for i in 0..n {
        s::check(v[i].get_code() == CODES[i] && p[i].get_code() == CODES[i], "each has its own code");
        s::check(v[i].get_type_name() == KINDS[w[i].kind], "type names");
        s::check(*v[i].get_currency() == cur(w[i].cur), "currency");
    }
    for c in 0..2 { exactly(&p.instruments_with_currency(&cur(c)), &v, |i| w[i].cur == c, "by currency"); }
    for a in 0..9 { exactly(&p.instruments_with_types(vec![KINDS[a], KINDS[(a + 3) % 9]]), &v, |i| w[i].kind == a || w[i].kind == (a + 3) % 9, "by type"); }
    for u in 0..2 {
        let code = UND[u].to_string();
        exactly(&p.instruments_with_underlying(&code, None), &v, |i| w[i].has_und() && w[i].und == u as u64, "by underlying");
        exactly(&p.instruments_with_underlying(&code, Some(vec!["Stock", "VanillaPut"])), &v, |i| w[i].has_und() && w[i].und == u as u64 && w[i].kind != 0 && w[i].kind != 5, "by underlying, some types left out");
    }
    once(&p.get_all_type_names(), w.iter().map(|x| KINDS[x.kind]).collect(), "all types, each once");
    once(&p.get_all_underlying_codes().iter().map(|x| x.as_str()).collect::<Vec<&str>>(), w.iter().filter(|x| x.has_und()).map(|x| UND[x.und as usize]).collect(), "all underlyings, each once");
    once(&p.get_all_unerlying_codes_requiring_volatility(None).iter().map(|x| x.as_str()).collect::<Vec<&str>>(), w.iter().filter(|x| x.kind == 4 || x.kind == 5).map(|x| UND[x.und as usize]).collect(), "all underlyings that need a volatility");
    let mut currencies = vec![];
    for x in &w { currencies.push(cur(x.cur)); if let Some(o) = x.second() { currencies.push(cur(o)); } }
    once(&p.get_all_currencies().unwrap().into_iter().copied().collect::<Vec<Currency>>(), currencies, "all currencies, each once");
    once(&p.get_all_fxcodes_for_pricing(), w.iter().filter(|x| matches!(x.kind, 3 | 7 | 8)).map(|x| FxCode::new(cur(1 - x.cur), cur(x.cur))).collect(), "all pairs needed for pricing, each once");
    let quanto: Vec<(u64, FxCode)> = w.iter().filter(|x| (x.kind == 4 || x.kind == 5) && x.und == 1).map(|x| (x.und, FxCode::new(cur(1 - x.cur), cur(x.cur)))).collect();
    let got = p.get_all_quanto_fxcode_und_pairs();
    for (u, f) in &quanto { s::check(got.contains(&(&UND[*u as usize].to_string(), f)), "all quanto pairs"); }
    once(&got.into_iter().map(|(u, f)| (if u == UND[0] { 0 } else { 1 }, *f)).collect::<Vec<(u64, FxCode)>>(), quanto, "all quanto pairs, each once");
    let codes = p.get_all_inst_code_clone(None);
    s::check(codes.len() == n, "all codes");
    for i in 0..n { s::check(codes[i] == CODES[i], "all codes in order"); }
    s::cover("end");
}
/// by maturity; params: [instruments, kinds, ask for a part]
#[no_mangle]
pub extern "C" fn pf_maturity() {
    let n = s::param(0) as usize;
    let (w, v) = portfolio(n, s::param(1), true);
    let p = Instruments::new(v.clone());
    let d = s::range(5, 30);
    let at = day(d);
    let part: Vec<Rc<Instrument>> = v[..n - 1].to_vec();
    let arg = if s::param(2) != 0 { Some(&part) } else { None };
    let m = if s::param(2) != 0 { n - 1 } else { n };
    let (w, v) = (&w[..m], &v[..m]);
    exactly(&p.instruments_with_maturity_upto(arg, &at, None), v, |i| w[i].has_maturity() && w[i].mat <= d, "maturing by the date");
    exactly(&p.instruments_with_maturity_over(arg, &at, None), v, |i| !w[i].has_maturity() || w[i].mat > d, "maturing after the date");
    exactly(&p.instruments_with_maturity_upto(arg, &at, Some(vec!["Futures"])), v, |i| w[i].kind != 2 && w[i].has_maturity() && w[i].mat <= d, "maturing by the date, some types left out");
    exactly(&p.instruments_with_maturity_over(arg, &at, Some(vec!["Futures", "Cash"])), v, |i| w[i].kind != 2 && w[i].kind != 1 && (!w[i].has_maturity() || w[i].mat > d), "maturing after the date, some types left out");
    let (mut short, mut long, mut never): (Option<i64>, Option<i64>, bool) = (None, None, false);
    for x in w {
        if !x.has_maturity() { never = true; continue; }
        if short.is_none() || x.mat < short.unwrap() { short = Some(x.mat); }
        if long.is_none() || x.mat > long.unwrap() { long = Some(x.mat); }
    }
    let got = p.get_shortest_maturity(arg);
    match short { None => s::check(got.is_none(), "no maturity at all"), Some(x) => s::check(got == Some(day(x)), "the shortest maturity") }
    let got = p.get_longest_maturity(arg);
    match (never, long) { (false, Some(x)) => s::check(got == Some(day(x)), "the longest maturity"), _ => s::check(got.is_none(), "no maturity counts as the longest") }
    s::cover("end");
}
/// by curve; params: [instruments, kinds]
#[no_mangle]
pub extern "C" fn pf_curves() {
    let n = s::param(0) as usize;
    let (w, v) = portfolio(n, s::param(1), false);
    let p = Instruments::new(v.clone());
    const COLL: [&str; 2] = ["KRWGOV", "USDGOV"];
    const FUND: [&str; 2] = ["KRWGOV", "USDFUND"];
    const CRS: [&str; 2] = ["KRWCRS", "USDOIS"];
    let m = MatchParameter::new(
        (0..2).map(|i| (UND[i].to_string(), COLL[i].to_string())).collect(), HashMap::new(), HashMap::new(),
        (0..2).map(|i| (cur(i as u64), CRS[i].to_string())).collect(),
        vec![(String::from("CD"), String::from("KRWIRS"))].into_iter().collect(),
        (0..2).map(|i| (cur(i as u64), FUND[i].to_string())).collect());
    let uses = |x: &I| -> Vec<&'static str> {
        let mut r = vec![];
        if x.has_und() { r.push(COLL[x.und as usize]); }
        if (x.kind == 4 || x.kind == 5) && x.und == 1 { r.push(FUND[x.cur as usize]); }
        if x.kind == 6 || x.kind == 7 { r.push("KRWIRS"); }
        if matches!(x.kind, 3 | 7 | 8) { r.push(CRS[x.cur as usize]); r.push(CRS[1 - x.cur as usize]); }
        r
    };
    let all: Vec<&str> = w.iter().flat_map(|x| uses(x)).collect();
    once(&p.get_all_curve_names(&m).unwrap().iter().map(|x| x.as_str()).collect::<Vec<&str>>(), all, "all curves, each once");
    for c in ["KRWGOV", "USDGOV", "USDFUND", "KRWCRS", "USDOIS", "KRWIRS"] {
        exactly(&p.instruments_using_curve(&c.to_string(), &m, None).unwrap(), &v, |i| uses(&w[i]).contains(&c), "by curve");
        exactly(&p.instruments_using_curve(&c.to_string(), &m, Some(vec!["Stock", "CRS"])).unwrap(), &v, |i| w[i].kind != 0 && w[i].kind != 7 && uses(&w[i]).contains(&c), "by curve, some types left out");
    }
    s::cover("end");
}
#[derive(Clone)]
struct Rule { types: Option<Vec<usize>>, curs: Option<Vec<u64>>, und: Option<u64> }
impl Rule {
    fn any(set: u64) -> Rule {
        let k = SETS[set as usize];
        let types = match s::choose(3) { 0 => None, 1 => Some(vec![k[0]]), _ => Some(vec![k[1], k[2]]) };
        let curs = match s::choose(3) { 0 => None, 1 => Some(vec![1]), _ => Some(vec![1, 0]) };
        let und = match s::choose(3) { 0 => None, 1 => Some(0), _ => Some(1) };
        Rule { types, curs, und }
    }
    fn category(&self) -> InstrumentCategory {
        InstrumentCategory::new(self.types.as_ref().map(|t| t.iter().map(|k| KINDS[*k].to_string()).collect()), self.curs.as_ref().map(|c| c.iter().map(|i| cur(*i)).collect()), self.und.map(|u| vec![UND[u as usize].to_string()]))
    }
    fn allows(&self, w: &I) -> bool {
        self.types.as_ref().map_or(true, |t| t.contains(&w.kind)) && self.curs.as_ref().map_or(true, |c| c.contains(&w.cur)) && self.und.map_or(true, |u| !w.has_und() || w.und == u)
    }
}
/// every group is what its category allows, nothing twice, nothing lost; params: [instruments, kinds, categories]
#[cfg(verif)]
#[no_mangle]
pub extern "C" fn pf_distribute() {
    let (n, set, m) = (s::param(0) as usize, s::param(1), s::param(2));
    let (w, v) = portfolio(n, set, false);
    let rules: Vec<Rule> = (0..m).map(|_| Rule::any(set)).collect();
    let cats: Vec<InstrumentCategory> = rules.iter().map(|r| r.category()).collect();
    for (r, c) in rules.iter().zip(cats.iter()) { for i in 0..n { s::check(c.contains(&v[i]).unwrap() == r.allows(&w[i]), "a category contains exactly what it allows"); } }
    let mut g = EngineGenerator::builder();
    g.with_configuration(CalculationConfiguration::default(), day(1), MatchParameter::default()).unwrap();
    g.with_instruments(Instruments::new(v.clone())).unwrap();
    g.with_instrument_categories(cats).unwrap();
    let r = g.distribute_instruments();
    let groups = g.instrument_groups();
    if (0..n).any(|i| !rules.iter().any(|r| r.allows(&w[i]))) {
        s::check(r.is_err(), "an instrument no category allows is refused");
        s::check(groups.is_empty(), "nothing is calculated then");
        s::cover("refused");
        return;
    }
    s::check(r.is_ok(), "instruments that categories allow are distributed");
    let mut seen = vec![0; n];
    for group in groups {
        let allowed = |r: &Rule| group.iter().all(|x| (0..n).any(|i| CODES[i] == x.get_code() && r.allows(&w[i])));
        s::check(rules.iter().any(allowed), "one category allows the whole group");
        for x in group { for i in 0..n { if CODES[i] == x.get_code() { seen[i] += 1; s::check(x.get_type_name() == KINDS[w[i].kind], "the instrument itself"); } } }
    }
    for i in 0..n { s::check(seen[i] == 1, "every instrument is in exactly one group"); }
    s::cover("distributed");
}
