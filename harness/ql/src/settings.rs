//! Calculation settings.
use crate::s;
use ndarray::Array1;
use quantlib::enums::{StickynessType, VanillaOptionCalculationMethod};
use quantlib::parameters::volatilities::volatiltiy_interpolator::{AndreasenHuge, Dupire, VolatilityInterplator};
use quantlib::pricing_engines::calculation_configuration::CalculationConfiguration as C;

fn stick(v: bool) -> StickynessType { if v { StickynessType::StickyToMoneyness } else { StickynessType::StickyToStrike } }
fn method(v: u64) -> VanillaOptionCalculationMethod { if v == 0 { VanillaOptionCalculationMethod::Analytic } else { VanillaOptionCalculationMethod::MonteCarlo } }
fn lv(v: u64) -> VolatilityInterplator { if v == 0 { VolatilityInterplator::AndreasenHuge(AndreasenHuge {}) } else { VolatilityInterplator::Dupire(Dupire {}) } }
fn names(v: u64) -> Vec<String> { (0..v).map(|i| format!("{}M", i + 1)).collect() }
fn grid(v: u64) -> Array1<f32> { Array1::from_vec((0..v).map(|i| i as f32).collect()) }
/// what is asked for
#[derive(Clone)]
struct W { on: [bool; 12], bump: [f32; 7], day: i32, stick: bool, lv: u64, lists: [u64; 4], method: u64 }
fn make(w: &W) -> anyhow::Result<C> {
    let (o, b) = (&w.on, &w.bump);
    C::new(o[0], o[1], o[2], o[3], o[4], o[5], o[6], o[7], o[8], o[9], o[10], o[11], w.day, stick(w.stick), lv(w.lv), b[0], b[1], b[2], b[3], b[4], b[5], b[6], names(w.lists[0]), names(w.lists[1]), names(w.lists[2]), grid(w.lists[3]), method(w.method))
}
/// everything that can be read back is what was asked for
fn same(c: &C, w: &W) {
    let o = &w.on;
    let got = [c.get_npv_calculation(), c.get_fx_exposure_calculation(), c.get_delta_calculation(), c.get_gamma_calculation(), c.get_vega_calculation(), c.get_rho_calculation(), c.get_div_delta_calculation(), c.get_theta_calculation(), c.get_vega_structure_calculation(), c.get_rho_structure_calculation(), c.get_div_structure_calculation(), c.get_vega_matrix_calculation()];
    for i in 0..12 { s::check(got[i] == o[i], "each calculation is on or off as asked"); }
    s::check(c.get_delta_bump_ratio() == w.bump[0], "delta bump");
    s::check(c.get_vega_bump_value() == w.bump[2], "vega bump");
    s::check(c.get_vega_structure_bump_value() == w.bump[3], "vega structure bump");
    s::check(c.get_rho_bump_value() == w.bump[5], "rho bump");
    s::check(c.get_div_bump_value() == w.bump[6], "dividend bump");
    s::check(c.get_theta_day() == w.day, "theta days");
    s::check(c.get_stickyness_type() == stick(w.stick), "stickyness");
    s::check(c.get_lv_interpolator() == lv(w.lv), "volatility interpolator");
    s::check(*c.get_rho_structure_tenors() == names(w.lists[0]), "rho tenors");
    s::check(*c.get_vega_structure_tenors() == names(w.lists[1]), "vega tenors");
    s::check(*c.get_div_structure_tenors() == names(w.lists[2]), "dividend tenors");
    s::check(*c.get_vega_matrix_spot_moneyness() == grid(w.lists[3]), "vega moneyness");
    s::check(c.get_vanilla_option_calculation_method() == method(w.method), "option method");
}
fn any() -> W {
    let mut w = W { on: [false; 12], bump: [0.0; 7], day: s::i32(), stick: s::boolean(), lv: 0, lists: [1, 2, 3, 4], method: 0 };
    for i in 0..12 { w.on[i] = s::boolean(); }
    for i in 0..7 { w.bump[i] = s::f32(); }
    w
}
/// every combination of settings; params: [which non-numeric settings]
#[no_mangle]
pub extern "C" fn cfg_new() {
    let mut w = any();
    let k = s::param(0);
    w.lv = k % 2; w.method = k / 2 % 2; w.lists = [(k + 1) % 4, (k + 2) % 4, (k + 3) % 4, k % 4];
    let mut good = w.on[2] == w.on[3] && w.day > 0;
    for b in w.bump { good = good && b > 0.0; }
    let c = make(&w);
    if !good { s::check(c.is_err(), "an inconsistent combination is refused"); s::cover("refused"); return; }
    s::check(c.is_ok(), "a consistent combination is accepted");
    same(&c.unwrap(), &w);
    s::cover("accepted");
}
const SETTERS: u64 = 26;
/// setting k of the configuration and of what is expected
fn set(c: C, w: &mut W, k: u64, on: bool, v: f32, day: i32) -> C {
    match k {
        0 => { w.day = day; c.with_theta_day(day) }
        1 => { w.on[2] = on; c.with_delta_calculation(on) }
        2 => { w.on[3] = on; c.with_gamma_calculation(on) }
        3 => { w.on[4] = on; c.with_vega_calculation(on) }
        4 => { w.on[8] = on; c.with_vega_structure_calculation(on) }
        5 => { w.on[11] = on; c.with_vega_matrix_calculation(on) }
        6 => { w.on[7] = on; c.with_theta_calculation(on) }
        7 => { w.on[5] = on; c.with_rho_calculation(on) }
        8 => { w.on[9] = on; c.with_rho_structure_calculation(on) }
        9 => { w.stick = on; c.with_stickyness_type(stick(on)) }
        10 => { w.on[6] = on; c.with_div_delta_calculation(on) }
        11 => { w.on[10] = on; c.with_div_structure_calculation(on) }
        12 => { w.bump[0] = v; c.with_delta_bump_ratio(v) }
        13 => { w.bump[1] = v; c.with_gamma_bump_ratio(v) }
        14 => { w.bump[2] = v; c.with_vega_bump_value(v) }
        15 => { w.bump[3] = v; c.with_vega_structure_bump_value(v) }
        16 => { w.bump[4] = v; c.with_vega_matrix_bump_value(v) }
        17 => { w.bump[5] = v; c.with_rho_bump_value(v) }
        18 => { w.lists[0] = 5; c.with_rho_structure_tenors(names(5)) }
        19 => { w.lists[1] = 6; c.with_vega_structure_tenors(names(6)) }
        20 => { w.lists[2] = 7; c.with_div_structure_tenors(names(7)) }
        21 => { w.lists[3] = 8; c.with_vega_matrix_spot_moneyness(grid(8)) }
        22 => { w.method = 1; c.with_vanilla_option_calculation_method(method(1)) }
        23 => { w.lv = 1; c.with_lv_interpolator(lv(1)) }
        24 => { w.bump[6] = v; c }
        _ => c,
    }
}
/// a setting, then another, on any valid configuration: exactly those change; params: [first setting]
#[no_mangle]
pub extern "C" fn cfg_set() {
    let mut w = any();
    w.on[3] = w.on[2];
    s::assume(w.day > 0);
    for b in w.bump { s::assume(b > 0.0); }
    let c = make(&w).unwrap();
    let (on, v, day) = (s::boolean(), s::f32(), s::i32());
    s::assume(day > 0 && v > 0.0);
    let (j, k) = (s::param(0), s::choose(24));
    let c = set(c, &mut w, j, on, v, day);
    let c = set(c, &mut w, k, on, v, day);
    same(&c, &w);
    // what cannot be read back is compared with a configuration made at once
    if w.on[2] == w.on[3] { s::check(c == make(&w).unwrap(), "set one by one or at once"); s::cover("end"); } else { s::cover("delta only"); }
}
/// settings not given
#[no_mangle]
pub extern "C" fn cfg_default() {
    let c = C::default();
    let tenors = |n: usize| ["1M", "2M", "3M", "6M", "9M", "1Y", "1Y6M", "2Y", "3Y", "5Y", "7Y", "10Y", "15Y", "20Y", "30Y"][..n].iter().map(|t| t.to_string()).collect::<Vec<String>>();
    s::check(c.get_npv_calculation() && c.get_fx_exposure_calculation(), "values and exposures are calculated");
    let w = C::new(true, true, false, false, false, false, false, false, false, false, false, false, 1, StickynessType::StickyToMoneyness, lv(0), 0.01, 0.01, 0.01, 0.01, 0.001, 0.0001, 0.0001, tenors(15), tenors(9), tenors(9), Array1::linspace(0.6, 1.4, 17), VanillaOptionCalculationMethod::Analytic).unwrap();
    s::check(c == w, "the documented defaults");
    let (k, on, v, day) = (s::choose(24), s::boolean(), s::f32(), s::i32());
    let mut e = W { on: [true, true, false, false, false, false, false, false, false, false, false, false], bump: [0.01, 0.01, 0.01, 0.01, 0.001, 0.0001, 0.0001], day: 1, stick: true, lv: 0, lists: [0; 4], method: 0 };
    s::assume(v > 0.0);
    let d = set(c, &mut e, k, on, v, day);
    s::check(d.get_delta_calculation() == e.on[2] && d.get_vega_calculation() == e.on[4] && d.get_theta_calculation() == e.on[7] && d.get_rho_calculation() == e.on[5], "other settings keep their defaults");
    s::check(d.get_theta_day() == e.day && d.get_delta_bump_ratio() == e.bump[0] && d.get_rho_bump_value() == e.bump[5] && d.get_div_bump_value() == e.bump[6], "other numbers keep their defaults");
    s::cover("end");
}
