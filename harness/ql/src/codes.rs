//! Currency codes and FX pairs.
use crate::s;
use quantlib::currency::{Currency, FxCode};

/// ISO 4217 codes (and CNH, NIL) in scope
const CODES: [&str; 47] = ["NIL", "KRW", "USD", "EUR", "JPY", "CNY", "CNH", "GBP", "AUD", "CAD", "CHF", "NZD", "SEK", "NOK", "MXN", "ZAR", "BRL", "INR", "RUB", "TRY", "HKD", "SGD", "TWD", "THB", "IDR", "MYR", "PHP", "VND", "PKR", "LKR", "BDT", "NPR", "KZT", "UZS", "KGS", "TJS", "MNT", "AED", "SAR", "QAR", "OMR", "KWD", "BHD", "JOD", "ILS", "EGP", "ZMW"];
fn text(n: usize) -> String { let mut b = vec![0u8; n]; s::fill(&mut b); for c in &b { s::assume(*c < 0x80); } String::from_utf8(b).unwrap() }
fn known(t: &str) -> bool { for c in CODES { if t == c { return true; } } false }
/// any text; params: [length]
#[no_mangle]
pub extern "C" fn cur_text() {
    let t = text(s::param(0) as usize);
    let k = known(&t);
    let c = Currency::from(t.as_str());
    if k { s::check(c.as_str() == t, "a known code is the currency of that code"); s::cover("known"); }
    else { s::check(c == Currency::NIL, "any other text is no currency"); s::cover("other"); }
}
/// every code: printed, parsed and written to JSON and back
#[no_mangle]
pub extern "C" fn cur_each() {
    let i = s::choose(47) as usize;
    let c = Currency::from(CODES[i]);
    s::check(c.as_str() == CODES[i], "the code");
    s::check(c.to_string() == CODES[i], "printed");
    s::check(Currency::from(c.to_string().as_str()) == c, "printed and parsed back");
    let j = serde_json::to_string(&c).unwrap();
    s::check(j.len() == 5 && &j[1..4] == CODES[i], "in JSON");
    s::check(serde_json::from_str::<Currency>(&j).unwrap() == c, "from JSON");
    for k in 0..47 { s::check((Currency::from(CODES[k]) == c) == (k == i), "codes are distinct"); }
    s::cover("end");
}
/// every pair; params: [JSON too]
#[no_mangle]
pub extern "C" fn fx_pair() {
    let (i, j) = (s::choose(47) as usize, s::choose(47) as usize);
    let (a, b) = (Currency::from(CODES[i]), Currency::from(CODES[j]));
    let p = FxCode::new(a, b);
    s::check(*p.get_currency1() == a && *p.get_currency2() == b, "first and second currency");
    let r = p.reciprocal();
    s::check(*r.get_currency1() == b && *r.get_currency2() == a, "the reciprocal swaps the currencies");
    s::check(r.reciprocal() == p, "twice gives the pair back");
    s::check((r == p) == (i == j), "a pair of two currencies is not its reciprocal");
    let t = p.to_string();
    s::check(t.len() == 6 && &t[..3] == CODES[i] && &t[3..] == CODES[j], "printed as the two codes in order");
    s::check(FxCode::from(t.as_str()) == p, "printed and parsed back");
    if s::param(0) != 0 {
        let json = serde_json::to_string(&p).unwrap();
        let back = serde_json::from_str::<FxCode>(&json);
        s::check(back.is_ok() && back.unwrap() == p, "written to JSON and read back");
    }
    s::cover("end");
}
/// any six characters
#[no_mangle]
pub extern "C" fn fx_text() {
    let t = text(6);
    let p = FxCode::from(t.as_str());
    s::check(*p.get_currency1() == Currency::from(&t[..3]), "the first three characters are the first currency");
    s::check(*p.get_currency2() == Currency::from(&t[3..]), "the last three characters are the second currency");
    s::cover("end");
}
