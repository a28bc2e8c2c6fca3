//! Digit parsing and field conversion.
use symrt as s;
use trading_engine::utils::numeric_converter::*;

/// an arbitrary decimal digit: its ASCII byte and its value
pub fn digit() -> (u8, u64) { let d = s::range(0, 9) as u64; (b'0' + d as u8, d) }

/// writes `n` arbitrary digits, with a point before the last `frac` of them when `point`
pub fn digits(out: &mut Vec<u8>, n: u64, frac: u64, point: bool) -> u128 { digits_z(out, n, frac, point, 0) }

/// the same with the first `zeros` digits zero
pub fn digits_z(out: &mut Vec<u8>, n: u64, frac: u64, point: bool, zeros: u64) -> u128 {
    let mut v = 0u128;
    for i in 0..n {
        if point && i == n - frac { out.push(b'.'); }
        let (c, d) = if i < zeros { (b'0', 0) } else { digit() };
        out.push(c);
        v = v * 10 + d as u128;
    }
    if point && frac == 0 { out.push(b'.'); }
    v
}
fn pad(b: &mut Vec<u8>, n: usize) { let mut x = vec![0u8; n]; s::fill(&mut x); b.extend_from_slice(&x); }

/// params: [parser 0: <=8, 1: <=16, 2: <=32, length, leading zeros]; every position of the point (and none) is explored
#[no_mangle]
pub extern "C" fn num_parse() {
    let (k, len, z) = (s::param(0), s::param(1), s::param(2));
    let point = s::choose(len + 1); // 0: none, p: the point is the p-th byte from the end
    s::assume(len != 1 || point == 0); // a lone point is no number
    s::assume(len - z <= 19 || point != 0); // the value fits 64 bits
    let mut b = vec![];
    pad(&mut b, 3);
    let v = if point == 0 { digits_z(&mut b, len, 0, false, z) } else { digits_z(&mut b, len - 1, point - 1, true, z) };
    let n = b.len();
    pad(&mut b, 32);
    let f = &b[3..n];
    let (len, p) = (len as usize, point as usize);
    let got = match k {
        0 => parse_under8_with_floating_point(f, len, p),
        1 => parse_under16_with_floating_point(f, len, p),
        _ => parse_under32_with_floating_point(f, len, p),
    };
    s::check(got as u128 == v, "the parsed value is the decimal value of the digits");
    if point == 0 {
        let plain = match k { 0 => parse_under8(f, len) as u128, 1 => parse_under16(f, len), _ => parse_under32(f, len) };
        s::check(plain == v, "the plain parser returns the decimal value of the digits");
    }
    s::obs(got);
    s::cover("end");
}

/// plain wide parser, as a 128-bit value; params: [length]
#[no_mangle]
pub extern "C" fn num_wide() {
    let len = s::param(0);
    let mut b = vec![];
    pad(&mut b, 3);
    let v = digits(&mut b, len, 0, false);
    let n = b.len();
    pad(&mut b, 32);
    let got = parse_under32(&b[3..n], len as usize);
    s::check(got == v, "the plain parser returns the decimal value of the digits");
    s::obs(got as u64);
    s::cover("end");
}

/// two and three digit fields, hours/minutes/seconds
#[no_mangle]
pub extern "C" fn num_small() {
    let mut b = vec![];
    pad(&mut b, 3);
    let v = digits(&mut b, 6, 0, false) as u64;
    pad(&mut b, 16);
    s::check(parse_2digits(&b[3..5]) as u64 == v / 10000, "two digits");
    s::check(parse_3digits(&b[3..6]) as u64 == v / 1000, "three digits");
    let d = |i: usize| (b[3 + i] - b'0') as u64;
    let want = (d(0) * 10 + d(1)) * 3600 + (d(2) * 10 + d(3)) * 60 + d(4) * 10 + d(5);
    let got = parse_hhmmss_to_nanos(&b[3..9]);
    s::check(got == want * 1_000_000_000, "time of day in nanoseconds");
    s::obs(got);
    s::cover("end");
}

/// One field in the layout [sign][unused bytes][digits][point decimals]; returns the denoted scaled value.
/// The sign byte is '0' or '-'; the unused bytes are arbitrary; `drop` keeps only the integer part.
pub fn field(b: &mut Vec<u8>, digits_n: u64, point_n: u64, signed: bool, unused: u64, drop: bool) -> i128 {
    let neg = signed && s::boolean();
    field_s(b, digits_n, point_n, signed, unused, drop, neg)
}
/// the same with a given sign
pub fn field_s(b: &mut Vec<u8>, digits_n: u64, point_n: u64, signed: bool, unused: u64, drop: bool, neg: bool) -> i128 {
    if signed { b.push(if neg { b'-' } else { b'0' }); }
    pad(b, unused as usize);
    let mut v = digits(b, digits_n, 0, false);
    if point_n > 0 {
        b.push(b'.');
        let f = digits(b, point_n - 1, 0, false);
        if !drop { v = v * 10u128.pow(point_n as u32 - 1) + f; }
    }
    if neg { -(v as i128) } else { v as i128 }
}

fn close(got: f64, want: f64) -> bool { got.to_bits() == want.to_bits() || (got - want).abs() <= 1e-9 * (want.abs() + 1.0) }

/// params: [digits, point length, signed, unused bytes, drop decimals]; any content of the field and its surroundings
#[no_mangle]
pub extern "C" fn num_cfg() {
    let (d, p, sg, un, dr) = (s::param(0), s::param(1), s::param(2) != 0, s::param(3), s::param(4) != 0);
    let cfg = NumReprCfg { digit_length: d as usize, decimal_point_length: p as usize, is_signed: sg, unused_length: un as usize, total_length: (d + p + sg as u64 + un) as usize, float_normalizer: None, drop_decimal_point: dr };
    s::check(cfg.check_validity().is_ok(), "a consistent configuration is valid");
    let mut wrong = cfg;
    wrong.total_length = s::range(0, 40) as usize;
    s::assume(wrong.total_length != cfg.total_length);
    s::check(wrong.check_validity().is_err(), "an inconsistent total length is refused");
    s::check(IntegerConverter::new(wrong).is_err(), "no converter for an inconsistent configuration");
    let c = match IntegerConverter::new(cfg) { Ok(c) => c, Err(_) => { s::check(d + if dr { 0 } else { p } > 18, "fields of up to 18 digits are supported"); s::cover("end"); return; } };
    let mut b = vec![];
    pad(&mut b, 2);
    let v = field(&mut b, d, p, sg, un, dr) as i64;
    let n = b.len();
    pad(&mut b, 32);
    let f = &b[2..n];
    s::check(c.to_i64(f) == v, "to_i64 gives the signed scaled value of the field");
    s::check(c.to_u64(f) == v.unsigned_abs(), "to_u64 gives the magnitude of the field");
    s::check(c.clone().to_i64(f) == v, "a cloned converter converts alike");
    s::check(*c.get_config() == cfg, "the configuration is kept");
    s::obs(v as u64);
    if p == 0 || dr {
        let m = v.unsigned_abs();
        unsafe {
            if d <= 16 {
                s::check(c.to_u64_unchecked(f) == m, "unchecked conversion of an integer field");
                s::check(c.to_nonnegative_i64_unchecked(f) as u64 == m, "unchecked signed conversion of a non-negative integer field");
            }
            if d <= 8 { s::check(c.to_u32_unchecked(f) as u64 == m, "unchecked 32-bit conversion of an integer field"); }
            if d >= 16 { s::check(c.to_long_u64_unchecked(f) == m, "unchecked conversion of a long integer field"); }
        }
    }
    s::cover("end");
}

/// the real number a scaled integer stands for; params: [digits, point length, float normalizer + 1 (0: none)]
#[no_mangle]
pub extern "C" fn num_real() {
    let (d, p, nz) = (s::param(0), s::param(1), s::param(2) as i32 - 1);
    let cfg = NumReprCfg { digit_length: d as usize, decimal_point_length: p as usize, is_signed: true, unused_length: 0, total_length: (d + p + 1) as usize, float_normalizer: if nz >= 0 { Some(nz) } else { None }, drop_decimal_point: false };
    let c = IntegerConverter::new(cfg).unwrap();
    let lim = 10i64.pow(d as u32 + if p > 0 { p as u32 - 1 } else { 0 });
    let v = s::range(1 - lim, lim - 1);
    let k = if p > 0 { p as u32 - 1 } else { 0 };
    let scale = 10i64.pow(k) as f64;
    s::check(close(c.to_f64_from_i64(v), v as f64 / scale), "real value of a signed field");
    s::check(close(c.to_f64_from_u64(v.unsigned_abs()), v.unsigned_abs() as f64 / scale), "real value of an unsigned field");
    if lim < 1 << 31 {
        s::check(close(c.to_f64_from_i32(v as i32), v as i32 as f64 / scale), "real value of a 32-bit signed field");
        s::check(close(c.to_f64_from_u32(v.unsigned_abs() as u32), v.unsigned_abs() as u32 as f64 / scale), "real value of a 32-bit unsigned field");
    }
    if nz >= 0 {
        let m = 10i64.pow(k + nz as u32);
        s::check(close(c.normalized_real_from_i64(v), (v / m) as f64 + (v % m) as f64 / m as f64), "normalised value of a signed field");
        let u = v.unsigned_abs();
        s::check(close(c.normalized_real_from_u64(u), (u / m as u64) as f64 + (u % m as u64) as f64 / m as f64), "normalised value of an unsigned field");
    } else {
        s::check(close(c.normalized_real_from_i64(v), v as f64 / scale), "normalised value without normaliser");
        s::check(close(c.normalized_real_from_u64(v.unsigned_abs()), v.unsigned_abs() as f64 / scale), "unsigned normalised value without normaliser");
    }
    s::obs(c.to_f64_from_i64(v).to_bits());
    s::cover("end");
}
