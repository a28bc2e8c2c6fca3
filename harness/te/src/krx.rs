//! Exchange (KRX) field formats, time stamps and message decoders.
use crate::num::{digit, field, field_s};
use symrt as s;
use trading_engine::data::checker::Checker;
use trading_engine::data::krx::derivative_quote::*;
use trading_engine::data::krx::derivative_trade::*;
use trading_engine::data::krx::krx_converter::*;
use trading_engine::data::krx::stock_quote::*;
use trading_engine::data::quote::QuoteSnapshot;
use trading_engine::data::trade::TradeData;
use trading_engine::data::trade_quote::TradeQuoteSnapshot;
use trading_engine::types::base::LevelSnapshot;
use trading_engine::types::enums::TradeType;
use trading_engine::types::id::isin_code::IsinCode;
use trading_engine::types::timestamp::{DateUnixNanoGenerator, TimeStamp};
use trading_engine::types::venue::Venue;
use trading_engine::utils::numeric_converter::*;

const H: u64 = 3_600_000_000_000;
const DAY: u64 = 24 * H;

/// digit layouts of the exchange formats: (digits, point length, signed, unused, drop decimals)
type Fmt = (u64, u64, bool, u64, bool);
const RISK_FREE: Fmt = (4, 4, true, 0, false);
const BASE: Fmt = (5, 3, true, 0, false);
const STOCK: Fmt = (9, 0, false, 2, false);
const STOCK_DERIV: Fmt = (8, 0, true, 0, false);
const REPO: Fmt = (6, 4, true, 0, false);
const BOND: Fmt = (7, 3, false, 1, false);
const YIELD: Fmt = (5, 7, true, 0, false);
const fn int(n: u64) -> Fmt { (n, 0, false, 0, false) }
const CUM_VALUE: Fmt = (18, 4, false, 0, true);

fn write(fr: &mut [u8], at: usize, f: Fmt) -> i64 {
    let mut b = vec![];
    let v = field(&mut b, f.0, f.1, f.2, f.3, f.4);
    fr[at..at + b.len()].copy_from_slice(&b);
    v as i64
}
fn write_s(fr: &mut [u8], at: usize, f: Fmt, neg: bool) -> i64 {
    let mut b = vec![];
    let v = field_s(&mut b, f.0, f.1, f.2, f.3, f.4, neg && f.2);
    fr[at..at + b.len()].copy_from_slice(&b);
    v as i64
}
fn width(f: Fmt) -> usize { (f.0 + f.1 + f.2 as u64 + f.3) as usize }

/// every exchange format through its own converter; params: [format]
#[no_mangle]
pub extern "C" fn krx_field() {
    let k = s::param(0);
    let isin = IsinCode::new(b"KR4101V30008").unwrap();
    let isin_rf = IsinCode::new(b"KR4169V30013").unwrap();
    let mut tr = *b"G704F";
    match k { 2 => tr[2..5].copy_from_slice(b"05F"), 3 => tr[2..5].copy_from_slice(b"10F"), 0 | 1 => { s::fill(&mut tr[2..5]); s::assume(&tr[2..5] != b"04F" && &tr[2..5] != b"05F" && &tr[2..5] != b"10F"); } _ => {} }
    let (pf, qf, conv): (Fmt, Fmt, &'static OrderConverter) = match k {
        0 => (RISK_FREE, int(9), get_krx_derivative_converter(&tr, &isin_rf)),
        1 => (BASE, int(9), get_krx_derivative_converter(&tr, &isin)),
        2 | 3 => (STOCK_DERIV, int(9), get_krx_derivative_converter(&tr, &isin_rf)),
        4 => (STOCK_DERIV, int(9), get_krx_derivative_converter(b"A304F", &isin)),
        5 => (STOCK, int(12), get_krx_stock_order_converter()),
        6 => (REPO, int(15), get_krx_repo_order_converter()),
        _ => (BOND, int(12), get_krx_base_bond_order_converter()),
    };
    let mut b = vec![0u8; 64];
    s::fill(&mut b);
    let p = write(&mut b, 3, pf);
    let q = write(&mut b, 3 + width(pf), qf) as u64;
    let (w, wq) = (width(pf), width(qf));
    s::check(conv.price.get_config().total_length == w && conv.quantity.get_config().total_length == wq, "field widths of the format");
    s::check(conv.to_book_price(&b[3..3 + w]) == p, "price field");
    s::check(conv.to_book_quantity(&b[3 + w..3 + w + wq]) == q, "quantity field");
    unsafe {
        s::check(conv.to_book_quantity_unchecked(&b[3 + w..3 + w + wq]) == q, "quantity field, unchecked");
        if pf.1 == 0 { s::assume(p >= 0); s::check(conv.to_book_price_unchecked(&b[3..3 + w]) == p, "non-negative integer price field, unchecked"); }
    }
    s::obs(p as u64); s::obs(q);
    s::cover("end");
}

/// counts, accumulated quantities and values, yields
#[no_mangle]
pub extern "C" fn krx_field_misc() {
    let mut b = vec![0u8; 128];
    s::fill(&mut b);
    let c = write(&mut b, 3, int(5)) as u64;
    let q = write(&mut b, 8, int(12)) as u64;
    let q2 = write(&mut b, 20, int(15)) as u64;
    let v = write(&mut b, 35, CUM_VALUE) as u64;
    let y = write(&mut b, 57, YIELD);
    let oc = get_krx_base_order_counter();
    s::check(oc.to_order_count(&b[3..8]) as u64 == c, "order count");
    s::check(unsafe { oc.to_order_count_unchecked(&b[3..8]) } as u64 == c, "order count, unchecked");
    let cq = get_krx_base_cum_qnt_converter();
    s::check(cq.to_cum_qnt(&b[8..20]) == q, "accumulated quantity");
    s::check(unsafe { cq.to_cum_qnt_unchecked(&b[8..20]) } == q, "accumulated quantity, unchecked");
    let bq = get_krx_bond_cum_qnt_converter();
    s::check(bq.to_cum_qnt(&b[20..35]) == q2, "accumulated bond quantity");
    s::check(unsafe { bq.to_cum_qnt_unchecked(&b[20..35]) } == q2, "accumulated bond quantity, unchecked");
    let cv = CumQntConverter::krx_cum_trd_value_converter();
    s::check(cv.to_cum_qnt(&b[35..57]) == v, "accumulated value drops its decimals");
    s::check(unsafe { cv.to_long_cum_qnt_unchecked(&b[35..57]) } == v, "accumulated value, unchecked");
    s::check(get_krx_yield_converter().to_yield(&b[57..70]) == y, "yield");
    s::obs(q); s::obs(v); s::obs(y as u64);
    s::cover("end");
}

/// writes an arbitrary time of day HHMMSSuuuuuu, returns nanoseconds since midnight
fn time_of_day(b: &mut [u8]) -> u64 {
    let two = |b: &mut [u8], hi: i64| { let (t, u) = (s::range(0, hi) as u64, s::range(0, 9) as u64); b[0] = b'0' + t as u8; b[1] = b'0' + u as u8; t * 10 + u };
    let h = two(&mut b[0..2], 2); s::assume(h < 24);
    let m = two(&mut b[2..4], 5);
    let sec = two(&mut b[4..6], 5);
    let mut us = 0;
    for i in 6..12 { let (c, d) = digit(); b[i] = c; us = us * 10 + d; }
    ((h * 60 + m) * 60 + sec) * 1_000_000_000 + us * 1000
}

/// consecutive time stamps; params: [messages]
#[no_mangle]
pub extern "C" fn krx_time() {
    let n = s::param(0);
    let conv = get_krx_timestamp_converter();
    let day0 = s::range(0, 60_000) as u64 * DAY; // 1970 .. 2134
    let mut g = DateUnixNanoGenerator::from_unixnano(day0 + s::range(0, DAY as i64 - 1) as u64);
    s::check(g.get_utcdate_unix_nano() == day0, "the generator starts at the midnight of its instant");
    s::check(g.get_prev_timestamp() == 0, "no previous time stamp at the start");
    let (mut day, mut prev, mut last) = (day0, 0u64, 0u64);
    for i in 0..n {
        let mut f = vec![0u8; 40];
        s::fill(&mut f);
        let t = time_of_day(&mut f[4..16]);
        let sys = if s::choose(2) == 1 { Some(TimeStamp { stamp: s::range(0, i64::MAX) as u64 }) } else { None };
        let got = match conv.parse_hhmmssuuuuuu(&f[4..16], sys, &mut g) { Ok(x) => x.stamp, Err(_) => { s::check(false, "a well-formed time stamp is accepted"); return; } };
        // the date advances exactly when the clock falls back by the wrap threshold or more
        let cur = t + 9 * H + day;
        if i > 0 && prev >= cur + 15 * H { day += DAY; }
        let want = t + 9 * H + day;
        s::check(got == want, "time of day on the current date");
        s::check(g.get_utcdate_unix_nano() == day, "the date advances by one day exactly at the wrap");
        s::check(g.get_prev_timestamp() == want, "the last time stamp is remembered");
        s::check(i == 0 || got + 15 * H > prev, "a time stamp never falls back by the wrap threshold");
        // chronological messages not more than nine hours apart decode to instants exactly that far apart
        if i > 0 {
            let gap = if t >= last { t - last } else { t + DAY - last };
            if gap <= 9 * H { s::check(got == prev + gap, "chronological messages decode chronologically"); }
        }
        last = t;
        prev = want;
        s::obs(got);
    }
    s::cover("end");
}

/// set_timestamp / increment / cache_timestamp / from a calendar date
#[no_mangle]
pub extern "C" fn krx_dategen() {
    let u = s::range(0, 60_000 * DAY as i64) as u64;
    let mut g = DateUnixNanoGenerator::from_unixnano(u);
    let v = s::range(0, 60_000 * DAY as i64) as u64;
    g.set_timestamp(TimeStamp { stamp: v });
    let d = g.get_utcdate_unix_nano();
    s::check(d <= v && v - d < DAY && d % DAY == 0, "set_timestamp moves to the midnight of the instant");
    s::check(g.get_update_stamp() == v, "set_timestamp records the instant");
    g.increment(u);
    s::check(g.get_utcdate_unix_nano() == d + DAY && g.get_update_stamp() == u, "increment advances by one day");
    g.cache_timestamp(v);
    s::check(g.get_prev_timestamp() == v && g.get_utcdate_unix_nano() == d + DAY, "cache_timestamp remembers the time stamp only");
    s::cover("end");
}

// ---------------------------------------------------------------------------------------------- decoders

const ISINS: [&[u8; 12]; 3] = [b"KR4101V30008", b"KR4169V30013", b"KR7005930003"];
/// price format of a derivative message
fn deriv_fmt(tr: &[u8], isin: &[u8; 12]) -> Fmt {
    if tr == b"04F" || tr == b"05F" || tr == b"10F" { STOCK_DERIV } else if &isin[..6] == b"KR4169" { RISK_FREE } else { BASE }
}
struct Frame { b: Vec<u8>, isin: &'static [u8; 12], tod: u64, px: Fmt }
/// a frame with arbitrary bytes everywhere except the fields: kind 0: base, 1: risk free, 2: stock derivative, 3: commodity, 4: stock
fn frame(len: usize, kind: u64) -> Frame {
    let mut b = vec![0u8; len];
    s::fill(&mut b);
    b[len - 1] = 255;
    let isin = ISINS[match kind { 1 => 1, 4 => 2, 3 => 1, _ => 0 }];
    let px = match kind {
        2 => { let k = s::choose(2); b[2..5].copy_from_slice(if k == 0 { b"04F" } else { b"05F" }); STOCK_DERIV }
        3 => { b[2..5].copy_from_slice(b"10F"); STOCK_DERIV }
        4 => STOCK,
        _ => { s::assume(&b[2..5] != b"04F" && &b[2..5] != b"05F" && &b[2..5] != b"10F"); if kind == 1 { RISK_FREE } else { BASE } }
    };
    if kind != 4 { s::check(deriv_fmt(&b[2..5], isin) == px, "harness: price format"); }
    b[17..29].copy_from_slice(isin);
    let tod = time_of_day(&mut b[35..47]);
    Frame { b, isin, tod, px }
}
#[derive(Clone, Copy, PartialEq)]
struct Lv { p: i64, q: u64, c: Option<u32>, l: Option<u64> }
/// level fields in message order: ask price, bid price, ask quantity, bid quantity, then counts or market-maker quantities
fn levels(fr: &mut Frame, start: usize, n: usize, qn: Fmt, counts: bool, lp: bool) -> (Vec<Lv>, Vec<Lv>) {
    let (mut asks, mut bids, mut at) = (vec![], vec![], start);
    // signs of the prices: all positive, all negative, or exactly one negative
    let sign = if fr.px.2 { s::choose(2 * n as u64 + 2) as usize } else { 0 };
    let mut k = 1;
    for _ in 0..n {
        let mut price = |fr: &mut Frame, at: &mut usize| { k += 1; let px = fr.px; let v = write_s(&mut fr.b, *at, px, sign == 1 || sign == k); *at += width(px); v };
        let (ap, bp) = (price(fr, &mut at), price(fr, &mut at));
        let mut one = |fr: &mut Frame, f: Fmt| { let v = write(&mut fr.b, at, f); at += width(f); v };
        let (aq, bq) = (one(fr, qn) as u64, one(fr, qn) as u64);
        let (ac, bc) = if counts { (Some(one(fr, int(5)) as u32), Some(one(fr, int(5)) as u32)) } else { (None, None) };
        let (al, bl) = if lp { (Some(one(fr, qn) as u64), Some(one(fr, qn) as u64)) } else { (None, None) };
        asks.push(Lv { p: ap, q: aq, c: ac, l: al });
        bids.push(Lv { p: bp, q: bq, c: bc, l: bl });
    }
    (asks, bids)
}
fn lv(x: &LevelSnapshot) -> Lv { Lv { p: x.book_price, q: x.book_quantity, c: x.order_count, l: x.lp_quantity } }
fn old(some: bool) -> LevelSnapshot {
    LevelSnapshot { order_count: if some { Some(s::u32()) } else { None }, book_price: s::i64(), book_quantity: s::u64(), lp_quantity: if some { None } else { Some(s::u64()) } }
}
fn same_levels(got: &[LevelSnapshot], want: &[Lv], cut: usize, side: &'static str) {
    s::check(got.len() == cut, "as many levels as asked for");
    if got.len() != cut { return; }
    for i in 0..cut {
        let g = lv(&got[i]);
        if side == "ask" {
            s::check(g.p == want[i].p, "ask price of a level");
            s::check(g.q == want[i].q, "ask quantity of a level");
            s::check(g.c == want[i].c, "ask order count of a level");
            s::check(g.l == want[i].l, "ask market-maker quantity of a level");
        } else {
            s::check(g.p == want[i].p, "bid price of a level");
            s::check(g.q == want[i].q, "bid quantity of a level");
            s::check(g.c == want[i].c, "bid order count of a level");
            s::check(g.l == want[i].l, "bid market-maker quantity of a level");
        }
    }
}
fn gen() -> DateUnixNanoGenerator { DateUnixNanoGenerator::from_unixnano(s::range(0, 60_000) as u64 * DAY) }

macro_rules! quote_decoder { ($name:ident, $ty:ty, $len:expr, $max:expr, $qn:expr, $counts:expr, $lp:expr) => {
    /// params: [kind, level cut, extra buffer levels]
    #[no_mangle]
    pub extern "C" fn $name() {
        let (kind, cut, extra) = (s::param(0), s::param(1) as usize, s::param(2) as usize);
        s::check(<$ty>::default().with_quote_level_cut($max + 1).is_err(), "more levels than the message has are refused");
        let dec = <$ty>::default().with_quote_level_cut(cut).unwrap();
        let mut fr = frame($len, kind);
        let (asks, bids) = levels(&mut fr, 47, cut, $qn, $counts, $lp);
        let g0 = gen();
        let (mut g1, mut g2) = (g0, g0);
        let x = match dec.to_quote_snapshot(&fr.b, &mut g1) { Ok(x) => x, Err(_) => { s::check(false, "a well-formed message is decoded"); return; } };
        s::check(x.id.symbol_str().as_bytes() == fr.isin && x.id.venue() == Venue::KRX, "instrument and venue");
        s::check(x.timestamp.stamp == g0.get_utcdate_unix_nano() + fr.tod + 9 * H, "time of the message");
        s::check(x.quote_level_cut == cut, "level count of the message");
        same_levels(x.effective_ask_data(), &asks, cut, "ask");
        same_levels(x.effective_bid_data(), &bids, cut, "bid");
        let pc = x.order_converter.price.get_config();
        s::check((pc.digit_length as u64, pc.decimal_point_length as u64, pc.is_signed) == (fr.px.0, fr.px.1, fr.px.2), "the price format of the message is attached");
        // streaming form into a used buffer
        let mut y = QuoteSnapshot::with_quote_level(cut + extra);
        for i in 0..cut + extra { y.ask_quote_data[i] = old(i % 2 == 0); y.bid_quote_data[i] = old(i % 2 == 1); }
        y.timestamp = TimeStamp { stamp: s::range(0, i64::MAX) as u64 };
        match dec.to_quote_snapshot_buffer(&fr.b, &mut y, &mut g2) { Ok(()) => {} Err(_) => { s::check(false, "a well-formed message is decoded into a buffer"); return; } }
        s::check(y.id == x.id, "buffer form: instrument and venue");
        s::check(y.timestamp == x.timestamp && g1.get_utcdate_unix_nano() == g2.get_utcdate_unix_nano() && g1.get_prev_timestamp() == g2.get_prev_timestamp(), "buffer form: time of the message");
        s::check(y.quote_level_cut == cut, "buffer form: level count of the message");
        same_levels(y.effective_ask_data(), &asks, cut, "ask");
        same_levels(y.effective_bid_data(), &bids, cut, "bid");
        s::check(std::ptr::eq(y.order_converter, x.order_converter) && std::ptr::eq(y.order_counter, x.order_counter), "buffer form: the formats of the message are attached");
        s::obs(x.timestamp.stamp);
        s::cover("end");
    }
} }
quote_decoder!(krx_0034, IFMSRPD0034, 324, 5, int(9), true, false);
quote_decoder!(krx_0035, IFMSRPD0035, 554, 10, int(9), true, false);
quote_decoder!(krx_0002, IFMSRPD0002, 555, 10, int(12), false, false);
quote_decoder!(krx_0003, IFMSRPD0003, 795, 10, int(12), false, true);

/// the trade part of a trade message: price, quantity, accumulated quantity, direction
fn trade_part(fr: &mut Frame) -> (i64, u64, u64, TradeType) {
    let px = fr.px;
    let p = write(&mut fr.b, 47, px);
    let q = write(&mut fr.b, 56, int(9)) as u64;
    let cum = write(&mut fr.b, 119, int(12)) as u64;
    let k = s::choose(3);
    fr.b[153] = b'0' + k as u8;
    (p, q, cum, [TradeType::Undefined, TradeType::Sell, TradeType::Buy][k as usize])
}

macro_rules! trade_decoder { ($name:ident, $ty:ty, $len:expr, $max:expr) => {
    /// params: [kind, level cut, extra buffer levels]
    #[no_mangle]
    pub extern "C" fn $name() {
        let (kind, cut, extra) = (s::param(0), s::param(1) as usize, s::param(2) as usize);
        s::check(<$ty>::default().with_quote_level_cut($max + 1).is_err(), "more levels than the message has are refused");
        let with_cum = s::choose(2) == 1;
        let dec = <$ty>::default().with_quote_level_cut(cut).unwrap().with_cum_trd_qnt(with_cum);
        let mut fr = frame($len, kind);
        let (p, q, cum, dir) = trade_part(&mut fr);
        let (asks, bids) = levels(&mut fr, 172, cut, int(9), true, false);
        let g0 = gen();
        let (mut g1, mut g2) = (g0, g0);
        let x = match dec.to_trade_quote_snapshot(&fr.b, &mut g1) { Ok(x) => x, Err(_) => { s::check(false, "a well-formed message is decoded"); return; } };
        s::check(x.id.symbol_str().as_bytes() == fr.isin && x.id.venue() == Venue::KRX, "instrument and venue");
        s::check(x.timestamp.stamp == g0.get_utcdate_unix_nano() + fr.tod + 9 * H, "time of the message");
        s::check(x.trade_price == p, "traded price");
        s::check(x.trade_quantity == q, "traded quantity");
        s::check(x.trade_type == Some(dir), "direction of the trade");
        s::check(x.cumulative_trade_quantity == if with_cum { Some(cum) } else { None }, "accumulated quantity when asked for");
        s::check(x.quote_level_cut == cut, "level count of the message");
        same_levels(x.effective_ask_data(), &asks, cut, "ask");
        same_levels(x.effective_bid_data(), &bids, cut, "bid");
        let pc = x.order_converter.price.get_config();
        s::check((pc.digit_length as u64, pc.decimal_point_length as u64, pc.is_signed) == (fr.px.0, fr.px.1, fr.px.2), "the price format of the message is attached");
        // streaming form into a used buffer
        let mut y = TradeQuoteSnapshot::with_quote_level(cut + extra);
        for i in 0..cut + extra { y.ask_quote_data[i] = old(i % 2 == 0); y.bid_quote_data[i] = old(i % 2 == 1); }
        y.trade_price = s::i64(); y.trade_quantity = s::u64(); y.cumulative_trade_quantity = Some(s::u64()); y.trade_type = Some(TradeType::Sell);
        match dec.to_trade_quote_snapshot_buffer(&fr.b, &mut y, &mut g2) { Ok(()) => {} Err(_) => { s::check(false, "a well-formed message is decoded into a buffer"); return; } }
        s::check(y.id == x.id, "buffer form: instrument and venue");
        s::check(y.timestamp == x.timestamp && g1.get_utcdate_unix_nano() == g2.get_utcdate_unix_nano() && g1.get_prev_timestamp() == g2.get_prev_timestamp(), "buffer form: time of the message");
        s::check(y.trade_price == p, "buffer form: traded price");
        s::check(y.trade_quantity == q, "buffer form: traded quantity");
        s::check(y.trade_type == Some(dir), "buffer form: direction of the trade");
        s::check(y.cumulative_trade_quantity == x.cumulative_trade_quantity, "buffer form: accumulated quantity when asked for");
        s::check(y.quote_level_cut == cut, "buffer form: level count of the message");
        same_levels(y.effective_ask_data(), &asks, cut, "ask");
        same_levels(y.effective_bid_data(), &bids, cut, "bid");
        s::check(std::ptr::eq(y.order_converter, x.order_converter) && std::ptr::eq(y.order_counter, x.order_counter), "buffer form: the formats of the message are attached");
        s::obs(x.trade_price as u64);
        s::cover("end");
    }
} }
trade_decoder!(krx_0037, IFMSRPD0037, 431, 5);
trade_decoder!(krx_0038, IFMSRPD0038, 661, 10);

/// trade message without quotes; params: [kind]
#[no_mangle]
pub extern "C" fn krx_0036() {
    let kind = s::param(0);
    let with_cum = s::choose(2) == 1;
    let dec = IFMSRPD0036::default().with_cum_trd_qnt(with_cum);
    let mut fr = frame(173, kind);
    let (p, q, cum, dir) = trade_part(&mut fr);
    let g0 = gen();
    let (mut g1, mut g2) = (g0, g0);
    let x = match dec.to_trade_data(&fr.b, &mut g1) { Ok(x) => x, Err(_) => { s::check(false, "a well-formed message is decoded"); return; } };
    let mut y = TradeData::default();
    y.trade_price = s::i64(); y.trade_quantity = s::u64(); y.cumulative_trade_quantity = Some(s::u64()); y.trade_type = Some(TradeType::Sell);
    match dec.to_trade_data_buffer(&fr.b, &mut y, &mut g2) { Ok(()) => {} Err(_) => { s::check(false, "a well-formed message is decoded into a buffer"); return; } }
    for (z, g) in [(&x, &g1), (&y, &g2)] {
        s::check(z.id.symbol_str().as_bytes() == fr.isin && z.id.venue() == Venue::KRX, "instrument and venue");
        s::check(z.timestamp.stamp == g0.get_utcdate_unix_nano() + fr.tod + 9 * H && g.get_prev_timestamp() == z.timestamp.stamp, "time of the message");
        s::check(z.trade_price == p, "traded price");
        s::check(z.trade_quantity == q, "traded quantity");
        s::check(z.trade_type == Some(dir), "direction of the trade");
        s::check(z.cumulative_trade_quantity == if with_cum { Some(cum) } else { None }, "accumulated quantity when asked for");
        let pc = z.order_converter.price.get_config();
        s::check((pc.digit_length as u64, pc.decimal_point_length as u64, pc.is_signed) == (fr.px.0, fr.px.1, fr.px.2), "the price format of the message is attached");
        s::obs(z.trade_price as u64);
    }
    s::cover("end");
}

// ---------------------------------------------------------------------------------------------- refusals

/// every decoder behind one face: returns whether the one-shot and the buffer form accepted the frame
enum Buf { Q(QuoteSnapshot), T(TradeQuoteSnapshot), D(TradeData) }
const LENS: [usize; 7] = [324, 554, 555, 795, 431, 661, 173];
fn decode(k: usize, cut: usize, fr: &[u8], buf: &mut Buf, g: &mut DateUnixNanoGenerator, h: &mut DateUnixNanoGenerator) -> (bool, bool) {
    macro_rules! q { ($t:ty) => {{ let d = <$t>::default().with_quote_level_cut(cut).unwrap(); let Buf::Q(b) = buf else { return (false, false) }; (d.to_quote_snapshot(fr, g).is_ok(), d.to_quote_snapshot_buffer(fr, b, h).is_ok()) }} }
    macro_rules! t { ($t:ty) => {{ let d = <$t>::default().with_quote_level_cut(cut).unwrap(); let Buf::T(b) = buf else { return (false, false) }; (d.to_trade_quote_snapshot(fr, g).is_ok(), d.to_trade_quote_snapshot_buffer(fr, b, h).is_ok()) }} }
    match k {
        0 => q!(IFMSRPD0034), 1 => q!(IFMSRPD0035), 2 => q!(IFMSRPD0002), 3 => q!(IFMSRPD0003),
        4 => t!(IFMSRPD0037), 5 => t!(IFMSRPD0038),
        _ => { let d = IFMSRPD0036::default(); let Buf::D(b) = buf else { return (false, false) }; (d.to_trade_data(fr, g).is_ok(), d.to_trade_data_buffer(fr, b, h).is_ok()) }
    }
}
fn buffer(k: usize, levels: usize) -> Buf {
    if k < 4 {
        let mut y = QuoteSnapshot::with_quote_level(levels);
        for i in 0..levels { y.ask_quote_data[i] = old(false); y.bid_quote_data[i] = old(true); }
        Buf::Q(y)
    } else if k < 6 {
        let mut y = TradeQuoteSnapshot::with_quote_level(levels);
        for i in 0..levels { y.ask_quote_data[i] = old(false); y.bid_quote_data[i] = old(true); }
        y.trade_price = s::i64(); y.trade_quantity = s::u64();
        Buf::T(y)
    } else {
        let mut y = TradeData::default();
        y.trade_price = s::i64(); y.trade_quantity = s::u64();
        Buf::D(y)
    }
}
fn content(b: &Buf) -> Vec<Lv> {
    let mut v = vec![];
    match b {
        Buf::Q(y) => for x in y.ask_quote_data.iter().chain(&y.bid_quote_data) { v.push(lv(x)) },
        Buf::T(y) => { v.push(Lv { p: y.trade_price, q: y.trade_quantity, c: None, l: y.cumulative_trade_quantity }); for x in y.ask_quote_data.iter().chain(&y.bid_quote_data) { v.push(lv(x)) } }
        Buf::D(y) => v.push(Lv { p: y.trade_price, q: y.trade_quantity, c: None, l: y.cumulative_trade_quantity }),
    }
    v
}
fn unchanged(a: &[Lv], b: &[Lv]) {
    for i in 0..a.len() { s::check(a[i].p == b[i].p && a[i].q == b[i].q && a[i].c == b[i].c && a[i].l == b[i].l, "a refused frame leaves the prices of the buffer alone"); }
}

/// a frame that must be refused; params: [decoder, what is wrong, symbolic bytes]
/// wrong 0: length, 1: end marker, 2: blank or non-ASCII in the identifier, 3: buffer with too few levels
#[no_mangle]
pub extern "C" fn krx_bad() {
    let (k, wrong, nsym) = (s::param(0) as usize, s::param(1), s::param(2) as usize);
    let good = LENS[k];
    let cut = if k == 6 { 0 } else { 2 };
    let len = if wrong == 0 { let c = [0, 1, 5, 17, 29, 47, good - 1, good + 1, good + 40]; c[s::choose(c.len() as u64) as usize] } else { good };
    let mut b = vec![b'0'; len];
    if len >= 29 { b[17..29].copy_from_slice(b"KR4101V30008"); }
    if len > 0 { b[len - 1] = 255; }
    // a window of arbitrary bytes: at the start, in the identifier, at the end
    let n = nsym.min(len);
    let at = [0, 17.min(len - n), len - n][s::choose(3) as usize];
    if wrong != 2 { s::fill(&mut b[at..at + n]); }
    match wrong {
        1 => { let e = s::u8(); s::assume(e != 255); b[good - 1] = e; }
        2 => {
            let i = 17 + s::choose(12) as usize;
            let e = s::u8();
            s::assume(e == b' ' || e == b'\t' || e >= 128);
            b[i] = e;
            b[good - 1] = 255;
        }
        3 => { s::assume(b[good - 1] == 255); }
        _ => {}
    }
    let mut buf = buffer(k, cut);
    if wrong == 3 {
        let side = s::choose(2);
        match &mut buf { Buf::Q(y) => { if side == 0 { y.ask_quote_data.pop(); } else { y.bid_quote_data.pop(); } } Buf::T(y) => { if side == 0 { y.ask_quote_data.pop(); } else { y.bid_quote_data.pop(); } } _ => {} }
    }
    let before = content(&buf);
    let g0 = gen();
    let (mut g, mut h) = (g0, g0);
    let (one, stream) = decode(k, cut, &b, &mut buf, &mut g, &mut h);
    if wrong != 3 { s::check(!one, "a malformed frame is refused"); s::check(g.get_utcdate_unix_nano() == g0.get_utcdate_unix_nano() && g.get_prev_timestamp() == 0, "a refused frame leaves the date alone"); }
    s::check(!stream, "a malformed frame, or a buffer with too few levels, is refused in buffer form");
    s::check(h.get_utcdate_unix_nano() == g0.get_utcdate_unix_nano() && h.get_prev_timestamp() == 0, "a refused frame leaves the date alone");
    unchanged(&before, &content(&buf));
    s::cover("end");
}

/// a frame of the right length and end marker with arbitrary bytes in every field but the identifier: never a crash or a read outside
#[no_mangle]
pub extern "C" fn krx_any() {
    let (k, cut) = (s::param(0) as usize, s::param(1) as usize);
    let mut b = vec![0u8; LENS[k]];
    s::fill(&mut b);
    b[17..29].copy_from_slice(ISINS[s::choose(2) as usize]);
    b[LENS[k] - 1] = 255;
    let mut buf = buffer(k, cut);
    let g0 = gen();
    let (mut g, mut h) = (g0, g0);
    let (one, stream) = decode(k, cut, &b, &mut buf, &mut g, &mut h);
    s::check(one == stream, "both forms accept the same frames");
    s::cover("end");
}

/// level cuts beyond the levels of the message are refused
#[no_mangle]
pub extern "C" fn krx_level_cut() {
    let c = s::range(0, 64) as usize;
    s::check(IFMSRPD0034::default().with_quote_level_cut(c).is_ok() == (c <= 5), "0034 has five levels");
    s::check(IFMSRPD0037::default().with_quote_level_cut(c).is_ok() == (c <= 5), "0037 has five levels");
    s::check(IFMSRPD0035::default().with_quote_level_cut(c).is_ok() == (c <= 10), "0035 has ten levels");
    s::check(IFMSRPD0038::default().with_quote_level_cut(c).is_ok() == (c <= 10), "0038 has ten levels");
    s::check(IFMSRPD0002::default().with_quote_level_cut(c).is_ok() == (c <= 10), "0002 has ten levels");
    s::check(IFMSRPD0003::default().with_quote_level_cut(c).is_ok() == (c <= 10), "0003 has ten levels");
    if c <= 5 { s::check(IFMSRPD0034::default().with_quote_level_cut(c).unwrap().get_quote_level_cut() == c, "the level cut is kept"); }
    s::cover("end");
}
