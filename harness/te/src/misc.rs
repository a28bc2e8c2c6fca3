//! Identifiers, counters, time stamps, the worker queue and the tick features.
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use rustc_hash::FxHasher;
use symrt as s;
use time::{Date, Month};
use trading_engine::data::krx::krx_converter::*;
use trading_engine::data::{quote::QuoteSnapshot, trade::TradeData, trade_quote::TradeQuoteSnapshot};
use trading_engine::feature::{tick::*, weight::TimeSeriesWeight, weighted_valuation::*};
use trading_engine::spinqueue::*;
use trading_engine::types::base::*;
use trading_engine::types::id::{isin_code::IsinCode, ticker::Ticker, InstId, Symbol, IdData};
use trading_engine::types::timestamp::*;
use trading_engine::types::venue::Venue;
use trading_engine::utils::counter::*;
use trading_engine::utils::timer::*;

fn fx<T: Hash>(x: &T) -> u64 { let mut h = FxHasher::default(); x.hash(&mut h); h.finish() }

// ---- identifiers ----
fn legal(c: u8) -> bool { (c < 128) & (c != b' ') & (c != b'\t') }

/// one arbitrary byte at any position of an identifier of any length up to 13
#[no_mangle]
pub extern "C" fn id_accept() {
    let len = s::choose(14) as usize;
    let mut b = b"KR7005930003Z"[..len].to_vec();
    let mut ok = len == 12;
    if len > 0 { let p = s::choose(len as u64) as usize; b[p] = s::u8(); ok &= legal(b[p]); }
    let r = IsinCode::new(&b);
    s::check(r.is_ok() == ok, "exactly the identifiers of twelve legal bytes are accepted");
    if let Ok(i) = r { s::check(i.as_bytes() == &b[..], "an accepted identifier reads back as its bytes"); }
    s::cover("end");
}

/// two arbitrary legal identifiers
#[no_mangle]
pub extern "C" fn id_eq() {
    let (mut a, mut b) = ([0u8; 12], [0u8; 12]);
    s::fill(&mut a); s::fill(&mut b);
    let mut ok = true;
    for i in 0..12 { ok &= legal(a[i]) & legal(b[i]); }
    s::assume(ok);
    let (x, y) = (IsinCode::new(&a).unwrap(), IsinCode::new(&b).unwrap());
    let mut same = true;
    for i in 0..12 { same &= a[i] == b[i]; }
    s::check((x == y) == same, "identifiers are equal exactly when their bytes are");
    s::check((x == &b[..]) == same && (x == b.to_vec()) == same && (b.to_vec() == x) == same, "comparison with bytes");
    let t = y.as_str();
    s::check((x == t) == same && (t == x) == same, "comparison with text");
    s::check(x.as_bytes() == &a[..] && x.as_str().as_bytes() == &a[..] && x.clone() == x, "an identifier reads back as its bytes");
    let n = s::choose(13) as usize;
    let mut pre = true;
    for i in 0..n { pre &= a[i] == b[i]; }
    s::check(x.starts_with(&b[..n]) == pre, "prefix test");
    s::cover("end");
}
#[no_mangle]
pub extern "C" fn id_hash() {
    let mut a = [b'A'; 12];
    let w = s::param(0) as usize;
    s::fill(&mut a[w..w + 4]);
    let mut ok = true;
    for i in 0..12 { ok &= legal(a[i]); }
    s::assume(ok);
    let (x, y) = (IsinCode::new(&a).unwrap(), IsinCode::new(&a.to_vec()).unwrap());
    s::check(fx(&x) == fx(&y), "equal identifiers hash equally");
    let z = Ticker::new(&a).unwrap();
    s::check(fx(&z) == fx(&Ticker::new(&a).unwrap()), "equal tickers hash equally");
    s::cover("end");
}

/// tickers: params [length a, length b]
#[no_mangle]
pub extern "C" fn id_ticker() {
    let (n, m) = (s::param(0) as usize, s::param(1) as usize);
    let (mut a, mut b) = (vec![0u8; n], vec![0u8; m]);
    if n <= 32 { s::fill(&mut a); } else { a.fill(b'Q'); }
    if m <= 32 { s::fill(&mut b); } else { b.fill(b'Q'); }
    let mut ok = true;
    for c in a.iter().chain(&b) { ok &= (*c != 0) & (*c < 128); }
    s::assume(ok);
    let (x, y) = (Ticker::new(&a), Ticker::new(&b));
    s::check(x.is_ok() == (n <= 32) && y.is_ok() == (m <= 32), "tickers of up to 32 bytes are accepted");
    if let (Ok(x), Ok(y)) = (x, y) {
        let mut same = n == m;
        for i in 0..n.min(m) { same &= a[i] == b[i]; }
        s::check((x == y) == same, "tickers are equal exactly when their bytes are");
        let t = x.as_str().as_bytes();
        let mut back = t.len() >= n;
        for i in 0..t.len() { back &= t[i] == if i < n { a[i] } else { 0 }; }
        s::check(back, "a ticker reads back as its bytes");
        s::check(x.clone() == x, "a cloned ticker is equal");
    }
    s::cover("end");
}

/// interned identifiers: params [how many]
#[no_mangle]
pub extern "C" fn id_intern() {
    let n = s::param(0) as usize;
    let venues = [Venue::KRX, Venue::Undefined, Venue::CCP, Venue::KIS, Venue::SI];
    let symbol = |k: u64| match k { 0 => Symbol::Isin(IsinCode::new(b"KR7005930003").unwrap()), 1 => Symbol::Isin(IsinCode::new(b"KR7005930004").unwrap()), 2 => Symbol::Ticker(Ticker::new(b"KR7005930003").unwrap()), 3 => Symbol::Ticker(Ticker::new(b"").unwrap()), _ => Symbol::default() };
    let text: [&[u8]; 5] = [b"KR7005930003", b"KR7005930004", b"KR7005930003", b"", &[0; 12]];
    let mut made: Vec<(u64, u64, InstId)> = vec![];
    for i in 0..n {
        let (k, v) = if i == 0 { (s::choose(5), s::choose(2)) } else { (s::choose(5), s::choose(if i == 1 { 5 } else { 2 })) };
        let id = InstId::new(symbol(k), venues[v as usize]);
        let want = IdData { symbol: symbol(k), venue: venues[v as usize] };
        s::check(*id.get_id() == want && id.get_id_clone() == want && id.venue() == venues[v as usize], "an interned id keeps its symbol and venue");
        let t = id.symbol_str().as_bytes();
        let w = text[k as usize];
        s::check(t.len() >= w.len() && &t[..w.len()] == w && t[w.len()..].iter().all(|c| *c == 0), "an interned id reads back its symbol");
        for (k2, v2, o) in &made {
            let same = *k2 == k && *v2 == v;
            s::check((id == *o) == same, "interned ids are equal exactly when symbol and venue are");
            if same { s::check(fx(&id) == fx(o), "equal interned ids hash equally"); }
        }
        s::check((id == InstId::default()) == (k == 4 && v == 0), "the default id is the interned default data");
        made.push((k, v, id));
    }
    s::cover("end");
}

// ---- counters ----
static mut OUT: [[u64; 3]; 3] = [[0; 3]; 3];
static mut ERRS: [u64; 3] = [0; 3];
static mut CU: Option<UnboundedCounterU64> = None;
static mut CS: Option<UnboundedCounterUsize> = None;
static mut BU: Option<CounterU64> = None;
static mut BS: Option<CounterUsize> = None;
static mut KIND: u64 = 0;
static mut CALLS: usize = 0;
#[allow(static_mut_refs)]
fn call() -> Option<u64> {
    unsafe { match KIND { 0 => CU.as_ref().map(|c| c.next()), 1 => CS.as_ref().map(|c| c.next() as u64), 2 => BU.as_ref().unwrap().next().ok(), _ => BS.as_ref().unwrap().next().ok().map(|x| x as u64) } }
}
#[allow(static_mut_refs)]
extern "C" fn caller(t: *mut u8) {
    let t = t as usize;
    unsafe { for i in 0..CALLS { match call() { Some(v) => OUT[t][i - ERRS[t] as usize] = v, None => ERRS[t] += 1 } } }
}
/// params: [counter 0: unbounded u64, 1: unbounded usize, 2: bounded u64, 3: bounded usize, threads, calls per thread]
#[no_mangle]
#[allow(static_mut_refs)]
pub extern "C" fn cnt_threads() {
    let (kind, threads, calls) = (s::param(0), s::param(1) as usize, s::param(2) as usize);
    let start = s::u64();
    s::assume(start < 1 << 62);
    let end = if kind >= 2 { s::range(0, 1 << 62) as u64 } else { u64::MAX };
    if kind >= 2 { s::assume(start <= end); }
    unsafe {
        KIND = kind; CALLS = calls;
        CU = Some(UnboundedCounterU64::new(start)); CS = Some(UnboundedCounterUsize::new(start as usize));
        BU = Some(CounterU64::new(start, end)); BS = Some(CounterUsize::new(start as usize, end as usize));
        let hs: Vec<u64> = (1..threads).map(|t| s::spawn(caller, t as *mut u8)).collect();
        caller(0 as *mut u8);
        for h in hs { s::join(h); }
        let total = (threads * calls) as u64;
        let room = if kind >= 2 { end - start + 1 } else { u64::MAX };
        let mut all = vec![];
        let mut errs = 0;
        for t in 0..threads { errs += ERRS[t]; for i in 0..calls - ERRS[t] as usize { all.push(OUT[t][i]); } }
        s::check(errs == if room < total { total - room } else { 0 }, "a bounded counter refuses exactly the calls beyond its end");
        for i in 0..all.len() {
            s::check(all[i] >= start && all[i] <= end && all[i] - start < all.len() as u64, "values are consecutive from the start and within the bounds");
            for j in 0..i { s::check(all[i] != all[j], "no value is handed out twice"); }
        }
        if errs == 0 && kind < 2 { s::check(call() == Some(start + total), "the next value follows"); }
    }
    s::cover("end");
}
#[no_mangle]
pub extern "C" fn cnt_virtual_id() {
    let a = s::u64(); s::assume(a < 1 << 62);
    let mut v = VirtualOrderId::new(a);
    for i in 0..4 { s::check(v.next_id() == a + i, "virtual order ids are consecutive"); }
    s::check(v.order_id == a + 4, "the next virtual order id");
    s::cover("end");
}

// ---- time ----
#[no_mangle]
pub extern "C" fn tm_components() {
    let t = s::u64();
    let (h, m, sec, ms) = time_components_from_unix_nano(t);
    s::check(h < 24 && m < 60 && sec < 60 && ms < 1000, "components are in range");
    let day = t / DAY_NANOSCALE * DAY_NANOSCALE;
    let rest = t - day;
    let back = h as u64 * HOUR_NANOSCALE + m as u64 * MINUTE_NANOSCALE + sec as u64 * SECOND_NANOSCALE + ms as u64 * MILLI_NANOSCALE;
    s::check(back <= rest && rest - back < MILLI_NANOSCALE, "the components give the time of day to the millisecond");
    s::obs(back);
    s::cover("end");
}
fn num(b: &[u8]) -> u64 { let mut v = 0; for c in b { v = v * 10 + (*c - b'0') as u64; } v }
/// params: [year, 0, 6: every day, 1: every hour, 2: every minute and second, 3-5: every millisecond, microsecond, nanosecond]; whole-hour offsets
#[no_mangle]
pub extern "C" fn tm_text() {
    let y = s::param(0) as i32;
    let what = s::param(1);
    let off = if what == 0 { 9 } else if what == 6 { -5 } else if what >= 3 { 0 } else { [0, 9, -5, 14, -12][s::choose(5) as usize] };
    let jan1 = Date::from_calendar_date(y, Month::January, 1).unwrap();
    let base = jan1.to_julian_day() as i64 - 2440588;
    let days = if time::util::is_leap_year(y) { 366 } else { 365 };
    let d = if what == 0 || what == 6 { let w = s::choose(12) as i64; let lo = w * 31; s::range(lo, (lo + 30).min(days - 1)) } else { 58 };
    let hour = if what == 1 { s::range(0, 23) } else if what == 0 { 23 } else if what == 6 { 0 } else if what >= 3 { 13 } else { [0, 13, 23][s::choose(3) as usize] };
    let (mi, se) = if what == 2 { (s::range(0, 59), s::range(0, 59)) } else { (7, 59) };
    let (mut ms, mut us, mut ns) = (1, 2, 999);
    match what { 3 => ms = s::range(0, 999), 4 => us = s::range(0, 999), 5 => ns = s::range(0, 999), _ => {} }
    let sub = ((mi * 60 + se) * 1000 + ms) * 1_000_000 + us * 1000 + ns;
    let (date, clock) = convert_unix_nano_to_date_and_time((base + d) as u64 * DAY_NANOSCALE + hour as u64 * HOUR_NANOSCALE + sub as u64, off);
    let lh = hour + off as i64;
    let (ld, lh) = if lh >= 24 { (d + 1, lh - 24) } else if lh < 0 { (d - 1, lh + 24) } else { (d, lh) };
    let want = Date::from_julian_day((base + ld) as i32 + 2440588).unwrap();
    let (b, c) = (date.as_bytes(), clock.as_bytes());
    s::check(b.len() == 8 && c.len() == 20, "eight-digit date and fixed-width time");
    let (wy, wm, wd) = want.to_calendar_date();
    s::check(num(&b[..4]) == wy as u64 && num(&b[4..6]) == wm as u8 as u64 && num(&b[6..]) == wd as u64, "the local civil date");
    s::check(num(&c[..2]) == lh as u64, "hours");
    s::check(num(&c[3..5]) == mi as u64, "minutes");
    s::check(num(&c[6..8]) == se as u64, "seconds");
    s::check(num(&c[9..12]) == ms as u64, "milliseconds");
    s::check(num(&c[13..16]) == us as u64, "microseconds");
    s::check(num(&c[17..20]) == ns as u64, "nanoseconds");
    s::check(c[2] == b':' && c[5] == b':' && c[8] == b'.' && c[12] == b':' && c[16] == b':', "separators");
    s::cover("end");
}
fn close(got: f64, want: f64) -> bool { got.to_bits() == want.to_bits() || (got - want).abs() <= 1e-9 * (want.abs() + 1.0) }
#[no_mangle]
pub extern "C" fn tm_diff() {
    let (a, d) = (s::u64(), s::u64());
    s::assume(a < 1 << 62 && d < 1 << 50);
    let (x, y) = (TimeStamp::new(a + d), TimeStamp::new(a));
    let f = |u: u64| (d / u) as f64 + (d % u) as f64 / u as f64;
    s::check(close(x.diff_in_nanos(y), d as f64), "difference in nanoseconds");
    s::check(close(x.diff_in_micros(y), f(1000)), "difference in microseconds");
    s::check(close(x.diff_in_millis(y), f(1_000_000)), "difference in milliseconds");
    s::check(close(x.diff_in_secs(y), f(1_000_000_000)), "difference in seconds");
    s::check(close(x.diff_in_mins(y), f(60_000_000_000)), "difference in minutes");
    s::check(close(x.diff_in_hours(y), f(3_600_000_000_000)), "difference in hours");
    s::check(close(x.diff_in_days(y), f(86_400_000_000_000)), "difference in days");
    s::obs(x.diff_in_nanos(y).to_bits());
    s::cover("end");
}
/// params: [year]
#[no_mangle]
pub extern "C" fn tm_dategen() {
    let y = s::param(0) as i32;
    let days = if time::util::is_leap_year(y) { 366 } else { 365 };
    let base = Date::from_calendar_date(y, Month::January, 1).unwrap().to_julian_day() as i64 - 2440588;
    let d = s::range(1, days);
    let date = Date::from_ordinal_date(y, d as u16).unwrap();
    let nano = (base + d - 1) as u64 * DAY_NANOSCALE;
    let t = s::range(0, DAY_NANOSCALE as i64 - 1) as u64;
    s::check(DateUnixNanoGenerator::from(date).get_utcdate_unix_nano() == nano, "midnight of a date");
    let g = DateUnixNanoGenerator::from_unixnano(nano + t);
    s::check(g.get_utcdate_unix_nano() == nano && g.get_prev_timestamp() == 0, "midnight of an instant");
    let mut h = DateUnixNanoGenerator::from_unixnano(0);
    h.set_timestamp(TimeStamp::new(nano + t));
    s::check(h.get_utcdate_unix_nano() == nano && h.get_update_stamp() == nano + t, "midnight of a set time stamp");
    h.increment(7);
    s::check(h.get_utcdate_unix_nano() == nano + DAY_NANOSCALE && h.get_update_stamp() == 7, "one day later");
    h.cache_timestamp(t);
    s::check(h.get_prev_timestamp() == t, "cached time stamp");
    let dt = TimeStamp::new(nano + 3_661_000_000_007).to_datetime().unwrap();
    s::check(dt.date() == date && (dt.hour(), dt.minute(), dt.second(), dt.nanosecond()) == (1, 1, 1, 7), "date and time of a time stamp");
    s::check(TimeStamp::new(nano + DAY_NANOSCALE - 1).to_date_utc().unwrap() == date, "date of a time stamp");
    s::cover("end");
}

// ---- worker queue ----
fn worker(id: u16) -> WorkerId { WorkerId::new(id).unwrap() }
#[no_mangle]
pub extern "C" fn q_ids() {
    let i = s::u16();
    let r = WorkerId::new(i);
    s::check(r.is_ok() == (i < 16), "worker ids are those that fit the status word");
    if let Ok(w) = r { s::check(w.id == i && w.id_bit == 1 << i && w.work_done_mask() == !(1u16 << i), "each worker has its own bit"); }
    let (a, b, c) = (s::range(0, 15) as u16, s::range(0, 15) as u16, s::range(0, 15) as u16);
    let distinct = a != b && b != c && a != c;
    s::check(DataSpinQueue::new(1u64, vec![worker(a), worker(b), worker(c)]).is_ok() == distinct, "workers must be distinct");
    s::cover("end");
}
/// params: [steps]; any history of publish, read and done by two registered workers and an unregistered one
#[no_mangle]
pub extern "C" fn q_history() {
    let n = s::param(0);
    let (a, b) = (s::range(0, 15) as u16, s::range(0, 15) as u16);
    let c = s::range(0, 15) as u16;
    s::assume((a != b) & (b != c) & (a != c));
    let w = [worker(a), worker(b), worker(c)];
    let v0 = s::u64();
    let q = DataSpinQueue::new(v0, vec![w[0].clone(), w[1].clone()]).unwrap();
    let (mut value, mut todo) = (v0, [false; 3]);
    for _ in 0..n {
        match s::choose(3) {
            0 => {
                let free = !todo[0] && !todo[1];
                s::check(q.ready_to_update() == free, "an update is allowed exactly when every worker is done");
                match q.get_mut() {
                    Some(p) => { s::check(free, "the writer gets the slot only when every worker is done"); value = s::u64(); unsafe { *p = value }; q.notify_all_workers(); todo = [true, true, false]; }
                    None => s::check(!free, "the writer gets the slot when every worker is done"),
                }
            }
            1 => {
                let i = s::choose(3) as usize;
                s::check(q.ready_to_work(&w[i]) == todo[i], "a worker has work exactly when it has not finished the published item");
                match q.get(&w[i]) { Some(p) => { s::check(todo[i], "an item is handed out once per worker"); s::check(unsafe { *p } == value, "the item read is the item published"); } None => s::check(!todo[i], "a published item is handed to each worker") }
            }
            _ => { let i = s::choose(3) as usize; q.work_done(&w[i]); todo[i] = false; }
        }
    }
    s::cover("end");
}
static mut Q: Option<DataSpinQueue<(u64, u64)>> = None;
static mut GOT: [[u64; 4]; 2] = [[0; 4]; 2];
static mut NGOT: [usize; 2] = [0; 2];
static mut TRIES: usize = 0;
#[allow(static_mut_refs)]
extern "C" fn reader(t: *mut u8) {
    let t = t as usize;
    let w = worker(3 * t as u16);
    unsafe {
        let q = Q.as_ref().unwrap();
        for _ in 0..TRIES {
            if let Some(p) = q.get(&w) {
                let (x, y) = std::ptr::read_volatile(p);
                s::check(y == !x, "a worker never sees a half-written item");
                GOT[t][NGOT[t]] = x; NGOT[t] += 1;
                q.work_done(&w);
            }
        }
    }
}
/// one writer and one or two workers under every interleaving; params [workers, writer attempts, reader attempts]
#[no_mangle]
#[allow(static_mut_refs)]
pub extern "C" fn q_threads() {
    let (nw, wt, rt) = (s::param(0) as usize, s::param(1), s::param(2) as usize);
    unsafe {
        TRIES = rt;
        Q = Some(DataSpinQueue::new((0, !0), (0..nw).map(|i| worker(3 * i as u16)).collect()).unwrap());
        let q = Q.as_ref().unwrap();
        let hs: Vec<u64> = (0..nw).map(|t| s::spawn(reader, t as *mut u8)).collect();
        let mut k = 0;
        for _ in 0..wt {
            if let Some(p) = q.get_mut() {
                k += 1;
                std::ptr::write_volatile(p as *mut u64, k);
                std::ptr::write_volatile((p as *mut u64).add(1), !k);
                q.notify_all_workers();
            }
        }
        for h in hs { s::join(h); }
        for t in 0..nw {
            for i in 0..NGOT[t] { s::check(GOT[t][i] == i as u64 + 1, "each worker gets every item once, in publication order"); }
            s::check(NGOT[t] as u64 <= k && NGOT[t] as u64 + 1 >= k, "no item is lost or repeated");
        }
    }
    s::cover("end");
}
/// an empty queue can be dropped
#[no_mangle]
pub extern "C" fn q_default() {
    let q: DataSpinQueue<Vec<u64>> = DataSpinQueue::default();
    s::check(q.ready_to_update(), "an empty queue has no pending work");
    s::check(q.get(&worker(s::range(0, 15) as u16)).is_none(), "an empty queue hands out nothing");
    drop(q);
    let mut v = vec![1u64];
    v.push(s::u64());
    let q = DataSpinQueue::new(v, vec![worker(1)]).unwrap();
    drop(q);
    s::cover("end");
}

// ---- features ----
const M: i64 = 1 << 20;
fn levels(n: usize, b: &mut Vec<LevelSnapshot>) { b.clear(); for _ in 0..n { b.push(LevelSnapshot { book_price: s::range(-M, M), book_quantity: if s::choose(2) == 0 { 0 } else { s::range(1, M) as u64 }, order_count: None, lp_quantity: None }); } }
fn trade_quotes(n: usize, extra: usize, kind: u64) -> TradeQuoteSnapshot {
    let mut t = TradeQuoteSnapshot::with_quote_level(n + extra);
    levels(n + extra, &mut t.ask_quote_data); levels(n + extra, &mut t.bid_quote_data);
    t.quote_level_cut = n;
    t.timestamp = TimeStamp::new(s::u64());
    t.order_converter = converter(kind);
    t
}
fn quotes(t: &TradeQuoteSnapshot) -> QuoteSnapshot {
    let mut q = QuoteSnapshot::with_quote_level(t.ask_quote_data.len());
    q.ask_quote_data = t.ask_quote_data.clone(); q.bid_quote_data = t.bid_quote_data.clone();
    q.quote_level_cut = t.quote_level_cut; q.timestamp = t.timestamp; q.order_converter = t.order_converter;
    q
}
use trading_engine::utils::numeric_converter::OrderConverter;
fn converter(kind: u64) -> &'static OrderConverter {
    match kind { 0 => get_krx_base_bond_order_converter(), 1 => get_krx_stock_order_converter(), _ => get_krx_repo_order_converter() }
}
struct L { p: f64, q: f64 }
fn model(c: &OrderConverter, l: &[LevelSnapshot], n: usize) -> Vec<L> { l[..n].iter().map(|x| L { p: c.price.normalized_real_from_i64(x.book_price), q: c.quantity.normalized_real_from_u64(x.book_quantity) }).collect() }
fn best(l: &[L]) -> Option<f64> { l.iter().find(|x| x.q > 0.0).map(|x| x.p) }
fn same(a: Option<f64>, b: Option<f64>) -> bool { match (a, b) { (None, None) => true, (Some(x), Some(y)) => close(x, y), _ => false } }
fn check_quotes(f: &SimpleQuotes, t: &TradeQuoteSnapshot, full: bool) {
    let c = t.order_converter;
    let (a, b) = (model(c, &t.ask_quote_data, t.quote_level_cut), model(c, &t.bid_quote_data, t.quote_level_cut));
    s::check(same(f.best_ask_price(), best(&a)), "best ask: the first level with a quantity");
    s::check(same(f.best_bid_price(), best(&b)), "best bid: the first level with a quantity");
    s::check(same(f.mid_price(), best(&a).zip(best(&b)).map(|(x, y)| (x + y) / 2.0)), "mid price: the mean of the best prices");
    if full {
        let (mut q, mut v) = (0.0, 0.0);
        for x in &a { q += x.q; v += x.p * x.q / 100.0; }
        let asks = q > 0.0;
        for x in &b { q += x.q; v += x.p * x.q / 100.0; }
        if asks { s::check(same(f.vwap(), Some(v / q * 100.0)), "volume-weighted price: value over quantity of all levels"); }
        if q == 0.0 { s::check(f.vwap().is_none(), "no volume-weighted price without quantity"); }
    }
}
/// params: [levels, extra levels in the data, converter, how 0: new, 1: update, 2: update of an empty feature, vwap]
#[no_mangle]
pub extern "C" fn ft_quotes() {
    let (n, x, kind, how, full) = (s::param(0) as usize, s::param(1) as usize, s::param(2), s::param(3), s::param(4) != 0);
    let t = trade_quotes(n, x, kind);
    let q = quotes(&t);
    let (mut f, mut g) = match how {
        0 => (SimpleQuotes::new_from_trade_quote_snapshot(&t), SimpleQuotes::new_from_quote_sanpshot(&q)),
        1 => { let old = trade_quotes(n, 0, 0); (SimpleQuotes::new_from_trade_quote_snapshot(&old), SimpleQuotes::new_from_quote_sanpshot(&quotes(&old))) }
        _ => (SimpleQuotes::with_capacity(n), SimpleQuotes::with_capacity(n)),
    };
    if how > 0 { s::check(f.update_trade_quote_snapshot(&t).is_ok() && g.update_quote_snapshot(&q).is_ok(), "an update with enough levels is accepted"); }
    check_quotes(&f, &t, full);
    check_quotes(&g, &t, full);
    s::cover("end");
}
/// an update with too few levels is refused and changes nothing; params: [levels, levels of the update]
#[no_mangle]
pub extern "C" fn ft_refuse() {
    let (n, m) = (s::param(0) as usize, s::param(1) as usize);
    let (t, u) = (trade_quotes(n, 0, 0), trade_quotes(m, 0, 1));
    let mut f = SimpleQuotes::new_from_trade_quote_snapshot(&t);
    let mut g = SimpleQuotes::new_from_quote_sanpshot(&quotes(&t));
    s::check(f.update_trade_quote_snapshot(&u).is_err() && g.update_quote_snapshot(&quotes(&u)).is_err(), "an update with too few levels is refused");
    check_quotes(&f, &t, false);
    check_quotes(&g, &t, false);
    s::cover("end");
}
/// case split on how the price moved
fn order(a: &LevelSnapshot, b: &LevelSnapshot) -> i64 {
    match s::choose(3) {
        0 => { s::assume(b.book_price < a.book_price); -1 }
        1 => { s::assume(b.book_price == a.book_price); 0 }
        _ => { s::assume(b.book_price > a.book_price); 1 }
    }
}
/// flow of a side for which a move in the direction of `sign` is an improvement
fn flow(a: &L, b: &L, moved: i64) -> f64 { match moved { 1 => b.q, 0 => b.q - a.q, _ => -a.q } }
/// order-flow imbalance between two snapshots; params: [levels, converter]
#[no_mangle]
pub extern "C" fn ft_ofi() {
    let n = s::param(0) as usize;
    let kind = s::param(1);
    let (t, u) = (trade_quotes(n, 0, kind), trade_quotes(n, 0, kind));
    let (f, g) = (SimpleQuotes::new_from_trade_quote_snapshot(&t), SimpleQuotes::new_from_trade_quote_snapshot(&u));
    let c = t.order_converter;
    let (ta, tb, ua, ub) = (model(c, &t.ask_quote_data, n), model(c, &t.bid_quote_data, n), model(c, &u.ask_quote_data, n), model(c, &u.bid_quote_data, n));
    let i = s::choose(n as u64) as usize;
    let l = i + 1;
    let (x, y) = (order(&t.bid_quote_data[i], &u.bid_quote_data[i]), order(&t.ask_quote_data[i], &u.ask_quote_data[i]));
    let (b, a, o) = (f.get_bid_orderflow_imbalance(l, &g), f.get_ask_orderflow_imbalance(l, &g), f.get_orederflow_imbalance(l, &g));
    let (wb, wa) = (flow(&tb[i], &ub[i], x), flow(&ta[i], &ua[i], -y));
    let (b, a) = (b.unwrap(), a.unwrap());
    s::check(close(b, wb), "bid order flow");
    s::check(close(a, wa), "ask order flow");
    s::check(close(o.unwrap(), b - a), "order-flow imbalance: bid flow minus ask flow");
    s::obs(wb.to_bits());
    s::cover("end");
}
/// levels that one of the snapshots does not have; params: [levels, levels of the later snapshot, level asked for]
#[no_mangle]
pub extern "C" fn ft_ofi_level() {
    let (n, m, l) = (s::param(0) as usize, s::param(1) as usize, s::param(2) as usize);
    let make = |n: usize| { let mut t = TradeQuoteSnapshot::with_quote_level(n); for (i, x) in t.ask_quote_data.iter_mut().chain(t.bid_quote_data.iter_mut()).enumerate() { x.book_price = 100 + i as i64; x.book_quantity = 7; } t.quote_level_cut = n; SimpleQuotes::new_from_trade_quote_snapshot(&t) };
    let (f, g) = (make(n), make(m));
    let ok = l >= 1 && l <= n && l <= m;
    s::check(f.get_bid_orderflow_imbalance(l, &g).is_ok() == ok && f.get_ask_orderflow_imbalance(l, &g).is_ok() == ok && f.get_orederflow_imbalance(l, &g).is_ok() == ok, "only the levels of both snapshots have an order flow");
    s::check(f.get_bid_ln_orderflow_imbalance(l, &g).is_ok() == ok && f.get_ask_ln_orderflow_imbalance(l, &g).is_ok() == ok && f.get_ln_orderflow_imbalance(l, &g).is_ok() == ok, "only the levels of both snapshots have a logarithmic order flow");
    s::cover("end");
}
fn ln_flow(a: &L, b: &L, up: bool) -> Option<f64> {
    if b.p == a.p { if a.q > 0.0 && b.q > 0.0 { Some((b.q / a.q).ln()) } else { None } }
    else if (b.p > a.p) == up { if b.q > 0.0 { Some(b.q.ln()) } else { None } }
    else if a.q > 0.0 { Some(-a.q.ln()) } else { None }
}
fn ln_ok(got: f64, want: Option<f64>) -> bool { match want { Some(w) => got.to_bits() == w.to_bits(), None => got == 0.0 } }
#[no_mangle]
pub extern "C" fn ft_lnofi() {
    let (t, u) = (trade_quotes(1, 0, 0), trade_quotes(1, 0, 0));
    let (f, g) = (SimpleQuotes::new_from_trade_quote_snapshot(&t), SimpleQuotes::new_from_trade_quote_snapshot(&u));
    let c = t.order_converter;
    let (ta, tb, ua, ub) = (model(c, &t.ask_quote_data, 1), model(c, &t.bid_quote_data, 1), model(c, &u.ask_quote_data, 1), model(c, &u.bid_quote_data, 1));
    let (b, a) = (f.get_bid_ln_orderflow_imbalance(1, &g).unwrap(), f.get_ask_ln_orderflow_imbalance(1, &g).unwrap());
    s::check(ln_ok(b, ln_flow(&tb[0], &ub[0], true)), "logarithmic bid order flow, zero where it has no value");
    s::check(ln_ok(a, ln_flow(&ta[0], &ua[0], false)), "logarithmic ask order flow, zero where it has no value");
    let o = f.get_ln_orderflow_imbalance(1, &g).unwrap();
    s::check(o.to_bits() == (b - a).to_bits(), "logarithmic imbalance: bid flow minus ask flow");
    s::cover("end");
}
const SCALES: [(TimeScale, u64); 6] = [(TimeScale::Micro, 1000), (TimeScale::Milli, 1_000_000), (TimeScale::Second, SECOND_NANOSCALE), (TimeScale::Minute, MINUTE_NANOSCALE), (TimeScale::Hour, HOUR_NANOSCALE), (TimeScale::Day, DAY_NANOSCALE)];
/// exponentially weighted mean and sum over a sequence of observations; params: [observations, time scale]
#[no_mangle]
pub extern "C" fn ft_ewm() {
    let n = s::param(0);
    let (scale, unit) = SCALES[s::param(1) as usize];
    let w = [0.5f64, 0.999][s::choose(2) as usize];
    let weight = TimeSeriesWeight { weight: w, scale };
    let mut t = unit * 1000;
    let v0 = s::range(-1000, 1000) as f64;
    let (mut e, mut sum) = (EWMA::new(weight, v0, TimeStamp::new(t)), EWMS::new(weight, TimeStamp::new(t)));
    let (mut ve, mut vs) = (v0, 0.0);
    for _ in 0..n {
        let halves = [0, 1, 2, 6][s::choose(4) as usize];
        let x = s::range(-1000, 1000) as f64;
        t += halves * unit / 2;
        let k = w.powf(halves as f64 / 2.0);
        e.update(x, TimeStamp::new(t));
        sum.update(x, TimeStamp::new(t));
        ve = k * ve + (1.0 - k) * x;
        vs = k * vs + x;
        s::check(close(e.get_value(), ve), "weighted mean: the interval since the last observation discounts the old value");
        s::check(close(sum.get_value(), vs), "weighted sum: the interval since the last observation discounts the old value");
    }
    s::cover("end");
}
/// the weight of any interval; params: [time scale]
#[no_mangle]
pub extern "C" fn ft_weight() {
    let k = s::param(0);
    let (scale, _) = SCALES[k as usize];
    let w = [0.5f64, 0.999, 1.0][s::choose(3) as usize];
    let (a, b) = (s::u64(), s::u64());
    s::assume(a <= b && b - a < 1 << 50);
    let (x, y) = (TimeStamp::new(b), TimeStamp::new(a));
    let len = match k { 0 => x.diff_in_micros(y), 1 => x.diff_in_millis(y), 2 => x.diff_in_secs(y), 3 => x.diff_in_mins(y), 4 => x.diff_in_hours(y), _ => x.diff_in_days(y) };
    s::check(TimeSeriesWeight { weight: w, scale }.apply(y, x).to_bits() == w.powf(len).to_bits(), "the weight of an interval is the base weight to the power of its length");
    s::cover("end");
}
/// average price of a trade history and the latest trade price; params: [trades]
#[no_mangle]
pub extern "C" fn ft_trades() {
    let n = s::param(0);
    let mut h = TradeHistory::new();
    let (mut v, mut q) = (0i64, 0u64);
    s::check(h.is_empty() && h.get_last_trade().is_none(), "an empty history has no last trade");
    for i in 0..n {
        let (p, k) = (s::range(-M, M), s::range(1, M) as u64);
        h.push(p, k);
        v += p * k as i64; q += k;
        s::check(h.get_last_trade() == Some((p, k)) && h.len() as u64 == i + 1 && h[i as usize] == (p, k), "the last trade is the latest");
    }
    if n > 0 { s::check(close(h.average_trade_price(), v as f64 / q as f64), "average trade price: traded value over traded quantity"); }
    let mut d = TradeData::default();
    d.order_converter = converter(s::choose(3));
    d.trade_price = s::range(-M, M);
    s::check(close(d.to_normalized_real(), d.order_converter.price.normalized_real_from_i64(d.trade_price)), "real value of the trade price");
    s::cover("end");
}
#[allow(dead_code)] fn _unused() { let _ = DefaultHasher::new(); }
