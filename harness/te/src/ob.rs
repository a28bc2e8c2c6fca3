//! Order book: histories of operations against a list-based price-time-priority reference.
//! params: [check mask, preload bits (side of each of the resting orders), number of preloads, op1, op2, ...]
use symrt as s;
use trading_engine::data::order::*;
use trading_engine::orderbook::half_book::HalfBook;
use trading_engine::orderbook::OrderBook;
use trading_engine::types::base::TradeHistory;
use trading_engine::types::enums::OrderSide;
use trading_engine::types::id::{isin_code::IsinCode, InstId, Symbol};
use trading_engine::types::venue::Venue;

pub const INV: u64 = 1;
pub const MATCH: u64 = 2;
pub const EDIT: u64 = 4;
pub const CROSS: u64 = 8;
const P: i64 = 1 << 62;
const Q: i64 = 1 << 40;

pub fn price() -> i64 { s::range(-P, P) }
pub fn qty() -> u64 { s::range(1, Q) as u64 }
fn side(ask: bool) -> OrderSide { if ask { OrderSide::Ask } else { OrderSide::Bid } }

#[derive(Clone)]
pub struct R { pub id: u64, pub ask: bool, pub p: i64, pub q: u64 }

pub fn inst() -> InstId { InstId::new(Symbol::Isin(IsinCode::new(b"KRXXXXXXXXXX").unwrap()), Venue::KRX) }

/// every structural promise a half book makes about itself
pub fn inv(h: &HalfBook) -> (bool, bool, bool, bool) {
    let ask = h.order_side == OrderSide::Ask;
    let (mut lv, mut idx, mut n, mut tot) = (true, true, 0usize, 0u64);
    let mut best = if ask { i64::MAX } else { i64::MIN };
    let mut first = true;
    for (p, l) in h.levels.iter() {
        lv &= l.book_price == *p;
        lv &= !l.orders.is_empty();
        let mut t = 0u64;
        for (id, q) in l.orders.iter() {
            t += *q;
            lv &= *q > 0;
            n += 1;
            idx &= match h.cache.get(id) { Some(x) => *x == *p, None => false };
        }
        lv &= t == l.total_quantity;
        tot += t;
        if ask { if first { best = *p; } } else { best = *p; }
        first = false;
    }
    idx &= n == h.cache.len();
    (lv, idx, tot == h.get_total_quantity() && tot == h.aggregate_quantity(), best == h.best_price)
}

pub fn check_inv(b: &OrderBook) {
    for h in [&b.asks, &b.bids] {
        let (a, i, t, p) = inv(h);
        s::check(a, "level: quantity is the sum of its orders, none empty");
        s::check(i, "index: lookup by id and resting orders correspond");
        s::check(t, "side total equals the sum over levels");
        s::check(p, "best price is the best resting price");
    }
    s::check(b.check_validity_quantity(), "validity check agrees");
}

/// the resting orders are exactly those of the reference, in time order within a price
pub fn check_state(b: &OrderBook, r: &[R], label: &'static str) {
    let mut ok = b.asks.cache.len() + b.bids.cache.len() == r.len();
    for (i, o) in r.iter().enumerate() {
        let h = if o.ask { &b.asks } else { &b.bids };
        let Some(l) = h.levels.get(&o.p) else { s::check(false, label); return };
        let Some(pos) = l.orders.iter().position(|x| x.0 == o.id) else { s::check(false, label); return };
        ok &= l.orders[pos].1 == o.q;
        ok &= h.get_price(o.id) == Some(o.p);
        for k in r[..i].iter() {
            if k.ask == o.ask && k.p == o.p {
                match l.orders.iter().position(|x| x.0 == k.id) { Some(pk) => ok &= pk < pos, None => ok = false }
            }
        }
    }
    s::check(ok, label);
}

/// reference: execute an incoming order; returns the fills merged per price and the unfilled rest
pub fn take(r: &mut Vec<R>, ask: bool, limit: Option<i64>, mut q: u64) -> (Vec<(i64, u64)>, u64) {
    let mut fills: Vec<(i64, u64)> = vec![];
    while q > 0 {
        let mut b: Option<usize> = None;
        for i in 0..r.len() {
            if r[i].ask == ask { continue; }
            match b { None => b = Some(i), Some(k) => { let better = if ask { r[i].p > r[k].p } else { r[i].p < r[k].p }; if better { b = Some(i) } } }
        }
        let Some(i) = b else { break };
        if let Some(l) = limit { if if ask { r[i].p < l } else { r[i].p > l } { break; } }
        let t = if r[i].q <= q { r[i].q } else { q };
        match fills.last_mut() { Some(f) if f.0 == r[i].p => f.1 += t, _ => fills.push((r[i].p, t)) }
        q -= t;
        if t == r[i].q { r.remove(i); } else { r[i].q -= t; }
    }
    (fills, q)
}

pub fn same(h: &TradeHistory, f: &[(i64, u64)]) -> bool {
    if h.len() != f.len() { return false; }
    let mut ok = true;
    for i in 0..f.len() { ok &= h[i].0 == f[i].0; ok &= h[i].1 == f[i].1; }
    ok
}

fn limit(b: &mut OrderBook, r: &mut Vec<R>, m: u64, ask: bool, p: i64, q: u64, id: u64) {
    let crosses = r.iter().any(|o| o.ask != ask && if ask { o.p >= p } else { o.p <= p });
    let res = b.process_limit_order(LimitOrder { price: p, quantity: q, order_side: side(ask), order_id: id });
    let (f, rem) = take(r, ask, Some(p), q);
    if rem > 0 { r.push(R { id, ask, p, q: rem }); }
    if m & MATCH != 0 {
        match &res {
            None => s::check(!crosses, "a crossing limit order trades"),
            Some((h, x)) => {
                s::check(crosses, "a non-crossing limit order rests untraded");
                s::check(same(h, &f), "limit order fills follow price-time priority");
                s::check(*x == rem, "limit order remainder conserves quantity");
            }
        }
        s::obs(match &res { None => 0, Some((h, x)) => 1 + h.len() as u64 + *x });
    }
}

fn which(r: &[R], n: u64) -> u64 { // a concrete id: any issued one, or one never issued
    let k = s::choose(n + 1);
    let _ = r;
    if k == n { 99 } else { k }
}

fn step(b: &mut OrderBook, r: &mut Vec<R>, m: u64, op: u64, next: u64) {
    match op {
        0 | 1 => limit(b, r, m, op == 0, price(), qty(), next),
        2 | 3 => {
            let ask = op == 2;
            let q = qty();
            let had = r.iter().any(|o| o.ask != ask);
            let res = b.process_market_order(&MarketOrder { quantity: q, order_side: side(ask), order_id: next });
            let (f, rem) = take(r, ask, None, q);
            if m & MATCH != 0 {
                match &res {
                    None => s::check(!had, "a market order trades when the other side has orders"),
                    Some((h, x)) => {
                        s::check(had, "a market order against an empty side does not trade");
                        s::check(same(h, &f), "market order fills follow price-time priority");
                        s::check(*x == rem, "market order remainder conserves quantity");
                        s::obs(*x);
                    }
                }
            }
        }
        4 => {
            let id = which(r, next);
            let res = b.cancel_order(CancelOrder { order_id: id });
            let k = r.iter().position(|o| o.id == id);
            if let Some(k) = k { r.remove(k); }
            if m & EDIT != 0 { s::check(res.is_some() == k.is_some(), "cancel reports whether the order was resting"); }
        }
        5 => {
            let id = which(r, next);
            let (p, q) = (price(), qty());
            let res = b.modify_order(ModifyOrder { order_id: id, price: p, quantity: q });
            match r.iter().position(|o| o.id == id) {
                None => if m & EDIT != 0 { s::check(res.is_none(), "modifying an unknown order does nothing") },
                Some(k) => {
                    if r[k].p == p { r[k].q = q; if m & EDIT != 0 { s::check(res.is_none(), "same-price modify does not trade") } }
                    else {
                        let ask = r[k].ask;
                        r.remove(k);
                        let (f, rem) = take(r, ask, Some(p), q);
                        if rem > 0 { r.push(R { id, ask, p, q: rem }); }
                        if m & EDIT != 0 {
                            match &res {
                                None => s::check(f.is_empty(), "a modified order that crosses trades"),
                                Some((h, x)) => { s::check(!f.is_empty() && same(h, &f), "a modified order trades as a new one"); s::check(*x == rem, "modified order remainder"); }
                            }
                        }
                    }
                }
            }
        }
        6 => {
            let id = which(r, next);
            let q = s::range(0, Q) as u64;
            let res = b.change_quantity(id, q);
            let k = r.iter().position(|o| o.id == id);
            if let Some(k) = k { if q == 0 { r.remove(k); } else { r[k].q = q; } }
            if m & EDIT != 0 { s::check(res.is_some() == k.is_some(), "quantity change reports whether the order was resting"); }
        }
        7 | 8 => {
            let ask = op == 7;
            let (p, q) = (price(), qty());
            let res = b.remove_order(RemoveAnyOrder { price: p, quantity: q, order_side: side(ask) });
            let mut rem = q;
            let mut i = r.len();
            while i > 0 && rem > 0 {
                i -= 1;
                if r[i].ask == ask && r[i].p == p { if r[i].q <= rem { rem -= r[i].q; r.remove(i); } else { r[i].q -= rem; rem = 0; } }
            }
            if m & EDIT != 0 { s::check(res == Some(rem), "anonymous removal returns what could not be removed"); }
        }
        _ => {
            // half-book price change of one resting order (no matching): keeps the quantity, loses time priority
            let ask = op == 9;
            let id = which(r, next);
            let p = price();
            let h = if ask { &mut b.asks } else { &mut b.bids };
            let res = h.change_price(id, p);
            let k = r.iter().position(|o| o.id == id && o.ask == ask);
            if let Some(k) = k { let mut o = r.remove(k); o.p = p; r.push(o); }
            if m & EDIT != 0 { s::check(res.is_some() == k.is_some(), "price change reports whether the order was resting"); }
        }
    }
}

#[no_mangle]
pub extern "C" fn ob_seq() {
    let m = s::param(0);
    let bits = s::param(1);
    let pre = s::param(2);
    let mut b = OrderBook::initialize_with_id(inst());
    let mut r: Vec<R> = vec![];
    let mut id = 0;
    for i in 0..pre { limit(&mut b, &mut r, 0, bits >> i & 1 == 0, price(), qty(), id); id += 1; }
    let mut k = 3;
    let mut last = 0;
    loop {
        let op = s::param(k);
        if op == 0 { break; }
        last = op - 1;
        step(&mut b, &mut r, m, last, id);
        id += 1;
        k += 1;
    }
    if m & INV != 0 { check_inv(&b); }
    if m & MATCH != 0 { check_state(&b, &r, "after matching, the resting orders are those of the reference book"); }
    if m & EDIT != 0 { check_state(&b, &r, "after an edit, the resting orders are those of the reference book"); }
    if m & CROSS != 0 {
        let ask = b.asks.levels.keys().next().copied().unwrap_or(i64::MAX);
        let bid = b.bids.levels.keys().next_back().copied().unwrap_or(i64::MIN);
        s::check(last >= 9 || bid < ask, "the resting orders are not crossed");
        s::check(last >= 9 || b.bids.best_price < b.asks.best_price, "the best prices are not crossed");
    }
    s::obs(b.asks.get_total_quantity() + b.bids.get_total_quantity());
    s::cover("end");
}

use trading_engine::data::quote::QuoteSnapshot;
use trading_engine::data::trade_quote::TradeQuoteSnapshot;
use trading_engine::types::base::{LevelSnapshot, VirtualOrderId};

fn snap(n: u64, w: i64) -> Vec<LevelSnapshot> {
    let mut v: Vec<LevelSnapshot> = vec![];
    for _ in 0..n {
        let p = s::range(-w, w);
        for x in v.iter() { s::assume(x.book_price != p); }
        v.push(LevelSnapshot { order_count: None, book_price: p, book_quantity: qty(), lp_quantity: None });
    }
    v
}

/// the side shows exactly the levels of the snapshot
fn shows(h: &HalfBook, v: &[LevelSnapshot]) -> bool {
    let mut ok = h.len() == v.len();
    let mut tot = 0;
    for l in v {
        ok &= h.aggregate_quantity_at_price(l.book_price) == l.book_quantity;
        tot += l.book_quantity;
    }
    ok && h.get_total_quantity() == tot
}

fn replay(h: &mut HalfBook, orders: &[OrderEnum]) -> bool {
    let mut ok = true;
    for o in orders {
        match o {
            OrderEnum::LimitOrder(l) => ok &= h.add_limit_order(l.clone()).is_ok(),
            OrderEnum::RemoveAnyOrder(r) => ok &= h.remove_order(r.clone()) == Some(0),
            _ => ok = false,
        }
    }
    ok
}

/// params: [levels in the first snapshot, levels in the second, third (0 = none), mode]
/// mode 0: full snapshot updates through the book (quote), 1: same through trade+quote,
/// mode 2: decomposition of a half book into orders, replayed on a copy
#[no_mangle]
pub extern "C" fn ob_snap() {
    let (n1, n2, n3, mode) = (s::param(0), s::param(1), s::param(2), s::param(3));
    if mode < 2 {
        let mut b = OrderBook::initialize_with_id(inst());
        for n in [n1, n2, n3] {
            if n == 9 { break; }
            // both sides get n levels; bids only one level in the longer histories, to bound the forks
            let a = snap(n, P);
            let d = snap(if n3 == 9 { n } else { n.min(1) }, P);
            let ok = if mode == 0 {
                let mut q = QuoteSnapshot::default();
                q.id = inst();
                q.ask_quote_data = a.clone();
                q.bid_quote_data = d.clone();
                b.update_from_quote_snapshot(&q).is_ok()
            } else {
                let mut q = TradeQuoteSnapshot::default();
                q.id = inst();
                q.ask_quote_data = a.clone();
                q.bid_quote_data = d.clone();
                b.update_from_trade_quote_snapshot(&q).is_ok()
            };
            s::check(ok, "a snapshot of the same instrument is accepted");
            s::check(shows(&b.asks, &a), "after a snapshot the ask side shows exactly its levels");
            s::check(shows(&b.bids, &d), "after a snapshot the bid side shows exactly its levels");
        }
        check_inv(&b);
        s::obs(b.asks.get_total_quantity());
    } else if mode == 4 {
        // whole-book decomposition: the orders of both sides, for this instrument, replayed through the book of a copy
        let mut b = OrderBook::initialize_with_id(inst());
        for n in [n1, n2, n3] {
            if n == 9 { break; }
            let mut copy = b.clone();
            let a = snap(n, P);
            let d = snap(n.min(1), P);
            let orders = b.decomposed_orders_with_update(&a, &d);
            s::check(orders.is_ok(), "decomposition succeeds");
            let Ok(orders) = orders else { return };
            s::check(shows(&b.asks, &a) && shows(&b.bids, &d), "after decomposition both sides show exactly the snapshot");
            let mut ok = true;
            for o in orders.iter() {
                ok &= o.id == inst();
                match &o.order {
                    OrderEnum::LimitOrder(l) => ok &= copy.add_limit_order(l.clone()).is_ok(),
                    OrderEnum::RemoveAnyOrder(r) => ok &= copy.remove_order(r.clone()) == Some(0),
                    _ => ok = false,
                }
            }
            s::check(ok, "every decomposed order applies in full");
            s::check(shows(&copy.asks, &a) && shows(&copy.bids, &d), "replaying the decomposed orders reproduces the snapshot");
            s::check(b.eq_level(&copy) && copy.eq_level(&b), "level comparison accepts the replayed book");
        }
        check_inv(&b);
    } else {
        let sd = if mode == 2 { OrderSide::Ask } else { OrderSide::Bid };
        let mut h = HalfBook::initialize(sd);
        let mut c = VirtualOrderId::new(0);
        for n in [n1, n2, n3] {
            if n == 9 { break; }
            let mut copy = h.clone();
            let a = snap(n, P);
            let orders = h.decomposed_orders_with_update(&a, &mut c);
            s::check(orders.is_ok(), "decomposition succeeds");
            let Ok(orders) = orders else { return };
            s::check(shows(&h, &a), "after decomposition the side shows exactly the snapshot");
            s::check(replay(&mut copy, &orders), "every decomposed order applies in full");
            s::check(shows(&copy, &a), "replaying the decomposed orders reproduces the snapshot");
            s::check(h.eq_level(&copy) && copy.eq_level(&h), "level comparison accepts the replayed book");
            s::obs(orders.len() as u64);
        }
        let (a, i, t, p) = inv(&h);
        s::check(a, "level: quantity is the sum of its orders, none empty");
        s::check(i, "index: lookup by id and resting orders correspond");
        s::check(t, "side total equals the sum over levels");
        s::check(p, "best price is the best resting price");
    }
    s::cover("end");
}

/// A snapshot addressed to another instrument is refused and leaves the book alone; level snapshots read back.
#[no_mangle]
pub extern "C" fn ob_snap_misc() {
    let mut b = OrderBook::initialize_with_id(inst());
    let n = s::param(0);
    let mut r: Vec<R> = vec![];
    for i in 0..n { limit(&mut b, &mut r, 0, s::param(1) >> i & 1 == 0, price(), qty(), i); }
    let before = b.clone();
    let mut q = QuoteSnapshot::default();
    q.id = InstId::new(Symbol::Isin(IsinCode::new(b"KR7005930003").unwrap()), Venue::KRX);
    q.ask_quote_data = snap(1, P);
    let mut t = TradeQuoteSnapshot::default();
    t.id = q.id;
    t.bid_quote_data = q.ask_quote_data.clone();
    s::check(b.update_from_quote_snapshot(&q).is_err(), "a quote of another instrument is refused");
    s::check(b.update_from_trade_quote_snapshot(&t).is_err(), "a trade+quote of another instrument is refused");
    s::check(b.asks == before.asks && b.bids == before.bids, "a refused snapshot leaves the book unchanged");
    // reading levels back: ascending prices, the total and the number of orders at each
    for (ask, v) in [(true, b.ask_level_snapshot()), (false, b.bid_level_snapshot())] {
        let mut ok = true;
        let mut tot = 0;
        for (i, l) in v.iter().enumerate() {
            if i > 0 { ok &= v[i - 1].book_price < l.book_price; }
            let (mut q, mut k) = (0, 0);
            for o in r.iter() { if o.ask == ask && o.p == l.book_price { q += o.q; k += 1; } }
            ok &= q == l.book_quantity && l.order_count == Some(k) && q > 0;
            tot += q;
        }
        let mut all = 0;
        for o in r.iter() { if o.ask == ask { all += o.q; } }
        s::check(ok && all == tot, "the level snapshot lists every level once with its quantity and order count");
    }
    s::cover("end");
}

/// Level comparison is equality of the displayed levels. params: [levels left, levels right, side]
#[no_mangle]
pub extern "C" fn ob_eq() {
    let sd = side(s::param(2) == 0);
    let mut c = VirtualOrderId::new(0);
    let mut mk = |n: u64, v: &mut Vec<LevelSnapshot>| { let mut h = HalfBook::initialize(sd); *v = snap(n, P); let _ = h.update_l2_snapshot(v, &mut c); h };
    let (mut va, mut vb) = (vec![], vec![]);
    let a = mk(s::param(0), &mut va);
    let b = mk(s::param(1), &mut vb);
    let mut same = va.len() == vb.len();
    for x in va.iter() { same &= vb.iter().any(|y| y.book_price == x.book_price && y.book_quantity == x.book_quantity); }
    s::check(a.eq_level(&b) == same, "level comparison holds exactly for equal levels");
    s::check(b.eq_level(&a) == same, "level comparison is symmetric");
    let mut e = a.clone();
    e.clear();
    s::check(e.is_empty() && e.len() == 0 && e == HalfBook::initialize(sd), "a cleared side equals a new one");
    s::cover("end");
}
