//! Signed price updates and the freshness of the prices in use.
use crate::ops::*;
use crate::order::*;
use crate::world::*;

fn other_key() -> Bls12381G1PublicKey { Bls12381G1PublicKey([8u8; 48]) }
type Quote = (Decimal, i64k_);
/// what the oracle has to hold after a list of quotes
fn fold(m: &mut Vec<Option<Quote>>, list: &[(usize, Decimal, i64k_)]) {
    for (k, q, t) in list {
        let newer = match &m[*k] { None => true, Some((_, t0)) => is(t.f_gt(*t0)) };
        if newer { m[*k] = Some((*q, *t)); }
    }
}
fn stamp(n: &str) -> i64k_ { iv(n, -4_000_000_000_000_000_000, 4_000_000_000_000_000_000, &[NOW, NOW - 1, NOW - 60, 0, -5]) }
fn quote(n: &str) -> Decimal { dv(n, "-1000000000000", "1000000000000", &["100", "0.5", "-3", "0"]) }
fn price_list(v: &[(usize, Decimal, i64k_)]) -> Vec<Price> { v.iter().map(|(k, q, t)| Price { pair: pair(*k), quote: *q, timestamp: inst(*t) }).collect() }
fn eq_quote(a: &(Decimal, Instant), b: &Quote) -> Form { a.0.f_eq(b.0).and(a.1.seconds_since_unix_epoch.f_eq(b.1)) }

/// signatures and keys: every way to present a list
pub const SIGNATURES: [&str; 10] = ["signed", "another key's signature", "signature over other data", "unknown key", "removed key", "no signature", "added key", "replaced key", "changed data", "every key removed"];
pub fn pushes() {
    any_order();
    let w = deploy();
    let how = pick(SIGNATURES.len(), "signature");
    let public = yes("public method");
    let stored = [pick(2, "first pair stored") == 1, pick(2, "second pair stored") == 1];
    let n = pick(4, "quotes");
    let mut model: Vec<Option<Quote>> = vec![None; 3];
    let mut first = vec![];
    for k in 0..2 { if stored[k] { first.push((k, quote(&format!("old_quote{}", k)), stamp(&format!("old_stamp{}", k)))); } }
    first.push((2, de("7"), stamp("old_stamp2")));
    let list: Vec<(usize, Decimal, i64k_)> = (0..n).map(|i| (if i == 0 { 0 } else { pick(2, "quoted pair") }, quote(&format!("quote{}", i)), stamp(&format!("stamp{}", i)))).collect();
    let wanted: Vec<usize> = match pick(4, "queried") { 0 => vec![], 1 => vec![0], 2 => vec![2], _ => vec![0, 1, 2] };
    setup(|| {
        let (d, s) = signed(&price_list(&first), 9);
        w.oracle.push_and_get_prices_with_auth(HashSet::new(), d, s, c64(0));
        w.oracle.add_key(c64(1), other_key());
        w.oracle.add_key(c64(2), other_key());
        w.oracle.remove_key(c64(2));
    });
    fold(&mut model, &first);
    let data = price_list(&list);
    let d = scrypto_encode(&data).unwrap();
    let h = CryptoUtils::keccak256_hash(&d).0.to_vec();
    let sign = |hash: Vec<u8>, k: &Bls12381G1PublicKey, s: u8| ledger(|l| l.valid_sigs.push((hash, k.0.to_vec(), sig(s).0.to_vec())));
    let (mut key_id, mut good) = (0, false);
    let mut sent = d.clone();
    match how {
        0 => { sign(h, &key(), 1); good = true; }
        1 => sign(h, &other_key(), 1),
        2 => { let o = scrypto_encode(&price_list(&[(1, de("5"), ci(NOW + 1000))])).unwrap(); let g = CryptoUtils::keccak256_hash(&o).0.to_vec(); sign(g, &key(), 1) }
        3 => { sign(h, &key(), 1); key_id = 7; }
        4 => { sign(h, &other_key(), 1); key_id = 2; }
        5 => {}
        6 => { sign(h, &other_key(), 1); key_id = 1; good = true; }
        7 => {
            // a taken key id cannot be given to another key
            let r = transaction(vec![pe(owner_badge())], || w.oracle.add_key(c64(0), other_key()));
            ck("C16", "a registered key is never replaced", fof(r.is_err()));
            cover(SIGNATURES[7]);
            return;
        }
        9 => {
            sign(h, &key(), 1);
            setup(|| { w.oracle.remove_key(c64(1)); w.oracle.remove_key(c64(0)); });
        }
        _ => { sign(h, &key(), 1); let mut v = list.clone(); v.push((1, de("5"), ci(NOW + 1000))); sent = scrypto_encode(&price_list(&v)).unwrap(); }
    }
    let ids = || -> HashSet<String> { wanted.iter().map(|k| pair(*k)).collect() };
    let r = transaction(vec![authority_pe()], || if public { w.oracle.push_and_get_prices(ids(), sent.clone(), sig(1), c64(key_id)) } else { w.oracle.push_and_get_prices_with_auth(ids(), sent.clone(), sig(1), c64(key_id)) });
    if !good {
        cover(SIGNATURES[how]);
        ckd("C16", "a price list without a valid signature of the named key is refused", fof(r.is_err()), || SIGNATURES[how].to_string());
        return;
    }
    fold(&mut model, &list);
    let missing = wanted.iter().any(|k| model[*k].is_none());
    let got = match r { Ok(x) => x, Err(_) => { ck("C16", "a signed price list is refused only if a queried pair has no price", fof(missing)); return; } };
    cover(SIGNATURES[how]);
    let exact = |got: &HashMap<PairId, (Decimal, Instant)>, wanted: &[usize], what: &str| {
        ckd("C16", "a query returns exactly the requested pairs", fof(got.len() == wanted.len() && wanted.iter().all(|k| got.contains_key(&pair(*k)) && model[*k].is_some())), || what.to_string());
        for k in wanted { if let (Some(a), Some(b)) = (got.get(&pair(*k)), &model[*k]) { ckd("C16", "every pair holds the newest quote seen", eq_quote(a, b), || format!("{} pair {}", what, k)); } }
    };
    exact(&got, &wanted, "push");
    // what is stored afterwards, seen through either query
    let all_stored: Vec<usize> = (0..3).filter(|k| model[*k].is_some()).collect();
    let q = |public: bool, v: &[usize]| transaction(vec![authority_pe()], || { let s: HashSet<String> = v.iter().map(|k| pair(*k)).collect(); if public { w.oracle.get_prices(s) } else { w.oracle.get_prices_with_auth(s) } });
    for p in [false, true] {
        match q(p, &all_stored) { Ok(g) => { cover("stored prices queried"); exact(&g, &all_stored, "query") } Err(_) => ck("C16", "stored prices can be queried", Form::False) }
    }
    if let Some(k) = (0..3).find(|k| model[*k].is_none()) { cover("missing pair"); ck("C16", "a pair without a price is refused", fof(q(public, &[k]).is_err())); }
}
/// seven quotes for six pairs in one push, and all six queried at once
pub fn push_many() {
    any_order();
    let w = deploy();
    let public = yes("public method");
    let old: Vec<(usize, Decimal, i64k_)> = [1, 3, 5].iter().map(|k| (*k, de("7"), stamp(&format!("old_stamp{}", k)))).collect();
    let list: Vec<(usize, Decimal, i64k_)> = [5, 0, 1, 2, 3, 4, 5].iter().enumerate().map(|(i, k)| (*k, quote(&format!("quote{}", i)), if i > 2 && i < 6 { ci(NOW - k_of(i)) } else { stamp(&format!("stamp{}", i)) })).collect();
    let mut model: Vec<Option<Quote>> = vec![None; 6];
    setup(|| { let (d, s) = signed(&price_list(&old), 9); w.oracle.push_and_get_prices_with_auth(HashSet::new(), d, s, c64(0)); });
    fold(&mut model, &old);
    let (d, s) = signed(&price_list(&list), 1);
    let ids: HashSet<String> = (0..6).map(pair).collect();
    let got = match transaction(vec![authority_pe()], || if public { w.oracle.push_and_get_prices(ids.clone(), d, s, c64(0)) } else { w.oracle.push_and_get_prices_with_auth(ids.clone(), d, s, c64(0)) }) { Ok(g) => g, Err(_) => { ck("C16", "a signed price list is refused only if a queried pair has no price", Form::False); return; } };
    cover("many quotes pushed");
    fold(&mut model, &list);
    let again = ask(|| w.oracle.get_prices(ids.clone()));
    for g in [&got, &again] {
        ck("C16", "a query returns exactly the requested pairs", fof(g.len() == 6));
        for k in 0..6 { match (g.get(&pair(k)), &model[k]) { (Some(a), Some(b)) => ckd("C16", "every pair holds the newest quote seen", eq_quote(a, b), || format!("pair {}", k)), _ => ck("C16", "stored prices can be queried", Form::False) } }
    }
}
fn k_of(i: usize) -> i128 { [0, 0, 0, 10, 20, 30][i] }
/// a removed price is gone, the others stay
pub fn removal() {
    let w = deploy();
    let v: Vec<(usize, Decimal, i64k_)> = (0..3).map(|k| (k, quote(&format!("quote{}", k)), stamp(&format!("stamp{}", k)))).collect();
    setup(|| { let (d, s) = signed(&price_list(&v), 9); w.oracle.push_and_get_prices_with_auth(HashSet::new(), d, s, c64(0)); });
    let gone = pick(3, "removed");
    if transaction(vec![pe(owner_badge())], || w.oracle.remove_price(pair(gone))).is_err() { return; }
    cover("price removed");
    for k in 0..3 {
        let r = transaction(vec![], || { let mut s = HashSet::new(); s.insert(pair(k)); w.oracle.get_prices(s) });
        match r { Ok(m) => ck("C16", "removing a price leaves the other pairs unaffected", fof(k != gone && m.len() == 1).and(m.get(&pair(k)).map_or(Form::False, |x| eq_quote(x, &(v[k].1, v[k].2))))), Err(_) => { ck("C16", "removing a price leaves the other pairs unaffected", fof(k == gone)); return; } }
    }
}

// ------------------------------------------------------------------------------------------------ freshness
pub const PRICED: [&str; 6] = ["order", "withdrawal", "debt swap", "liquidation", "deleverage", "pair update"];
pub fn fresh_prices() {
    let op = pick(PRICED.len(), "operation");
    let feed = if op == 5 { 0 } else { pick(2, "shared feed") };
    let pushed = pick(3, "pushed prices");
    let second = op != 2 && yes("second pair");
    let mut o = Opt { ages: true, ccfg: if op == 5 { 0 } else { 1 }, colls: if op == 4 || op == 5 { vec![] } else { vec![coll(0)] }, feeds: vec![feed], cost_sign: true, ..Default::default() };
    o.pos = match op { 0 => vec![0], 1 => vec![1], 2 => vec![0], 3 => vec![2], 4 => vec![1], _ => vec![0] };
    if second { o.pos.push(if op == 5 { 0 } else { 1 }); }
    match op {
        0 => { o.requests = vec![keeper_request(plain_order("1"), 1)]; o.active = vec![0]; }
        1 => { o.requests = vec![keeper_request(Request::RemoveCollateral(RequestRemoveCollateral { target_account: wallet(1), claims: vec![(coll(0), de("0.25"))] }), 1)]; o.active = vec![0]; }
        2 => o.vb_lo = Some("-1000000000"),
        _ => {}
    }
    let st = state(&o);
    if op == 1 { assume_f(bal(&st.snap().accs[0], coll(0)).f_ge(de("1"))); }
    // the newest quotes after an optional update with the call
    let np = o.pos.len();
    let (mut price, mut at) = (st.price.clone(), st.stamps.clone());
    let (mut cprice, mut cat) = (st.cprice.clone(), st.cstamps.clone());
    let update = if pushed == 0 { None } else {
        let (q, t) = (dv("new_price", "-1000", "1000000", &["101", "0", "-1", "2"]), iv("new_stamp", NOW - 100_000, NOW + 10, &[NOW, NOW - 60, NOW - 30]));
        let name = if pushed == 1 || o.ccfg == 0 || feed == 1 { pair(0) } else { cfeed(0) };
        if name == pair(0) {
            if is(t.f_gt(at[0])) { price[0] = q; at[0] = t; if feed == 1 && o.ccfg > 0 { cprice[0] = q; cat[0] = t; } }
        } else if is(t.f_gt(cat[0])) { cprice[0] = q; cat[0] = t; }
        let (d, s) = signed(&vec![Price { pair: name, quote: q, timestamp: inst(t) }], 3);
        Some((d, s, c64(0)))
    };
    let (ex, a) = (st.w.ex, st.a.addr);
    let pay = dv("payment", "0", "1000000000000", &["1000", "2.5", "100000000"]);
    let r = transaction(vec![], || match op {
        0 | 1 => { taken(ex.process_request(a, c64(0), update)); }
        2 => { let (x, y) = ex.swap_debt(a, coll(0), base(pay), update); taken(x); taken(y); }
        3 => { let (x, y) = ex.liquidate(a, base(pay), update); for b in x { taken(b); } taken(y); }
        4 => { taken(ex.auto_deleverage(a, pair(0), update)); }
        _ => { let (x, _) = ex.update_pairs((0..np).map(pair).collect(), update); taken(x); }
    });
    if r.is_err() { return; }
    cover(PRICED[op]);
    if update_used(pushed) { cover("prices pushed with the call"); }
    // which prices value something here: every traded or held pair, every held collateral
    let pairs: Vec<usize> = match op { 2 => vec![], _ => (0..np).collect() };
    for k in pairs {
        ckd("C17", "a pair's price in use is younger than the pair's maximum age", at[k].f_gt(st.now - st.p[k].price_age_max), || format!("{} pair {}", PRICED[op], k));
        ckd("C17", "a pair's price in use is positive", price[k].f_gt(zero()), || format!("{} pair {}", PRICED[op], k));
    }
    if !o.colls.is_empty() {
        ckd("C17", "a collateral's price in use is younger than the collateral's maximum age", cat[0].f_gt(st.now - st.c[0].price_age_max), || PRICED[op].to_string());
        ckd("C17", "a collateral's price in use is positive", cprice[0].f_gt(zero()), || PRICED[op].to_string());
    }
}
fn update_used(pushed: usize) -> bool { pushed > 0 }
pub fn plain_order(amount: &str) -> Request { Request::MarginOrder(RequestMarginOrder { pair_id: pair(0), amount: de(amount), reduce_only: false, price_limit: PriceLimit::None, slippage_limit: SlippageLimit::None, activate_requests: vec![], cancel_requests: vec![] }) }

/// everything is valued with its own feed
pub fn own_feeds() {
    let feeds = match pick(4, "feeds") { 0 => vec![0, 0], 1 => vec![0, 1], 2 => vec![2, 1], _ => vec![1, 0] };
    let op = pick(3, "operation");
    let o = Opt { pos: vec![if op == 1 { 1 } else { 0 }, 2], ccfg: 2, colls: vec![coll(0), coll(1)], feeds, vb_lo: Some("-1000000000"), ..Default::default() };
    let st = state(&o);
    let s0 = st.snap();
    let a0 = &s0.accs[0];
    let pay = dv("payment", "0", "1000000000000", &["1000", "2.5", "100000000"]);
    match op {
        0 => {
            let r = transaction(vec![], || { let (x, y) = st.w.ex.liquidate(st.a.addr, base(pay), None); let mut rest = zero(); for b in x { let r = b.resource_address(); let n = taken(b); if r == _BASE_RESOURCE { rest = rest + n; } } taken(y); rest });
            let rest = match r { Ok(x) => x, Err(_) => return };
            cover("liquidation at own feeds");
            let due = (0..2).fold(zero(), |t, k| t + bal(a0, coll(k)) * st.cprice[k] * st.c[k].discount);
            ck("C17", "each collateral is valued with its own feed", near(pay - rest, due, 2));
            let s1 = st.snap();
            let (val, _) = st.value(&s0, false);
            ck("C17", "each pair is valued with its own feed", near(s1.accs[0].virtual_balance, val.max(Decimal::ZERO), 4));
        }
        1 => {
            let r = transaction(vec![], || { let (x, _) = st.w.ex.update_pairs(vec![pair(0), pair(1)], None); taken(x); });
            if r.is_err() { return; }
            cover("update at own feeds");
            let s1 = st.snap();
            for k in 0..2 { let q = ppos(&s1, &pair(k)); let skew = (q.oi_long - q.oi_short) * st.price[k]; ck("C17", "each pair is updated with its own feed", q.last_price.f_eq(st.price[k]).and(q.skew_abs_snap.f_eq(abs(skew)))); }
        }
        _ => {
            let k = pick(2, "collateral");
            let r = transaction(vec![], || { let (x, y) = st.w.ex.swap_debt(st.a.addr, coll(k), base(pay), None); (taken(x), taken(y)) });
            let (got, rest) = match r { Ok(x) => x, Err(_) => return };
            cover("swap at own feeds");
            let p = st.cprice[k] * (st.c[k].discount * de("0.1") + de("0.9"));
            let due = pay.min(zero() - a0.virtual_balance);
            let amount = due / p;
            if is(amount.f_le(bal(a0, coll(k)))) { ck("C17", "each collateral is sold at its own feed", near(got, amount, 2).and(near(pay - rest, due, 2))); }
        }
    }
}
