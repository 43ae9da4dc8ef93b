//! The shared containers against their abstract models: append-only list, insertion-ordered map, multi-token vaults.
use crate::world::THOROUGH;
use crate::world::*;
use num_bigint::BigInt;
use std::sync::atomic::Ordering;

fn steps(quick: usize) -> usize { if THOROUGH.load(Ordering::Relaxed) { quick + 1 } else { quick } }
fn item(n: &str) -> u64k_ { uv(n, 0, 1_000_000_000, &[5, 7, 1000]) }
fn index(n: &str) -> u64k_ { uv(n, 0, 20, &[0, 1, 2, 3]) }
/// position of a symbolic index in 0..n
fn at(i: u64k_, n: usize) -> Option<usize> { (0..n).find(|k| is(i.f_eq(c64(*k as i128)))) }
fn new_list() -> List<u64k_> { List::new(KeyValueStore::new) }
/// what a range must return of `m`: the items from start up to end, as far as there are items
fn window(m: &[u64k_], a: u64k_, b: u64k_) -> Vec<u64k_> { (0..m.len()).filter(|k| is(a.f_le(c64(*k as i128)).and(b.f_gt(c64(*k as i128))))).map(|k| m[k]).collect() }
fn same(a: &[u64k_], b: &[u64k_]) -> Form { if a.len() != b.len() { Form::False } else { all(a.iter().zip(b).map(|(x, y)| x.f_eq(*y)).collect()) } }

fn list_state(l: &List<u64k_>, m: &[u64k_]) {
    ck("C26", "a list has the length of what was pushed", l.len().f_eq(c64(m.len() as i128)));
    for k in 0..m.len() + 2 {
        let got = l.get(c64(k as i128)).map(|x| *x);
        ck("C26", "a list returns what was last stored at each index", match (got, m.get(k)) { (Some(a), Some(b)) => a.f_eq(*b), (None, None) => Form::True, _ => Form::False });
    }
}
pub fn list() {
    let mut m: Vec<u64k_> = vec![];
    let mut l = new_list();
    let mut err = false;
    for k in 0..pick(4, "length") { let x = item(&format!("item{}", k)); l.push(x); m.push(x); }
    for s in 0..steps(3) {
        match pick(4, "step") {
            0 => { let x = item(&format!("pushed{}", s)); l.push(x); m.push(x); cover("pushed"); }
            1 => {
                let (i, x) = (index(&format!("index{}", s)), item(&format!("updated{}", s)));
                let place = at(i, m.len());
                match transaction(vec![], || l.update(i, x)) {
                    Ok(()) => { ck("C26", "updates outside the list are rejected", fof(place.is_some())); if let Some(k) = place { m[k] = x; cover("updated"); } else { return; } }
                    Err(_) => { ck("C26", "updates inside the list are accepted", fof(place.is_none())); cover("update rejected"); err = true; }
                }
            }
            2 => {
                let (i, x) = (index(&format!("index{}", s)), item(&format!("written{}", s)));
                let place = at(i, m.len());
                let mut hit = false;
                if let Some(mut e) = l.get_mut(i) { *e = x; hit = true; }
                ck("C26", "exactly the stored items can be changed", fof(hit == place.is_some()));
                if let (true, Some(k)) = (hit, place) { m[k] = x; cover("written"); }
            }
            _ => {
                let (a, b) = (index(&format!("from{}", s)), index(&format!("to{}", s)));
                let want = window(&m, a, b);
                let got = l.range(a, b);
                if !want.is_empty() { cover("window"); }
                ck("C26", "a window of a list is the stored items in order", same(&got, &want));
            }
        }
        if err { break; }
    }
    list_state(&l, &m);
}
fn new_map() -> HashList<u64k_, u64k_> { HashList::new(KeyValueStore::new, KeyValueStore::new) }
fn find(m: &[(u64k_, u64k_)], k: u64k_) -> Option<usize> { (0..m.len()).find(|i| is(m[*i].0.f_eq(k))) }
pub fn hash_list() {
    let mut m: Vec<(u64k_, u64k_)> = vec![];
    let mut h = new_map();
    let key = |n: String| uv(&n, 0, 1_000_000, &[1, 2, 3, 1000]);
    for s in 0..steps(4) {
        match pick(3, "step") {
            0 => {
                let (k, v) = (key(format!("key{}", s)), item(&format!("value{}", s)));
                let place = find(&m, k);
                h.insert(k, v);
                match place { Some(i) => { m[i].1 = v; cover("replaced"); } None => { m.push((k, v)); cover("inserted"); } }
            }
            1 => {
                let (k, v) = (key(format!("key{}", s)), item(&format!("value{}", s)));
                let place = find(&m, k);
                let mut hit = false;
                if let Some(mut e) = h.get_mut(&k) { *e = v; hit = true; }
                ck("C26", "exactly the stored keys can be changed", fof(hit == place.is_some()));
                if let (true, Some(i)) = (hit, place) { m[i].1 = v; cover("written"); }
            }
            _ => {
                let (a, b) = (index(&format!("from{}", s)), index(&format!("to{}", s)));
                let vals: Vec<u64k_> = m.iter().map(|x| x.1).collect();
                let want = window(&vals, a, b);
                if !want.is_empty() { cover("window"); }
                ck("C26", "a window of a keyed list is the stored values in order of first insertion", same(&h.range(a, b), &want));
            }
        }
    }
    ck("C26", "a keyed list has one entry per key", h.len().f_eq(c64(m.len() as i128)));
    let vals: Vec<u64k_> = m.iter().map(|x| x.1).collect();
    ck("C26", "a window of a keyed list is the stored values in order of first insertion", same(&h.range(c64(0), c64(100)), &vals));
    for (k, v) in &m { ck("C26", "a keyed list returns what was last stored for each key", h.get(k).map(|x| *x).map_or(Form::False, |x| x.f_eq(*v))); }
    let other = key("other".to_string());
    if find(&m, other).is_none() { ck("C26", "a keyed list has nothing under other keys", fof(h.get(&other).is_none())); }
}
/// containers of forty entries: every window, and what was stored first, in the middle and last
pub fn long() {
    const N: usize = 40;
    let (keyed, end) = (yes("keyed"), yes("upper bound"));
    let m: Vec<u64k_> = (0..N).map(|k| item(&format!("item{}", k))).collect();
    let i = uv("bound", 0, 60, &[0, 11, 39, 40, 41]);
    let (a, b) = if end { (c64([0, 7][pick(2, "from")]), i) } else { (i, c64([40, 1000][pick(2, "to")])) };
    let want = window(&m, a, b);
    let (mut l, mut h) = (new_list(), new_map());
    for k in 0..N { if keyed { h.insert(c64(1000 - k as i128), m[k]); } else { l.push(m[k]); } }
    let got = if keyed { h.range(a, b) } else { l.range(a, b) };
    if want.len() > 30 { cover(if keyed { "long window of a keyed list" } else { "long window of a list" }); }
    ck("C26", "a window of a long list is the stored items in order", same(&got, &want));
    ck("C26", "a long list has the length of what was stored", if keyed { h.len() } else { l.len() }.f_eq(c64(N as i128)));
    for k in 0..N {
        let x = if keyed { h.get(&c64(1000 - k as i128)).map(|x| *x) } else { l.get(c64(k as i128)).map(|x| *x) };
        ck("C26", "a long list returns what was stored", x.map_or(Form::False, |x| x.f_eq(m[k])));
    }
}
/// an amount that a token of 18 or 6 decimals can have, and the part below its precision
fn amount(n: &str, fine: bool) -> (Decimal, Decimal) {
    if fine { return (dv(n, "0", "1000000000", &["5", "0.25", "1000"]), zero()); }
    let q = uv(&format!("{}_units", n), 0, 1_000_000_000_000_000, &[5_000_000, 250_000, 1]);
    let r = iv(&format!("{}_rest", n), 0, 999_999_999_999, &[0, 1, 999_999_999_999]);
    (Decimal::of(&scrypto::term::scale(&q.val(), &BigInt::from(1_000_000_000_000u64))), Decimal::of(&r.val()))
}
pub fn vaults() {
    let _ = deploy();
    let fine = pick(2, "divisibility") == 0;
    set_divisibility(coll(1), if fine { 18 } else { 6 });
    let ok = |k: usize| fine || k != 1;
    let mut v = Vaults::new(KeyValueStore::new);
    let mut m: Vec<Decimal> = vec![zero(); 3];
    ledger(|l| l.no_auth = true);
    for k in 0..2 {
        if yes("vault exists") { let a = amount(&format!("held{}", k), ok(k)).0; let _ = transaction(vec![], || v.put(Bucket::model(coll(k), a))); m[k] = a; }
    }
    let unit = de("0.000001");
    for s in 0..steps(1) {
        let k = pick(3, "token");
        match pick(5, "step") {
            o @ (0 | 1) => {
                let a = amount(&format!("amount{}", s), ok(k)).0;
                let k2 = if o == 1 { pick(3, "second token") } else { k };
                let b = amount(&format!("second{}", s), ok(k2)).0;
                let r = transaction(vec![], || if o == 0 { v.put(Bucket::model(coll(k), a)) } else { v.put_batch(vec![Bucket::model(coll(k), a), Bucket::model(coll(k2), b)]) });
                ck("C26", "tokens can always be put away", fof(r.is_ok()));
                if r.is_err() { return; }
                m[k] = m[k] + a;
                if o == 1 { m[k2] = m[k2] + b; }
                cover(["put", "put several"][o]);
            }
            o => {
                let mode = if o == 2 { 0 } else { pick(3, "strategy") };
                let how = || match mode { 0 => WithdrawStrategy::Exact, 1 => WithdrawStrategy::Rounded(RoundingMode::ToZero), _ => WithdrawStrategy::Rounded(RoundingMode::AwayFromZero) };
                let batch = o == 4;
                let k2 = if batch { pick(3, "second token") } else { k };
                let plain = batch && mode == 0 && yes("plain batch");
                // what is asked and what the strategy makes of it
                let ask_for = |n: String, k: usize| {
                    let (a, rest) = amount(&n, ok(k));
                    if ok(k) || mode == 0 { return (a, a); }
                    (a + rest, if mode == 1 { a } else if is(rest.f_gt(zero())) { a + unit } else { a })
                };
                let (a, ta) = ask_for(format!("amount{}", s), k);
                let (b, tb) = if batch { ask_for(format!("second{}", s), k2) } else { (zero(), zero()) };
                let out = |b: Bucket| { let r = b.resource_address(); match b.model_take() { Held::Amt(x) => (r, x), _ => panic!("fungible") } };
                let r = transaction(vec![], || -> Vec<_> {
                    if !batch { return vec![out(if o == 2 { v.take(&coll(k), a) } else { v.take_advanced(&coll(k), a, how()) })]; }
                    let list = vec![(coll(k), a), (coll(k2), b)];
                    (if plain { v.take_batch(list) } else { v.take_advanced_batch(list, how()) }).into_iter().map(out).collect()
                });
                let short = if batch && k == k2 { (ta + tb).f_gt(m[k]) } else { ta.f_gt(m[k]).or(tb.f_gt(m[k2])) };
                match r {
                    Err(_) => { ck("C26", "tokens can be taken as far as they reach", short); return; }
                    Ok(out) => {
                        cover(if batch { "taken several" } else { "taken" });
                        ck("C26", "no more is taken than was put away", short.not());
                        let want: Vec<(ResourceAddress, Decimal)> = if batch { vec![(coll(k), ta), (coll(k2), tb)] } else { vec![(coll(k), ta)] };
                        ck("C26", "what is taken is the asked tokens and amounts in order", fof(out.len() == want.len() && out.iter().zip(&want).all(|(x, y)| x.0 == y.0)).and(all(out.iter().zip(&want).map(|(x, y)| x.1.f_eq(y.1)).collect())));
                        m[k] = m[k] - ta;
                        m[k2] = m[k2] - tb;
                    }
                }
            }
        }
    }
    let list = v.amounts((0..3).map(coll).collect());
    for k in 0..3 {
        ck("C26", "the vaults hold exactly what was put away less what was taken", v.amount(&coll(k)).f_eq(m[k]));
        ck("C26", "amounts reports every asked token", list.get(&coll(k)).map_or(Form::False, |x| x.f_eq(m[k])));
    }
    ck("C26", "amounts reports only the asked tokens", fof(list.len() == 3));
}
