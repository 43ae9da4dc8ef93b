//! What the public queries report: account, pool, pair and referral details, configurations, pages; and that they change nothing.
use crate::auth::wrapper;
use crate::order::*;
use crate::reqs::{funds_untouched, same, same_body, secs};
use crate::tokens::floor;
use crate::world::*;

fn plain(amount: &str) -> Request { crate::auth::plain(amount) }
/// windows start anywhere and have any length
fn window_of(n: &str) -> (u64k_, Option<u64k_>) {
    let k = uv(n, 0, 1 << 40, &[2, 0, 1, 10]);
    (k, if yes("start given") { Some(uv("start", 0, 1 << 40, &[1, 0, 3, 10])) } else { None })
}
/// the indexes of `len` items that a window from `start` of length `n` covers
fn covered(len: usize, n: u64k_, start: Option<u64k_>) -> Vec<usize> {
    let s = start.unwrap_or(c64(0));
    (0..len).filter(|k| is(s.f_le(c64(*k as i128)).and(c64(*k as i128).f_lt(s + n)))).collect()
}
fn covered_tail(len: usize, n: u64k_, end: Option<u64k_>) -> Vec<usize> {
    // the last item of the window, then downwards
    let last = match end { None => len as i128 - 1, Some(e) => (0..len).rev().find(|k| is(e.f_ge(c64(*k as i128)))).map_or(-1, |k| k as i128) };
    (0..=last).rev().filter(|k| is(c64(last - *k).f_lt(n))).map(|k| k as usize).collect()
}
fn same_quiet(w: &str, s0: &Snap, s1: &Snap) {
    funds_untouched("C28", w, s0, s1);
    for (a, b) in s0.requests.iter().zip(&s1.requests) { ck("C28", w, fof(a.len() == b.len()).and(all(a.iter().zip(b).map(|(x, y)| same(x, y)).collect()))); }
    for (a, b) in s0.active.iter().zip(&s1.active) { ck("C28", w, fof(a.len() == b.len()).and(all(a.iter().zip(b).map(|(x, y)| x.f_eq(*y)).collect()))); }
    ck("C28", w, ledger(|l| fof(l.events.is_empty() && l.deposits.is_empty())));
}
fn supplies() -> Vec<Decimal> { [_BASE_RESOURCE, _LP_RESOURCE, _KEEPER_REWARD_RESOURCE, _PROTOCOL_RESOURCE, _REFERRAL_RESOURCE, _FEE_OATH_RESOURCE, _RECOVERY_KEY_RESOURCE].iter().map(|r| supply(*r)).collect() }
const QUIET: &str = "queries change nothing";

pub fn account() {
    any_order();
    let (pa, pb) = (pick(3, "position"), pick(3, "second position"));
    let held = pick(3, "held");
    let shape = pick(3, "requests");
    let mut o = Opt { pos: vec![pa, pb], ccfg: 2, sym_cfg: true, funding: true, referral: yes("referral"), ..Default::default() };
    if held > 0 { o.colls.push(coll(0)); }
    if held > 1 { o.colls.push(coll(2)); }
    if shape > 0 {
        o.requests = vec![keeper_request(plain("1"), 2), keeper_request(plain("-2"), 1), keeper_request(Request::RemoveCollateral(RequestRemoveCollateral { target_account: wallet(1), claims: vec![(coll(0), de("3"))] }), 0), keeper_request(plain("4"), 3)];
        o.active = if shape == 1 { vec![1, 2] } else { vec![2] };
        if shape == 2 { o.valid_start = 2; }
    }
    let st = state(&o);
    let s0 = st.snap();
    let (n, start) = window_of("history");
    let ex = st.w.ex;
    let y0 = supplies();
    let d = match transaction(vec![], || ex.get_account_details(st.a.addr, n, start)) { Ok(d) => d, Err(_) => { ck("C28", "account details can be queried", Form::False); return; } };
    cover("account details");
    same_quiet(QUIET, &s0, &st.snap());
    ck("C28", QUIET, all(y0.iter().zip(supplies()).map(|(a, b)| a.f_eq(b)).collect()));
    let i = &s0.accs[0];
    ck("C28", "the account's balance is reported", d.virtual_balance.f_eq(i.virtual_balance));
    ck("C28", "every position is reported once", fof(d.positions.len() == i.positions.len() && i.positions.keys().all(|p| d.positions.iter().filter(|x| x.pair_id == *p).count() == 1)));
    for k in 0..2 {
        let Some(r) = d.positions.iter().find(|x| x.pair_id == pair(k)) else { continue };
        let x = pos(i, &pair(k));
        let q = ppos(&s0, &pair(k));
        let size = abs(x.amount);
        ck("C28", "positions are reported as stored", r.amount.f_eq(x.amount).and(r.cost.f_eq(x.cost)));
        ck("C28", "a position's margins are its size times the pair's ratios", r.margin_initial.f_eq(size * st.p[k].margin_initial).and(r.margin_maintenance.f_eq(size * st.p[k].margin_maintenance)));
        let long = [pa, pb][k] == 1;
        ck("C28", "a position's funding is its size times the index change of its side", r.funding.f_eq(size * ((if long { q.funding_long_index } else { q.funding_short_index }) - x.funding_index)));
    }
    ck("C28", "every configured collateral is reported once", fof(d.collaterals.len() == 2 && (0..2).all(|k| d.collaterals.iter().filter(|x| x.resource == coll(k)).count() == 1)));
    for k in 0..2 {
        let Some(r) = d.collaterals.iter().find(|x| x.resource == coll(k)) else { continue };
        let b = bal(i, coll(k));
        ck("C28", "collateral is reported as stored", fof(r.pair_id == cfeed(k)).and(r.amount.f_eq(b)).and(r.discount.f_eq(st.c[k].discount)).and(r.margin.f_eq(b * st.c[k].margin)));
    }
    let reqs = &s0.requests[0];
    ck("C28", "the number of requests and the first valid one are reported", d.requests_len.f_eq(c64(reqs.len() as i128)).and(d.valid_requests_start.f_eq(c64(o.valid_start as i128))));
    let entry = |r: &RequestDetails, k: usize| {
        let want = &reqs[k];
        if r.status as usize != want.status as usize { return Form::False; }
        r.index.f_eq(c64(k as i128)).and(same_body(&r.request, &Request::decode(&want.request))).and(secs(&r.submission).f_eq(secs(&want.submission))).and(secs(&r.expiry).f_eq(secs(&want.expiry)))
    };
    let mut act = o.active.clone();
    act.retain(|k| *k >= o.valid_start);
    act.sort_by_key(|k| std::cmp::Reverse(*k));
    ck("C28", "active requests are reported latest first", if d.active_requests.len() != act.len() { Form::False } else { all(d.active_requests.iter().zip(&act).map(|(r, k)| entry(r, *k)).collect()) });
    let want = covered_tail(reqs.len(), n, start);
    ck("C28", "the history window is reported latest first", if d.requests_history.len() != want.len() { Form::False } else { all(d.requests_history.iter().zip(&want).map(|(r, k)| entry(r, *k)).collect()) });
    ck("C28", "the referral is reported", match (&d.referral, &st.referral) { (None, None) => Form::True, (Some((id, r)), Some(w)) => fof(*id == NonFungibleGlobalId::new(_REFERRAL_RESOURCE, ref_id())).and(r.balance.f_eq(w.balance)).and(r.total_rewarded.f_eq(w.total_rewarded)).and(r.fee_referral.f_eq(w.fee_referral)).and(r.fee_rebate.f_eq(w.fee_rebate)), _ => Form::False });
}
pub fn pool() {
    any_order();
    let st = state(&Opt { pos: vec![0, 0], ccfg: 2, sym_cfg: true, sym_fund: true, sym_fee: true, referral: true, ..Default::default() });
    let s0 = st.snap();
    let ex = st.w.ex;
    let what = pick(5, "query");
    let y0 = supplies();
    let same_config = |c: &PairConfig, w: &PairConfig| fof(c.pair_id == w.pair_id).and(c.margin_initial.f_eq(w.margin_initial)).and(c.margin_maintenance.f_eq(w.margin_maintenance)).and(c.oi_max.f_eq(w.oi_max)).and(c.fee_0.f_eq(w.fee_0)).and(c.fee_1.f_eq(w.fee_1)).and(c.price_age_max.f_eq(w.price_age_max))
        .and(c.funding_1.f_eq(w.funding_1)).and(c.funding_2.f_eq(w.funding_2)).and(c.funding_share.f_eq(w.funding_share));
    match what {
        0 => {
            let d = match transaction(vec![], || ex.get_pool_details()) { Ok(d) => d, Err(_) => { ck("C28", "pool details can be queried", Form::False); return; } };
            cover("pool details");
            let p = &s0.pool;
            ck("C28", "the pool's totals are reported", d.base_tokens_amount.f_eq(p.base_tokens_amount).and(d.virtual_balance.f_eq(p.virtual_balance)).and(d.unrealized_pool_funding.f_eq(p.unrealized_pool_funding)).and(d.pnl_snap.f_eq(p.pnl_snap)).and(d.lp_supply.f_eq(s0.lp)));
            ck("C28", "the skew ratio is the total skew over the pool's value", d.skew_ratio.f_eq(skew_ratio(p)).and(d.skew_ratio_cap.f_eq(st.e.skew_ratio_cap)));
            let v = pool_value(p).max(Decimal::ONE);
            let price = if is(s0.lp.f_eq(zero())) { Decimal::ONE } else { v / s0.lp };
            ck("C28", "the token price is the pool's value per token", d.lp_price.f_eq(price));
        }
        1 => {
            let ids = [vec![], vec![0], vec![1, 0], vec![0, 1, 0]][pick(4, "pairs")].clone();
            let l: Vec<String> = ids.iter().map(|k| pair(*k)).collect();
            let d = match transaction(vec![], || ex.get_pair_details(l)) { Ok(d) => d, Err(_) => { ck("C28", "pair details can be queried", Form::False); return; } };
            cover("pair details");
            ck("C28", "the asked pairs are reported in order", fof(d.len() == ids.len() && d.iter().zip(&ids).all(|(x, k)| x.pair_id == pair(*k))));
            for (x, k) in d.iter().zip(&ids) {
                let q = ppos(&s0, &pair(*k));
                let z = &x.pool_position;
                ck("C28", "a pair's position is reported as stored", q.oi_long.f_eq(z.oi_long).and(q.oi_short.f_eq(z.oi_short)).and(q.cost.f_eq(z.cost)).and(q.skew_abs_snap.f_eq(z.skew_abs_snap)).and(q.pnl_snap.f_eq(z.pnl_snap)).and(q.funding_2_rate.f_eq(z.funding_2_rate)).and(q.funding_long_index.f_eq(z.funding_long_index)).and(q.funding_short_index.f_eq(z.funding_short_index)).and(q.last_price.f_eq(z.last_price)));
                ck("C28", "a pair's configuration is reported as stored", same_config(&x.pair_config, &st.p[*k]));
            }
        }
        2 => {
            let (n, start) = window_of("pairs");
            let third = yes("third pair");
            if third { setup(|| st.w.cfg.update_pair_configs(vec![pair_cfg(&pair(2))])); }
            let len = if third { 3 } else { 2 };
            let r = transaction(vec![], || (ex.get_pair_configs(n, start), ex.get_pairs(n, start), ex.get_pair_configs_len(), st.w.cfg.get_pair_configs(n, start)));
            let (c, ids, m, raw) = match r { Ok(x) => x, Err(_) => { ck("C28", "pages can be queried", Form::False); return; } };
            let want = covered(len, n, start);
            if !want.is_empty() { cover("pair pages"); }
            ck("C28", "the number of pairs is reported", m.f_eq(c64(len as i128)));
            ck("C28", "a page lists the pairs of its window in order", fof(c.len() == want.len() && ids.len() == want.len() && raw.len() == want.len() && want.iter().enumerate().all(|(i, k)| c[i].pair_id == pair(*k) && ids[i] == pair(*k) && raw[i].pair_id == pair(*k))));
            for (x, k) in c.iter().zip(&want) { if *k < 2 { ck("C28", "a pair's configuration is reported as stored", same_config(x, &st.p[*k])); } }
        }
        3 => {
            let r = transaction(vec![], || (ex.get_exchange_config(), ex.get_collateral_configs(), ex.get_collaterals(), ex.get_protocol_balance(), ex.get_treasury_balance()));
            let (e, c, rs, p, t) = match r { Ok(x) => x, Err(_) => { ck("C28", "configurations can be queried", Form::False); return; } };
            cover("configurations");
            ck("C28", "the fee balances are reported", p.f_eq(s0.protocol).and(t.f_eq(s0.treasury)));
            ck("C28", "the exchange configuration is reported as stored", e.skew_ratio_cap.f_eq(st.e.skew_ratio_cap).and(e.fee_share_protocol.f_eq(st.e.fee_share_protocol)).and(e.fee_share_treasury.f_eq(st.e.fee_share_treasury)).and(e.fee_share_referral.f_eq(st.e.fee_share_referral)).and(e.fee_max.f_eq(st.e.fee_max)).and(e.positions_max.f_eq(st.e.positions_max)));
            ck("C28", "every collateral is reported", fof(c.len() == 2 && rs.len() == 2 && (0..2).all(|k| rs.contains(&coll(k)) && c.contains_key(&coll(k)))));
            for k in 0..2 { if let Some(x) = c.get(&coll(k)) { ck("C28", "a collateral's configuration is reported as stored", fof(x.pair_id == st.c[k].pair_id).and(x.discount.f_eq(st.c[k].discount)).and(x.margin.f_eq(st.c[k].margin)).and(x.price_age_max.f_eq(st.c[k].price_age_max))); } }
        }
        _ => {
            let r = transaction(vec![], || ex.get_referral_details(ref_id()));
            let d = match r { Ok(x) => x, Err(_) => { ck("C28", "referral details can be queried", Form::False); return; } };
            cover("referral details");
            let w = st.referral.as_ref().unwrap();
            ck("C28", "the referral is reported as stored", d.referral.balance.f_eq(w.balance).and(d.referral.total_rewarded.f_eq(w.total_rewarded)).and(d.referral.fee_referral.f_eq(w.fee_referral)).and(d.referral.fee_rebate.f_eq(w.fee_rebate)).and(d.referral.referrals.f_eq(w.referrals)).and(d.referral.max_referrals.f_eq(w.max_referrals)).and(fof(d.allocations.is_empty())));
        }
    }
    same_quiet(QUIET, &s0, &st.snap());
    ck("C28", QUIET, all(y0.iter().zip(supplies()).map(|(a, b)| a.f_eq(b)).collect()));
}
/// pages of an account with many requests, one symbolic bound at a time
pub fn long_pages() {
    const N: usize = 24;
    let mut o = Opt { pos: vec![0], ccfg: 1, ..Default::default() };
    o.requests = (0..N).map(|k| keeper_request(plain(&format!("{}", k + 1)), k % 3)).collect();
    o.active = (0..N).filter(|k| k % 3 == 1).collect();
    let st = state(&o);
    let a = st.a.g;
    let sym = uv("bound", 0, 60, &[0, 5, 12, 23, 24, 30]);
    let (n, start) = match pick(3, "window") { 0 => (sym, None), 1 => (sym, Some(c64(3))), _ => (c64([1, 9, 24][pick(3, "size")]), Some(sym)) };
    let tail = yes("tail");
    let v = match transaction(vec![], || if tail { a.get_requests_tail(n, start) } else { a.get_requests(n, start) }) { Ok(v) => v, Err(_) => { ck("C28", "pages can be queried", Form::False); return; } };
    let want = if tail { covered_tail(N, n, start) } else { covered(N, n, start) };
    if want.len() > 15 { cover(if tail { "long request tail" } else { "long request page" }); }
    ckd("C28", "a long page lists the requests of its window in order", if v.len() != want.len() { Form::False } else { all(v.iter().zip(&want).map(|(x, k)| x.0.f_eq(c64(*k as i128)).and(same(&x.1, &o.requests[*k]))).collect()) }, || format!("tail {}", tail));
    if let Ok(m) = transaction(vec![], || a.get_active_requests()) { ck("C28", "all active requests are reported", fof(m.len() == o.active.len())); }
}
/// pages of an account's requests and of the wrapper's tokens
pub fn pages() {
    any_order();
    let len = pick(5, "length");
    let mut o = Opt { pos: vec![0], ccfg: 1, ..Default::default() };
    o.requests = (0..len).map(|k| keeper_request(plain(["1", "-2", "3", "-4"][k]), k % 3)).collect();
    o.active = (0..len).filter(|k| k % 3 == 1).collect();
    let st = state(&o);
    let s0 = st.snap();
    let a = st.a.g;
    let (n, start) = window_of("page");
    let listed = |v: &[(u64k_, KeeperRequest)], want: &[usize]| if v.len() != want.len() { Form::False } else { all(v.iter().zip(want).map(|(x, k)| x.0.f_eq(c64(*k as i128)).and(same(&x.1, &o.requests[*k]))).collect()) };
    match pick(4, "query") {
        0 => {
            let v = match transaction(vec![], || a.get_requests(n, start)) { Ok(v) => v, Err(_) => { ck("C28", "pages can be queried", Form::False); return; } };
            let want = covered(len, n, start);
            if !want.is_empty() { cover("request page"); }
            ck("C28", "a page lists the requests of its window in order", listed(&v, &want));
        }
        1 => {
            let v = match transaction(vec![], || a.get_requests_tail(n, start)) { Ok(v) => v, Err(_) => { ck("C28", "pages can be queried", Form::False); return; } };
            let want = covered_tail(len, n, start);
            if !want.is_empty() { cover("request tail"); }
            ck("C28", "a tail lists the requests of its window latest first", listed(&v, &want));
        }
        2 => {
            let k = uv("index", 0, 1 << 40, &[0, 1, 5]);
            let r = transaction(vec![], || (a.get_request(k), a.get_requests_by_indexes(vec![k, c64(0)]), a.get_requests_len(), a.get_active_requests()));
            let (one, several, m, act) = match r { Ok(x) => x, Err(_) => { ck("C28", "requests can be queried", Form::False); return; } };
            cover("single request");
            let place = (0..len).find(|j| is(k.f_eq(c64(*j as i128))));
            let right = |x: &Option<KeeperRequest>, j: Option<usize>| match (x, j) { (None, None) => Form::True, (Some(x), Some(j)) => same(x, &o.requests[j]), _ => Form::False };
            ck("C28", "a request is reported as stored", right(&one, place).and(m.f_eq(c64(len as i128))));
            ck("C28", "the asked requests are reported", several.get(&k).map_or(Form::False, |x| right(x, place)).and(several.get(&c64(0)).map_or(Form::False, |x| right(x, if len > 0 { Some(0) } else { None }))));
            ck("C28", "the active requests are reported", fof(act.len() == o.active.len()).and(all(o.active.iter().map(|j| act.get(&c64(*j as i128)).map_or(Form::False, |x| same(x, &o.requests[*j]))).collect())));
        }
        _ => {
            let amounts: Vec<_> = (0..3).map(|k| floor(dv(&format!("wrapped{}", k), "0", "1000000000", &["7", "0", "20"]), 18)).collect();
            let t = setup(|| { let mut t = wrapper(); for k in 0..len.min(3) { t.add_input(coll(k)); if k == 1 { t.update_wrappable(coll(1), false); } else { let b = t.wrap(Bucket::model(coll(k), amounts[k as usize].clone())); let _ = b.model_take(); } } t });
            let v = match transaction(vec![], || t.get_inputs(n, start)) { Ok(v) => v, Err(_) => { ck("C28", "pages can be queried", Form::False); return; } };
            let want = covered(len.min(3), n, start);
            if !want.is_empty() { cover("wrapped tokens page"); }
            ck("C28", "a page lists the wrapped tokens of its window in order", fof(v.len() == want.len() && v.iter().zip(&want).all(|(x, k)| x.0 == coll(*k) && x.1 == (*k != 1))));
            for (x, k) in v.iter().zip(&want) { ck("C28", "the deposits are reported", x.2.f_eq(if *k == 1 { zero() } else { amounts[*k as usize].clone() })); }
        }
    }
    same_quiet(QUIET, &s0, &st.snap());
}
