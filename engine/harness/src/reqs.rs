//! Requests: creation, links between orders, the execution window, cancellation and the configured limits.
use crate::ops::*;
use crate::order::*;
use crate::world::*;

pub const DORMANT: u8 = 0;
pub const ACTIVE: u8 = 1;
pub const EXECUTED: u8 = 2;
pub const CANCELLED: u8 = 3;
pub const EXPIRED: u8 = 4;

fn same_list(a: &[u64k_], b: &[u64k_]) -> Form { if a.len() != b.len() { return Form::False; } all(a.iter().zip(b).map(|(x, y)| x.f_eq(*y)).collect()) }
fn same_pl(a: &PriceLimit, b: &PriceLimit) -> Form { match (a, b) { (PriceLimit::None, PriceLimit::None) => Form::True, (PriceLimit::Gte(x), PriceLimit::Gte(y)) | (PriceLimit::Lte(x), PriceLimit::Lte(y)) => x.f_eq(*y), _ => Form::False } }
fn same_sl(a: &SlippageLimit, b: &SlippageLimit) -> Form { match (a, b) { (SlippageLimit::None, SlippageLimit::None) => Form::True, (SlippageLimit::Percent(x), SlippageLimit::Percent(y)) | (SlippageLimit::Absolute(x), SlippageLimit::Absolute(y)) => x.f_eq(*y), _ => Form::False } }
pub fn same_body(a: &Request, b: &Request) -> Form {
    match (a, b) {
        (Request::RemoveCollateral(x), Request::RemoveCollateral(y)) => {
            if x.target_account != y.target_account || x.claims.len() != y.claims.len() { return Form::False; }
            all(x.claims.iter().zip(&y.claims).map(|(p, q)| fof(p.0 == q.0).and(p.1.f_eq(q.1))).collect())
        }
        (Request::MarginOrder(x), Request::MarginOrder(y)) => {
            if x.pair_id != y.pair_id || x.reduce_only != y.reduce_only { return Form::False; }
            all(vec![x.amount.f_eq(y.amount), same_pl(&x.price_limit, &y.price_limit), same_sl(&x.slippage_limit, &y.slippage_limit), same_list(&x.activate_requests, &y.activate_requests), same_list(&x.cancel_requests, &y.cancel_requests)])
        }
        _ => Form::False,
    }
}
pub fn secs(i: &Instant) -> i64k_ { i.seconds_since_unix_epoch }
/// the two stored requests agree in everything but the status
pub fn same_but_status(a: &KeeperRequest, b: &KeeperRequest) -> Form {
    same_body(&Request::decode(&a.request), &Request::decode(&b.request)).and(secs(&a.submission).f_eq(secs(&b.submission))).and(secs(&a.expiry).f_eq(secs(&b.expiry))).and(fof(a.effected_components == b.effected_components))
}
pub fn same(a: &KeeperRequest, b: &KeeperRequest) -> Form { if a.status != b.status { return Form::False; } same_but_status(a, b) }
/// the account's funds, the pool and the fee balances are as before
pub fn funds_untouched(p: &str, what: &str, s0: &Snap, s1: &Snap) {
    let mut v = vec![
        s0.pool.base_tokens_amount.f_eq(s1.pool.base_tokens_amount), s0.pool.virtual_balance.f_eq(s1.pool.virtual_balance), s0.pool.unrealized_pool_funding.f_eq(s1.pool.unrealized_pool_funding),
        s0.pool.skew_abs_snap.f_eq(s1.pool.skew_abs_snap), s0.pool.pnl_snap.f_eq(s1.pool.pnl_snap), s0.protocol.f_eq(s1.protocol), s0.treasury.f_eq(s1.treasury), s0.deleg.f_eq(s1.deleg), s0.lp.f_eq(s1.lp), fof(deposit_targets().is_empty()),
    ];
    for (a, b) in s0.accs.iter().zip(&s1.accs) {
        v.push(a.virtual_balance.f_eq(b.virtual_balance));
        v.push(fof(a.positions.len() == b.positions.len() && a.collateral_balances.len() == b.collateral_balances.len()));
        for (k, x) in a.positions.iter() { let y = pos(b, k); v.push(x.amount.f_eq(y.amount)); v.push(x.cost.f_eq(y.cost)); v.push(x.funding_index.f_eq(y.funding_index)); }
        for (r, x) in a.collateral_balances.iter() { v.push(x.f_eq(bal(b, *r))); }
    }
    for (k, q) in s0.pool.positions.iter() {
        if let Some(z) = s1.pool.positions.get(k) { v.push(all(vec![q.oi_long.f_eq(z.oi_long), q.oi_short.f_eq(z.oi_short), q.cost.f_eq(z.cost), q.skew_abs_snap.f_eq(z.skew_abs_snap), q.pnl_snap.f_eq(z.pnl_snap), q.funding_long_index.f_eq(z.funding_long_index), q.funding_short_index.f_eq(z.funding_short_index)])); } else { v.push(Form::False); }
    }
    for (a, b) in s0.refs.iter().zip(&s1.refs) { v.push(a.1.balance.f_eq(b.1.balance)); }
    ck(p, what, all(v));
}
fn plain_order(amount: Decimal, act: Vec<u64k_>, can: Vec<u64k_>) -> Request {
    Request::MarginOrder(RequestMarginOrder { pair_id: pair(0), amount, reduce_only: false, price_limit: PriceLimit::None, slippage_limit: SlippageLimit::None, activate_requests: act, cancel_requests: can })
}
fn removal(claims: Vec<(ResourceAddress, Decimal)>) -> Request { Request::RemoveCollateral(RequestRemoveCollateral { target_account: wallet(1), claims }) }
fn active_of(rs: &[KeeperRequest]) -> Vec<usize> { rs.iter().enumerate().filter(|(_, r)| r.status <= ACTIVE).map(|(i, _)| i).collect() }
pub fn active_is(s: &Snap, k: usize, want: &[usize]) -> Form {
    let a = &s.active[k];
    if a.len() != want.len() { return Form::False; }
    all(want.iter().map(|w| any(a.iter().map(|x| x.f_eq(c64(*w as i128))).collect())).collect())
}
fn both(f: Form, what: &str, ps: &[&str]) { for p in ps { ck(p, what, f.clone()); } }

// ------------------------------------------------------------------------------------------------ creation
pub fn place() {
    any_order();
    let kind = pick(3, "kind");
    let pre = pick(3, "existing requests");
    let amount = { let m = dv("amount", "0", "1000000000", &["5", "0.3", "70"]); if kind > 0 && yes("sell") { -m } else { m } };
    let mut o = Opt { pos: vec![0], ccfg: 1, ..Default::default() };
    o.requests = match pre { 0 => vec![], 1 => vec![keeper_request(plain_order(de("1"), vec![], vec![]), 1)], _ => vec![keeper_request(plain_order(de("1"), vec![], vec![]), 2), keeper_request(removal(vec![]), 0)] };
    o.active = active_of(&o.requests);
    let pre_active = o.active.clone();
    let n = o.requests.len();
    let st = state(&o);
    let max = wv("active_requests_max", 1, 6, &[1, 2, 3]);
    let min = dv("trade_size_min", "0", "1000000", &["0", "1", "10"]);
    setup(|| {
        let mut e = st.e.clone(); e.active_requests_max = max; st.w.cfg.update_exchange_config(e);
        let mut p = st.p[0].clone(); p.trade_size_min = min; st.w.cfg.update_pair_configs(vec![p]);
    });
    let delay = uv("delay", 0, 1_000_000_000_000, &[0, 10, 3600]);
    let life = uv("lifetime", 0, 1_000_000_000_000, &[60, 0, 86400]);
    let (ex, a) = (st.w.ex, st.a.addr);
    let s0 = st.snap();
    let lvl = |l: u8| vec![pe(level_badge(0, l))];
    let now = st.now;
    let (status, nclaims) = (if kind == 1 { pick(5, "requested status") as u8 } else { ACTIVE }, if kind == 0 { [0, 1, 2, 10, 11][pick(5, "claims")] } else { 0 });
    let pl = match if kind == 0 { 0 } else { pick(3, "price limit") } { 0 => PriceLimit::None, 1 => PriceLimit::Gte(dv("limit", "0", "1000000", &["90", "3", "4"])), _ => PriceLimit::Lte(dv("limit", "0", "1000000", &["90", "3", "4"])) };
    let sl = if kind == 0 { SlippageLimit::None } else { SlippageLimit::Percent(dv("slippage", "0", "100", &["1", "2", "3"])) };
    let ro = kind > 0 && yes("reduce_only");
    match kind {
        0 => {
            let claims: Vec<_> = (0..nclaims).map(|k| (if k % 2 == 0 { coll(0) } else { _BASE_RESOURCE }, dv(&format!("claim{}", k), "0", "1000000000", &["5", "0.3", "70"]))).collect();
            let c2 = claims.clone();
            let r = transaction(lvl(2), move || ex.remove_collateral_request(None, life, a, wallet(2), c2));
            let idx = match r { Ok(i) => i, Err(_) => return };
            cover("withdrawal requested");
            let s1 = st.snap();
            ck("C09", "a withdrawal with too many claims is rejected", fof(nclaims <= 10));
            placed(&st, &s0, &s1, n, &pre_active, max, &[(Request::RemoveCollateral(RequestRemoveCollateral { target_account: wallet(2), claims }), ACTIVE)], now, life);
            both(idx.f_eq(c64(n as i128)), "the returned index is the next one", &["C11"]);
            ck("C20", "a withdrawal request records its target", fof(s1.requests[0].last().map_or(false, |r| r.effected_components == vec![wallet(2)])));
        }
        1 => {
            let (na, nc) = (pick(4, "activate"), pick(4, "cancel"));
            let mk = |n: usize, s: &str| -> (Vec<RequestIndexRef>, Vec<u64k_>) { (0..n).map(|k| if k % 2 == 0 { let v = uv(&format!("{}{}", s, k), 0, 1_000_000, &[0, 1, 2]); (RequestIndexRef::Index(v), v) } else { let v = iv(&format!("{}{}", s, k), -2, 1_000_000, &[1, 2, -1]); if !is(v.f_ge(ci(-(1i128) * pre as i128))) { end_path() } (RequestIndexRef::RelativeIndex(v), u64k_::of(&scrypto::term::add(&v.val(), &c64(pre as i128).val()))) }).unzip() };
            let ((ra, va), (rc, vc)) = (mk(na, "activate"), mk(nc, "cancel"));
            let r = transaction(lvl(3), move || ex.margin_order_request(None, delay, life, a, pair(0), amount, ro, pl, sl, ra, rc, status));
            let idx = match r { Ok(i) => i, Err(_) => return };
            cover("order requested");
            let s1 = st.snap();
            ck("C09", "an order affecting too many requests is rejected", fof(na <= 2 && nc <= 2));
            ck("C09", "an order below the minimum trade size is rejected", abs(amount).f_ge(min));
            ck("C11", "a new request is active or dormant", fof(status == ACTIVE || status == DORMANT));
            let want = Request::MarginOrder(RequestMarginOrder { pair_id: pair(0), amount, reduce_only: ro, price_limit: pl, slippage_limit: sl, activate_requests: va, cancel_requests: vc });
            placed(&st, &s0, &s1, n, &pre_active, max, &[(want, status)], now + delay_i(delay), life);
            ck("C11", "the returned index is the next one", idx.f_eq(c64(n as i128)));
        }
        _ => {
            let tp = if yes("take profit") { Some(dv("price_tp", "0", "1000000", &["120", "3", "4"])) } else { None };
            let sp = if yes("stop loss") { Some(dv("price_sl", "0", "1000000", &["80", "3", "4"])) } else { None };
            let r = transaction(lvl(3), move || ex.margin_order_tp_sl_request(None, delay, life, a, pair(0), amount, ro, pl, sl, tp, sp));
            let (i0, itp, isl) = match r { Ok(i) => i, Err(_) => return };
            cover("combined order requested");
            let s1 = st.snap();
            ck("C09", "an order below the minimum trade size is rejected", abs(amount).f_ge(min));
            let at = |k: usize| c64((n + k) as i128);
            let (ktp, ksl) = (if tp.is_some() { Some(1) } else { None }, if sp.is_some() { Some(if tp.is_some() { 2 } else { 1 }) } else { None });
            let long = is(amount.f_gt(zero()));
            let child = |l: PriceLimit, cancel: Option<usize>| Request::MarginOrder(RequestMarginOrder { pair_id: pair(0), amount: -amount, reduce_only: true, price_limit: l, slippage_limit: sl, activate_requests: vec![], cancel_requests: cancel.iter().map(|k| at(*k)).collect() });
            let mut want = vec![(Request::MarginOrder(RequestMarginOrder { pair_id: pair(0), amount, reduce_only: ro, price_limit: pl, slippage_limit: sl, activate_requests: ktp.iter().chain(ksl.iter()).map(|k| at(*k)).collect(), cancel_requests: vec![] }), ACTIVE)];
            if let Some(p) = tp { want.push((child(if long { PriceLimit::Gte(p) } else { PriceLimit::Lte(p) }, ksl), DORMANT)); }
            if let Some(p) = sp { want.push((child(if long { PriceLimit::Lte(p) } else { PriceLimit::Gte(p) }, ktp), DORMANT)); }
            placed(&st, &s0, &s1, n, &pre_active, max, &want, now + delay_i(delay), life);
            let opt_eq = |x: &Option<u64k_>, k: Option<usize>| match (x, k) { (None, None) => Form::True, (Some(v), Some(k)) => v.f_eq(at(k)), _ => Form::False };
            let f = i0.f_eq(at(0)).and(opt_eq(&itp, ktp)).and(opt_eq(&isl, ksl));
            both(f, "a combined order returns the indexes of its orders", &["C11", "C12"]);
            if tp.is_some() && sp.is_some() { cover("take profit and stop loss"); }
        }
    }
}
fn delay_i(d: u64k_) -> i64k_ { i64k_::of(&d.val()) }
/// what creating requests must leave behind
fn placed(st: &St, s0: &Snap, s1: &Snap, n: usize, pre_active: &[usize], max: u16k_, want: &[(Request, u8)], submission: i64k_, life: u64k_) {
    let rs = &s1.requests[0];
    both(fof(rs.len() == n + want.len()), "exactly the requested orders are appended", &["C11", "C12"]);
    if rs.len() != n + want.len() { return; }
    for k in 0..n { ck("C11", "earlier requests stay as they were", same(&s0.requests[0][k], &rs[k])); }
    for (k, (w, status)) in want.iter().enumerate() {
        let r = &rs[n + k];
        both(same_body(&Request::decode(&r.request), w), if want.len() > 1 && k > 0 { "a linked order reverses the position, is reduce-only and triggers on its side" } else { "the stored request is the requested one" }, &["C11", "C12"]);
        both(fof(r.status == *status), "a new request has the requested status", &["C11", "C12"]);
        ck("C11", "the submission time is now plus the delay", secs(&r.submission).f_eq(submission));
        ck("C11", "the expiry is the submission time plus the lifetime", secs(&r.expiry).f_eq(submission + delay_i(life)));
    }
    let mut act = pre_active.to_vec();
    act.extend(n..n + want.len());
    both(active_is(s1, 0, &act), "new requests are listed as active", &["C11", "C28"]);
    ck("C09", "the account has at most the maximum number of active requests", u16k_::from_i(s1.active[0].len() as i128).f_le(max));
    funds_untouched("C11", "creating a request changes no funds", s0, s1);
    crate::evts::told(s0, s1, &[st.a.addr], &[]);
}

// ------------------------------------------------------------------------------------------------ execution window
pub fn window() {
    // a withdrawal, an order, or an order that only closes part of the position
    let kind = pick(3, "request kind");
    let order = kind > 0;
    let status = pick(5, "status") as u8;
    let start = pick(3, "valid requests start");
    // the account's other requests: both still open, or both finished
    let open = !yes("other requests are finished");
    let (t0, t2) = if open { (DORMANT, ACTIVE) } else { (CANCELLED, EXECUTED) };
    let sub = iv("submission", NOW - 1_000_000, NOW + 1_000_000, &[NOW - 10, NOW, NOW + 10]);
    let life = uv("lifetime", 0, 1_000_000, &[60, 5, 10]);
    let exp = sub + delay_i(life);
    let body = match kind {
        0 => removal(vec![(_BASE_RESOURCE, de("1"))]),
        1 => plain_order(de("0.5"), vec![c64(0)], vec![c64(2)]),
        _ => Request::MarginOrder(RequestMarginOrder { pair_id: pair(0), amount: de("-0.000000000000000001"), reduce_only: true, price_limit: PriceLimit::None, slippage_limit: SlippageLimit::None, activate_requests: vec![c64(0)], cancel_requests: vec![c64(2)] }),
    };
    let r1 = KeeperRequest { request: body.encode(), submission: inst(sub), expiry: inst(exp), status, effected_components: if kind == 0 { vec![wallet(1)] } else { vec![] } };
    let mut o = Opt { pos: vec![if order || yes("holds a position") { 1 } else { 0 }], ccfg: 0, ..Default::default() };
    o.requests = vec![keeper_request(removal(vec![]), t0 as usize), r1, keeper_request(plain_order(de("1"), vec![], vec![]), t2 as usize)];
    o.active = active_of(&o.requests);
    o.valid_start = start;
    let st = state(&o);
    let s0 = st.snap();
    let r = st.process(1);
    let reward = match r { Ok(x) => x, Err(_) => return };
    let s1 = st.snap();
    let now = st.now;
    cover("request processed");
    if kind == 2 { cover("closing order processed"); }
    ck("C11", "a request before the first valid one is refused", fof(start <= 1));
    ck("C11", "a request is processed only after its submission time", now.f_gt(sub));
    let expired = is(now.f_ge(exp));
    let (q0, q1) = (&s0.requests[0], &s1.requests[0]);
    ck("C11", "processing leaves the number of requests", fof(q1.len() == 3));
    ck("C11", "processing keeps the request's contents", same_but_status(&q0[1], &q1[1]));
    if expired {
        cover("expired request marked");
        ck("C11", "an expired request is marked expired", fof(q1[1].status == EXPIRED));
        ck("C11", "only an active or dormant request expires", fof(status == ACTIVE || status == DORMANT));
        funds_untouched("C11", "an expired request has no effect", &s0, &s1);
        for k in [0, 2] { ck("C11", "an expired request affects no other request", same(&q0[k], &q1[k])); both(same(&q0[k], &q1[k]), "an expired order activates and cancels nothing", &["C12"]); }
        ck("C11", "an expired request is no longer active", active_is(&s1, 0, &(if !open { vec![] } else if start == 1 { vec![2] } else { vec![0, 2] })));
        ck("C01", "an expired request keeps the sum of all claims", claims(&s0).f_eq(claims(&s1)));
        ck("C20", "an expired withdrawal pays out nothing", fof(deposit_targets().is_empty()));
        crate::evts::told(&s0, &s1, &[st.a.addr], &[]);
    } else {
        cover("request executed in time");
        ck("C11", "only an active request is executed", fof(status == ACTIVE));
        ck("C11", "an executed request is marked executed", fof(q1[1].status == EXECUTED));
        if order {
            if open { ck("C12", "the listed dormant request is activated and the listed request cancelled", fof(q1[0].status == ACTIVE && q1[2].status == CANCELLED)); }
            else { both(fof(q1[0].status == t0 && q1[2].status == t2), "a finished request stays finished", &["C11", "C12"]); }
        } else {
            for k in [0, 2] { ck("C11", "a withdrawal affects no other request", same(&q0[k], &q1[k])); }
        }
        if order { crate::evts::linked(&st, &s0, &s1, 1) } else { crate::evts::withdrawal(&st, &s0, &s1, &[(_BASE_RESOURCE, de("1"))], wallet(1)) }
    }
    ck("C25", "processing pays the configured reward once", reward.f_eq(st.e.reward_keeper).and((s1.reward_minted - s0.reward_minted).f_eq(st.e.reward_keeper)));
    // never again
    let again = st.process(1);
    ck("C11", "a finished request is never processed again", fof(again.is_err()));
    ck("C25", "a finished request earns nothing more", fof(again.is_err()));
}

// ------------------------------------------------------------------------------------------------ links
pub fn links() {
    any_order();
    let lists: [&[usize]; 6] = [&[], &[1], &[2], &[1, 2], &[0], &[2, 2]];
    let (la, lc) = (lists[pick(6, "activate")], lists[pick(6, "cancel")]);
    let (t1, t2) = (pick(5, "status of request 1") as u8, pick(5, "status of request 2") as u8);
    let ix = |l: &[usize]| l.iter().map(|k| c64(*k as i128)).collect::<Vec<_>>();
    // an order that closes part of a position: what it links to does not depend on its side or size
    // ... nor on whether anything is left to close
    let closes = t1 > ACTIVE || t2 > ACTIVE || !yes("nothing to close");
    let mut o = Opt { pos: vec![closes as usize], ccfg: 0, ..Default::default() };
    let closing = Request::MarginOrder(RequestMarginOrder { pair_id: pair(0), amount: de("-0.5"), reduce_only: true, price_limit: PriceLimit::None, slippage_limit: SlippageLimit::None, activate_requests: ix(la), cancel_requests: ix(lc) });
    o.requests = vec![keeper_request(closing, 1), keeper_request(removal(vec![]), t1 as usize), keeper_request(plain_order(de("-1"), vec![c64(1)], vec![c64(0)]), t2 as usize), keeper_request(removal(vec![]), 0)];
    o.active = active_of(&o.requests);
    let st = state(&o);
    let s0 = st.snap();
    if st.process(0).is_err() { return }
    let s1 = st.snap();
    cover("linked order executed");
    if !closes { cover("linked order without a position"); }
    let (q0, q1) = (&s0.requests[0], &s1.requests[0]);
    let after = |k: usize, t: u8| { let t = if la.contains(&k) && t == DORMANT { ACTIVE } else { t }; if lc.contains(&k) && (t == ACTIVE || t == DORMANT) { CANCELLED } else { t } };
    let want = [EXECUTED, after(1, t1), after(2, t2), q0[3].status];
    for k in 0..4 {
        let what = match k { 0 => "an order cannot revive or cancel itself", 3 => "a request that is not listed stays as it was", _ => "listed requests change exactly as the order says and nothing finished is revived" };
        both(fof(q1.len() == 4 && q1[k].status == want[k]), what, &["C12", "C11"]);
        ck("C12", "a request's contents never change", same_but_status(&q0[k], &q1[k]));
    }
    let act: Vec<usize> = (0..4).filter(|k| want[*k] <= ACTIVE).collect();
    both(active_is(&s1, 0, &act), "the list of active requests follows the statuses", &["C12", "C28"]);
    if let Some(ev) = event::<EventMarginOrder>() {
        let ch = |l: &[usize], s: u8, from: &dyn Fn(u8) -> bool| { let mut v: Vec<usize> = l.iter().cloned().filter(|k| *k == 1 && from(t1) || *k == 2 && from(t2)).collect(); v.sort(); v.dedup(); let _ = s; v };
        let a = ch(la, ACTIVE, &|t| t == DORMANT);
        ck("C12", "the reported activations are the performed ones", fof(ev.activated_requests.len() == a.len()));
    }
    crate::evts::linked(&st, &s0, &s1, 0);
}

// ------------------------------------------------------------------------------------------------ cancellation
pub fn cancel() {
    any_order();
    let (t0, t1) = (pick(5, "status of request 0"), pick(5, "status of request 1"));
    let start = pick(2, "valid requests start");
    let l: &[usize] = [&[][..], &[0], &[1], &[0, 1], &[1, 1], &[5]][pick(6, "indexes")];
    let mut o = Opt { pos: vec![0], ccfg: 0, ..Default::default() };
    o.requests = vec![keeper_request(removal(vec![]), t0), keeper_request(plain_order(de("1"), vec![c64(0)], vec![]), t1), keeper_request(removal(vec![]), 1)];
    o.active = active_of(&o.requests);
    o.valid_start = start;
    let st = state(&o);
    let s0 = st.snap();
    let ix: Vec<u64k_> = l.iter().map(|k| c64(*k as i128)).collect();
    let r = transaction(vec![pe(level_badge(0, 3))], || st.w.ex.cancel_requests(None, st.a.addr, ix));
    if r.is_err() { return }
    let s1 = st.snap();
    cover("requests cancelled");
    let t = [t0 as u8, t1 as u8, ACTIVE];
    for k in 0..3 {
        if l.contains(&k) { ck("C11", "only active or dormant requests are cancelled", fof(t[k] <= ACTIVE)); }
        both(fof(s1.requests[0][k].status == if l.contains(&k) { CANCELLED } else { t[k] }), "exactly the given requests are cancelled", &["C11", "C12"]);
        ck("C11", "a cancelled request keeps its contents", same_but_status(&s0.requests[0][k], &s1.requests[0][k]));
    }
    ck("C11", "cancelling needs an existing request", fof(!l.contains(&5)));
    let act: Vec<usize> = (start..3).filter(|k| t[*k] <= ACTIVE && !l.contains(k)).collect();
    both(active_is(&s1, 0, &act), "cancelled requests are no longer active", &["C11", "C28"]);
    funds_untouched("C11", "cancelling changes no funds", &s0, &s1);
    ck("C01", "cancelling keeps the sum of all claims", claims(&s0).f_eq(claims(&s1)));
    crate::evts::told(&s0, &s1, &[st.a.addr], &[]);
    if l.contains(&1) { let again = st.process(1); ck("C11", "a cancelled request is never executed", fof(again.is_err())); }
}

/// seven requests cancelled at once among nine
pub fn cancel_many() {
    let (t1, t6) = (pick(5, "status of request 1"), pick(5, "status of request 6"));
    let start = pick(2, "valid requests start");
    let l: &[usize] = [&[0usize, 1, 2, 3, 4, 5, 6][..], &[8, 7, 6, 5, 3, 1], &[1, 2, 4, 6, 8, 0]][pick(3, "indexes")];
    let mut o = Opt { pos: vec![0], ccfg: 0, ..Default::default() };
    let t: Vec<usize> = (0..9).map(|k| match k { 1 => t1, 6 => t6, 3 | 8 => 0, _ => 1 }).collect();
    o.requests = t.iter().map(|t| keeper_request(removal(vec![]), *t)).collect();
    o.active = active_of(&o.requests);
    o.valid_start = start;
    let st = state(&o);
    let s0 = st.snap();
    let ix: Vec<u64k_> = l.iter().map(|k| c64(*k as i128)).collect();
    let r = transaction(vec![pe(level_badge(0, 3))], || st.w.ex.cancel_requests(None, st.a.addr, ix));
    if r.is_err() { return }
    let s1 = st.snap();
    cover("many requests cancelled");
    for k in 0..9 {
        if l.contains(&k) { ck("C11", "only active or dormant requests are cancelled", fof(t[k] as u8 <= ACTIVE)); }
        both(fof(s1.requests[0][k].status == if l.contains(&k) { CANCELLED } else { t[k] as u8 }), "exactly the given requests are cancelled", &["C11", "C12"]);
        ck("C11", "a cancelled request keeps its contents", same_but_status(&s0.requests[0][k], &s1.requests[0][k]));
    }
    let act: Vec<usize> = (start..9).filter(|k| t[*k] as u8 <= ACTIVE && !l.contains(k)).collect();
    both(active_is(&s1, 0, &act), "cancelled requests are no longer active", &["C11", "C28"]);
    funds_untouched("C11", "cancelling changes no funds", &s0, &s1);
}

// ------------------------------------------------------------------------------------------------ limits on opening
pub fn positions_max() {
    let (p0, p1, p2) = (pick(3, "position 0"), pick(2, "position 1"), pick(2, "position 2"));
    let max = wv("positions_max", 1, 5, &[1, 2, 3]);
    let amount = { let m = dv("order_size", "0.000000000000000001", "1000000000", &["5", "30", "0.7"]); if yes("sell") { -m } else { m } };
    let mut o = Opt { pos: vec![p0, p1, p2], ccfg: 0, ..Default::default() };
    o.requests = vec![keeper_request(plain_order(amount, vec![], vec![]), 1)];
    o.active = vec![0];
    let st = state(&o);
    setup(|| { let mut e = st.e.clone(); e.positions_max = max; st.w.cfg.update_exchange_config(e); });
    let s0 = st.snap();
    if st.process(0).is_err() { return }
    let s1 = st.snap();
    cover("order executed");
    let (x0, x1) = (pos(&s0.accs[0], &pair(0)).amount, pos(&s1.accs[0], &pair(0)).amount);
    let n = s1.accs[0].positions.len();
    // an order that only closes may leave more positions than a lowered maximum allows
    let opened = is(x1.f_eq(zero()).not().and(abs(x1).f_gt(abs(x0)).or(any(vec![x1.f_gt(zero()).and(x0.f_lt(zero())), x1.f_lt(zero()).and(x0.f_gt(zero()))]))));
    if opened {
        cover("position opened");
        ck("C09", "an account has at most the maximum number of positions after opening", u16k_::from_i(n as i128).f_le(max));
    }
}
