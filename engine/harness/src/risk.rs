//! Liquidation, auto-deleverage, pair updates and funding.
use crate::ops::*;
use crate::order::*;
use crate::world::*;

pub fn liquidate() {
    let p0 = pick(3, "position");
    let second = yes("second position");
    let ncoll = pick(3, "collaterals");
    let referral = p0 != 0 && yes("referral");
    let funding = p0 != 0 && yes("funding due");
    let done = yes("has finished requests");
    liquidated(Opt { pos: if second { vec![p0, 1] } else { vec![p0] }, sym_cfg: true, sym_fee: true, funding, referral, ccfg: 1, colls: (0..ncoll).map(coll).collect(), ..Default::default() }, done)
}
/// two or three positions on either side and up to three collaterals, two of them configured
pub fn liquidate_several() {
    any_order();
    let n = 2 + pick(2, "positions");
    let pos: Vec<usize> = (0..n).map(|_| 1 + pick(2, "side")).collect();
    let ncoll = if n == 2 { 2 + pick(2, "collaterals") } else { 2 };
    let ccfg = if ncoll == 3 { 2 + pick(2, "configured collaterals") } else { 2 };
    liquidated(Opt { pos, funding: true, ccfg, colls: (0..ncoll).map(coll).collect(), ..Default::default() }, false)
}
/// six positions and six collaterals, all but the first of each concrete
pub fn liquidate_many() {
    let p0 = 1 + pick(2, "side");
    let n = 4 + pick(3, "positions");
    liquidated(Opt { pos: (0..n).map(|k| if k == 0 { p0 } else { 1 + k % 2 }).collect(), wide: true, funding: true, ccfg: 5, colls: (0..6).map(coll).collect(), ..Default::default() }, false)
}
fn liquidated(mut o: Opt, done: bool) {
    let (ncoll, funding) = (o.colls.len(), o.funding);
    if done { o.requests = vec![keeper_request(Request::RemoveCollateral(RequestRemoveCollateral { target_account: wallet(1), claims: vec![] }), 2), keeper_request(Request::RemoveCollateral(RequestRemoveCollateral { target_account: wallet(1), claims: vec![] }), 1)]; o.active = vec![1]; }
    let st = state(&o);
    let pay = dv("payment", "0", "1000000000000", &["1000", "2.5", "100000000"]);
    let s0 = st.snap();
    let q = transaction(vec![], || { let (t, r) = st.w.ex.liquidate(st.a.addr, base(pay), None); (t.into_iter().map(|b| { let a = b.resource_address(); (a, taken(b)) }).collect::<Vec<_>>(), taken(r)) });
    let (toks, reward) = match q { Ok(x) => x, Err(_) => return };
    let s1 = st.snap();
    cover("account liquidated");
    let (a0, a1) = (&s0.accs[0], &s1.accs[0]);
    let got = |r: ResourceAddress| toks.iter().filter(|t| t.0 == r).fold(Decimal::ZERO, |t, x| t + x.1);
    // value and maintenance margin before, fees one after the other do not affect each other (different pairs)
    let (val, margin) = st.value(&s0, false);
    ck("C07", "only an account below its maintenance margin is liquidated", val.f_lt(margin));
    for k in 0..st.npairs { ck("C07", "every position is closed", fof(!a1.positions.contains_key(&pair(k)))); }
    let mut due = Decimal::ZERO;
    for k in 0..o.ccfg.max(ncoll) {
        let (c, b) = (coll(k), if k < ncoll { bal(a0, coll(k)) } else { zero() });
        if k < o.ccfg {
            if k < ncoll { due = due + b * st.cprice[k] * st.c[k].discount; }
            ck("C07", "all configured collateral is paid out to the liquidator", got(c).f_eq(b).and(fof(!a1.collateral_balances.contains_key(&c))));
        } else { ck("C07", "unconfigured collateral stays in the account", bal(a1, c).f_eq(b).and(got(c).f_eq(zero()))); }
    }
    ck("C07", "the liquidator pays the discounted collateral value and gets the rest back", (pay - got(_BASE_RESOURCE)).f_eq(due));
    ck("C07", "the payment covers the discounted collateral value", pay.f_ge(due));
    ck("C07", "the pool receives the discounted collateral value", (s1.pool.base_tokens_amount - s0.pool.base_tokens_amount).f_eq(due));
    ck("C07", "the account never ends with a negative balance", a1.virtual_balance.f_ge(zero()));
    // what remains: value of everything, at least zero
    ck("C07", "the account keeps exactly its value if positive", a1.virtual_balance.f_eq(val.max(Decimal::ZERO)));
    ck("C07", "all earlier requests are invalidated", a1.valid_requests_start.f_eq(a0.requests_len));
    ck("C11", "liquidation invalidates all earlier requests", a1.valid_requests_start.f_eq(a0.requests_len));
    if done { ck("C11", "liquidation does not revive finished requests", fof(s1.requests[0][0].status == 2usize as _)); }
    let all_pairs: Vec<usize> = (0..st.npairs).filter(|k| o.pos[*k] != 0).collect();
    common(&st, &s0, &s1, &all_pairs);
    let mut fee = Decimal::ZERO;
    for k in 0..st.npairs {
        if o.pos[k] == 0 { continue; }
        let (x, q) = (pos(a0, &pair(k)), ppos(&s0, &pair(k)));
        fee = fee + st.fee(k, &q, -x.amount * st.price[k]);
    }
    let (fp, ft, fr) = (fee * st.e.fee_share_protocol, fee * st.e.fee_share_treasury, fee * st.e.fee_share_referral * st.ref_share());
    ck("C05", "the protocol and treasury receive their shares of the published fee", (s1.protocol - s0.protocol).f_eq(fp).and((s1.treasury - s0.treasury).f_eq(ft)));
    for (i, (_, d1)) in s1.refs.iter().enumerate() { ck("C05", "the referrer receives its share of the published fee", (d1.balance - s0.refs[i].1.balance).f_eq(fr)); }
    let mut due_f = Decimal::ZERO;
    if funding {
        for k in 0..st.npairs { if o.pos[k] != 0 { let (x, q) = (pos(a0, &pair(k)), ppos(&s0, &pair(k))); due_f = due_f + if x.amount.is_positive() { x.amount * (q.funding_long_index - x.funding_index) } else { -x.amount * (q.funding_short_index - x.funding_index) }; } }
        ck("C04", "liquidation settles the funding due exactly once", (s0.pool.unrealized_pool_funding - s1.pool.unrealized_pool_funding).f_eq(due_f));
    }
    ck("C25", "liquidating pays the configured reward once", reward.f_eq(st.e.reward_keeper).and((s1.reward_minted - s0.reward_minted).f_eq(st.e.reward_keeper)));
    ck("C20", "liquidation pays out through the liquidator's buckets only", fof(deposit_targets().is_empty()));
    crate::evts::liquidation(&st, &s0, &s1, val, margin, due_f, fee);
}

pub fn adl() {
    let p0 = 1 + pick(2, "position");
    let variant = pick(3, "variant");
    let mut o = Opt { pos: vec![p0], sym_cfg: true, sym_fee: true, ccfg: 0, referral: variant == 1, funding: variant == 2, cost_sign: true, ..Default::default() };
    if variant == 1 { o.pos.push(1); }
    let mut st = state(&o);
    let mut e = st.e.clone();
    e.adl_offset = dv("adl_offset", "0", "100", &["1", "0", "0.5"]);
    e.adl_a = dv("adl_a", "0.001", "100", &["0.2", "1", "5"]);
    e.adl_b = dv("adl_b", "0", "100", &["0.1", "0", "1"]);
    setup(|| st.w.cfg.update_exchange_config(e.clone()));
    st.e = e.clone();
    let s0 = st.snap();
    let q = transaction(vec![], || taken(st.w.ex.auto_deleverage(st.a.addr, pair(0), None)));
    let reward = match q { Ok(x) => x, Err(_) => return };
    let s1 = st.snap();
    cover("position deleveraged");
    if p0 == 1 { cover("long position deleveraged") } else { cover("short position deleveraged") }
    let id = pair(0);
    let (a0, a1) = (&s0.accs[0], &s1.accs[0]);
    let (x0, q0) = (pos(a0, &id), ppos(&s0, &id));
    let price = st.price[0];
    common(&st, &s0, &s1, &[0]);
    ck("C08", "the position is closed entirely", fof(!a1.positions.contains_key(&id)));
    // the skew ratio after bringing the pair up to date, before closing
    let upd = |q: &PoolPosition| { let s = (q.oi_long - q.oi_short) * price; (abs(s), q.cost - s) };
    let (sk, pn) = upd(&q0);
    let idx = if p0 == 1 { q0.funding_long_index } else { q0.funding_short_index };
    let due = if p0 == 1 { x0.amount * (idx - x0.funding_index) } else { -x0.amount * (idx - x0.funding_index) };
    let mut pi = s0.pool.clone();
    pi.skew_abs_snap = pi.skew_abs_snap + sk - q0.skew_abs_snap;
    pi.pnl_snap = pi.pnl_snap + pn - q0.pnl_snap;
    let ratio0 = skew_ratio(&pi);
    let ratio1 = skew_ratio(&s1.pool);
    ck("C08", "deleveraging needs a skew ratio above the cap", ratio0.f_gt(st.e.skew_ratio_cap));
    let value = x0.amount * price;
    if let Some(ev) = event::<EventAutoDeleverage>() {
        let u = ratio0 / e.adl_a - e.adl_offset / e.adl_a;
        let threshold = -(u * u * u) - e.adl_b * u;
        ck("C08", "the published threshold is applied", ev.threshold.f_eq(threshold));
        ck("C08", "the relative profit exceeds the threshold", ev.pnl_percent.f_gt(threshold));
        ck("C08", "the relative profit is the profit relative to the cost", ev.pnl_percent.f_eq((value - x0.cost) / abs(x0.cost)));
        ck("C08", "the position is closed at the current price", ev.price.f_eq(price).and(ev.amount_close.f_eq(-x0.amount)));
        let f = -(ev.fee_pool + ev.fee_protocol + ev.fee_treasury + ev.fee_referral);
        ck("C05", "the fee is split completely", f.f_eq(st.fee(0, &q0, -value)));
    }
    // profitability and reported profit agree in sign: a position with a profit has a positive relative profit
    let fee = st.fee(0, &q0, -value);
    ck("C08", "the account is paid its profit less the normal fee and funding", (a1.virtual_balance - a0.virtual_balance).f_eq(value - x0.cost - fee - due));
    let (fp, ft, fr) = (fee * st.e.fee_share_protocol, fee * st.e.fee_share_treasury, fee * st.e.fee_share_referral * st.ref_share());
    ck("C05", "the protocol and treasury receive their shares of the published fee", (s1.protocol - s0.protocol).f_eq(fp).and((s1.treasury - s0.treasury).f_eq(ft)));
    for (i, (_, d1)) in s1.refs.iter().enumerate() { ck("C05", "the referrer receives its share of the published fee", (d1.balance - s0.refs[i].1.balance).f_eq(fr)); }
    ck("C08", "the skew ratio falls", ratio1.f_lt(ratio0));
    ck("C04", "deleveraging settles the funding due exactly once", (s0.pool.unrealized_pool_funding - s1.pool.unrealized_pool_funding).f_eq(due));
    ck("C25", "deleveraging pays the configured reward once", reward.f_eq(st.e.reward_keeper).and((s1.reward_minted - s0.reward_minted).f_eq(st.e.reward_keeper)));
    crate::evts::deleverage(&st, &s0, &s1, due, fee);
}

// ------------------------------------------------------------------------------------------------ pair updates
/// accrual of one pair over a symbolic period
pub fn funding() {
    let o = Opt { pos: vec![0], sym_fund: true, period: true, funding: true, ..Default::default() };
    let mut st = state(&o);
    let s0 = st.snap();
    let per = st.now - ppos(&s0, &pair(0)).last_update.seconds_since_unix_epoch;
    let zero_per = is(per.f_eq(ci(0)));
    let q = transaction(vec![], || { let (b, v) = st.w.ex.update_pairs(vec![pair(0)], None); (taken(b), v) });
    let (reward, rewarded) = match q { Ok(x) => x, Err(_) => return };
    let s1 = st.snap();
    let id = pair(0);
    let (q0, q1) = (ppos(&s0, &id), ppos(&s1, &id));
    let c = st.p[0].clone();
    let _ = &mut st;
    cover("pair updated");
    crate::evts::told(&s0, &s1, &[st.a.addr], &[]);
    common(&st, &s0, &s1, &[0]);
    ck("C03", "the recorded price and time are the current ones", q1.last_price.f_eq(st.price[0]).and(q1.last_update.seconds_since_unix_epoch.f_eq(st.now)));
    let (dl, ds) = (q1.funding_long_index - q0.funding_long_index, q1.funding_short_index - q0.funding_short_index);
    let du = s1.pool.unrealized_pool_funding - s0.pool.unrealized_pool_funding;
    ck("C04", "updating a pair moves no account or pool balance", s0.pool.virtual_balance.f_eq(s1.pool.virtual_balance).and(s0.accs[0].virtual_balance.f_eq(s1.accs[0].virtual_balance)));
    if zero_per {
        cover("zero period");
        ck("C04", "nothing accrues for a zero period", dl.f_eq(zero()).and(ds.f_eq(zero())).and(du.f_eq(zero())).and(q1.funding_2_rate.f_eq(q0.funding_2_rate)));
        return;
    }
    let one_sided = is(q0.oi_long.f_eq(zero()).or(q0.oi_short.f_eq(zero())));
    if one_sided {
        cover("one side empty");
        ck("C04", "nothing accrues while one side is empty", dl.f_eq(zero()).and(ds.f_eq(zero())).and(du.f_eq(zero())));
        return;
    }
    cover("funding accrues");
    let (el, es, edu, expect) = accrual(&st, 0, &q0, per);
    ck("C04", "the integral rate follows the published rule", q1.funding_2_rate.f_eq(expect));
    let _ = &c;
    ck("C04", "the longs' index moves by the published rate", dl.f_eq(el));
    ck("C04", "the shorts' index moves by the published rate", ds.f_eq(es));
    ck("C04", "what the sides are charged on balance accrues to the pool", du.f_eq(edu));
    let _ = (reward, rewarded);
}

/// what a pair with both sides open accrues over a period: (longs' index, shorts' index, the pool's funding, the new integral rate)
fn accrual(st: &St, k: usize, q0: &PoolPosition, per: i64k_) -> (Decimal, Decimal, Decimal, Decimal) {
    let c = st.p[k].clone();
    let (p, price) = (Decimal::from(per) / de("31536000"), st.price[k]);
    let (l, s) = (q0.oi_long, q0.oi_short);
    let skew = (l - s) * price;
    let (hi, lo) = (l * price, -s * price);
    let d = skew * c.funding_2_delta * p;
    // the integral part: decays towards and stays within what one side is worth
    let r0 = q0.funding_2_rate;
    let decay = c.funding_2_decay * p;
    let full = (r0.f_gt(hi).or(r0.f_lt(lo))).and(decay.f_ge(Decimal::ONE));
    let decay = if is(full) { Decimal::ONE } else { decay };
    // (the rate after the update, whether it is still outside of its bound for sure)
    let (expect, beyond) = if is(r0.f_gt(hi)) {
        let r = r0 - (r0 - hi) * decay;
        ck("C04", "an excessive integral rate decays towards its bound without crossing it", r.f_ge(hi).and(r.f_le(r0)));
        if is(d.f_lt(zero())) { ((r + d).max(lo), None) } else { (r, Some(hi)) }
    } else if is(r0.f_lt(lo)) {
        let r = r0 - (r0 - lo) * decay;
        ck("C04", "an excessive integral rate decays towards its bound without crossing it", r.f_le(lo).and(r.f_ge(r0)));
        if is(d.f_gt(zero())) { ((r + d).min(hi), None) } else { (r, Some(lo)) }
    } else { ((r0 + d).min(hi).max(lo), None) };
    let r1 = expect;
    let used = if let Some(b) = beyond { b } else if is(r1.f_gt(hi)) { hi } else if is(r1.f_lt(lo)) { lo } else { r1 };
    let rate = skew * c.funding_1 + used * c.funding_2;
    let pool = ((l + s) * price * c.funding_pool_0 + abs(skew) * c.funding_pool_1) * p;
    let pool_idx = pool / (l + s);
    let positive = is(rate.f_gt(zero()));
    let amount = if positive { rate * p } else { -rate * p };
    let share = amount * c.funding_share;
    let (el, es) = if positive { cover("longs pay"); (amount / l, -(amount - share) / s) } else { cover("shorts pay"); (-(amount - share) / l, amount / s) };
    (el + pool_idx, es + pool_idx, pool + share, expect)
}
/// closing positions whose pairs were last updated a while ago: both pairs accrue their funding first
pub fn up_to_date() {
    any_order();
    let op = pick(3, "operation");
    let n = if op == 0 { 2 } else { 1 };
    let sides: Vec<usize> = (0..n).map(|_| 1 + pick(2, "side")).collect();
    let o = Opt { pos: sides.clone(), plain: true, funding: true, ccfg: 0, cost_sign: true, requests: if op == 1 { vec![keeper_request(Request::MarginOrder(RequestMarginOrder { pair_id: pair(0), amount: dv("order_size", "-1000000000", "1000000000", &["5", "-30", "0.7"]), reduce_only: false, price_limit: PriceLimit::None, slippage_limit: SlippageLimit::None, activate_requests: vec![], cancel_requests: vec![] }), 1)] } else { vec![] }, active: if op == 1 { vec![0] } else { vec![] }, ..Default::default() };
    let st = state(&o);
    let pers: Vec<i64k_> = (0..n).map(|k| iv(&format!("period{}", k), 1, 31_536_000, &[3600, 60, 86400])).collect();
    setup(|| {
        let info = st.w.pool.get_info((0..n).map(pair).collect());
        let mut ups = HashMap::new();
        for k in 0..n { let mut q = info.positions.get(&pair(k)).cloned().unwrap(); q.last_update = inst(st.now - pers[k]); ups.insert(pair(k), q); }
        st.w.pool.update(MarginPoolUpdates { position_updates: ups, virtual_balance: info.virtual_balance, unrealized_pool_funding: info.unrealized_pool_funding, skew_abs_snap: info.skew_abs_snap, pnl_snap: info.pnl_snap });
    });
    let s0 = st.snap();
    let done = match op {
        0 => transaction(vec![], || { let (t, r) = st.w.ex.liquidate(st.a.addr, base(Decimal::ZERO), None); t.into_iter().for_each(|b| { taken(b); }); taken(r) }).is_ok(),
        1 => st.process(0).is_ok(),
        _ => transaction(vec![], || taken(st.w.ex.auto_deleverage(st.a.addr, pair(0), None))).is_ok(),
    };
    if !done { return }
    match op { 0 => cover("liquidated after a while"), 1 => cover("ordered after a while"), _ => cover("deleveraged after a while") }
    let s1 = st.snap();
    common(&st, &s0, &s1, &(0..n).collect::<Vec<_>>());
    let (mut due, mut du) = (Decimal::ZERO, Decimal::ZERO);
    for k in 0..n {
        let (q0, q1, x) = (ppos(&s0, &pair(k)), ppos(&s1, &pair(k)), pos(&s0.accs[0], &pair(k)));
        let (l, s, d, r) = accrual(&st, k, &q0, pers[k]);
        let (l, s) = (q0.funding_long_index + l, q0.funding_short_index + s);
        ck("C04", "a pair accrues its funding up to now before a position is settled", q1.funding_long_index.f_eq(l).and(q1.funding_short_index.f_eq(s)).and(q1.funding_2_rate.f_eq(r)));
        due = due + if sides[k] == 1 { x.amount * (l - x.funding_index) } else { -x.amount * (s - x.funding_index) };
        du = du + d;
    }
    ck("C04", "the positions pay the funding accrued up to now", (s1.pool.unrealized_pool_funding - s0.pool.unrealized_pool_funding).f_eq(du - due));
}

/// funding zero-sum over the exact numbers: what the payers are charged is what the receivers get plus the pool's accrual
pub fn funding_sum() {
    let o = Opt { pos: vec![0], sym_fund: true, period: true, funding: false, ..Default::default() };
    let st = state(&o);
    let s0 = st.snap();
    let q = transaction(vec![], || { let (b, _) = st.w.ex.update_pairs(vec![pair(0)], None); taken(b) });
    if q.is_err() { return }
    let s1 = st.snap();
    let id = pair(0);
    let (q0, q1) = (ppos(&s0, &id), ppos(&s1, &id));
    let (dl, ds) = (q1.funding_long_index - q0.funding_long_index, q1.funding_short_index - q0.funding_short_index);
    let du = s1.pool.unrealized_pool_funding - s0.pool.unrealized_pool_funding;
    cover("pair updated");
    use scrypto::term;
    let lhs = term::add(&term::mul(&dl.val(), &q0.oi_long.val()), &term::mul(&ds.val(), &q0.oi_short.val()));
    let rhs = term::scale(&du.val(), &term::e18());
    // each index is truncated twice by less than one unit
    let tol = term::scale(&(q0.oi_long + q0.oi_short + de("0.000000000000000010")).val(), &term::big(4));
    let diff = term::sub(&lhs, &rhs);
    ck("C04", "payments of both sides and the pool's accrual sum to zero", scrypto::solver::le(&diff, &tol).and(scrypto::solver::le(&term::neg(&diff), &tol)));
}

/// the update reward
pub fn update_reward() {
    any_order();
    let n = [1, 2, 6][pick(3, "pairs")];
    let dup = yes("listed twice");
    let o = Opt { pos: vec![0; n], wide: n > 2, ..Default::default() };
    let mut st = state(&o);
    let mut want = vec![];
    let mut cs = vec![];
    for k in 0..n {
        let sym = n <= 2 || k == 0 || k == 4;
        let per = if sym { iv(&format!("period{}", k), 0, 100_000_000, &[3600, 60, 86400]) } else { ci(100 * k as i128) };
        let last = if sym { dv(&format!("last_price{}", k), "0.000001", "1000000", &["99", "2.1", "48000"]) } else { st.price[k] };
        let up = if sym { iv(&format!("update_period{}", k), 1, 60_000, &[3600, 1, 60000]) } else { ci(201) };
        let ratio = if sym { dv(&format!("update_ratio{}", k), "0.000000000000000001", "10", &["0.005", "0.1", "2"]) } else { de("0.01") };
        st.p[k].update_period_seconds = up;
        st.p[k].update_price_delta_ratio = ratio;
        cs.push((per, last));
        let moved = (abs(st.price[k] - last) / last).f_ge(ratio);
        want.push(per.f_ge(up).or(moved));
    }
    setup(|| {
        st.w.cfg.update_pair_configs(st.p.clone());
        let info = st.w.pool.get_info((0..n).map(pair).collect());
        let mut ups = HashMap::new();
        for k in 0..n { let mut q = info.positions.get(&pair(k)).cloned().unwrap(); q.last_update = inst(st.now - cs[k].0); q.last_price = cs[k].1; q.oi_short = zero(); ups.insert(pair(k), q); }
        st.w.pool.update(MarginPoolUpdates { position_updates: ups, virtual_balance: info.virtual_balance, unrealized_pool_funding: info.unrealized_pool_funding, skew_abs_snap: info.skew_abs_snap, pnl_snap: info.pnl_snap });
    });
    let ids: Vec<String> = (0..n).map(pair).chain(if dup { vec![pair(0)] } else { vec![] }).collect();
    let s0 = st.snap();
    let go = || transaction(vec![], || { let (b, v) = st.w.ex.update_pairs(ids.clone(), None); (b.resource_address(), taken(b), v) });
    let (rr, reward, flags) = match go() { Ok(x) => x, Err(_) => return };
    let s1 = st.snap();
    cover("pairs updated");
    let mut count = Decimal::ZERO;
    for k in 0..n { if is(want[k].clone()) { count = count + Decimal::ONE; } }
    if count.is_zero() { cover("no update due") } else { cover("update due") }
    ck("C25", "an update rewards exactly the distinct pairs that were due", reward.f_eq(count).and((s1.reward_minted - s0.reward_minted).f_eq(count)));
    ck("C25", "the reward is paid in the reward token", fof(rr == _KEEPER_REWARD_RESOURCE));
    crate::evts::told(&s0, &s1, &[st.a.addr], &[]);
    ck("C25", "one flag per distinct pair is reported", fof(flags.len() == n).and(fof(Decimal::from(flags.iter().filter(|f| **f).count()) == reward)));
    common(&st, &s0, &s1, &(0..n).collect::<Vec<_>>());
    if let Ok((_, again, _)) = go() {
        cover("updated again");
        ck("C25", "updating again at once earns nothing", again.f_eq(zero()));
    }
}
