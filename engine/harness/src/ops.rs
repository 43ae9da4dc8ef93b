//! Collateral, liquidity, collection, debt-swap, liquidation, deleverage and pair-update operations.
use crate::order::*;
use crate::world::*;

pub fn deposited(a: ComponentAddress, r: ResourceAddress) -> Decimal {
    ledger(|l| l.deposits.iter().filter(|d| d.0 == a && d.1 == r).fold(Decimal::ZERO, |t, d| t + match &d.2 { Held::Amt(x) => *x, Held::Ids(v) => Decimal::from(v.len()) }))
}
pub fn deposit_targets() -> Vec<(ComponentAddress, ResourceAddress)> { ledger(|l| l.deposits.iter().map(|d| (d.0, d.1)).collect()) }
pub fn base(x: Decimal) -> Bucket { Bucket::model(_BASE_RESOURCE, x) }
/// nothing about positions, pairs or totals changed
pub fn pairs_untouched(p: &str, st: &St, s0: &Snap, s1: &Snap) {
    for k in 0..st.npairs {
        let id = pair(k);
        let (q0, q1) = (ppos(s0, &id), ppos(s1, &id));
        ck(p, "pool positions stay as they were", all(vec![q0.oi_long.f_eq(q1.oi_long), q0.oi_short.f_eq(q1.oi_short), q0.cost.f_eq(q1.cost), q0.skew_abs_snap.f_eq(q1.skew_abs_snap), q0.pnl_snap.f_eq(q1.pnl_snap),
            q0.funding_long_index.f_eq(q1.funding_long_index), q0.funding_short_index.f_eq(q1.funding_short_index)]));
        let (x0, x1) = (pos(&s0.accs[0], &id), pos(&s1.accs[0], &id));
        ck(p, "account positions stay as they were", x0.amount.f_eq(x1.amount).and(x0.cost.f_eq(x1.cost)).and(x0.funding_index.f_eq(x1.funding_index)));
    }
    ck(p, "pool totals stay as they were", s0.pool.skew_abs_snap.f_eq(s1.pool.skew_abs_snap).and(s0.pool.pnl_snap.f_eq(s1.pool.pnl_snap)).and(s0.pool.unrealized_pool_funding.f_eq(s1.pool.unrealized_pool_funding)));
}

// ------------------------------------------------------------------------------------------------ withdrawals
pub fn remove_collateral() {
    let p0 = pick(3, "position");
    let what = pick(5, "claims");
    let referral = p0 != 0 && yes("referral");
    let funding = p0 != 0 && yes("funding due");
    withdrawn(Opt { pos: vec![p0], sym_cfg: true, sym_fee: true, ccfg: 2, referral, funding, colls: vec![coll(0), coll(1)], ..Default::default() }, what)
}
/// beside two or three positions on either side and three collaterals, one of them not configured
pub fn remove_several() {
    any_order();
    let n = 2 + pick(2, "positions");
    let pos: Vec<usize> = (0..n).map(|_| 1 + pick(2, "side")).collect();
    withdrawn(Opt { pos, ccfg: 2, funding: true, colls: vec![coll(0), coll(1), coll(2)], ..Default::default() }, 3 + 2 * pick(2, "claims"))
}
/// six tokens withdrawn at once beside six positions
pub fn remove_many() {
    let p0 = 1 + pick(2, "side");
    withdrawn(Opt { pos: (0..6).map(|k| if k == 0 { p0 } else { 1 + k % 2 }).collect(), ccfg: 5, funding: true, wide: true, colls: (0..6).map(coll).collect(), ..Default::default() }, 6 + pick(2, "claims"))
}
fn withdrawn(mut o: Opt, what: usize) {
    let c0 = dv("claim0", "0", "1000000000", &["5", "10", "0.1"]);
    let c1 = dv("claim1", "0", "1000000000", &["3", "1", "0.1"]);
    let cb = dv("claim_base", "0", "1000000000", &["50", "1", "1000"]);
    let claims = match what { 0 => vec![(coll(0), c0)], 1 => vec![(_BASE_RESOURCE, cb)], 2 => vec![(coll(0), c0), (coll(0), c1)], 3 => vec![(coll(1), c1), (coll(0), c0), (_BASE_RESOURCE, cb)], 4 => vec![(_BASE_RESOURCE, cb), (_BASE_RESOURCE, c1)], 5 => vec![(coll(2), c0), (_BASE_RESOURCE, cb), (coll(1), c1)],
        6 => (0..6).map(|k| (coll(k), match k { 0 => c0, 5 => c1, _ => de("0.01") * de(&k.to_string()) })).chain([(_BASE_RESOURCE, cb)]).collect(),
        _ => (0..6).rev().map(|k| (coll(k), match k { 4 => c0, 3 => c1, _ => de("0.01") })).chain([(coll(1), cb)]).collect() };
    let want = |r: ResourceAddress| claims.iter().filter(|c| c.0 == r).fold(Decimal::ZERO, |t, c| t + c.1);
    let target = wallet(1);
    o.requests = vec![keeper_request(Request::RemoveCollateral(RequestRemoveCollateral { target_account: target, claims: claims.clone() }), 1)];
    o.active = vec![0];
    let st = state(&o);
    let s0 = st.snap();
    let r = st.process(0);
    let reward = match r { Err(_) => return, Ok(b) => b };
    let s1 = st.snap();
    cover("withdrawal executed");
    common(&st, &s0, &s1, &[]);
    let (a0, a1) = (&s0.accs[0], &s1.accs[0]);
    for r in (0..6).map(coll) {
        ck("C20", "the account loses exactly the claimed collateral", (bal(a0, r) - bal(a1, r)).f_eq(want(r)));
        ck("C20", "the target receives exactly the claimed collateral", deposited(target, r).f_eq(want(r)));
        ck("C20", "no more collateral than held is withdrawn", want(r).f_le(bal(a0, r)));
    }
    ck("C20", "the target receives exactly the claimed base tokens", deposited(target, _BASE_RESOURCE).f_eq(want(_BASE_RESOURCE)));
    ck("C20", "nothing is sent to anyone but the named target", fof(deposit_targets().iter().all(|d| d.0 == target)));
    ck("C20", "the account's balance pays for the withdrawn base tokens", (a0.virtual_balance - a1.virtual_balance).f_eq(want(_BASE_RESOURCE)));
    ck("C20", "no more than the balance is withdrawn", want(_BASE_RESOURCE).f_le(a0.virtual_balance).or(want(_BASE_RESOURCE).f_eq(zero())));
    ck("C01", "withdrawn base tokens leave the pool and the account's claim together", (s0.pool.base_tokens_amount - s1.pool.base_tokens_amount).f_eq(a0.virtual_balance - a1.virtual_balance).and((s1.pool.virtual_balance - s0.pool.virtual_balance).f_eq(a0.virtual_balance - a1.virtual_balance)));
    if on("C06") {
        let (val, margin) = st.value(&s1, true);
        ck("C06", "after a withdrawal the account holds its initial margin", val.f_ge(margin));
    }
    pairs_untouched("C03", &st, &s0, &s1);
    ck("C25", "processing pays the configured reward once", reward.f_eq(st.e.reward_keeper).and((s1.reward_minted - s0.reward_minted).f_eq(st.e.reward_keeper)));
    ck("C11", "an executed request is marked executed", fof(s1.requests[0][0].status == 2usize as _).and(fof(s1.active[0].is_empty())));
    ck("C05", "a withdrawal pays no trading fee", s0.protocol.f_eq(s1.protocol).and(s0.treasury.f_eq(s1.treasury)));
    ck("C27", "a withdrawal leaves the collectable balances untouched", s0.protocol.f_eq(s1.protocol).and(s0.treasury.f_eq(s1.treasury)).and(s0.deleg.f_eq(s1.deleg)));
    crate::evts::withdrawal(&st, &s0, &s1, &claims, target);
}
/// claims are rounded down to the token's precision
pub fn remove_precision() {
    let d = [2usize, 6, 0][pick(3, "divisibility")];
    let unit = ["0.01", "0.000001", "1"][if d == 2 { 0 } else if d == 6 { 1 } else { 2 }];
    let c0 = dv("claim0", "0", "1000000", &["5.123456789", "10.5", "0.1"]);
    let target = wallet(1);
    let o = Opt { pos: vec![0], ccfg: 1, requests: vec![keeper_request(Request::RemoveCollateral(RequestRemoveCollateral { target_account: target, claims: vec![(coll(0), c0)] }), 1)], active: vec![0], ..Default::default() };
    let st = state(&o);
    setup(|| {
        set_divisibility(coll(0), d);
        st.a.g.deposit_collateral_batch(vec![Bucket::model(coll(0), de("1000"))]);
    });
    let s0 = st.snap();
    if st.process(0).is_err() { return }
    let s1 = st.snap();
    cover("withdrawal of a coarse token");
    let got = deposited(target, coll(0));
    ck("C20", "a withdrawal is the claim rounded down to the token's precision", got.f_le(c0).and((c0 - got).f_lt(de(unit))));
    ck("C20", "the account loses exactly what the target receives", (bal(&s0.accs[0], coll(0)) - bal(&s1.accs[0], coll(0))).f_eq(got));
    crate::evts::withdrawal(&st, &s0, &s1, &[(coll(0), got)], target);
}
/// two accounts: only the named one is touched
pub fn remove_other() {
    let c0 = dv("claim0", "0", "1000000000", &["5", "10", "0.1"]);
    let cb = dv("claim_base", "0", "1000000000", &["50", "1", "1000"]);
    let target = if yes("to the other account's owner") { wallet(2) } else { wallet(1) };
    let o = Opt { pos: vec![0], ccfg: 1, colls: vec![coll(0)], requests: vec![keeper_request(Request::RemoveCollateral(RequestRemoveCollateral { target_account: target, claims: vec![(coll(0), c0), (_BASE_RESOURCE, cb)] }), 1)], active: vec![0], ..Default::default() };
    let st = state(&o);
    let b = setup(|| {
        let b = make_account(ACC_B, None);
        b.g.update(acc_updates(dv("other_vb", "-1000000", "1000000", &["10", "0", "-5"])));
        b.g.deposit_collateral_batch(vec![Bucket::model(coll(0), dv("other_held", "0.000000000000000001", "1000000", &["10", "1", "7"]))]);
        b
    });
    let accs = [st.a.g, b.g];
    let s0 = snap(&st.w, &accs, 1, &[]);
    if st.process(0).is_err() { return }
    let s1 = snap(&st.w, &accs, 1, &[]);
    cover("withdrawal beside another account");
    ck("C20", "another account's collateral and balance stay as they were", bal(&s0.accs[1], coll(0)).f_eq(bal(&s1.accs[1], coll(0))).and(s0.accs[1].virtual_balance.f_eq(s1.accs[1].virtual_balance)));
    ck("C20", "the claims are paid to the named target", deposited(target, coll(0)).f_eq(c0).and(deposited(target, _BASE_RESOURCE).f_eq(cb)));
    ck("C20", "nothing is sent to anyone but the named target", fof(deposit_targets().iter().all(|d| d.0 == target)));
    ck("C01", "the sum of all claims is unchanged", claims(&s0).f_eq(claims(&s1)));
}

// ------------------------------------------------------------------------------------------------ deposits
pub fn add_collateral() { any_order(); deposited_tokens(pick(7, "tokens")) }
/// seven tokens deposited at once to an account that holds three
pub fn add_many() { deposited_tokens(7 + pick(3, "tokens")) }
fn deposited_tokens(what: usize) {
    let many = what > 6;
    let oath = !many && yes("delegated fee");
    let p0 = if oath { pick(3, "position") } else { 0 };
    // nothing, a configured collateral, or one that is no longer configured as well
    let held = if many { 3 } else { pick(3, "holds collateral") };
    let max = if many { 5 + pick(3, "maximum collaterals") } else { pick(3, "maximum collaterals") };
    let funding = p0 != 0 && yes("funding due");
    let o = Opt { pos: vec![p0], sym_cfg: oath, sym_fee: oath, ccfg: if many { 6 } else { 2 }, wide: many, funding, colls: [&[][..], &[coll(0)], &[coll(0), coll(2)], &[coll(6), coll(1), coll(3)]][held].to_vec(), max_colls: Some(max), ..Default::default() };
    let d0 = dv("deposit0", "0", "1000000000", &["5", "10", "0.1"]);
    let d1 = dv("deposit1", "0", "1000000000", &["3", "1", "0.1"]);
    let db = dv("deposit_base", "0", "1000000000", &["50", "1", "1000"]);
    let toks: Vec<(ResourceAddress, Decimal)> = match what { 0 => vec![(coll(0), d0)], 1 => vec![(_BASE_RESOURCE, db)], 2 => vec![(coll(0), d0), (_BASE_RESOURCE, db), (coll(0), d1)], 3 => vec![(coll(1), d1), (coll(0), d0), (_BASE_RESOURCE, db), (_BASE_RESOURCE, d0)], 4 => vec![(coll(2), d0)], 5 => [[2, 0, 1], [0, 2, 1], [0, 1, 2]][pick(3, "unlisted")].iter().map(|k| (coll(*k), d0)).collect(),
        7 => (0..6).map(|k| (coll(k), if k == 4 { d1 } else { d0 })).chain([(_BASE_RESOURCE, db)]).collect(),
        8 => (0..6).rev().map(|k| (coll(k), if k == 0 { d1 } else { d0 })).collect(),
        9 => (0..7).map(|k| (coll(k), if k == 5 { d1 } else { d0 })).collect(),
        _ => vec![] };
    let got = |r: ResourceAddress| toks.iter().filter(|c| c.0 == r).fold(Decimal::ZERO, |t, c| t + c.1);
    let st = state(&o);
    let f = dv("oath_amount", "0", "1000000", &["2", "0.5", "100"]);
    if oath { setup(|| ledger(|l| { l.res.get_mut(&_FEE_OATH_RESOURCE).unwrap().supply = f + dv("other_oaths", "0", "1000000", &["3", "0", "10"]); })); }
    let s0 = st.snap();
    let b0 = burned(_FEE_OATH_RESOURCE);
    let r = transaction(vec![pe(level_badge(0, 3))], || {
        st.w.ex.add_collateral(oath.then(|| Bucket::model(_FEE_OATH_RESOURCE, f)), st.a.addr, toks.iter().map(|t| Bucket::model(t.0, t.1)).collect());
    });
    if r.is_err() { return }
    let s1 = st.snap();
    cover("collateral added");
    if oath { cover("collateral added with a delegated fee"); }
    let (a0, a1) = (&s0.accs[0], &s1.accs[0]);
    let charge = if oath { f } else { zero() };
    ck("C20", "only configured collaterals are accepted", fof(toks.iter().all(|t| t.0 != coll(o.ccfg))));
    for r in (0..7).map(coll) { ck("C20", "deposited collateral is credited in full to the account", (bal(a1, r) - bal(a0, r)).f_eq(got(r))); }
    ck("C20", "deposited base tokens are credited in full to the account's balance", (a1.virtual_balance - a0.virtual_balance + charge).f_eq(got(_BASE_RESOURCE)));
    ck("C01", "deposited base tokens enter the pool with the account's claim", (s1.pool.base_tokens_amount - s0.pool.base_tokens_amount).f_eq(got(_BASE_RESOURCE)).and((s0.pool.virtual_balance - s1.pool.virtual_balance).f_eq(got(_BASE_RESOURCE))));
    common(&st, &s0, &s1, &[]);
    ck("C24", "the account is charged exactly the oath's value", (a0.virtual_balance + got(_BASE_RESOURCE) - a1.virtual_balance).f_eq(charge));
    ck("C24", "the oath is burned", (burned(_FEE_OATH_RESOURCE) - b0).f_eq(charge));
    ck("C24", "the delegator's claim stays as it was", s0.deleg.f_eq(s1.deleg));
    if on("C09") { let n = (0..7).map(coll).filter(|r| a1.collateral_balances.contains_key(r)).count(); ck("C09", "the account holds at most the maximum number of collaterals", fof(n <= max)); }
    if oath && on("C06") { let (val, margin) = st.value(&s1, true); ck("C06", "after a delegated fee the account holds its initial margin", val.f_ge(margin)); }
    if oath && on("C24") { let (val, margin) = st.value(&s1, true); ck("C24", "after a delegated fee the account is sufficiently margined", val.f_ge(margin)); }
    pairs_untouched("C03", &st, &s0, &s1);
    crate::evts::deposit(&st, &s0, &s1, &toks);
}

// ------------------------------------------------------------------------------------------------ liquidity
fn lp_state(sym_cfg: bool) -> St {
    let mut o = Opt { pos: vec![0], sym_fee: true, sym_cfg, ..Default::default() };
    o.second = false;
    let st = state(&o);
    st
}
fn lp_cfg(st: &St) -> ExchangeConfig {
    let mut e = st.e.clone();
    e.fee_liquidity_add = dv("fee_liquidity_add", "0", "0.05", &["0.001", "0", "0.05"]);
    e.fee_liquidity_remove = dv("fee_liquidity_remove", "0", "0.05", &["0.0005", "0", "0.05"]);
    let c = st.w.cfg;
    let e2 = e.clone();
    setup(|| c.update_exchange_config(e2));
    e
}
pub fn lp_add() {
    let st = lp_state(false);
    let e = lp_cfg(&st);
    let first = yes("first provider");
    if first { setup(|| ledger(|l| l.res.get_mut(&_LP_RESOURCE).unwrap().supply = Decimal::ZERO)); } else { assume_f(supply(_LP_RESOURCE).f_gt(zero())); }
    let v = dv("payment", "0", "1000000000", &["100", "7.5", "100000"]);
    let s0 = st.snap();
    let r = transaction(vec![], || taken(st.w.ex.add_liquidity(base(v))));
    let lp = match r { Ok(x) => x, Err(_) => return };
    let s1 = st.snap();
    cover("liquidity added");
    let fee = v * e.fee_liquidity_add;
    let net = v - fee;
    let value = pool_value(&s0.pool);
    if first {
        ck("C18", "the first provider receives one LP token per unit net of the fee", lp.f_eq(net));
    } else {
        let price = value.max(Decimal::ONE) / s0.lp;
        ck("C18", "adding mints the net payment divided by the LP price", lp.f_eq(net / price));
    }
    ck("C18", "the minted LP tokens are what the supply grew by", (s1.lp - s0.lp).f_eq(lp));
    ck("C01", "the payment enters the pool", (s1.pool.base_tokens_amount - s0.pool.base_tokens_amount).f_eq(v));
    ck("C18", "the payment enters the pool", (s1.pool.base_tokens_amount - s0.pool.base_tokens_amount).f_eq(v));
    let (fp, ft) = (fee * e.fee_share_protocol, fee * e.fee_share_treasury);
    ck("C05", "the liquidity fee is split by the configured shares", (s1.protocol - s0.protocol).f_eq(fp).and((s1.treasury - s0.treasury).f_eq(ft)).and((s0.pool.virtual_balance - s1.pool.virtual_balance).f_eq(fp + ft)));
    ck("C18", "the provider pays at least the protocol's and treasury's part of the fee", (pool_value(&s1.pool) - value).f_ge(net));
    common(&st, &s0, &s1, &[]);
    pairs_untouched("C03", &st, &s0, &s1);
    ck("C18", "no account's balance changes", s0.accs[0].virtual_balance.f_eq(s1.accs[0].virtual_balance));
    crate::evts::liquidity(&st, &s0, &s1, if first { Decimal::ONE } else { value.max(Decimal::ONE) / s0.lp }, v, fee);
}
/// the value per LP token never falls (cross-multiplied; `tol` pays for rounding of one LP token price)
pub fn lp_fair(adding: bool) {
    let o = Opt { pos: vec![], ..Default::default() };
    let st = state(&o);
    let e = lp_cfg(&st);
    let p = st.w.pool;
    // any pool value: one symbolic number, all of it as tokens
    setup(|| p.update(MarginPoolUpdates { position_updates: HashMap::new(), virtual_balance: zero(), unrealized_pool_funding: zero(), skew_abs_snap: zero(), pnl_snap: zero() }));
    assume_f(supply(_LP_RESOURCE).f_ge(de("0.001")));
    let s0 = st.snap();
    assume_f(s0.pool.base_tokens_amount.f_ge(Decimal::ONE));
    assume_f(s0.pool.base_tokens_amount.f_le(s0.lp * de("1000")).and(s0.lp.f_le(s0.pool.base_tokens_amount * de("1000"))));
    let x = dv("amount", "0.001", "1000000000", &["100", "7.5", "100000"]);
    let r = transaction(vec![], || if adding { taken(st.w.ex.add_liquidity(base(x))) } else { taken(st.w.ex.remove_liquidity(Bucket::model(_LP_RESOURCE, x))) });
    let y = match r { Ok(x) => x, Err(_) => return };
    let s1 = st.snap();
    let (v0, v1) = (pool_value(&s0.pool), pool_value(&s1.pool));
    cover("liquidity changed");
    // exact rationals: v1 / l1 >= v0 / l0 up to rounding of the price (1 atto per LP token) and of the amounts
    let tol = (s0.lp + s1.lp) * de("0.000000000000001") + de("0.000000000000001");
    ck("C18", "the value per LP token of the remaining providers does not fall", ratio_ge(v1, s1.lp, v0, s0.lp, tol));
    let _ = (y, e);
}
/// adding and removing again at once never returns more than was paid in, while LP tokens are outstanding
pub fn lp_round_trip() {
    let o = Opt { pos: vec![], ..Default::default() };
    let st = state(&o);
    let _ = lp_cfg(&st);
    let p = st.w.pool;
    let vb = dv("pool_claims", "-1000000000", "1000000000", &["10", "-400", "0"]);
    setup(|| p.update(MarginPoolUpdates { position_updates: HashMap::new(), virtual_balance: vb, unrealized_pool_funding: zero(), skew_abs_snap: zero(), pnl_snap: zero() }));
    assume_f(supply(_LP_RESOURCE).f_ge(de("0.001")));
    let s0 = st.snap();
    let v = pool_value(&s0.pool);
    assume_f(v.f_le(s0.lp * de("1000")).and(s0.lp.f_le(v.max(Decimal::ONE) * de("1000"))));
    let x = dv("amount", "0.001", "1000000000", &["100", "7.5", "100000"]);
    let lp = match transaction(vec![], || taken(st.w.ex.add_liquidity(base(x)))) { Ok(x) => x, Err(_) => return };
    let got = match transaction(vec![], || taken(st.w.ex.remove_liquidity(Bucket::model(_LP_RESOURCE, lp)))) { Ok(x) => x, Err(_) => return };
    cover("added and removed");
    ck("C18", "adding and removing at once returns no more than was paid in", got.f_le(x + x * de("0.00000000000001") + de("0.000000000000001")));
}
/// a/b >= c/d - tol/b, decided over the exact values
fn ratio_ge(a: Decimal, b: Decimal, c: Decimal, d: Decimal, tol: Decimal) -> Form {
    use scrypto::term;
    let l = term::mul(&(a + tol).val(), &d.val());
    let r = term::mul(&c.val(), &b.val());
    scrypto::solver::ge(&l, &r)
}
pub fn lp_remove() {
    let st = lp_state(true);
    let e = lp_cfg(&st);
    let lp = dv("lp_amount", "0", "1000000000", &["100", "7.5", "100000"]);
    assume_f(lp.f_le(supply(_LP_RESOURCE)));
    let s0 = st.snap();
    let b0 = burned(_LP_RESOURCE);
    let r = transaction(vec![], || taken(st.w.ex.remove_liquidity(Bucket::model(_LP_RESOURCE, lp))));
    let got = match r { Ok(x) => x, Err(_) => return };
    let s1 = st.snap();
    cover("liquidity removed");
    let price = pool_value(&s0.pool).max(Decimal::ZERO) / s0.lp;
    let value = lp * price;
    let fee = value * e.fee_liquidity_remove;
    ck("C18", "removing pays the burned share net of the fee", got.f_eq(value - fee));
    ck("C18", "the given LP tokens are burned", (s0.lp - s1.lp).f_eq(lp).and((burned(_LP_RESOURCE) - b0).f_eq(lp)));
    ck("C18", "the payout leaves the pool", (s0.pool.base_tokens_amount - s1.pool.base_tokens_amount).f_eq(got));
    ck("C01", "the payout leaves the pool", (s0.pool.base_tokens_amount - s1.pool.base_tokens_amount).f_eq(got));
    let (fp, ft) = (fee * e.fee_share_protocol, fee * e.fee_share_treasury);
    ck("C05", "the liquidity fee is split by the configured shares", (s1.protocol - s0.protocol).f_eq(fp).and((s1.treasury - s0.treasury).f_eq(ft)).and((s0.pool.virtual_balance - s1.pool.virtual_balance).f_eq(fp + ft)));
    common(&st, &s0, &s1, &[]);
    pairs_untouched("C03", &st, &s0, &s1);
    ck("C09", "after removing liquidity the skew ratio is below its cap", skew_ratio(&s1.pool).f_lt(st.e.skew_ratio_cap));
    crate::evts::liquidity(&st, &s0, &s1, price, zero() - got, fee);
}
/// wrong tokens are refused
pub fn lp_wrong() {
    let o = Opt { pos: vec![0], ccfg: 1, ..Default::default() };
    let st = state(&o);
    let v = dv("payment", "0", "1000000", &["100", "7.5", "3"]);
    let which = pick(4, "operation");
    let t = [coll(0), _LP_RESOURCE, _PROTOCOL_RESOURCE, _BASE_RESOURCE][pick(4, "token")];
    let r = transaction(vec![], || match which {
        0 => { let _ = taken(st.w.ex.add_liquidity(Bucket::model(t, v))); }
        1 => { let _ = taken(st.w.ex.remove_liquidity(Bucket::model(t, v))); }
        2 => { let (a, b) = st.w.ex.swap_protocol_fee(Bucket::model(t, v)); let _ = (taken(a), taken(b)); }
        _ => { let (a, b) = st.w.ex.swap_debt(st.a.addr, coll(0), Bucket::model(t, v), None); let _ = (taken(a), taken(b)); }
    });
    if r.is_ok() {
        cover("accepted token");
        ck("C18", "liquidity is only added with base tokens and removed with LP tokens", fof(match which { 0 => t == _BASE_RESOURCE, 1 => t == _LP_RESOURCE, _ => true }));
        ck("C27", "protocol fees are only paid against protocol tokens", fof(which != 2 || t == _PROTOCOL_RESOURCE));
        ck("C19", "debt is only paid with base tokens", fof(which != 3 || t == _BASE_RESOURCE));
    }
}

// ------------------------------------------------------------------------------------------------ collections
pub fn collect() {
    let which = pick(4, "collection");
    let o = Opt { pos: vec![0], referral: true, ..Default::default() };
    let st = state(&o);
    let burn = dv("protocol_burn_amount", "1000", "1000000", &["1000", "2000", "500000"]);
    let deleg0 = dv("delegated", "0", "1000000", &["4", "0", "90"]);
    let oaths = dv("oaths", "0", "1000000", &["4", "0", "90"]);
    let pay = dv("payment", "0", "10000000", &["1000", "2500", "700000"]);
    setup(|| {
        let mut e = st.e.clone();
        e.protocol_burn_amount = burn;
        st.w.cfg.update_exchange_config(e);
        st.w.deleg.update_virtual_balance(deleg0);
        ledger(|l| { l.res.get_mut(&_FEE_OATH_RESOURCE).unwrap().supply = oaths; l.res.get_mut(&_PROTOCOL_RESOURCE).unwrap().supply = de("100000000"); });
    });
    let s0 = st.snap();
    let pb0 = burned(_PROTOCOL_RESOURCE);
    let proofs = match which { 0 => vec![], 1 => vec![ProofEntry { res: _REFERRAL_RESOURCE, amount: Decimal::ONE, ids: vec![ref_id()], cond: Form::True }], _ => vec![pe(owner_badge()), pe(_AUTHORITY_RESOURCE)] };
    let run = || transaction(proofs.clone(), || match which {
        0 => { let (t, r) = st.w.ex.swap_protocol_fee(Bucket::model(_PROTOCOL_RESOURCE, pay)); (taken(t), taken(r)) }
        1 => { let p = nf_proof(_REFERRAL_RESOURCE, ref_id()); (taken(st.w.ex.collect_referral_rewards(p)), zero()) }
        2 => (taken(st.w.ex.collect_treasury()), zero()),
        _ => (taken(st.w.ex.collect_fee_delegator()), zero()),
    });
    let (got, rest) = match run() { Ok(x) => x, Err(_) => return };
    let s1 = st.snap();
    cover(["protocol fees swapped", "referral rewards collected", "treasury collected", "delegated fees collected"][which]);
    let v = |s: &Snap| [s.protocol, s.refs[0].1.balance, s.treasury, s.deleg];
    let (v0, v1) = (v(&s0), v(&s1));
    ck("C27", "a collection pays exactly the recorded balance", got.f_eq(v0[which]));
    for k in 0..4 {
        if k == which { ck("C27", "a collection resets the collected balance", v1[k].f_eq(zero())); }
        else { ck("C27", "a collection leaves the other balances untouched", v1[k].f_eq(v0[k])); }
    }
    ck("C27", "the payout leaves the pool", (s0.pool.base_tokens_amount - s1.pool.base_tokens_amount).f_eq(got).and(got.f_le(s0.pool.base_tokens_amount)));
    ck("C01", "the payout leaves the pool and the collected claim together", (s0.pool.base_tokens_amount - s1.pool.base_tokens_amount).f_eq(v0[which] - v1[which]));
    ck("C27", "the pool's balance offsets the payout", (s1.pool.virtual_balance - s0.pool.virtual_balance).f_eq(got));
    ck("C27", "accounts are not affected", s0.accs[0].virtual_balance.f_eq(s1.accs[0].virtual_balance));
    ck("C27", "the referrer's total stays as it was", s0.refs[0].1.total_rewarded.f_eq(s1.refs[0].1.total_rewarded));
    if which == 0 {
        ck("C27", "the required protocol tokens are burned and the rest returned", (burned(_PROTOCOL_RESOURCE) - pb0).f_eq(burn).and(rest.f_eq(pay - burn)).and(pay.f_ge(burn)));
    }
    common(&st, &s0, &s1, &[]);
    pairs_untouched("C03", &st, &s0, &s1);
    crate::evts::told(&s0, &s1, &[st.a.addr], &[]);
    if let Ok((again, _)) = run() {
        cover("collected again");
        ck("C27", "a second collection pays nothing", again.f_eq(zero()));
    }
}

// ------------------------------------------------------------------------------------------------ debt swap
pub fn swap_debt() {
    let uncfg = yes("unconfigured collateral");
    let o = Opt { pos: vec![0], sym_cfg: true, ccfg: 1, colls: vec![coll(0), coll(1)], vb_lo: Some("-1000000000"), ..Default::default() };
    let st = state(&o);
    let pay = dv("payment", "0", "10000000", &["1000", "2.5", "70"]);
    let r = if uncfg { coll(1) } else { coll(0) };
    let s0 = st.snap();
    let q = transaction(vec![], || { let (t, p) = st.w.ex.swap_debt(st.a.addr, r, base(pay), None); (t.resource_address(), taken(t), p.resource_address(), taken(p)) });
    let (tr, got, pr, rest) = match q { Ok(x) => x, Err(_) => return };
    let s1 = st.snap();
    cover("debt swapped");
    let (a0, a1) = (&s0.accs[0], &s1.accs[0]);
    let used = pay - rest;
    let debt = Decimal::ZERO - a0.virtual_balance;
    ck("C19", "only a negative balance can be swapped", a0.virtual_balance.f_lt(zero()));
    ck("C19", "only configured collateral can be bought", fof(!uncfg));
    ck("C19", "the right tokens are handed out", fof(tr == r && pr == _BASE_RESOURCE));
    ck("C19", "the account's balance never becomes positive", a1.virtual_balance.f_le(zero()));
    ck("C19", "the account is credited what is paid, up to rounding", (a1.virtual_balance - a0.virtual_balance).f_eq(used));
    ck("C19", "no more than the debt is paid", used.f_le(debt));
    ck("C19", "the pool receives what is paid", (s1.pool.base_tokens_amount - s0.pool.base_tokens_amount).f_eq(used));
    ck("C19", "the account loses exactly what is handed out", (bal(a0, r) - bal(a1, r)).f_eq(got));
    ck("C19", "at most what the account holds is handed out", got.f_le(bal(a0, r)));
    ck("C19", "unused payment is returned and never negative", rest.f_ge(zero()).and(used.f_ge(zero())));
    if !uncfg {
        let price = st.cprice[0] * (st.c[0].discount * de("0.1") + de("0.9"));
        let due = pay.min(debt);
        let amount = due / price;
        let short = is(amount.f_gt(bal(a0, r)));
        if short {
            cover("all collateral bought");
            ck("C19", "when the collateral is short all of it is handed out", got.f_eq(bal(a0, r)));
            ck("C19", "when the collateral is short its discounted value is paid", used.f_eq(bal(a0, r) * price));
        } else {
            ck("C19", "the handed out collateral is what the payment buys at the discounted price", got.f_eq(amount));
            ck("C19", "the payment up to the debt is used", used.f_eq(due));
        }
    }
    common(&st, &s0, &s1, &[]);
    pairs_untouched("C03", &st, &s0, &s1);
    ck("C20", "a debt swap touches no other collateral", bal(a0, coll(1)).f_eq(bal(a1, coll(1))).or(fof(uncfg)));
    if !uncfg { crate::evts::swap(&st, &s0, &s1, r, got, st.cprice[0] * (st.c[0].discount * de("0.1") + de("0.9"))); }
}
