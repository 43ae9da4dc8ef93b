//! What the emitted events tell an observer about an operation.
use crate::order::St;
use crate::reqs::{same, same_body};
use crate::order::{state, Opt};
use crate::world::*;
const P: &str = "C31";

fn same_pos(a: &PoolPosition, b: &PoolPosition) -> Form {
    all(vec![a.oi_long.f_eq(b.oi_long), a.oi_short.f_eq(b.oi_short), a.cost.f_eq(b.cost), a.skew_abs_snap.f_eq(b.skew_abs_snap), a.pnl_snap.f_eq(b.pnl_snap), a.funding_2_rate.f_eq(b.funding_2_rate),
        a.funding_long_index.f_eq(b.funding_long_index), a.funding_short_index.f_eq(b.funding_short_index), a.last_price.f_eq(b.last_price), a.last_update.seconds_since_unix_epoch.f_eq(b.last_update.seconds_since_unix_epoch)])
}
/// the operation's own events: how often each kind was emitted
fn kinds() -> [usize; 8] {
    [events::<EventLiquidityChange>().len(), events::<EventAddCollateral>().len(), events::<EventRemoveCollateral>().len(), events::<EventMarginOrder>().len(), events::<EventSwapDebt>().len(), events::<EventLiquidate>().len(), events::<EventAutoDeleverage>().len(), events::<EventAccountCreation>().len()]
}
pub const NOTHING: usize = 8;
pub const LIQUIDITY: usize = 0;
pub const ADD: usize = 1;
pub const REMOVE: usize = 2;
pub const ORDER: usize = 3;
pub const SWAP: usize = 4;
pub const LIQUIDATE: usize = 5;
pub const ADL: usize = 6;
pub const CREATE: usize = 7;
/// pair and request updates between two observed states, and one report of each given kind
pub fn told(s0: &Snap, s1: &Snap, accs: &[ComponentAddress], want: &[usize]) {
    if !on(P) { return; }
    let k = kinds();
    ckd(P, "an operation reports itself exactly once", fof((0..8).all(|j| k[j] == want.contains(&j) as usize)), || format!("{:?} for {:?}", k, want));
    let pairs: Vec<(String, PoolPosition)> = events::<EventPairUpdates>().into_iter().flat_map(|e| e.updates).collect();
    for (id, q1) in s1.pool.positions.iter() {
        let l: Vec<_> = pairs.iter().filter(|x| x.0 == *id).collect();
        match l.len() {
            0 => ck(P, "every changed pair is reported", s0.pool.positions.get(id).map_or(Form::False, |q0| same_pos(q0, q1))),
            1 => ck(P, "a reported pair is the stored one", same_pos(&l[0].1, q1)),
            _ => ck(P, "a pair is reported once", Form::False),
        }
    }
    ck(P, "only existing pairs are reported", fof(pairs.iter().all(|x| s1.pool.positions.contains_key(&x.0))));
    let reqs = events::<EventRequests>();
    ck(P, "requests are reported for their own account", fof(reqs.iter().all(|e| accs.contains(&e.account))));
    for (a, addr) in accs.iter().enumerate() {
        let l: Vec<(u64k_, KeeperRequest)> = reqs.iter().filter(|e| e.account == *addr).flat_map(|e| e.requests.clone()).collect();
        let mut seen = 0;
        for (j, r1) in s1.requests[a].iter().enumerate() {
            let mine: Vec<_> = l.iter().filter(|x| is(x.0.f_eq(c64(j as i128)))).collect();
            seen += mine.len();
            match mine.len() {
                0 => ck(P, "every new or changed request is reported", s0.requests[a].get(j).map_or(Form::False, |r0| same(r0, r1))),
                1 => ck(P, "a reported request is the stored one", same(&mine[0].1, r1)),
                _ => ck(P, "a request is reported once", Form::False),
            }
        }
        ck(P, "only existing requests are reported", fof(seen == l.len()));
        // the first valid request
        let v: Vec<_> = events::<EventValidRequestsStart>().into_iter().filter(|e| e.account == *addr).collect();
        let (v0, v1) = (s0.accs[a].valid_requests_start, s1.accs[a].valid_requests_start);
        match v.len() {
            0 => ck(P, "a moved start of the valid requests is reported", v0.f_eq(v1)),
            1 => ck(P, "the reported start of the valid requests is the stored one", v[0].valid_requests_start.f_eq(v1)),
            _ => ck(P, "the start of the valid requests is reported once", Form::False),
        }
    }
    ck(P, "the start of the valid requests is reported for its own account", fof(events::<EventValidRequestsStart>().iter().all(|e| accs.contains(&e.account))));
}
fn total(l: &[(ResourceAddress, Decimal)], r: ResourceAddress) -> Decimal { l.iter().filter(|x| x.0 == r).fold(zero(), |t, x| t + x.1) }
fn amounts(l: &[(ResourceAddress, Decimal)], want: &[(ResourceAddress, Decimal)]) -> Form {
    fof(l.iter().all(|x| want.iter().any(|w| w.0 == x.0))).and(all(want.iter().map(|w| total(l, w.0).f_eq(total(want, w.0))).collect()))
}
/// the reported fees are the ones distributed; the pool's part is the rest of the given total
fn fees(s0: &Snap, s1: &Snap, pool: Decimal, protocol: Decimal, treasury: Decimal, referral: Option<Decimal>, total: Option<Decimal>) {
    ck(P, "the reported protocol and treasury fees are the distributed ones", protocol.f_eq(s0.protocol - s1.protocol).and(treasury.f_eq(s0.treasury - s1.treasury)));
    if let Some(r) = referral {
        let paid = s1.refs.iter().zip(&s0.refs).fold(zero(), |t, (b, a)| t + b.1.balance - a.1.balance);
        ck(P, "the reported referral fee is the one credited", (zero() - r).f_eq(paid));
    }
    if let Some(f) = total { ck(P, "the reported fees add up to the paid fee", (pool + protocol + treasury + referral.unwrap_or(zero())).f_eq(zero() - f)); }
}
/// `close`, `open`: executed parts; `due`: funding due
#[allow(clippy::too_many_arguments)]
pub fn order(st: &St, s0: &Snap, s1: &Snap, fee: Decimal, close: Decimal, open: Decimal, due: Decimal) {
    if !on(P) { return; }
    told(s0, s1, &[st.a.addr], &[ORDER]);
    let ev = match event::<EventMarginOrder>() { Some(e) => e, None => return };
    let moved = s1.accs[0].virtual_balance - s0.accs[0].virtual_balance;
    ck(P, "an order reports its account and pair", fof(ev.account == st.a.addr && ev.pair_id == pair(0)));
    ck(P, "an order reports its price", ev.price.f_eq(st.price[0]));
    ck(P, "an order reports the executed amounts", ev.amount_close.f_eq(close).and(ev.amount_open.f_eq(open)));
    ck(P, "an order reports the settled funding", ev.funding.f_eq(zero() - due));
    ck(P, "an order reports the P&L credited to the account", ev.pnl.f_eq(moved));
    fees(s0, s1, ev.fee_pool, ev.fee_protocol, ev.fee_treasury, Some(ev.fee_referral), Some(fee));
    if let Some(r) = s0.requests[0].first() {
        if let Request::MarginOrder(m) = Request::decode(&r.request) {
            let mut e = m.clone();
            e.price_limit = ev.price_limit;
            ck(P, "an order reports its price limit", same_body(&Request::MarginOrder(m), &Request::MarginOrder(e)));
        }
    }
}
/// the lists of requests an order activated and cancelled
pub fn linked(st: &St, s0: &Snap, s1: &Snap, own: usize) {
    if !on(P) { return; }
    told(s0, s1, &[st.a.addr], &[ORDER]);
    let ev = match event::<EventMarginOrder>() { Some(e) => e, None => return };
    let (q0, q1) = (&s0.requests[0], &s1.requests[0]);
    for (k, (a, b)) in q0.iter().zip(q1).enumerate() {
        if k == own { continue; }
        let has = |l: &Vec<u64k_>| l.iter().filter(|x| is(x.f_eq(c64(k as i128)))).count();
        let (na, nc) = (has(&ev.activated_requests), has(&ev.cancelled_requests));
        // activated and cancelled at once may be told either way
        ck(P, "an order reports the requests it cancelled", fof((b.status == 3 && a.status != 3) == (nc > 0) && nc <= 1));
        ck(P, "an order reports the requests it activated", fof(if b.status == 1 && a.status == 0 { na == 1 } else { na == 0 || na == 1 && a.status == 0 && nc == 1 }));
    }
    ck(P, "an order reports only existing requests", fof(ev.activated_requests.iter().chain(&ev.cancelled_requests).all(|x| (0..q0.len()).any(|k| is(x.f_eq(c64(k as i128)))))));
}
pub fn withdrawal(st: &St, s0: &Snap, s1: &Snap, paid: &[(ResourceAddress, Decimal)], target: ComponentAddress) {
    if !on(P) { return; }
    told(s0, s1, &[st.a.addr], &[REMOVE]);
    if let Some(ev) = event::<EventRemoveCollateral>() {
        ck(P, "a withdrawal reports its account and target", fof(ev.account == st.a.addr && ev.target_account == target));
        ck(P, "a withdrawal reports the amounts paid out", amounts(&ev.amounts, paid));
    }
}
pub fn deposit(st: &St, s0: &Snap, s1: &Snap, given: &[(ResourceAddress, Decimal)]) {
    if !on(P) { return; }
    told(s0, s1, &[st.a.addr], &[ADD]);
    if let Some(ev) = event::<EventAddCollateral>() {
        ck(P, "a deposit reports its account", fof(ev.account == st.a.addr));
        ck(P, "a deposit reports the deposited amounts", amounts(&ev.amounts, given));
    }
}
/// `lp` and `amount` as seen by the provider: tokens received are positive, tokens given negative
pub fn liquidity(st: &St, s0: &Snap, s1: &Snap, price: Decimal, paid: Decimal, fee: Decimal) {
    if !on(P) { return; }
    told(s0, s1, &[st.a.addr], &[LIQUIDITY]);
    if let Some(ev) = event::<EventLiquidityChange>() {
        ck(P, "a liquidity change reports the LP price used", ev.lp_price.f_eq(price));
        ck(P, "a liquidity change reports the LP tokens created or burned", ev.lp_amount.f_eq(s1.lp - s0.lp));
        ck(P, "a liquidity change reports the amount paid", ev.amount.f_eq(paid));
        fees(s0, s1, ev.fee_pool, ev.fee_protocol, ev.fee_treasury, None, Some(fee));
    }
}
pub fn swap(st: &St, s0: &Snap, s1: &Snap, r: ResourceAddress, got: Decimal, price: Decimal) {
    if !on(P) { return; }
    told(s0, s1, &[st.a.addr], &[SWAP]);
    if let Some(ev) = event::<EventSwapDebt>() {
        ck(P, "a debt swap reports its account and collateral", fof(ev.account == st.a.addr && ev.resource == r));
        ck(P, "a debt swap reports the amount handed out and its price", ev.amount.f_eq(got).and(ev.price.f_eq(price)));
    }
}
/// `val`, `margin`: value and maintenance margin before; `due`: funding due, `fee`: fees due
pub fn liquidation(st: &St, s0: &Snap, s1: &Snap, val: Decimal, margin: Decimal, due: Decimal, fee: Decimal) {
    if !on(P) { return; }
    told(s0, s1, &[st.a.addr], &[LIQUIDATE]);
    let ev = match event::<EventLiquidate>() { Some(e) => e, None => return };
    let a0 = &s0.accs[0];
    ck(P, "a liquidation reports its account", fof(ev.account == st.a.addr));
    ck(P, "a liquidation reports the account's value and margin", ev.account_value.f_eq(val).and(ev.margin.f_eq(margin)).and(ev.virtual_balance.f_eq(a0.virtual_balance)));
    let held: Vec<usize> = (0..st.npairs).filter(|k| a0.positions.contains_key(&pair(*k))).collect();
    let one = |l: &Vec<(String, Decimal)>, k: usize, x: Decimal| { let v: Vec<_> = l.iter().filter(|e| e.0 == pair(k)).collect(); if v.len() == 1 { v[0].1.f_eq(x) } else { Form::False } };
    ck(P, "a liquidation reports every closed position once", fof(ev.position_amounts.len() == held.len() && ev.position_prices.len() == held.len()));
    let mut pnl = zero() - fee - due;
    for k in &held {
        let x = pos(a0, &pair(*k));
        ck(P, "a liquidation reports the closed amounts and prices", one(&ev.position_amounts, *k, x.amount).and(one(&ev.position_prices, *k, st.price[*k])));
        pnl = pnl + (x.amount * st.price[*k] - x.cost);
    }
    ck(P, "a liquidation reports the positions' P&L", ev.positions_pnl.f_eq(pnl));
    let taken: Vec<usize> = (0..st.c.len()).filter(|k| a0.collateral_balances.contains_key(&coll(*k))).collect();
    let onec = |l: &Vec<(ResourceAddress, Decimal)>, k: usize, x: Decimal| { let v: Vec<_> = l.iter().filter(|e| e.0 == coll(k)).collect(); if v.len() == 1 { v[0].1.f_eq(x) } else { Form::False } };
    ck(P, "a liquidation reports every sold collateral once", fof(ev.collateral_amounts.len() == taken.len() && ev.collateral_prices.len() == taken.len()));
    let (mut v, mut d) = (zero(), zero());
    for k in &taken {
        let b = bal(a0, coll(*k));
        ck(P, "a liquidation reports the sold collateral and its price", onec(&ev.collateral_amounts, *k, b).and(onec(&ev.collateral_prices, *k, st.cprice[*k])));
        v = v + b * st.cprice[*k];
        d = d + b * st.cprice[*k] * st.c[*k].discount;
    }
    ck(P, "a liquidation reports the collateral's value", ev.collateral_value.f_eq(v).and(ev.collateral_value_discounted.f_eq(d)));
    ck(P, "a liquidation reports the settled funding", ev.funding.f_eq(zero() - due));
    ck(P, "a liquidation reports the loss left to the pool", ev.pool_loss.f_eq(val.min(zero())));
    fees(s0, s1, ev.fee_pool, ev.fee_protocol, ev.fee_treasury, Some(ev.fee_referral), Some(fee));
}
pub fn deleverage(st: &St, s0: &Snap, s1: &Snap, due: Decimal, fee: Decimal) {
    if !on(P) { return; }
    told(s0, s1, &[st.a.addr], &[ADL]);
    let ev = match event::<EventAutoDeleverage>() { Some(e) => e, None => return };
    let x0 = pos(&s0.accs[0], &pair(0));
    ck(P, "a deleveraging reports its account, pair and price", fof(ev.account == st.a.addr && ev.pair_id == pair(0)).and(ev.price.f_eq(st.price[0])));
    ck(P, "a deleveraging reports the closed amount", ev.amount_close.f_eq(zero() - x0.amount));
    ck(P, "a deleveraging reports the P&L credited to the account", ev.pnl.f_eq(s1.accs[0].virtual_balance - s0.accs[0].virtual_balance));
    ck(P, "a deleveraging reports the settled funding", ev.funding.f_eq(zero() - due));
    fees(s0, s1, ev.fee_pool, ev.fee_protocol, ev.fee_treasury, Some(ev.fee_referral), Some(fee));
}
pub fn created(at: ComponentAddress, referral: Option<NonFungibleLocalId>, given: &[(ResourceAddress, Decimal)]) {
    if !on(P) { return; }
    let k = kinds();
    ck(P, "an operation reports itself exactly once", fof((0..8).all(|j| k[j] == [ADD, CREATE].contains(&j) as usize)));
    if let Some(ev) = event::<EventAccountCreation>() { ck(P, "a creation reports the new account and its referral", fof(ev.account == at && ev.referral_id == referral)); }
    if let Some(ev) = event::<EventAddCollateral>() { ck(P, "a creation reports the deposited amounts", fof(ev.account == at).and(amounts(&ev.amounts, given))); }
}

/// the exchange's owner methods and account creation report what they were given
pub fn admin() {
    use crate::cfgs::{plain_coll, plain_ex, plain_pair, same_coll, same_ex, same_pair};
    let st = state(&Opt { pos: vec![0], ccfg: 2, referral: true, ..Default::default() });
    let ex = st.w.ex;
    let proofs = vec![pe(owner_badge())];
    let one = |n: usize| ck(P, "a configuration change reports itself exactly once", fof([events::<EventSignalUpgrade>().len(), events::<EventExchangeConfigUpdate>().len(), events::<EventPairConfigUpdates>().len(), events::<EventCollateralConfigUpdates>().len(), events::<EventCollateralConfigRemoval>().len()] == [0, 1, 2, 3, 4].map(|k| (k == n) as usize)));
    let x = dv("amount", "0", "1000000", &["5", "0.3", "70"]);
    match pick(6, "operation") {
        0 => {
            if transaction(proofs, || ex.signal_upgrade(comp(0x99))).is_err() { return; }
            cover("upgrade signalled");
            one(0);
            ck(P, "a signalled upgrade reports the new exchange", fof(event::<EventSignalUpgrade>().map_or(false, |e| e.new_exchange == comp(0x99))));
        }
        1 => {
            let e = plain_ex();
            let g = e.clone();
            if transaction(proofs, || ex.clone().update_exchange_config(g)).is_err() { return; }
            cover("exchange configuration reported");
            one(1);
            ck(P, "the reported configuration is the stored one", event::<EventExchangeConfigUpdate>().map_or(Form::False, |v| same_ex(&v.config, &e)));
        }
        2 => {
            let l: Vec<PairConfig> = [0, 2, 1].iter().take(pick(4, "pairs")).map(|k| plain_pair(*k)).collect();
            let g = l.clone();
            if transaction(proofs, || ex.clone().update_pair_configs(g)).is_err() { return; }
            cover("pair configurations reported");
            one(2);
            ck(P, "the reported configuration is the stored one", event::<EventPairConfigUpdates>().map_or(Form::False, |v| if v.configs.len() != l.len() { Form::False } else { all(v.configs.iter().zip(&l).map(|(a, b)| same_pair(a, b)).collect()) }));
        }
        3 => {
            let l: Vec<(ResourceAddress, CollateralConfig)> = [1, 2, 0].iter().take(pick(4, "collaterals")).map(|k| (coll(*k), plain_coll(*k))).collect();
            let g = l.clone();
            if transaction(proofs, || ex.clone().update_collateral_configs(g)).is_err() { return; }
            cover("collateral configurations reported");
            one(3);
            ck(P, "the reported configuration is the stored one", event::<EventCollateralConfigUpdates>().map_or(Form::False, |v| if v.configs.len() != l.len() { Form::False } else { all(v.configs.iter().zip(&l).map(|(a, b)| fof(a.0 == b.0).and(same_coll(&a.1, &b.1))).collect()) }));
        }
        4 => {
            let k = pick(2, "collateral");
            if transaction(proofs, || ex.clone().remove_collateral_config(coll(k))).is_err() { return; }
            cover("collateral removal reported");
            one(4);
            ck(P, "a removal reports the collateral", fof(event::<EventCollateralConfigRemoval>().map_or(false, |v| v.resource == coll(k))));
        }
        _ => {
            let (coded, fee) = (yes("with a referral code"), yes("with a delegated fee"));
            let at = comp(0x66);
            let y = dv("code_tokens", "0.000000000000000001", "1000000", &["2", "0.3", "7"]);
            setup(|| {
                ledger(|l| l.res.get_mut(&_FEE_OATH_RESOURCE).unwrap().supply = de("1000"));
                let mut h = HashMap::new();
                h.insert(CryptoUtils::keccak256_hash("code".to_string().into_bytes()), (vec![(coll(0), y)], c64(1)));
                crate::auth::drop_all(ex.create_referral_codes(nf_proof(_REFERRAL_RESOURCE, crate::order::ref_id()), vec![Bucket::model(coll(0), de("1000000"))], h));
            });
            let r = transaction(vec![], || { ex.create_account(if fee { Some(Bucket::model(_FEE_OATH_RESOURCE, de("0.5"))) } else { None }, AccessRule::AllowAll, vec![Bucket::model(_BASE_RESOURCE, x), Bucket::model(coll(1), x)], if coded { Some("code".to_string()) } else { None }, Some(scrypto::ledger::GlobalAddressReservation(at))); });
            if let Err(e) = r { note(e); return; }
            cover(if coded { "account created with a referral code" } else { "account created" });
            let mut given = vec![(_BASE_RESOURCE, x), (coll(1), x)];
            if coded { given.push((coll(0), y)); }
            created(at, coded.then(crate::order::ref_id), &given);
            let i = ask(|| Global::<MarginAccount>::from(at).get_info());
            ck(P, "a creation reports the amounts credited to the account", all(events::<EventAddCollateral>().iter().map(|e| bal(&i, coll(0)).f_eq(total(&e.amounts, coll(0)))).collect()));
        }
    }
}
