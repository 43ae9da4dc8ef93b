//! Processing of margin orders from an arbitrary valid state.
use crate::world::*;

/// An arbitrary valid state of one trading account and the pool.
pub struct St {
    pub w: W, pub a: AccSym, pub price: Vec<Decimal>, pub cprice: Vec<Decimal>, pub e: ExchangeConfig, pub p: Vec<PairConfig>, pub c: Vec<CollateralConfig>,
    pub refs: Vec<NonFungibleLocalId>, pub referral: Option<ReferralData>, pub now: i64k_, pub npairs: usize, pub stamps: Vec<i64k_>, pub cstamps: Vec<i64k_>,
}
#[derive(Clone, Default)]
pub struct Opt {
    /// per pair: 0 no position, 1 long, 2 short
    pub pos: Vec<usize>,
    pub colls: Vec<ResourceAddress>,
    /// configured collaterals
    pub ccfg: usize,
    pub referral: bool,
    pub sym_cfg: bool,
    pub sym_fee: bool,
    pub sym_fund: bool,
    pub period: bool,
    /// the positions' funding indices differ from the pool's
    pub funding: bool,
    pub debt: bool,
    pub vb_lo: Option<&'static str>,
    pub requests: Vec<KeeperRequest>,
    pub active: Vec<usize>,
    pub valid_start: usize,
    pub max_positions: Option<usize>,
    pub max_active: Option<usize>,
    pub max_colls: Option<usize>,
    pub second: bool,
    /// concrete prices and open interests
    pub plain: bool,
    /// everything about the pairs and collaterals after the first is concrete
    pub wide: bool,
    /// the pool has never seen the first pair
    pub fresh: bool,
    /// position costs have the sign of the position
    pub cost_sign: bool,
    /// symbolic maximum ages, timestamps and price signs
    pub ages: bool,
    /// per collateral: 0 own feed, 1 + k the feed of pair k
    pub feeds: Vec<usize>,
}
pub const NOW: i128 = 1_700_000_000;
pub fn ref_id() -> NonFungibleLocalId { NonFungibleLocalId::ruid([0x42; 32]) }

pub fn ex_cfg(o: &Opt) -> ExchangeConfig {
    let mut e = ExchangeConfig::default();
    if o.sym_cfg {
        e.skew_ratio_cap = dv("skew_ratio_cap", "0", "10", &["0.15", "0.3", "2"]);
    }
    if o.sym_fee {
        e.fee_share_protocol = dv("fee_share_protocol", "0", "0.3", &["0.22", "0", "0.3"]);
        e.fee_share_treasury = dv("fee_share_treasury", "0", "0.15", &["0.08", "0.15", "0.1"]);
        e.fee_share_referral = dv("fee_share_referral", "0", "1", &["1", "0.5", "0"]);
        e.fee_max = dv("fee_max", "0", "1", &["0.01", "0.0002", "0.5"]);
    }
    if let Some(n) = o.max_positions { e.positions_max = u16k_::from_i(n as i128); }
    if let Some(n) = o.max_active { e.active_requests_max = u16k_::from_i(n as i128); }
    if let Some(n) = o.max_colls { e.collaterals_max = u16k_::from_i(n as i128); }
    e
}
pub fn state(o: &Opt) -> St {
    let w = deploy();
    let n = o.pos.len();
    let e = ex_cfg(o);
    let mut p = vec![];
    for k in 0..n {
        let mut c = pair_cfg(&pair(k));
        if o.ages { c.price_age_max = iv(&format!("age{}", k), 1, 65535, &[60, 5, 3600]); }
        if k == 0 && o.sym_cfg {
            c.oi_max = dv("oi_max", "0", "1000000000", &["1000000", "1000", "900000000"]);
            c.margin_initial = dv("margin_initial", "0", "1", &["0.02", "0.5", "0.1"]);
            c.margin_maintenance = dv("margin_maintenance", "0", "1", &["0.01", "0.25", "0.1"]);
            assume_f(c.margin_maintenance.f_le(c.margin_initial));
        }
        if k == 0 && o.sym_fee {
            c.fee_0 = dv("fee_0", "0", "0.015", &["0.0005", "0.01", "0"]);
            c.fee_1 = dv("fee_1", "0", "0.000001", &["0.00000005", "0", "0.000001"]);
        }
        if k == 0 && o.sym_fund {
            c.funding_1 = dv("funding_1", "0", "2", &["1", "2", "0.5"]);
            c.funding_2 = dv("funding_2", "0", "4", &["1", "4", "0.5"]);
            c.funding_2_delta = dv("funding_2_delta", "0", "10000", &["100", "0", "1000"]);
            c.funding_2_decay = dv("funding_2_decay", "0", "10000", &["100", "1", "5000"]);
            c.funding_pool_0 = dv("funding_pool_0", "0", "1", &["0.02", "0.5", "0"]);
            c.funding_pool_1 = dv("funding_pool_1", "0", "2", &["0.25", "2", "0"]);
            c.funding_share = dv("funding_share", "0", "0.1", &["0.1", "0.05", "0"]);
        }
        p.push(c);
    }
    let mut c = vec![];
    for k in 0..o.ccfg {
        let mut x = coll_cfg(k);
        if let Some(f) = o.feeds.get(k) { if *f > 0 { x.pair_id = pair(*f - 1); } }
        if o.ages { x.price_age_max = iv(&format!("cage{}", k), 1, 65535, &[60, 5, 3600]); }
        if k == 0 && o.sym_cfg {
            x.discount = dv("discount", "0.8", "1", &["0.9", "1", "0.8"]);
            x.margin = dv("coll_margin", "0", "0.1", &["0.01", "0.1", "0"]);
        }
        c.push(x);
    }
    let dk = |k: usize, n: &str, lo: &str, hi: &str, ex: &[&str]| if o.wide && k > 0 && k != 4 { de(ex[0]) * de(&(k + 1).to_string()) } else { dv(n, lo, hi, ex) };
    let dp = |k: usize, n: &str, lo: &str, hi: &str, ex: &[&str]| if o.plain { de(ex[0]) } else { dk(k, n, lo, hi, ex) };
    let shared = |k: usize| o.feeds.get(k).copied().unwrap_or(0);
    let price: Vec<Decimal> = (0..n).map(|k| dp(k, &format!("price{}", k), if o.ages { "-1000" } else { "0.000001" }, "1000000", &[["100", "2", "50000"], ["7", "0.5", "3000"], ["1", "2", "3"]][k.min(2)])).collect();
    let cprice: Vec<Decimal> = (0..o.ccfg).map(|k| if shared(k) > 0 { price[shared(k) - 1] } else { dk(k, &format!("cprice{}", k), if o.ages { "-1000" } else { "0.000001" }, "1000000", &[["3", "0.02", "2000"], ["1", "20", "0.3"], ["1", "2", "3"]][k.min(2)]) }).collect();
    let stamp = |n: String| if o.ages { iv(&n, NOW - 100_000, NOW + 10, &[NOW - 1, NOW - 59, NOW - 60, NOW - 3600]) } else { ci(NOW - 1) };
    let stamps: Vec<i64k_> = (0..n).map(|k| stamp(format!("stamp{}", k))).collect();
    let cstamps: Vec<i64k_> = (0..o.ccfg).map(|k| if shared(k) > 0 { stamps[shared(k) - 1] } else { stamp(format!("cstamp{}", k)) }).collect();
    let now = ci(NOW);
    let refs = if o.referral { vec![ref_id()] } else { vec![] };
    let referral = o.referral.then(|| ReferralData {
        name: "r".into(), description: "d".into(), key_image_url: Url::of("https://x"), fee_referral: dv("fee_referral", "0", "0.1", &["0.05", "0.1", "0.02"]), fee_rebate: dv("fee_rebate", "0", "0.1", &["0.1", "0.05", "0"]),
        referrals: c64(1), max_referrals: c64(10), balance: dv("ref_balance", "0", "1000000", &["5", "0", "100"]), total_rewarded: dv("ref_total", "0", "1000000", &["7", "0", "300"]),
    });
    let st = setup(|| {
        ledger(|l| l.now = Some(now));
        w.cfg.update_exchange_config(e.clone());
        w.cfg.update_pair_configs(p.clone());
        w.cfg.update_collateral_configs((0..o.ccfg).map(|k| (coll(k), c[k].clone())).collect());
        let mut pr: Vec<(String, Decimal, i64k_)> = vec![];
        for k in 0..n { pr.push((pair(k), price[k], stamps[k])); }
        for k in 0..o.ccfg { if shared(k) == 0 { pr.push((cfeed(k), cprice[k], cstamps[k])); } }
        push_prices(&w, pr);
        if let Some(r) = &referral {
            let d = r.clone();
            let b = ResourceManager(_REFERRAL_RESOURCE).mint_non_fungible(&ref_id(), d);
            let _ = b.model_take();
        }
        // the trading account
        let a = make_account(ACC_A, refs.first().cloned());
        let lo = o.vb_lo.unwrap_or(if o.debt { "-1000000000" } else { "-1000000000" });
        let mut up = acc_updates(dv("account_vb", lo, if o.debt { "-0.000000000000000001" } else { "1000000000" }, if o.debt { &["-100", "-5", "-0.5"] } else { &["1000", "20", "500000"] }));
        let mut pool_pos = HashMap::new();
        let (mut sk, mut pn) = (dv("rest_skew", "0", "1000000000", &["0", "100", "5000"]), dv("rest_pnl", "-1000000000", "1000000000", &["0", "-10", "300"]));
        for k in 0..n {
            if o.fresh && k == 0 { continue; }
            let nm = |s: &str| format!("{}{}", s, k);
            let oi_long = dp(k, &nm("oi_long"), "0", "1000000000", &["1000", "30", "50"]);
            let oi_short = dp(k, &nm("oi_short"), "0", "1000000000", &["800", "45", "20"]);
            let mut q = PoolPosition {
                oi_long, oi_short, cost: dk(k, &nm("pool_cost"), "-1000000000000", "1000000000000", &["20000", "-30", "1500000"]),
                skew_abs_snap: dk(k, &nm("pair_skew"), "0", "1000000000000", &["19000", "31", "1400000"]), pnl_snap: dk(k, &nm("pair_pnl"), "-1000000000000", "1000000000000", &["10", "-1", "2000"]),
                funding_2_rate: dec!(0), funding_long_index: dec!(0), funding_short_index: dec!(0),
                last_update: inst(now), last_price: dec!(1),
            };
            if o.sym_fund { q.funding_2_rate = dk(k, &nm("funding_2_rate"), "-1000000000", "1000000000", &["100", "-20", "3000"]); }
            if o.funding || o.sym_fund {
                q.funding_long_index = dk(k, &nm("long_index"), "-1000000", "1000000", &["0.5", "-0.1", "20"]);
                q.funding_short_index = dk(k, &nm("short_index"), "-1000000", "1000000", &["-0.4", "0.2", "-15"]);
            }
            if o.period && k == 0 {
                let per = iv("period", 0, 315_360_000, &[3600, 60, 86400]);
                q.last_update = inst(now - per);
                q.last_price = dv("last_price", "0.000001", "1000000", &["99", "2.1", "48000"]);
            }
            sk = sk + q.skew_abs_snap;
            pn = pn + q.pnl_snap;
            if o.pos[k] != 0 {
                let m = dk(k, &nm("size"), "0.000000000000000001", "1000000000", &["10", "3", "0.5"]);
                let amount = if o.pos[k] == 1 { assume_f(m.f_le(oi_long)); m } else { assume_f(m.f_le(oi_short)); -m };
                // the cost has the sign of the position plus a fee
                let cost = if o.cost_sign { let c = dk(k, &nm("cost"), "0.000000000000000001", "1000000000000", &["950", "6.5", "24000"]); if o.pos[k] == 1 { c } else { -c } } else { dk(k, &nm("cost"), "-1000000000000", "1000000000000", &["950", "6.5", "-24000"]) };
                let idx = if o.funding { dk(k, &nm("acc_index"), "-1000000", "1000000", &["0.4", "-0.05", "10"]) } else if o.pos[k] == 1 { q.funding_long_index } else { q.funding_short_index };
                up.position_updates.insert(pair(k), AccountPosition { amount, cost, funding_index: idx });
            }
            pool_pos.insert(pair(k), q);
        }
        up.request_additions = o.requests.clone();
        up.active_request_additions = o.active.iter().map(|i| c64(*i as i128)).collect();
        up.valid_requests_start = c64(0);
        a.g.update(up);
        if o.valid_start > 0 {
            let mut u2 = acc_updates(a.g.get_info().virtual_balance);
            u2.valid_requests_start = c64(o.valid_start as i128);
            a.g.update(u2);
        }
        let mut toks = vec![];
        for (k, r) in o.colls.iter().enumerate() { toks.push(Bucket::model(*r, dk(k, &format!("held{}", k), "0.000000000000000001", "1000000000", &["50", "10", "0.25"]))); }
        if !toks.is_empty() { a.g.deposit_collateral_batch(toks); }
        // the pool
        w.pool.deposit(Bucket::model(_BASE_RESOURCE, dv("pool_tokens", "0", "1000000000000", &["1000000", "500", "20000"])));
        w.pool.update(MarginPoolUpdates { position_updates: pool_pos, virtual_balance: dv("pool_vb", "-1000000000000", "1000000000000", &["-2000", "10", "300"]), unrealized_pool_funding: dv("pool_funding", "-1000000000", "1000000000", &["5", "0", "-10"]), skew_abs_snap: sk, pnl_snap: pn });
        w.dist.distribute(dv("protocol_fees", "0", "1000000000", &["20", "0", "3"]), dv("treasury_fees", "0", "1000000000", &["8", "1", "0"]));
        ledger(|l| l.res.get_mut(&_LP_RESOURCE).unwrap().supply = dv("lp_supply", "0", "1000000000000", &["900000", "400", "0"]));
        St { w, a, price: price.clone(), cprice: cprice.clone(), e: e.clone(), p: p.clone(), c: c.clone(), refs: refs.clone(), referral: referral.clone(), now, npairs: n, stamps: stamps.clone(), cstamps: cstamps.clone() }
    });
    st
}
impl St {
    pub fn snap(&self) -> Snap { snap(&self.w, &[self.a.g], self.npairs, &self.refs) }
    pub fn rebate(&self) -> Decimal { self.referral.as_ref().map_or(Decimal::ONE, |r| Decimal::ONE - r.fee_rebate) }
    pub fn ref_share(&self) -> Decimal { self.referral.as_ref().map_or(Decimal::ZERO, |r| r.fee_referral) }
    /// the published fee formula
    pub fn fee(&self, k: usize, q: &PoolPosition, value: Decimal) -> Decimal {
        let va = abs(value);
        let skew = (q.oi_long - q.oi_short) * self.price[k];
        let f = (va * self.p[k].fee_0 + value * (de("2") * skew + value) * self.p[k].fee_1) * self.rebate();
        f.max(Decimal::ZERO).min(va * self.e.fee_max)
    }
    /// account value and initial (or maintenance) margin of a recorded state
    pub fn value(&self, s: &Snap, initial: bool) -> (Decimal, Decimal) {
        let i = &s.accs[0];
        let (mut v, mut m) = (i.virtual_balance, Decimal::ZERO);
        for k in 0..self.npairs {
            let x = pos(i, &pair(k));
            if !i.positions.contains_key(&pair(k)) { continue; }
            let q = ppos(s, &pair(k));
            let val = -x.amount * self.price[k];
            let idx = if x.amount.is_positive() { q.funding_long_index } else { q.funding_short_index };
            let funding = if x.amount.is_positive() { x.amount * (idx - x.funding_index) } else { -x.amount * (idx - x.funding_index) };
            v = v + (-val - x.cost - self.fee(k, &q, val) - funding);
            m = m + abs(val) * if initial { self.p[k].margin_initial } else { self.p[k].margin_maintenance };
        }
        for k in 0..self.c.len() {
            let b = bal(i, coll(k));
            if !i.collateral_balances.contains_key(&coll(k)) { continue; }
            v = v + b * self.cprice[k] * self.c[k].discount;
            m = m + b * self.cprice[k] * self.c[k].margin;
        }
        (v, m)
    }
    pub fn process(&self, index: usize) -> Result<Decimal, String> {
        transaction(vec![], || { let b = self.w.ex.process_request(self.a.addr, c64(index as i128), None); taken(b) })
    }
}
pub fn taken(b: Bucket) -> Decimal { match b.model_take() { Held::Amt(d) => d, Held::Ids(v) => Decimal::from(v.len()) } }
pub fn abs(x: Decimal) -> Decimal { x.max(-x) }
pub fn keeper_request(r: Request, status: usize) -> KeeperRequest {
    KeeperRequest { request: r.encode(), submission: inst(ci(NOW - 100)), expiry: inst(ci(NOW + 100)), status: status as _, effected_components: vec![] }
}

/// conservation and bookkeeping relations between the states before and after any operation on the account
pub fn common(st: &St, s0: &Snap, s1: &Snap, touched: &[usize]) {
    ck("C01", "the sum of all claims is unchanged", claims(s0).f_eq(claims(s1)));
    for k in 0..st.npairs {
        let id = pair(k);
        let (q0, q1) = (ppos(s0, &id), ppos(s1, &id));
        let (x0, x1) = (pos(&s0.accs[0], &id), pos(&s1.accs[0], &id));
        ck("C02", "long open interest changes by the accounts' long sizes", (q1.oi_long - q0.oi_long).f_eq(f_pos(x1.amount) - f_pos(x0.amount)));
        ck("C02", "short open interest changes by the accounts' short sizes", (q1.oi_short - q0.oi_short).f_eq(f_neg(x1.amount) - f_neg(x0.amount)));
        ck("C02", "the pool's cost changes by the positions' costs", (q1.cost - q0.cost).f_eq(x1.cost - x0.cost));
        ck("C02", "open interest is not negative", q1.oi_long.f_ge(zero()).and(q1.oi_short.f_ge(zero())));
        if touched.contains(&k) {
            ck("C03", "a touched pair records the current price and time", q1.last_price.f_eq(st.price[k]).and(q1.last_update.seconds_since_unix_epoch.f_eq(st.now)));
            let skew = (q1.oi_long - q1.oi_short) * st.price[k];
            ck("C03", "a touched pair's skew is valued at the current price", q1.skew_abs_snap.f_eq(abs(skew)));
            ck("C03", "a touched pair's P&L is cost minus skew", q1.pnl_snap.f_eq(q1.cost - skew));
        } else {
            ck("C03", "an untouched pair keeps its snapshot", q1.skew_abs_snap.f_eq(q0.skew_abs_snap).and(q1.pnl_snap.f_eq(q0.pnl_snap)));
        }
    }
    let sum = |s: &Snap, f: &dyn Fn(&PoolPosition) -> Decimal| (0..st.npairs).fold(Decimal::ZERO, |t, k| t + f(&ppos(s, &pair(k))));
    ck("C03", "total skew equals the sum over the pairs", (s1.pool.skew_abs_snap - s0.pool.skew_abs_snap).f_eq(sum(s1, &|q| q.skew_abs_snap) - sum(s0, &|q| q.skew_abs_snap)));
    ck("C03", "total P&L equals the sum over the pairs", (s1.pool.pnl_snap - s0.pool.pnl_snap).f_eq(sum(s1, &|q| q.pnl_snap) - sum(s0, &|q| q.pnl_snap)));
}

#[derive(Default)]
pub struct OrderVar { pub funding: bool, pub period: bool, pub limits: bool, pub several: bool, pub wide: bool }
pub fn order() { order_with(OrderVar::default()) }
/// an order beside one or two further positions on either side and three collaterals, one of them not configured
pub fn order_several() { order_with(OrderVar { funding: true, several: true, ..Default::default() }) }
pub fn order_with(v: OrderVar) {
    let p0 = pick(3, "position");
    let variant = if v.limits || v.several || v.wide { 0 } else { pick(if p0 == 0 { 5 } else { 4 }, "variant") };
    let short = yes("sell");
    let reduce_only = yes("reduce_only");
    let mut o = Opt { pos: vec![p0], sym_cfg: true, sym_fee: true, funding: v.funding, period: v.period, ccfg: 1, ..Default::default() };
    if v.several {
        any_order();
        for _ in 0..1 + pick(2, "further positions") { o.pos.push(1 + pick(2, "side")); }
        (o.sym_cfg, o.sym_fee, o.ccfg, o.colls) = (false, false, 2, vec![coll(0), coll(1), coll(2)]);
    }
    if v.wide {
        for k in 0..5 { o.pos.push(1 + k % 2); }
        (o.wide, o.sym_cfg, o.sym_fee, o.ccfg, o.colls, o.max_positions) = (true, false, false, 5, (0..6).map(coll).collect(), Some(10));
    }
    match variant { 1 => o.pos.push(1), 2 => o.colls.push(coll(0)), 3 => o.referral = true, 4 => o.fresh = true, _ => {} }
    let m = dv("order_size", "0.000000000000000001", "1000000000", &["5", "30", "0.7"]);
    let amount = if short { -m } else { m };
    let price_limit = if v.limits { match pick(3, "price limit") { 1 => PriceLimit::Gte(dv("limit", "0", "1000000", &["90", "3", "50001"])), 2 => PriceLimit::Lte(dv("limit", "0", "1000000", &["110", "1", "49999"])), _ => PriceLimit::None } } else { PriceLimit::None };
    let slippage_limit = if v.limits { match pick(3, "slippage limit") { 1 => SlippageLimit::Percent(dv("slippage", "-100", "100", &["1", "0.01", "10"])), 2 => SlippageLimit::Absolute(dv("slippage", "-1000000", "1000000", &["3", "0.01", "100"])), _ => SlippageLimit::None } } else { SlippageLimit::None };
    o.requests = vec![keeper_request(Request::MarginOrder(RequestMarginOrder { pair_id: pair(0), amount, reduce_only, price_limit, slippage_limit, activate_requests: vec![], cancel_requests: vec![] }), 1)];
    o.active = vec![0];
    let st = state(&o);
    let s0 = st.snap();
    let r = st.process(0);
    let reward = match r { Err(_) => return, Ok(b) => b };
    let s1 = st.snap();
    cover("order executed");
    if o.fresh { cover("first order of a pair"); ck("C03", "the recorded price and time are the current ones", ppos(&s1, &pair(0)).last_price.f_eq(st.price[0]).and(ppos(&s1, &pair(0)).last_update.seconds_since_unix_epoch.f_eq(st.now))); }
    common(&st, &s0, &s1, &[0]);
    let id = pair(0);
    let (x0, x1) = (pos(&s0.accs[0], &id), pos(&s1.accs[0], &id));
    let (q0, q1) = (ppos(&s0, &id), ppos(&s1, &id));
    let price = st.price[0];
    // C10: side and size
    let close = if p0 == 1 && short { amount.max(-x0.amount) } else if p0 == 2 && !short { amount.min(-x0.amount) } else { Decimal::ZERO };
    let open = if reduce_only { Decimal::ZERO } else { amount - close };
    ck("C10", "the position changes by the requested (or closable) amount", (x1.amount - x0.amount).f_eq(close + open));
    match price_limit { PriceLimit::Gte(l) => ck("C10", "the price limit is met", price.f_ge(l)), PriceLimit::Lte(l) => ck("C10", "the price limit is met", price.f_le(l)), _ => {} }
    if let Some(ev) = event::<EventMarginOrder>() {
        ck("C10", "the reported amounts are the executed ones", ev.amount_close.f_eq(close).and(ev.amount_open.f_eq(open)).and(ev.price.f_eq(price)));
    }
    // fees by the published formula, closing part first
    let did_close = is(close.f_eq(zero()).not());
    let did_open = is(open.f_eq(zero()).not());
    let mut q = q0.clone();
    let mut fee = Decimal::ZERO;
    let mut cost_left = x0.cost;
    let mut pnl = Decimal::ZERO;
    if did_close {
        cover("order closes");
        let val = close * price;
        let f = st.fee(0, &q, val);
        fee = fee + f;
        if short { q.oi_long = q.oi_long + close } else { q.oi_short = q.oi_short - close }
        let part = -close / x0.amount * x0.cost;
        cost_left = cost_left - part;
        pnl = -val - part - f;
    }
    if did_open {
        cover("order opens");
        let val = open * price;
        let f = st.fee(0, &q, val);
        fee = fee + f;
        cost_left = cost_left + val + f;
    }
    if !v.funding { ck("C10", "the realised P&L is size x price minus proportional cost and fee", (s1.accs[0].virtual_balance - s0.accs[0].virtual_balance).f_eq(pnl)); }
    if is(x1.amount.f_eq(zero()).not()) { ck("C10", "the remaining cost is what is left plus the opened value and fee", x1.cost.f_eq(cost_left)); }
    match slippage_limit {
        SlippageLimit::Percent(l) => ck("C10", "the fee stays within the slippage limit", fee.f_le(price * abs(close + open) * l / de("100"))),
        SlippageLimit::Absolute(l) => ck("C10", "the fee stays within the slippage limit", fee.f_le(l)),
        _ => {}
    }
    if v.funding && on("C04") {
        // the position owes the movement of its side's index since its last settlement, at the indices after this update
        let due = if p0 == 1 { x0.amount * (q1.funding_long_index - x0.funding_index) } else if p0 == 2 { -x0.amount * (q1.funding_short_index - x0.funding_index) } else { zero() };
        ck("C04", "an order settles the position's funding exactly once", (s1.accs[0].virtual_balance - s0.accs[0].virtual_balance - pnl).f_eq(-due));
        if let Some(ev) = event::<EventMarginOrder>() { ck("C04", "the reported funding is the settled one", ev.funding.f_eq(-due)); }
        if is(x1.amount.f_eq(zero()).not()) {
            let long = is(x1.amount.f_gt(zero()));
            ck("C04", "a settled position starts at the current index of its side", x1.funding_index.f_eq(if long { q1.funding_long_index } else { q1.funding_short_index }));
        }
        if !v.period { ck("C04", "the pool's unrealised funding falls by the settled amount", (s0.pool.unrealized_pool_funding - s1.pool.unrealized_pool_funding).f_eq(due)); }
        ck("C04", "the settled funding moves between account and pool", claims(&s0).f_eq(claims(&s1)));
    }
    // C05
    let (fp, ft, fr) = (fee * st.e.fee_share_protocol, fee * st.e.fee_share_treasury, fee * st.e.fee_share_referral * st.ref_share());
    ck("C05", "the protocol receives its share of the published fee", (s1.protocol - s0.protocol).f_eq(fp));
    ck("C05", "the treasury receives its share of the published fee", (s1.treasury - s0.treasury).f_eq(ft));
    if let Some(ev) = event::<EventMarginOrder>() {
        let total = -(ev.fee_pool + ev.fee_protocol + ev.fee_treasury + ev.fee_referral);
        ck("C05", "the fee is split completely", total.f_eq(fee));
        if !v.funding { ck("C05", "the pool keeps the rest of the fee", (s1.pool.virtual_balance - s0.pool.virtual_balance + pnl).f_eq(-(fp + ft + fr))); }
    }
    for (i, (id, d1)) in s1.refs.iter().enumerate() {
        let d0 = &s0.refs[i].1;
        let _ = id;
        ck("C05", "the referrer receives its share of the published fee", (d1.balance - d0.balance).f_eq(fr).and((d1.total_rewarded - d0.total_rewarded).f_eq(fr)));
    }
    ck("C05", "the fee is not negative and at most the maximum", fee.f_ge(zero()).and(fee.f_le(abs(close * price) * st.e.fee_max + abs(open * price) * st.e.fee_max)));
    // C06, C09
    if did_open {
        if on("C06") {
            let (val, margin) = st.value(&s1, true);
            ck("C06", "after a position increase the account holds its initial margin", val.f_ge(margin));
        }
        ck("C09", "open interest on the increased side is within its maximum", if short { q1.oi_short.f_le(st.p[0].oi_max) } else { q1.oi_long.f_le(st.p[0].oi_max) });
    }
    if on("C09") {
        let before = { let qs = (q0.oi_long - q0.oi_short) * price; s0.pool.skew_abs_snap - q0.skew_abs_snap + abs(qs) };
        ck("C09", "the skew ratio is below its cap unless the trade reduced the skew", skew_ratio(&s1.pool).f_lt(st.e.skew_ratio_cap).or(s1.pool.skew_abs_snap.f_lt(before)));
    }
    // C25
    ck("C25", "processing pays the configured reward once", reward.f_eq(st.e.reward_keeper).and((s1.reward_minted - s0.reward_minted).f_eq(st.e.reward_keeper)));
    // C11 (execution part)
    let rq = &s1.requests[0][0];
    ck("C11", "an executed request is marked executed", fof(rq.status == 2usize as _));
    ck("C11", "an executed request is no longer active", fof(s1.active[0].is_empty()));
    let due = if p0 == 1 { x0.amount * (q1.funding_long_index - x0.funding_index) } else if p0 == 2 { -x0.amount * (q1.funding_short_index - x0.funding_index) } else { zero() };
    crate::evts::order(&st, &s0, &s1, fee, close, open, due);
}
