//! The model world the properties are checked in: all components deployed through their own constructors at the fixed
//! addresses, and an arbitrary symbolic state injected through their own authority methods.
use num_bigint::BigInt;
use scrypto::explore::{assume, check, choose, engine_error, fresh};
pub use scrypto::explore::{check_d, cover, end_path, note};
pub use scrypto::ledger::{ledger, register, rule_satisfied, transaction, with_proof, Event, Held, ProofEntry};
pub use scrypto::prelude::*;
pub use scrypto::solver::{all, any, Form};
pub use scrypto::Int;
pub use ::common::*;
pub use ::account::margin_account::margin_account::MarginAccount;
pub use ::account::{AccountPosition, KeeperRequest, MarginAccountInfo, MarginAccountUpdates};
pub use ::config::{CollateralConfig, ExchangeConfig, PairConfig};
pub use ::exchange::exchange_mod::Exchange;
pub use ::exchange::{PriceLimit, SlippageLimit, Request, RequestMarginOrder, RequestRemoveCollateral, RequestIndexRef};
pub use ::exchange::exchange::events::*;
pub use ::exchange::exchange::requests::*;
pub use ::exchange::exchange::structs::*;
pub use ::fee_delegator::fee_delegator_mod::FeeDelegator;
pub use ::fee_distributor::fee_distributor_mod::FeeDistributor;
pub use ::oracle::oracle_mod::Oracle;
pub use ::oracle::Price;
pub use ::permission_registry::permission_registry_mod::PermissionRegistry;
pub use ::pool::margin_pool_mod::MarginPool;
pub use ::pool::{MarginPoolInfo, MarginPoolUpdates, PoolPosition};
pub use ::referral_generator::referral_generator_mod::ReferralGenerator;
pub use ::referral_generator::{ReferralAllocation, ReferralCode, ReferralData};
pub use ::config::config_mod::Config;
use std::sync::{atomic::AtomicBool, OnceLock};
/// deeper bounds in the thorough tier
pub static THOROUGH: AtomicBool = AtomicBool::new(false);

pub static PROP: OnceLock<String> = OnceLock::new();
pub fn on(p: &str) -> bool { PROP.get().map_or(true, |x| x == p || x == "ALL") }
/// records a proof obligation of property `p`
pub fn ck(p: &str, what: &str, f: Form) { if on(p) { check(&format!("{}: {}", p, what), f) } }
pub fn ckd(p: &str, what: &str, f: Form, d: impl FnOnce() -> String) { if on(p) { check_d(&format!("{}: {}", p, what), f, d) } }
pub fn fof(b: bool) -> Form { Form::of(b) }

// ---------------------------------------------------------------------------------------------- symbolic inputs
pub fn big(s: &str) -> BigInt {
    let (neg, t) = match s.strip_prefix('-') { Some(t) => (true, t), None => (false, s) };
    let (i, f) = t.split_once('.').unwrap_or((t, ""));
    let mut d = i.to_string();
    d.push_str(f);
    for _ in f.len()..18 { d.push('0'); }
    let v: BigInt = d.parse().unwrap();
    if neg { -v } else { v }
}
/// a symbolic amount in [lo, hi]; samples guide the search for counterexamples
pub fn dv(name: &str, lo: &str, hi: &str, samples: &[&str]) -> Decimal {
    Decimal::of(&fresh(name, Some(big(lo)), Some(big(hi)), samples.iter().map(|s| big(s)).collect()))
}
pub fn iv(name: &str, lo: i128, hi: i128, samples: &[i128]) -> i64k_ { i64k_::of(&fresh(name, Some(lo.into()), Some(hi.into()), samples.iter().map(|s| (*s).into()).collect())) }
pub fn uv(name: &str, lo: i128, hi: i128, samples: &[i128]) -> u64k_ { u64k_::of(&fresh(name, Some(lo.into()), Some(hi.into()), samples.iter().map(|s| (*s).into()).collect())) }
pub fn wv(name: &str, lo: i128, hi: i128, samples: &[i128]) -> u16k_ { u16k_::of(&fresh(name, Some(lo.into()), Some(hi.into()), samples.iter().map(|s| (*s).into()).collect())) }
pub type i64k_ = scrypto::num::i64k;
pub type u64k_ = scrypto::num::u64k;
pub type u16k_ = scrypto::num::u16k;
pub fn c64(n: i128) -> u64k_ { u64k_::from_i(n) }
pub fn ci(n: i128) -> i64k_ { i64k_::from_i(n) }
pub fn de(s: &str) -> Decimal { Decimal::of(&scrypto::term::Val::C(big(s))) }
pub fn zero() -> Decimal { Decimal::ZERO }
pub fn inst(s: i64k_) -> Instant { Instant { seconds_since_unix_epoch: s } }
/// an exact comparison up to `n` attos
pub fn near(a: Decimal, b: Decimal, n: i128) -> Form {
    let e = Decimal::of(&scrypto::term::Val::C(n.into()));
    (a - b).f_le(e).and((b - a).f_le(e))
}
/// a one-of-n structural choice
pub fn pick(n: usize, name: &str) -> usize { choose(n, name) }
/// maps and sets have no order: they are walked one way or the other
pub fn any_order() { scrypto::explore::set_reversed_maps(yes("maps walked backwards")) }
pub fn yes(name: &str) -> bool { choose(2, name) == 1 }

// ---------------------------------------------------------------------------------------------- addresses
pub fn res(k: u8) -> ResourceAddress { let mut b = [0x22u8; 30]; b[0] = 0x5d; b[1] = k; ResourceAddress::new_or_panic(b) }
pub fn nfres(k: u8) -> ResourceAddress { let mut b = [0x22u8; 30]; b[0] = 0x9a; b[1] = k; ResourceAddress::new_or_panic(b) }
pub fn comp(k: u8) -> ComponentAddress { let mut b = [0x22u8; 30]; b[0] = 0xc0; b[1] = k; ComponentAddress::new_or_panic(b) }
pub fn wallet(k: u8) -> ComponentAddress { let mut b = [0x33u8; 30]; b[0] = 0xc1; b[1] = k; ComponentAddress::new_or_panic(b) }
pub const EXCHANGE: u8 = 0x50;
pub const ACC_A: u8 = 0x61;
pub const ACC_B: u8 = 0x62;
pub fn owner_badge() -> ResourceAddress { res(0xf0) }
pub fn badge(k: u8) -> ResourceAddress { res(0xa0 + k) }
pub fn coll(k: usize) -> ResourceAddress { res(0xc0 + k as u8) }
pub fn owner_role() -> OwnerRole { OwnerRole::Fixed(rule!(require(owner_badge()))) }
pub fn pe(r: ResourceAddress) -> ProofEntry { ProofEntry { res: r, amount: Decimal::ONE, ids: vec![], cond: Form::True } }
pub fn pe_if(r: ResourceAddress, cond: Form) -> ProofEntry { ProofEntry { res: r, amount: Decimal::ONE, ids: vec![], cond } }
pub fn pair(k: usize) -> String { ["P/USD", "Q/USD", "R/USD", "S/USD", "T/USD", "U/USD", "V/USD", "W/USD"][k].to_string() }
pub fn cfeed(k: usize) -> String { ["X/USD", "Y/USD", "Z/USD", "A/USD", "B/USD", "C/USD", "D/USD", "E/USD"][k].to_string() }
pub fn key() -> Bls12381G1PublicKey { Bls12381G1PublicKey([7u8; 48]) }
pub fn sig(k: u8) -> Bls12381G2Signature { Bls12381G2Signature([k; 96]) }

pub fn setup<R>(f: impl FnOnce() -> R) -> R {
    ledger(|l| l.no_auth = true);
    let r = transaction(vec![], f);
    ledger(|l| { l.no_auth = false; l.events.clear(); l.calls.clear(); l.deposits.clear(); });
    match r { Ok(x) => x, Err(e) => engine_error(&format!("world setup aborted: {}", e)) }
}
/// a read-only query of the world
pub fn ask<R>(f: impl FnOnce() -> R) -> R {
    let saved = ledger(|l| (std::mem::take(&mut l.events), std::mem::take(&mut l.calls), std::mem::take(&mut l.deposits), l.no_auth));
    ledger(|l| l.no_auth = true);
    let r = transaction(vec![], f);
    ledger(|l| { l.events = saved.0; l.calls = saved.1; l.deposits = saved.2; l.no_auth = saved.3; });
    match r { Ok(x) => x, Err(e) => engine_error(&format!("query aborted: {}", e)) }
}

// ---------------------------------------------------------------------------------------------- deployment
#[derive(Clone, Copy)]
pub struct W {
    pub ex: Global<Exchange>, pub cfg: Global<Config>, pub pool: Global<MarginPool>, pub oracle: Global<Oracle>, pub refgen: Global<ReferralGenerator>,
    pub dist: Global<FeeDistributor>, pub deleg: Global<FeeDelegator>, pub perm: Global<PermissionRegistry>,
}
pub fn auth_rule() -> AccessRule { rule!(require(_AUTHORITY_RESOURCE)) }
pub fn authority_pe() -> ProofEntry { pe(_AUTHORITY_RESOURCE) }
/// base and collateral token precision
pub fn set_divisibility(r: ResourceAddress, d: usize) { ledger(|l| l.res.get_mut(&r).unwrap().divisibility = d as _) }

pub fn resource(a: ResourceAddress, mint: AccessRule) {
    if a.is_fungible() {
        ResourceBuilder::new_fungible(owner_role()).mint_roles(scrypto::roles! { minter => mint.clone(); }).burn_roles(scrypto::roles! { burner => mint; }).at(a).create_with_no_initial_supply();
    } else {
        ResourceBuilder::new_ruid_non_fungible::<()>(owner_role()).mint_roles(scrypto::roles! { minter => mint.clone(); }).burn_roles(scrypto::roles! { burner => mint.clone(); })
            .non_fungible_data_update_roles(scrypto::roles! { non_fungible_data_updater => mint; }).at(a).create_with_no_initial_supply();
    }
}
pub fn deploy() -> W {
    register::<MarginAccount>();
    setup(|| {
        ledger(|l| l.now = Some(ci(1_700_000_000)));
        resource(_AUTHORITY_RESOURCE, rule!(deny_all));
        resource(_BASE_AUTHORITY_RESOURCE, rule!(deny_all));
        ResourceBuilder::new_fungible(owner_role()).mint_roles(scrypto::roles! { minter => rule!(require(_BASE_AUTHORITY_RESOURCE)); }).burn_roles(scrypto::roles! { burner => AccessRule::AllowAll; }).at(_BASE_RESOURCE).create_with_no_initial_supply();
        for r in [_LP_RESOURCE, _REFERRAL_RESOURCE, _RECOVERY_KEY_RESOURCE, _KEEPER_REWARD_RESOURCE] { resource(r, auth_rule()); }
        resource(_PROTOCOL_RESOURCE, auth_rule());
        resource(owner_badge(), rule!(deny_all));
        resource(XRD, rule!(deny_all));
        for k in 0..8 { resource(coll(k), rule!(deny_all)); }
        let at = |a: ComponentAddress| ledger(|l| l.next_address = Some(a));
        at(_ORACLE_COMPONENT);
        let mut keys = HashMap::new();
        keys.insert(c64(0), key());
        let oracle = Oracle::new(owner_role(), keys);
        at(_CONFIG_COMPONENT);
        let cfg = Config::new(owner_role());
        at(_POOL_COMPONENT);
        let pool = MarginPool::new(owner_role());
        at(_REFERRAL_GENERATOR_COMPONENT);
        let refgen = ReferralGenerator::new(owner_role());
        at(_FEE_DISTRIBUTOR_COMPONENT);
        let dist = FeeDistributor::new(owner_role());
        at(_FEE_DELEGATOR_COMPONENT);
        ledger(|l| l.next_resource = Some(_FEE_OATH_RESOURCE));
        let deleg = FeeDelegator::new(owner_role());
        at(_PERMISSION_REGISTRY_COMPONENT);
        let perm = PermissionRegistry::new(owner_role());
        at(comp(EXCHANGE));
        let auth = Bucket::model(_AUTHORITY_RESOURCE, Decimal::ONE);
        let ex = Exchange::new(owner_role(), auth, None);
        W { ex, cfg, pool, oracle, refgen, dist, deleg, perm }
    })
}

// ---------------------------------------------------------------------------------------------- configuration
pub fn pair_cfg(id: &str) -> PairConfig {
    PairConfig {
        pair_id: id.to_string(), price_age_max: ci(60), oi_max: de("1000000000"), trade_size_min: de("0"), update_price_delta_ratio: de("0.005"), update_period_seconds: ci(3600),
        margin_initial: de("0.02"), margin_maintenance: de("0.01"), funding_1: de("1"), funding_2: de("1"), funding_2_delta: de("100"), funding_2_decay: de("100"),
        funding_pool_0: de("0.02"), funding_pool_1: de("0.25"), funding_share: de("0.1"), fee_0: de("0.0005"), fee_1: de("0.00000005"),
    }
}
pub fn coll_cfg(k: usize) -> CollateralConfig { CollateralConfig { pair_id: cfeed(k), price_age_max: ci(60), discount: de("0.9"), margin: de("0.01") } }

#[derive(Clone)]
pub struct PosSym { pub amount: Decimal, pub cost: Decimal, pub idx: Decimal }
#[derive(Clone)]
pub struct AccSym { pub addr: ComponentAddress, pub g: Global<MarginAccount>, pub levels: [AccessRule; 3] }

pub fn levels(k: u8) -> [AccessRule; 3] { [rule!(require(badge(k * 4 + 1))), rule!(require(badge(k * 4 + 2))), rule!(require(badge(k * 4 + 3)))] }
pub fn level_badge(k: u8, level: u8) -> ResourceAddress { badge(k * 4 + level) }
pub fn make_account(k: u8, referral: Option<NonFungibleLocalId>) -> AccSym {
    let addr = comp(k);
    let lv = levels(k - ACC_A);
    let g = MarginAccount::new(lv[0].clone(), lv[1].clone(), lv[2].clone(), referral, GlobalAddress::from(XRD), Some(scrypto::ledger::GlobalAddressReservation(addr)));
    AccSym { addr, g, levels: lv }
}
pub fn acc_updates(vb: Decimal) -> MarginAccountUpdates {
    MarginAccountUpdates { position_updates: HashMap::new(), virtual_balance: vb, valid_requests_start: c64(0), request_additions: vec![], request_updates: HashMap::new(), active_request_additions: vec![], active_request_removals: vec![] }
}
pub fn push_prices(w: &W, prices: Vec<(String, Decimal, i64k_)>) {
    let data: Vec<Price> = prices.into_iter().map(|(pair, quote, t)| Price { pair, quote, timestamp: inst(t) }).collect();
    let (d, s) = signed(&data, 9);
    w.oracle.push_and_get_prices_with_auth(HashSet::new(), d, s, c64(0));
}
pub fn signed(data: &Vec<Price>, k: u8) -> (Vec<u8>, Bls12381G2Signature) {
    let d = scrypto_encode(data).unwrap();
    let h = CryptoUtils::keccak256_hash(&d);
    ledger(|l| l.valid_sigs.push((h.0.to_vec(), key().0.to_vec(), sig(k).0.to_vec())));
    (d, sig(k))
}

// ---------------------------------------------------------------------------------------------- observation
#[derive(Clone)]
pub struct Snap {
    pub pool: MarginPoolInfo, pub accs: Vec<MarginAccountInfo>, pub protocol: Decimal, pub treasury: Decimal, pub deleg: Decimal, pub oath: Decimal,
    pub lp: Decimal, pub reward_minted: Decimal, pub refs: Vec<(NonFungibleLocalId, ReferralData)>, pub requests: Vec<Vec<KeeperRequest>>, pub active: Vec<Vec<u64k_>>,
}
pub fn supply(r: ResourceAddress) -> Decimal { ledger(|l| l.res.get(&r).map(|i| i.supply).unwrap_or(Decimal::ZERO)) }
pub fn minted(r: ResourceAddress) -> Decimal { ledger(|l| l.res.get(&r).map(|i| i.minted).unwrap_or(Decimal::ZERO)) }
pub fn burned(r: ResourceAddress) -> Decimal { ledger(|l| l.res.get(&r).map(|i| i.burned).unwrap_or(Decimal::ZERO)) }
pub fn snap(w: &W, accs: &[Global<MarginAccount>], pairs: usize, refs: &[NonFungibleLocalId]) -> Snap {
    ask(|| {
        let ids: HashSet<String> = (0..pairs).map(pair).collect();
        Snap {
            pool: w.pool.get_info(ids),
            accs: accs.iter().map(|a| a.get_info()).collect(),
            protocol: w.dist.get_protocol_virtual_balance(), treasury: w.dist.get_treasury_virtual_balance(), deleg: w.deleg.get_virtual_balance(),
            oath: supply(_FEE_OATH_RESOURCE), lp: supply(_LP_RESOURCE), reward_minted: minted(_KEEPER_REWARD_RESOURCE),
            refs: refs.iter().map(|i| (i.clone(), ResourceManager(_REFERRAL_RESOURCE).get_non_fungible_data::<ReferralData>(i))).collect(),
            requests: accs.iter().map(|a| a.get_requests(c64(1000), None).into_iter().map(|x| x.1).collect()).collect(),
            active: accs.iter().map(|a| { let m = a.get_active_requests(); m.keys().cloned().collect() }).collect(),
        }
    })
}
pub fn pos(i: &MarginAccountInfo, p: &str) -> AccountPosition { i.positions.get(&p.to_string()).cloned().unwrap_or_default() }
pub fn ppos(s: &Snap, p: &str) -> PoolPosition { s.pool.positions.get(&p.to_string()).cloned().unwrap_or_else(|| engine_error("pool position")) }
pub fn bal(i: &MarginAccountInfo, r: ResourceAddress) -> Decimal { i.collateral_balances.get(&r).cloned().unwrap_or(Decimal::ZERO) }
pub fn f_pos(x: Decimal) -> Decimal { x.max(Decimal::ZERO) }
pub fn f_neg(x: Decimal) -> Decimal { (Decimal::ZERO - x).max(Decimal::ZERO) }
pub fn claims(s: &Snap) -> Decimal {
    let mut t = s.pool.virtual_balance + s.protocol + s.treasury + s.deleg - s.oath;
    for a in &s.accs { t = t + a.virtual_balance; }
    for r in &s.refs { t = t + r.1.balance; }
    t
}
pub fn pool_value(p: &MarginPoolInfo) -> Decimal { p.base_tokens_amount + p.virtual_balance + p.unrealized_pool_funding + p.pnl_snap }
pub fn skew_ratio(p: &MarginPoolInfo) -> Decimal { p.skew_abs_snap / pool_value(p).max(Decimal::ONE) }
pub fn event<T: Clone + 'static>() -> Option<T> { ledger(|l| l.events.iter().find_map(|e| e.data.downcast_ref::<T>().cloned())) }
pub fn events<T: Clone + 'static>() -> Vec<T> { ledger(|l| l.events.iter().filter_map(|e| e.data.downcast_ref::<T>().cloned()).collect()) }
pub fn assume_f(f: Form) { assume(f) }
/// is the form true on this path? (forks)
pub fn is(f: Form) -> bool { scrypto::explore::branch(f) }

/// a proof of one non-fungible token, as a user passes it to a method
pub fn nf_proof(r: ResourceAddress, id: NonFungibleLocalId) -> Proof { let b = Bucket::model_nf(r, vec![id]); let p = b.create_proof_of_all(); let _ = b.model_take(); p }
