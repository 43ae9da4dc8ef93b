//! Who may do what: account levels, component authority, the permission registry.
use crate::order::*;
use crate::ops::*;
use crate::world::*;
pub use ::token_wrapper::token_wrapper_mod::TokenWrapper;

pub fn bit(name: &str) -> Form { iv(name, 0, 1, &[0, 1]).f_eq(ci(1)) }
fn node(r: ResourceAddress) -> AccessRuleNode { AccessRuleNode::ProofRule(ProofRule::Require(ResourceOrNonFungible::Resource(r))) }
fn node_nf(id: NonFungibleGlobalId) -> AccessRuleNode { AccessRuleNode::ProofRule(ProofRule::Require(ResourceOrNonFungible::NonFungible(id))) }
fn ruled(n: AccessRuleNode) -> AccessRule { AccessRule::Protected(n) }
fn rkey(n: u8) -> NonFungibleLocalId { NonFungibleLocalId::ruid([n; 32]) }
/// the forms a level's rule takes
fn shaped(shape: usize, b: ResourceAddress, key: u8) -> AccessRule {
    match shape {
        0 => ruled(node(b)),
        1 => ruled(AccessRuleNode::AnyOf(vec![node(b), node_nf(NonFungibleGlobalId::new(_RECOVERY_KEY_RESOURCE, rkey(key)))])),
        2 => ruled(AccessRuleNode::AllOf(vec![node(b), node_nf(NonFungibleGlobalId::new(_RECOVERY_KEY_RESOURCE, rkey(key)))])),
        3 => AccessRule::DenyAll,
        _ => AccessRule::AllowAll,
    }
}
fn rules_of(g: Global<MarginAccount>) -> Vec<AccessRule> { ["level_1", "level_2", "level_3"].iter().map(|l| g.get_role(l).expect("level rule")).collect() }

pub const ACCOUNT_OPS: [&str; 11] = ["create_recovery_key", "add_auth_rule", "set_level_1_auth", "set_level_2_auth", "set_level_3_auth", "remove_collateral_request", "margin_order_request", "margin_order_tp_sl_request", "cancel_requests", "add_collateral", "add_collateral with tokens"];
fn level_of(op: usize) -> usize { match op { 0..=4 => 1, 5 => 2, _ => 3 } }
pub fn plain(amount: &str) -> Request { Request::MarginOrder(RequestMarginOrder { pair_id: pair(0), amount: de(amount), reduce_only: false, price_limit: PriceLimit::None, slippage_limit: SlippageLimit::None, activate_requests: vec![], cancel_requests: vec![] }) }
pub fn account_op(ex: Global<Exchange>, op: usize, a: ComponentAddress, oath: Option<(ResourceAddress, Decimal)>, mut x: [Decimal; 2]) {
    let o = oath.map(|(r, d)| Bucket::model(r, d));
    if x[1].is_negative() { x[1] = zero(); }
    let new_rule = ruled(node(badge(30)));
    match op {
        0 => { let _ = ex.create_recovery_key(o, a).model_take(); }
        1 => ex.add_auth_rule(o, a, [1u8, 2, 3][pick(3, "level")], node(badge(30))),
        2 => ex.set_level_1_auth(o, a, new_rule),
        3 => ex.set_level_2_auth(o, a, new_rule),
        4 => ex.set_level_3_auth(o, a, new_rule),
        5 => { ex.remove_collateral_request(o, c64(100), a, wallet(1), if yes("no claims") { vec![] } else { vec![(coll(0), x[1])] }); }
        6 => { ex.margin_order_request(o, c64(0), c64(100), a, pair(0), x[0], false, PriceLimit::None, SlippageLimit::None, vec![], vec![], 1); }
        7 => { ex.margin_order_tp_sl_request(o, c64(0), c64(100), a, pair(0), x[0], false, PriceLimit::None, SlippageLimit::None, Some(de("5")), None); }
        8 => ex.cancel_requests(o, a, if yes("no indexes") { vec![] } else { vec![c64(0)] }),
        9 => ex.add_collateral(o, a, vec![]),
        _ => ex.add_collateral(o, a, vec![Bucket::model(coll(0), x[1])]),
    }
}
pub fn levels_needed() {
    let op = pick(ACCOUNT_OPS.len(), "operation");
    let shape = pick(5, "rule");
    let with_oath = yes("delegated fee");
    let amounts = [dv("amount", "-1000000", "1000000", &["5", "-3", "100"]), dv("tokens", "0", "1000000", &["5", "3", "100"])];
    let bare = yes("holds nothing");
    let mut o = Opt { pos: vec![!bare as usize], ccfg: 1, colls: if bare { vec![] } else { vec![coll(0)] }, ..Default::default() };
    o.requests = vec![keeper_request(plain("1"), 1)];
    o.active = vec![0];
    let st = state(&o);
    let b = setup(|| {
        let b = make_account(ACC_B, None);
        for (k, l) in ["level_1", "level_2", "level_3"].iter().enumerate() { st.a.g.set_role(l, shaped(shape, level_badge(0, k as u8 + 1), k as u8 + 1)); }
        let mut u = acc_updates(dv("b_vb", "-1000", "1000000", &["5", "0"]));
        u.request_additions = vec![keeper_request(plain("2"), 1)];
        u.active_request_additions = vec![c64(0)];
        b.g.update(u);
        ledger(|l| l.res.get_mut(&_FEE_OATH_RESOURCE).unwrap().supply = de("100"));
        b
    });
    // any combination of the badges, of other accounts' badges and of recovery keys
    let mut proofs = vec![];
    for k in 1..=3u8 {
        proofs.push(pe_if(level_badge(0, k), bit(&format!("a_level_{}", k))));
        proofs.push(pe(level_badge(1, k)));
        proofs.push(ProofEntry { res: _RECOVERY_KEY_RESOURCE, amount: Decimal::ONE, ids: vec![rkey(k)], cond: bit(&format!("recovery_key_{}", k)) });
    }
    proofs.push(pe(owner_badge()));
    proofs.push(pe(_LP_RESOURCE));
    let oath = with_oath.then(|| dv("oath", "0.000000000000000001", "10", &["0.5", "3"]));
    let before = rules_of(st.a.g);
    let b_rules = rules_of(b.g);
    let s0 = snap(&st.w, &[st.a.g, b.g], 1, &[]);
    let r = transaction(proofs.clone(), || account_op(st.w.ex, op, st.a.addr, oath.map(|d| (_FEE_OATH_RESOURCE, d)), amounts));
    if r.is_err() { return; }
    cover(ACCOUNT_OPS[op]);
    let need = &before[level_of(op) - 1];
    // adding collateral needs the level-3 rule only when a fee is delegated; the code asks for it always
    ck("C13", "an account action needs the account's own rule of its level", fof(rule_satisfied(need, &proofs)));
    let s1 = snap(&st.w, &[st.a.g, b.g], 1, &[]);
    let (x, y) = (&s0.accs[1], &s1.accs[1]);
    ck("C13", "an account action leaves other accounts untouched", all(vec![fof(rules_of(b.g) == b_rules), x.virtual_balance.f_eq(y.virtual_balance), fof(x.positions.len() == y.positions.len() && x.collateral_balances.len() == y.collateral_balances.len() && s0.requests[1].len() == s1.requests[1].len()), fof(s0.requests[1].iter().zip(&s1.requests[1]).all(|(p, q)| p.status == q.status))]));
    let after = rules_of(st.a.g);
    for k in 0..3 {
        let may = match op { 0 => k == 0, 1 => true, 2..=4 => k == op - 2, _ => false };
        if !may { ck("C13", "only the requested rule changes", fof(after[k] == before[k])); }
    }
    if op == 1 { ck("C13", "only the requested rule changes", fof((0..3).filter(|k| after[*k] != before[*k]).count() <= 1)); }
}

// ------------------------------------------------------------------------------------------------ component authority
#[derive(Clone, Copy, PartialEq)]
pub enum Need { Auth, Owner, OwnerOrAdmin, BaseOwner, Never, Open }
type Op = (&'static str, Need, Box<dyn Fn(&St, &AccSym, Global<TokenWrapper>)>);
pub fn wrapper() -> Global<TokenWrapper> {
    ledger(|l| l.next_address = Some(comp(0x70)));
    ledger(|l| l.next_resource = Some(res(0x71)));
    TokenWrapper::new(owner_role(), Bucket::model(_BASE_AUTHORITY_RESOURCE, Decimal::ONE))
}
pub fn drop_all(v: Vec<Bucket>) { for b in v { let _ = b.model_take(); } }
fn code(n: u8) -> Hash { CryptoUtils::keccak256_hash([n]) }
fn component_ops() -> Vec<Op> {
    use Need::*;
    let mut v: Vec<Op> = vec![];
    macro_rules! op { ($n:expr, $need:expr, |$s:ident, $a:ident, $t:ident| $b:expr) => { v.push(($n, $need, Box::new(|$s: &St, $a: &AccSym, $t: Global<TokenWrapper>| { let _ = (&$s, &$a, &$t); $b; }))); } }
    op!("pool.update", Auth, |s, a, t| s.w.pool.update(MarginPoolUpdates { position_updates: HashMap::new(), virtual_balance: zero(), unrealized_pool_funding: zero(), skew_abs_snap: zero(), pnl_snap: zero() }));
    op!("pool.deposit", Auth, |s, a, t| s.w.pool.deposit(base(de("1"))));
    op!("pool.withdraw", Auth, |s, a, t| taken(s.w.pool.withdraw(de("0.5"), TO_ZERO)));
    op!("account.new", Auth, |s, a, t| { let l = levels(2); {
        use scrypto::ledger::{call_function, Wrap};
        let none: Option<NonFungibleLocalId> = None;
        call_function("MarginAccount", "new", vec![Wrap::arg(l[0].clone()), Wrap::arg(l[1].clone()), Wrap::arg(l[2].clone()), Wrap::arg(none), Wrap::arg(GlobalAddress::from(XRD)), Wrap::arg(Some(scrypto::ledger::GlobalAddressReservation(comp(0x63))))])
    } });
    op!("account.update", Auth, |s, a, t| a.g.update(acc_updates(de("7"))));
    op!("account.update_referral_id", Auth, |s, a, t| a.g.update_referral_id(Some(ref_id())));
    op!("account.deposit_collateral_batch", Auth, |s, a, t| a.g.deposit_collateral_batch(vec![Bucket::model(coll(0), de("1"))]));
    op!("account.withdraw_collateral_batch", Auth, |s, a, t| drop_all(a.g.withdraw_collateral_batch(vec![(coll(0), de("0.000000000000000001"))], TO_ZERO)));
    op!("account.level_1", Auth, |s, a, t| a.g.set_role("level_1", AccessRule::AllowAll));
    op!("account.level_2", Auth, |s, a, t| a.g.set_role("level_2", AccessRule::AllowAll));
    op!("account.level_3", Auth, |s, a, t| a.g.set_role("level_3", AccessRule::AllowAll));
    op!("config.update_exchange_config", Auth, |s, a, t| s.w.cfg.update_exchange_config(ExchangeConfig::default()));
    op!("config.update_pair_configs", Auth, |s, a, t| s.w.cfg.update_pair_configs(vec![pair_cfg(&pair(0))]));
    op!("config.update_collateral_configs", Auth, |s, a, t| s.w.cfg.update_collateral_configs(vec![(coll(1), coll_cfg(1))]));
    op!("config.remove_collateral_config", Auth, |s, a, t| s.w.cfg.remove_collateral_config(coll(0)));
    op!("oracle.add_key", Owner, |s, a, t| s.w.oracle.add_key(c64(9), key()));
    op!("oracle.remove_key", Owner, |s, a, t| s.w.oracle.remove_key(c64(0)));
    op!("oracle.remove_price", Owner, |s, a, t| s.w.oracle.remove_price(pair(0)));
    op!("oracle.push_and_get_prices_with_auth", Auth, |s, a, t| { let (d, g) = signed(&vec![], 9); let _ = s.w.oracle.push_and_get_prices_with_auth(HashSet::new(), d, g, c64(0)); });
    op!("oracle.get_prices_with_auth", Auth, |s, a, t| { let _ = s.w.oracle.get_prices_with_auth(HashSet::new()); });
    op!("permissions.set_permissions", Auth, |s, a, t| s.w.perm.set_permissions(AccessRule::AllowAll, Default::default()));
    op!("distributor.update_protocol_virtual_balance", Auth, |s, a, t| s.w.dist.update_protocol_virtual_balance(de("1")));
    op!("distributor.update_treasury_virtual_balance", Auth, |s, a, t| s.w.dist.update_treasury_virtual_balance(de("1")));
    op!("distributor.distribute", Auth, |s, a, t| s.w.dist.distribute(de("1"), de("1")));
    op!("delegator.update_virtual_balance", Auth, |s, a, t| s.w.deleg.update_virtual_balance(de("1")));
    op!("delegator.update_max_lock", OwnerOrAdmin, |s, a, t| s.w.deleg.update_max_lock(de("1")));
    op!("delegator.update_price_multiplier", OwnerOrAdmin, |s, a, t| s.w.deleg.update_price_multiplier(de("1")));
    op!("delegator.update_is_contingent", OwnerOrAdmin, |s, a, t| s.w.deleg.update_is_contingent(true));
    op!("delegator.deposit", Owner, |s, a, t| s.w.deleg.deposit(Bucket::model(XRD, de("5"))));
    op!("delegator.withdraw", Owner, |s, a, t| taken(s.w.deleg.withdraw(de("1"))));
    op!("referrals.add_allocation", Auth, |s, a, t| drop_all(s.w.refgen.add_allocation(vec![], ref_id(), vec![], c64(1)).0));
    op!("referrals.create_referral_codes", Auth, |s, a, t| { let mut h = HashMap::new(); h.insert(code(2), (vec![], c64(1))); drop_all(s.w.refgen.create_referral_codes(vec![], ref_id(), h)); });
    op!("referrals.create_referral_codes_from_allocation", Auth, |s, a, t| { let mut h = HashSet::new(); h.insert(code(3)); s.w.refgen.create_referral_codes_from_allocation(ref_id(), c64(0), h); });
    op!("referrals.claim_referral_code", Auth, |s, a, t| { let (_, b) = s.w.refgen.claim_referral_code(code(1)); drop_all(b); });
    op!("wrapper.deposit_authority", Owner, |s, a, t| { let mut t = t; t.deposit_authority(Bucket::model(_BASE_AUTHORITY_RESOURCE, de("1"))) });
    op!("wrapper.withdraw_authority", Owner, |s, a, t| { let mut t = t; taken(t.withdraw_authority()) });
    op!("wrapper.add_input", Owner, |s, a, t| { let mut t = t; t.add_input(coll(1)) });
    op!("wrapper.update_wrappable", OwnerOrAdmin, |s, a, t| { let mut t = t; t.update_wrappable(coll(0), false) });
    // the exchange's own owner and admin methods
    op!("exchange.deposit_authority", Owner, |s, a, t| s.w.ex.clone().deposit_authority(Bucket::model(_AUTHORITY_RESOURCE, de("1"))));
    op!("exchange.withdraw_authority", Owner, |s, a, t| taken(s.w.ex.clone().withdraw_authority()));
    op!("exchange.signal_upgrade", Owner, |s, a, t| s.w.ex.signal_upgrade(comp(0x99)));
    op!("exchange.update_exchange_config", Owner, |s, a, t| s.w.ex.clone().update_exchange_config(ExchangeConfig::default()));
    op!("exchange.update_pair_configs", Owner, |s, a, t| s.w.ex.clone().update_pair_configs(vec![pair_cfg(&pair(0))]));
    op!("exchange.update_collateral_configs", Owner, |s, a, t| s.w.ex.clone().update_collateral_configs(vec![(coll(1), coll_cfg(1))]));
    op!("exchange.remove_collateral_config", Owner, |s, a, t| s.w.ex.clone().remove_collateral_config(coll(0)));
    op!("exchange.collect_treasury", Owner, |s, a, t| taken(s.w.ex.collect_treasury()));
    op!("exchange.collect_fee_delegator", Owner, |s, a, t| taken(s.w.ex.collect_fee_delegator()));
    op!("exchange.mint_referral", Owner, |s, a, t| { let _ = s.w.ex.mint_referral("n".into(), "d".into(), Url::of("https://x"), de("0.05"), de("0.05"), c64(5)).model_take(); });
    op!("exchange.mint_referral_with_allocation", Owner, |s, a, t| { let (x, y, _) = s.w.ex.mint_referral_with_allocation("n".into(), "d".into(), Url::of("https://x"), de("0.05"), de("0.05"), c64(5), vec![], vec![], c64(1)); let _ = x.model_take(); drop_all(y); });
    op!("exchange.update_referral", Owner, |s, a, t| s.w.ex.update_referral(ref_id(), Some(de("0.01")), None, Some(c64(4))));
    op!("exchange.add_referral_allocation", Owner, |s, a, t| { let (y, _) = s.w.ex.add_referral_allocation(ref_id(), vec![], vec![], c64(1)); drop_all(y); });
    // roles nobody may change
    op!("pool authority role", Never, |s, a, t| s.w.pool.set_role("authority", AccessRule::AllowAll));
    op!("config authority role", Never, |s, a, t| s.w.cfg.set_role("authority", AccessRule::AllowAll));
    op!("oracle authority role", Never, |s, a, t| s.w.oracle.set_role("authority", AccessRule::AllowAll));
    op!("permission authority role", Never, |s, a, t| s.w.perm.set_role("authority", AccessRule::AllowAll));
    op!("distributor authority role", Never, |s, a, t| s.w.dist.set_role("authority", AccessRule::AllowAll));
    op!("delegator authority role", Never, |s, a, t| s.w.deleg.set_role("authority", AccessRule::AllowAll));
    op!("referrals authority role", Never, |s, a, t| s.w.refgen.set_role("authority", AccessRule::AllowAll));
    op!("account authority role", Never, |s, a, t| a.g.set_role("authority", AccessRule::AllowAll));
    op!("account owner role", Never, |s, a, t| a.g.set_owner_role(AccessRule::AllowAll));
    op!("fee oath role", Never, |s, a, t| { let m = ResourceManager(_FEE_OATH_RESOURCE); match pick(3, "role") { 0 => m.set_mintable(AccessRule::AllowAll), 1 => m.set_burnable(AccessRule::AllowAll), _ => m.set_depositable(AccessRule::AllowAll) } });
    op!("flash oath role", Never, |s, a, t| { let m = ResourceManager(res(0x71)); match pick(3, "role") { 0 => m.set_mintable(AccessRule::AllowAll), 1 => m.set_burnable(AccessRule::AllowAll), _ => m.set_depositable(AccessRule::AllowAll) } });
    // roles the owner hands out
    op!("delegator admin role", Owner, |s, a, t| s.w.deleg.set_role("admin", AccessRule::AllowAll));
    op!("delegator depositor role", Owner, |s, a, t| s.w.deleg.set_role("depositor", AccessRule::AllowAll));
    op!("delegator withdrawer role", Owner, |s, a, t| s.w.deleg.set_role("withdrawer", AccessRule::AllowAll));
    op!("delegator user role", Owner, |s, a, t| s.w.deleg.set_role("user", AccessRule::AllowAll));
    op!("wrapper admin role", Owner, |s, a, t| t.set_role("admin", AccessRule::AllowAll));
    op!("wrapper user roles", Owner, |s, a, t| t.set_role(["wrap_user", "unwrap_user", "flash_user"][pick(3, "role")], AccessRule::AllowAll));
    op!("exchange admin roles", Owner, |s, a, t| s.w.ex.set_role(["fee_delegator_admin", "treasury_admin", "referral_admin", "user_admin"][pick(4, "role")], AccessRule::AllowAll));
    op!("exchange keeper roles", Owner, |s, a, t| s.w.ex.set_role(["keeper_process", "keeper_swap_debt", "keeper_liquidate", "keeper_auto_deleverage", "keeper_update_pairs"][pick(5, "role")], AccessRule::AllowAll));
    op!("exchange user roles", OwnerOrAdmin, |s, a, t| s.w.ex.set_role(["protocol_swap_user", "liquidity_user", "referral_user", "account_creation_user", "account_management_user", "remove_collateral_request_user", "margin_order_request_user", "cancel_request_user"][pick(8, "role")], AccessRule::AllowAll));
    // tokens nobody may create
    op!("mint fee oath", Never, |s, a, t| taken(ResourceManager(_FEE_OATH_RESOURCE).mint(de("1"))));
    op!("mint flash oath", Never, |s, a, t| taken(ResourceManager(res(0x71)).mint(de("1"))));
    op!("burn flash oath", Never, |s, a, t| { ledger(|l| l.res.get_mut(&res(0x71)).unwrap().supply = de("5")); Bucket::model(res(0x71), de("1")).burn() });
    op!("burn fee oath", Auth, |s, a, t| { ledger(|l| l.res.get_mut(&_FEE_OATH_RESOURCE).unwrap().supply = de("5")); Bucket::model(_FEE_OATH_RESOURCE, de("1")).burn() });
    op!("keep fee oath", Never, |s, a, t| { let mut v = Vault::new(_FEE_OATH_RESOURCE); v.put(Bucket::model(_FEE_OATH_RESOURCE, de("1"))); });
    op!("keep flash oath", Never, |s, a, t| { let mut v = Vault::new(res(0x71)); v.put(Bucket::model(res(0x71), de("1"))); });
    op!("exchange.new", BaseOwner, |s, a, t| { ledger(|l| l.next_address = Some(comp(0x80))); Exchange::new(owner_role(), Bucket::model([_BASE_AUTHORITY_RESOURCE, coll(0), _LP_RESOURCE][pick(3, "badge")], de("1")), None) });
    op!("wrapper.new", BaseOwner, |s, a, t| { ledger(|l| l.next_address = Some(comp(0x81))); TokenWrapper::new(owner_role(), Bucket::model([_AUTHORITY_RESOURCE, coll(0), _LP_RESOURCE][pick(3, "badge")], de("1"))) });
    v
}
pub fn component_names() -> Vec<&'static str> { component_ops().into_iter().filter(|o| o.1 != Need::Never && o.1 != Need::BaseOwner).map(|o| o.0).collect() }
pub fn component_authority() {
    let ops = component_ops();
    let k = pick(ops.len(), "operation");
    let (name, need, f) = &ops[k];
    let o = Opt { pos: vec![1], ccfg: 1, colls: vec![coll(0)], referral: true, ..Default::default() };
    let st = state(&o);
    let t = setup(|| {
        let mut t = wrapper();
        t.add_input(coll(0));
        st.w.deleg.set_role("admin", ruled(node(badge(33))));
        t.set_role("admin", ruled(node(badge(33))));
        st.w.ex.set_role("user_admin", ruled(node(badge(33))));
        st.w.deleg.deposit(Bucket::model(XRD, de("100")));
        let (b, _) = st.w.refgen.add_allocation(vec![], ref_id(), vec![], c64(2));
        drop_all(b);
        let mut h = HashMap::new();
        h.insert(code(1), (vec![], c64(3)));
        drop_all(st.w.refgen.create_referral_codes(vec![], ref_id(), h));
        t
    });
    let (fa, fo, fd) = (bit("has_authority"), bit("has_owner_badge"), bit("has_admin_badge"));
    let mut proofs = vec![pe_if(_AUTHORITY_RESOURCE, fa.clone()), pe_if(owner_badge(), fo.clone()), pe_if(badge(33), fd.clone()), pe_if(_BASE_AUTHORITY_RESOURCE, bit("has_base_authority"))];
    for k in 1..=3u8 { proofs.push(pe(level_badge(0, k))); proofs.push(pe(level_badge(1, k))); }
    proofs.push(pe(_LP_RESOURCE));
    proofs.push(pe(_KEEPER_REWARD_RESOURCE));
    proofs.push(ProofEntry { res: _REFERRAL_RESOURCE, amount: Decimal::ONE, ids: vec![ref_id()], cond: Form::True });
    let r = transaction(proofs, || f(&st, &st.a, t));
    if r.is_err() { return; }
    cover(name);
    let ok = match need { Need::Auth => fa, Need::Owner => fo, Need::OwnerOrAdmin => fo.or(fd), Need::Never | Need::BaseOwner => Form::False, Need::Open => Form::True };
    ckd("C14", "only the authority or the owner changes a component", ok, || name.to_string());
}

/// every exchange entry point follows the role it is declared with
pub const ROLE_OPS: [(&str, &str); 21] = [
    ("fee_delegator_admin", "collect_fee_delegator"), ("treasury_admin", "collect_treasury"), ("referral_admin", "mint_referral"), ("referral_admin", "update_referral"), ("referral_admin", "add_referral_allocation"),
    ("protocol_swap_user", "swap_protocol_fee"), ("liquidity_user", "add_liquidity"), ("liquidity_user", "remove_liquidity"), ("referral_user", "collect_referral_rewards"), ("referral_user", "create_referral_codes"), ("referral_user", "create_referral_codes_from_allocation"),
    ("account_creation_user", "create_account"), ("account_management_user", "account management"), ("remove_collateral_request_user", "remove_collateral_request"), ("margin_order_request_user", "margin_order_request"),
    ("cancel_request_user", "cancel_requests"), ("keeper_process", "process_request"), ("keeper_swap_debt", "swap_debt"), ("keeper_liquidate", "liquidate"), ("keeper_auto_deleverage", "auto_deleverage"), ("keeper_update_pairs", "update_pairs"),
];
pub fn roles() {
    let k = pick(ROLE_OPS.len(), "entry point");
    let (role, name) = ROLE_OPS[k];
    let mut o = Opt { pos: vec![1], ccfg: 1, colls: vec![coll(0)], referral: true, debt: name == "swap_debt", ..Default::default() };
    o.requests = vec![keeper_request(Request::RemoveCollateral(RequestRemoveCollateral { target_account: wallet(1), claims: vec![] }), 1)];
    o.active = vec![0];
    let st = state(&o);
    let x = dv("amount", "0", "1000000000", &["5", "10000", "100"]);
    setup(|| {
        // only the holder of this badge may use the entry point, everyone may use all the others
        for r in ["fee_delegator_admin", "treasury_admin", "referral_admin", "user_admin", "protocol_swap_user", "liquidity_user", "referral_user", "account_creation_user", "account_management_user", "remove_collateral_request_user", "margin_order_request_user", "cancel_request_user", "keeper_process", "keeper_swap_debt", "keeper_liquidate", "keeper_auto_deleverage", "keeper_update_pairs"] {
            st.w.ex.set_role(r, if r == role { ruled(node(badge(34))) } else { AccessRule::AllowAll });
        }
        ledger(|l| l.res.get_mut(&_PROTOCOL_RESOURCE).unwrap().supply = de("1000000000"));
        let (b, _) = st.w.refgen.add_allocation(vec![], ref_id(), vec![], c64(2));
        drop_all(b);
    });
    let has = bit("has_role");
    let mut proofs = vec![pe_if(badge(34), has.clone()), pe(owner_badge())];
    for k in 1..=3u8 { proofs.push(pe(level_badge(0, k))); }
    let sub = if name == "account management" { pick(6, "management") } else if name == "margin_order_request" { pick(2, "kind") } else if name == "mint_referral" { pick(2, "kind") } else { 0 };
    let ex = st.w.ex;
    let refp = || nf_proof(_REFERRAL_RESOURCE, ref_id());
    let r = transaction(proofs, || match name {
        "collect_fee_delegator" => { taken(ex.collect_fee_delegator()); }
        "collect_treasury" => { taken(ex.collect_treasury()); }
        "mint_referral" if sub == 0 => { let _ = ex.mint_referral("n".into(), "d".into(), Url::of("https://x"), de("0.05"), de("0.05"), c64(5)).model_take(); }
        "mint_referral" => { let (x, y, _) = ex.mint_referral_with_allocation("n".into(), "d".into(), Url::of("https://x"), de("0.05"), de("0.05"), c64(5), vec![], vec![], c64(1)); let _ = x.model_take(); drop_all(y); }
        "update_referral" => ex.update_referral(ref_id(), Some(de("0.01")), None, Some(c64(4))),
        "add_referral_allocation" => { let (y, _) = ex.add_referral_allocation(ref_id(), vec![], vec![], c64(1)); drop_all(y); }
        "swap_protocol_fee" => { let (a, b) = ex.swap_protocol_fee(Bucket::model(_PROTOCOL_RESOURCE, x)); taken(a); taken(b); }
        "add_liquidity" => { taken(ex.add_liquidity(base(x))); }
        "remove_liquidity" => { taken(ex.remove_liquidity(Bucket::model(_LP_RESOURCE, x))); }
        "collect_referral_rewards" => { taken(ex.collect_referral_rewards(refp())); }
        "create_referral_codes" => { let mut h = HashMap::new(); h.insert(code(2), (vec![], c64(1))); drop_all(ex.create_referral_codes(refp(), vec![], h)); }
        "create_referral_codes_from_allocation" => { let mut h = HashSet::new(); h.insert(code(3)); ex.create_referral_codes_from_allocation(refp(), c64(0), h); }
        "create_account" => { ex.create_account(None, AccessRule::AllowAll, vec![], None, Some(scrypto::ledger::GlobalAddressReservation(comp(0x64)))); }
        "account management" => account_op(ex, [0, 1, 2, 3, 4, 9][sub], st.a.addr, None, [x, x]),
        "remove_collateral_request" => account_op(ex, 5, st.a.addr, None, [x, x]),
        "margin_order_request" => account_op(ex, 6 + sub, st.a.addr, None, [x, x]),
        "cancel_requests" => account_op(ex, 8, st.a.addr, None, [x, x]),
        "process_request" => { taken(ex.process_request(st.a.addr, c64(0), None)); }
        "swap_debt" => { let (a, b) = ex.swap_debt(st.a.addr, coll(0), base(x), None); taken(a); taken(b); }
        "liquidate" => { let (a, b) = ex.liquidate(st.a.addr, base(x), None); drop_all(a); taken(b); }
        "auto_deleverage" => { taken(ex.auto_deleverage(st.a.addr, pair(0), None)); }
        _ => { let (a, _) = ex.update_pairs(vec![pair(0)], None); taken(a); }
    });
    if r.is_err() { return; }
    cover(name);
    ckd("C14", "an entry point is limited to its role", has, || format!("{} {}", name, role));
}

// ------------------------------------------------------------------------------------------------ registry
fn universe() -> Vec<AccessRule> {
    let (x, y, z) = (node(badge(20)), node(badge(21)), node(badge(22)));
    vec![
        ruled(x.clone()), ruled(AccessRuleNode::AnyOf(vec![x.clone(), y.clone()])), ruled(AccessRuleNode::AnyOf(vec![y.clone(), z.clone(), AccessRuleNode::AllOf(vec![x.clone(), z.clone()])])), AccessRule::AllowAll, AccessRule::DenyAll,
        ruled(AccessRuleNode::AllOf(vec![x.clone(), y.clone()])), ruled(y.clone()), ruled(z.clone()), ruled(AccessRuleNode::AllOf(vec![x.clone(), z.clone()])),
    ]
}
fn lists(rule: &AccessRule, entry: &AccessRule) -> bool {
    if rule == entry { return true; }
    if let AccessRule::Protected(AccessRuleNode::AnyOf(v)) = rule { return v.iter().any(|n| AccessRule::Protected(n.clone()) == *entry); }
    false
}
fn with_added(rule: &AccessRule, n: AccessRuleNode) -> AccessRule { match rule { AccessRule::Protected(m) => AccessRule::Protected(m.clone().or(n)), _ => AccessRule::Protected(n) } }
pub fn registry() {
    let us = universe();
    let st = state(&Opt { pos: vec![], ..Default::default() });
    let ex = st.w.ex;
    let initial = us[pick(6, "first rule")].clone();
    let shared = yes("second account shares it");
    let second = if shared { initial.clone() } else { us[1].clone() };
    let (pa, pb) = (comp(0x64), comp(0x65));
    let funded = yes("created with a deposit");
    let create = |rule: &AccessRule, at: ComponentAddress| transaction(vec![], || Global::<MarginAccount>::from(ex.create_account(None, rule.clone(), if funded { vec![base(de("5"))] } else { vec![] }, None, Some(scrypto::ledger::GlobalAddressReservation(at))).address()));
    let (a, b) = match (create(&initial, pa), create(&second, pb)) { (Ok(a), Ok(b)) => (a, b), (x, y) => { note(format!("creation failed {:?} {:?}", x.err(), y.err())); ck("C15", "an account can be created under any rule", Form::False); return; } };
    cover("accounts created");
    let mut extra: Vec<AccessRule> = vec![];
    // every entry lists exactly the accounts whose current rule contains it
    let verify = |extra: &Vec<AccessRule>, when: &str| {
        let (ra, rb) = (rules_of(a), rules_of(b));
        for r in us.iter().chain(extra.iter()) {
            let p = ex.get_permissions(r.clone());
            let lv = [&p.level_1, &p.level_2, &p.level_3];
            for k in 0..3 {
                ckd("C15", "the registry lists an account under exactly its current rules", fof(lv[k].contains(&pa) == lists(&ra[k], r)), || format!("{}: level {} rule {:?}", when, k + 1, r));
                ckd("C15", "the registry keeps the other accounts' entries", fof(lv[k].contains(&pb) == lists(&rb[k], r)), || format!("{}: level {} rule {:?}", when, k + 1, r));
                ck("C15", "the registry lists each account once", fof(lv[k].len() == lists(&ra[k], r) as usize + lists(&rb[k], r) as usize));
            }
        }
    };
    ck("C15", "a new account has the given rule at every level", fof(rules_of(a).iter().all(|r| *r == initial) && rules_of(b).iter().all(|r| *r == second)));
    verify(&extra, "creation");
    for step in 0..2 {
        let op = pick(3, "change");
        let level = if op == 2 { 0 } else { pick(3, "level") };
        let before = rules_of(a);
        let rb = rules_of(b);
        let all_badges: Vec<ProofEntry> = (20..24).map(|k| pe(badge(k))).collect();
        ledger(|l| l.no_auth = true); // authorisation is C13's subject
        let want;
        let r = match op {
            0 => {
                let rule = us[[0, 2, 3, 4, 5][pick(5, "new rule")]].clone();
                want = rule.clone();
                transaction(all_badges, || match level { 0 => ex.set_level_1_auth(None, pa, rule), 1 => ex.set_level_2_auth(None, pa, rule), _ => ex.set_level_3_auth(None, pa, rule) })
            }
            1 => {
                let n = [node(badge(22)), node(badge(20))][pick(2, "added rule")].clone();
                want = with_added(&before[level], n.clone());
                transaction(all_badges, || ex.add_auth_rule(None, pa, level as u8 + 1, n))
            }
            _ => {
                let r = transaction(all_badges, || match ex.create_recovery_key(None, pa).model_take() { Held::Ids(v) => v[0].clone(), _ => panic!("recovery key") });
                match r {
                    Ok(id) => {
                        let n = node_nf(NonFungibleGlobalId::new(_RECOVERY_KEY_RESOURCE, id));
                        want = with_added(&before[0], n.clone());
                        extra.push(ruled(n));
                        Ok(())
                    }
                    Err(e) => { want = before[0].clone(); Err(e) }
                }
            }
        };
        ledger(|l| l.no_auth = false);
        if let Err(e) = r { note(e); ck("C15", "a rule change succeeds", Form::False); return; }
        cover(["rule set", "rule added", "recovery key created"][op]);
        extra.push(want.clone());
        let now = rules_of(a);
        for k in 0..3 { ckd("C15", "the rule enforced is the one requested", fof(now[k] == if k == level { want.clone() } else { before[k].clone() }), || format!("level {}: {:?}", k + 1, now[k])); }
        ck("C15", "the other account's rules are untouched", fof(rules_of(b) == rb));
        verify(&extra, ["first change", "second change"][step]);
        if op == 2 { break; }
    }
}
