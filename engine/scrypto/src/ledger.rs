//! Model of the Radix ledger runtime the contracts run on: components, call frames, access rules, resources, buckets,
//! vaults, proofs, non-fungible data, events, clock and accounts. Monetary amounts may be symbolic.
use crate::coll::*;
use crate::explore::{branch, record_fn};
use crate::num::*;
use crate::sbor::ScryptoSbor;
use crate::solver::Form;
use radix_common::prelude::{NonFungibleIdType, ComponentAddress, GlobalAddress, NonFungibleGlobalId, NonFungibleLocalId, PackageAddress, ResourceAddress, Hash,
    GLOBAL_CALLER_VIRTUAL_BADGE, XRD};
use radix_engine_interface::prelude::{Epoch, ResourceType, TimePrecision, AccessRule, AccessRuleNode, OwnerRole, ProofRule, ResourceOrNonFungible, WithdrawStrategy, GlobalCaller};
use std::any::Any;
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::marker::PhantomData;
use std::rc::Rc;
use std::ops::{Deref, DerefMut};

pub type Boxed = Box<dyn Any>;

#[derive(Clone)]
pub enum RoleVal { Rule(AccessRule), Owner }
impl From<AccessRule> for RoleVal { fn from(r: AccessRule) -> Self { RoleVal::Rule(r) } }
#[derive(Clone, Copy)]
pub struct OwnerMark;
pub const OWNER: OwnerMark = OwnerMark;
impl From<OwnerMark> for RoleVal { fn from(_: OwnerMark) -> Self { RoleVal::Owner } }

#[derive(Clone)]
pub enum MethodAuth { Public, Roles(Vec<&'static str>), OwnerOnly }

pub struct Comp {
    pub obj: Option<Boxed>,
    pub blueprint: &'static str,
    pub owner: OwnerRole,
    pub roles: BTreeMap<String, RoleVal>,
    pub updaters: fn(&str) -> Option<Vec<&'static str>>,
    pub auth: fn(&str) -> Option<Vec<&'static str>>,
    pub call: fn(&mut dyn Any, &str, Vec<Boxed>) -> Boxed,
}
#[derive(Clone)]
pub struct ProofEntry { pub res: ResourceAddress, pub amount: Decimal, pub ids: Vec<NonFungibleLocalId>, pub cond: Form }
pub struct Frame { pub comp: Option<ComponentAddress>, pub blueprint: &'static str, pub proofs: Vec<ProofEntry> }

pub struct ResInfo {
    pub fungible: bool,
    pub divisibility: u32,
    pub supply: Decimal,
    pub owner: OwnerRole,
    pub roles: BTreeMap<String, RoleVal>,
    pub nfs: Vec<(NonFungibleLocalId, Box<dyn NfObj>)>,
    pub next_id: u64,
    pub minted: Decimal,
    pub burned: Decimal,
}
pub struct Event { pub emitter: Option<ComponentAddress>, pub name: &'static str, pub data: Boxed }
#[derive(Clone, Debug)]
pub enum Held { Amt(Decimal), Ids(Vec<NonFungibleLocalId>) }

pub struct FuncReg { pub auth: fn(&str) -> Option<RoleVal>, pub call: fn(&str, Vec<Boxed>) -> Boxed }

#[derive(Default)]
pub struct Ledger {
    pub comps: HashMap<ComponentAddress, Comp>,
    pub res: HashMap<ResourceAddress, ResInfo>,
    pub funcs: std::collections::HashMap<&'static str, FuncReg>,
    pub frames: Vec<Frame>,
    pub events: Vec<Event>,
    pub now: Option<i64k>,
    pub usd_price: Option<Decimal>,
    pub next_address: Option<ComponentAddress>,
    pub next_resource: Option<ResourceAddress>,
    pub counter: u64,
    pub dangling: bool,
    /// transfers into accounts: (account, resource, what)
    pub deposits: Vec<(ComponentAddress, ResourceAddress, Held)>,
    pub valid_sigs: Vec<(Vec<u8>, Vec<u8>, Vec<u8>)>,
    pub fees_locked: Decimal,
    pub calls: Vec<(&'static str, String)>,
    pub no_auth: bool,
}
thread_local! { pub static LEDGER: RefCell<Ledger> = RefCell::new(Ledger::default()); }
pub fn ledger<R>(f: impl FnOnce(&mut Ledger) -> R) -> R { LEDGER.with(|l| f(&mut l.borrow_mut())) }
pub fn reset_ledger() {
    let old = LEDGER.with(|l| std::mem::take(&mut *l.borrow_mut()));
    std::mem::forget(old.frames);
    drop(old.comps);
}

// ------------------------------------------------------------------------------------------------ access rules
fn has(frames: &[(Vec<ProofEntry>, Option<ComponentAddress>)], req: &ResourceOrNonFungible) -> bool {
    for (proofs, caller) in frames {
        match req {
            ResourceOrNonFungible::NonFungible(id) => {
                if id.resource_address() == GLOBAL_CALLER_VIRTUAL_BADGE {
                    if let Some(c) = caller {
                        if *id == NonFungibleGlobalId::global_caller_badge(GlobalCaller::from(GlobalAddress::from(*c))) { return true; }
                    }
                }
                for p in proofs { if p.res == id.resource_address() && p.ids.contains(id.local_id()) && branch(p.cond.clone()) { return true; } }
            }
            ResourceOrNonFungible::Resource(r) => {
                for p in proofs { if p.res == *r && branch(p.cond.clone()) && (!p.ids.is_empty() || p.amount.is_positive()) { return true; } }
            }
        }
    }
    false
}
fn eval_node(n: &AccessRuleNode, fr: &[(Vec<ProofEntry>, Option<ComponentAddress>)]) -> bool {
    match n {
        AccessRuleNode::AnyOf(v) => v.iter().any(|x| eval_node(x, fr)),
        AccessRuleNode::AllOf(v) => v.iter().all(|x| eval_node(x, fr)),
        AccessRuleNode::ProofRule(p) => match p {
            ProofRule::Require(r) => has(fr, r),
            ProofRule::AllOf(v) => v.iter().all(|r| has(fr, r)),
            ProofRule::AnyOf(v) => v.iter().any(|r| has(fr, r)),
            ProofRule::CountOf(n, v) => v.iter().filter(|r| has(fr, r)).count() >= *n as usize,
            ProofRule::AmountOf(a, r) => {
                let need = Decimal::from_rdec(*a);
                fr.iter().any(|(ps, _)| ps.iter().any(|p| p.res == *r && branch(p.cond.clone()) && p.amount >= need))
            }
        },
    }
}
fn eval_rule(r: &AccessRule, fr: &[(Vec<ProofEntry>, Option<ComponentAddress>)]) -> bool {
    match r { AccessRule::AllowAll => true, AccessRule::DenyAll => false, AccessRule::Protected(n) => eval_node(n, fr) }
}
fn owner_rule(o: &OwnerRole) -> AccessRule {
    match o { OwnerRole::None => AccessRule::DenyAll, OwnerRole::Fixed(r) | OwnerRole::Updatable(r) => r.clone() }
}
/// proofs visible when the current frame calls something
fn zone() -> Vec<(Vec<ProofEntry>, Option<ComponentAddress>)> {
    ledger(|l| l.frames.last().map(|f| vec![(f.proofs.clone(), f.comp)]).unwrap_or_default())
}
pub fn allowed(rule: &AccessRule) -> bool { if ledger(|l| l.no_auth) { return true; } eval_rule(rule, &zone()) }
/// rule evaluation as seen by `Runtime::assert_access_rule` in the current frame
fn allowed_inside(rule: &AccessRule) -> bool {
    let z = ledger(|l| {
        let n = l.frames.len();
        let mut z = vec![];
        if n >= 1 { z.push((l.frames[n - 1].proofs.clone(), None)); }
        if n >= 2 { z.push((l.frames[n - 2].proofs.clone(), l.frames[n - 2].comp)); }
        z
    });
    eval_rule(rule, &z)
}
pub fn proofs_of_frame(i: usize) -> Vec<ProofEntry> { ledger(|l| l.frames[i].proofs.clone()) }
/// rule evaluation for given user proofs (harness use)
pub fn rule_satisfied(rule: &AccessRule, proofs: &[ProofEntry]) -> bool { eval_rule(rule, &[(proofs.to_vec(), None)]) }

fn role_rule(owner: &OwnerRole, roles: &BTreeMap<String, RoleVal>, name: &str) -> AccessRule {
    if name == "OWNER" || name == "_owner_" { return owner_rule(owner); }
    match roles.get(name) { Some(RoleVal::Rule(r)) => r.clone(), Some(RoleVal::Owner) | None => owner_rule(owner) }
}

pub fn call_method(addr: ComponentAddress, method: &str, args: Vec<Boxed>) -> Boxed {
    let (bp, rules, call) = ledger(|l| {
        let c = l.comps.get(&addr).unwrap_or_else(|| panic!("component does not exist"));
        let rules = match (c.auth)(method) {
            None => None,
            Some(roles) => Some(roles.iter().map(|r| role_rule(&c.owner, &c.roles, r)).collect::<Vec<_>>()),
        };
        (c.blueprint, rules, c.call)
    });
    if let Some(rules) = rules {
        if !rules.iter().any(allowed) { panic!("Unauthorized: {}::{}", bp, method); }
    }
    record_fn(&format!("{}::{}", bp, method));
    let mut obj = ledger(|l| {
        l.calls.push((bp, method.to_string()));
        l.frames.push(Frame { comp: Some(addr), blueprint: bp, proofs: vec![] });
        l.comps.get_mut(&addr).unwrap().obj.take().unwrap_or_else(|| panic!("reentrant call into {}", bp))
    });
    let r = call(&mut *obj, method, args);
    ledger(|l| { l.comps.get_mut(&addr).unwrap().obj = Some(obj); l.frames.pop(); });
    r
}
pub fn call_function(bp: &'static str, name: &str, args: Vec<Boxed>) -> Boxed {
    let (rule, call) = ledger(|l| { let f = l.funcs.get(bp).unwrap_or_else(|| panic!("blueprint {} not registered", bp)); ((f.auth)(name), f.call) });
    if let Some(RoleVal::Rule(r)) = rule { if !allowed(&r) { panic!("Unauthorized: {}::{}", bp, name); } }
    record_fn(&format!("{}::{}", bp, name));
    ledger(|l| l.frames.push(Frame { comp: None, blueprint: bp, proofs: vec![] }));
    let r = call(name, args);
    ledger(|l| { l.frames.pop(); });
    r
}
pub struct Wrap;
impl Wrap {
    pub fn arg<X: 'static>(x: X) -> Boxed { Box::new(x) }
    pub fn unarg<X: 'static>(b: Boxed) -> X { *b.downcast::<X>().unwrap_or_else(|_| crate::explore::engine_error(&format!("argument type mismatch: expected {}", std::any::type_name::<X>()))) }
    pub fn garg<X: HasStub>(x: Global<X>) -> Boxed { Box::new(x.address()) }
    pub fn gunarg<X: HasStub>(b: Boxed) -> Global<X> { Global::at(*b.downcast::<ComponentAddress>().expect("component handle")) }
}

// ------------------------------------------------------------------------------------------------ components
pub trait Stub: Clone + Copy { fn at(a: ComponentAddress) -> Self; fn addr(&self) -> ComponentAddress; }
pub trait HasStub: 'static { type Stub: Stub; const NAME: &'static str; }
pub trait BlueprintImpl: HasStub + Sized {
    fn roles_updaters(role: &str) -> Option<Vec<&'static str>>;
    fn method_auth(m: &str) -> Option<Vec<&'static str>>;
    fn function_auth(m: &str) -> Option<RoleVal>;
    fn call_m(obj: &mut dyn Any, m: &str, args: Vec<Boxed>) -> Boxed;
    fn call_f(m: &str, args: Vec<Boxed>) -> Boxed;
}
pub fn register<T: BlueprintImpl>() {
    ledger(|l| { l.funcs.insert(T::NAME, FuncReg { auth: T::function_auth, call: T::call_f }); });
}
pub struct Global<T: HasStub> { stub: T::Stub }
impl<T: HasStub> Clone for Global<T> { fn clone(&self) -> Self { *self } }
impl<T: HasStub> Copy for Global<T> {}
impl<T: HasStub> Deref for Global<T> { type Target = T::Stub; fn deref(&self) -> &T::Stub { &self.stub } }
impl<T: HasStub> DerefMut for Global<T> { fn deref_mut(&mut self) -> &mut T::Stub { &mut self.stub } }
impl<T: HasStub> std::fmt::Debug for Global<T> { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}", T::NAME) } }
impl<T: HasStub> PartialEq for Global<T> { fn eq(&self, o: &Self) -> bool { self.address() == o.address() } }
impl<T: HasStub> Eq for Global<T> {}
impl<T: HasStub> ScryptoSbor for Global<T> { fn dup(&self) -> Self { *self } fn sbor_eq(&self, o: &Self) -> bool { self == o } }
#[derive(Debug, Clone)]
pub struct ComponentCastError;
impl<T: HasStub> Global<T> {
    pub fn at(a: ComponentAddress) -> Self { Global { stub: T::Stub::at(a) } }
    pub fn address(&self) -> ComponentAddress { self.stub.addr() }
    pub fn try_from(a: impl Into<GlobalAddress>) -> Result<Self, ComponentCastError> {
        let a: GlobalAddress = a.into();
        let a = ComponentAddress::try_from(a).map_err(|_| ComponentCastError)?;
        let ok = T::NAME == "Account" || ledger(|l| l.comps.get(&a).map_or(false, |c| c.blueprint == T::NAME));
        if ok { Ok(Self::at(a)) } else { Err(ComponentCastError) }
    }
    pub fn from(a: impl Into<GlobalAddress>) -> Self { Self::try_from(a).expect("component of the expected blueprint") }
    pub fn get_role(&self, name: &str) -> Option<AccessRule> {
        ledger(|l| l.comps.get(&self.address()).and_then(|c| match c.roles.get(name) { Some(RoleVal::Rule(r)) => Some(r.clone()), _ => None }))
    }
    pub fn set_role(&self, name: &str, rule: AccessRule) {
        let a = self.address();
        let (ups, owner, roles) = ledger(|l| { let c = l.comps.get(&a).expect("component"); ((c.updaters)(name), c.owner.clone(), c.roles.clone()) });
        let ups = ups.unwrap_or_default();
        if !ups.iter().any(|u| allowed(&role_rule(&owner, &roles, u))) { panic!("Unauthorized: set_role {}", name); }
        record_fn(&format!("{}.set_role({})", T::NAME, name));
        ledger(|l| { l.comps.get_mut(&a).unwrap().roles.insert(name.to_string(), RoleVal::Rule(rule)); });
    }
    /// only an updatable owner role can be replaced, and only by the present owner
    pub fn set_owner_role(&self, rule: AccessRule) {
        let a = self.address();
        match ledger(|l| l.comps.get(&a).expect("component").owner.clone()) { OwnerRole::Updatable(r) if allowed(&r) => ledger(|l| l.comps.get_mut(&a).unwrap().owner = OwnerRole::Updatable(rule)), _ => panic!("Unauthorized: set_owner_role") }
    }
    pub fn get_owner_role(&self) -> OwnerRole { ledger(|l| l.comps.get(&self.address()).unwrap().owner.clone()) }
    pub fn set_metadata<K, V>(&self, _k: K, _v: V) {}
    /// every component carries the metadata that was set at deployment; the only kind the contracts read is a global address
    pub fn get_metadata<K, V: MetaVal>(&self, _k: K) -> Result<Option<V>, ()> { Ok(Some(V::model())) }
}
impl<T: HasStub> From<Global<T>> for ComponentAddress { fn from(g: Global<T>) -> Self { g.address() } }
impl<T: HasStub> From<Global<T>> for GlobalAddress { fn from(g: Global<T>) -> Self { g.address().into() } }

pub trait MetaVal { fn model() -> Self; }
impl MetaVal for GlobalAddress { fn model() -> Self { GlobalAddress::from(XRD) } }
impl MetaVal for String { fn model() -> Self { String::new() } }

pub struct Blueprint<T>(PhantomData<T>);
#[derive(Clone, Debug)]
pub struct BlueprintId { pub package_address: PackageAddress, pub blueprint_name: String }
pub struct GlobalAddressReservation(pub ComponentAddress);
impl ScryptoSbor for GlobalAddressReservation { fn dup(&self) -> Self { GlobalAddressReservation(self.0) } fn sbor_eq(&self, o: &Self) -> bool { self.0 == o.0 } }
pub struct Owned<T> { obj: T }
pub struct Globalizing<T> { obj: T, owner: OwnerRole, roles: BTreeMap<String, RoleVal>, addr: Option<ComponentAddress> }
pub trait ComponentState: BlueprintImpl { fn instantiate(self) -> Owned<Self> { Owned { obj: self } } }
impl<T: BlueprintImpl> ComponentState for T {}
impl<T: BlueprintImpl> Owned<T> {
    pub fn prepare_to_globalize(self, owner: OwnerRole) -> Globalizing<T> { Globalizing { obj: self.obj, owner, roles: Default::default(), addr: None } }
}
pub fn alloc_address() -> ComponentAddress {
    ledger(|l| {
        if let Some(a) = l.next_address.take() { return a; }
        l.counter += 1;
        let mut b = [0u8; 30];
        b[0] = 0xc0; b[1] = 0xee;
        b[22..30].copy_from_slice(&l.counter.to_be_bytes());
        ComponentAddress::new_or_panic(b)
    })
}
impl<T: BlueprintImpl> Globalizing<T> {
    pub fn roles(mut self, r: Vec<(&'static str, RoleVal)>) -> Self { for (k, v) in r { self.roles.insert(k.to_string(), v); } self }
    pub fn metadata<M>(self, _m: M) -> Self { self }
    pub fn enable_component_royalties<M>(self, _m: M) -> Self { self }
    pub fn with_address(mut self, r: GlobalAddressReservation) -> Self { self.addr = Some(r.0); self }
    pub fn globalize(self) -> Global<T> {
        let a = self.addr.unwrap_or_else(alloc_address);
        ledger(|l| {
            assert!(!l.comps.contains_key(&a), "address already in use");
            l.comps.insert(a, Comp { obj: Some(Box::new(self.obj)), blueprint: T::NAME, owner: self.owner, roles: self.roles, updaters: T::roles_updaters, auth: T::method_auth, call: T::call_m });
        });
        Global::at(a)
    }
}
/// Direct access to the state of a component (harness use).
pub fn with_state<T: 'static, R>(a: ComponentAddress, f: impl FnOnce(&mut T) -> R) -> R {
    let mut o = ledger(|l| l.comps.get_mut(&a).expect("component").obj.take().expect("state"));
    let r = f(o.downcast_mut::<T>().expect("state type"));
    ledger(|l| l.comps.get_mut(&a).unwrap().obj = Some(o));
    r
}

// ------------------------------------------------------------------------------------------------ key value store
pub struct KeyValueStore<K, V> { m: RefCell<Vec<(K, Box<V>)>> }
impl<K: ScryptoSbor, V: 'static> KeyValueStore<K, V> {
    pub fn new() -> Self { KeyValueStore { m: RefCell::new(vec![]) } }
    pub fn new_with_registered_type() -> Self { Self::new() }
    fn pos(&self, k: &K) -> Option<usize> {
        let n = self.m.borrow().len();
        for i in 0..n {
            let p: *const K = &self.m.borrow()[i].0;
            // keys are never moved while they are compared
            if unsafe { &*p }.sbor_eq(k) { return Some(i); }
        }
        None
    }
    pub fn get(&self, k: &K) -> Option<KeyValueEntryRef<'_, V>> { self.pos(k).map(|i| { let p: *const V = &*self.m.borrow()[i].1; KeyValueEntryRef { p, _l: PhantomData } }) }
    pub fn get_mut(&mut self, k: &K) -> Option<KeyValueEntryRefMut<'_, V>> { self.pos(k).map(|i| { let p: *mut V = &mut *self.m.borrow_mut()[i].1; KeyValueEntryRefMut { p, _l: PhantomData } }) }
    pub fn insert(&self, k: K, v: V) { match self.pos(&k) { Some(i) => self.m.borrow_mut()[i].1 = Box::new(v), None => self.m.borrow_mut().push((k, Box::new(v))) } }
    pub fn remove(&self, k: &K) -> Option<V> { self.pos(k).map(|i| *self.m.borrow_mut().remove(i).1) }
    pub fn len_model(&self) -> usize { self.m.borrow().len() }
    pub fn keys_model(&self) -> Vec<K> { self.m.borrow().iter().map(|p| p.0.dup()).collect() }
}
impl<K: 'static, V: 'static> ScryptoSbor for KeyValueStore<K, V> { fn dup(&self) -> Self { panic!("key value stores cannot be copied") } fn sbor_eq(&self, _: &Self) -> bool { panic!("key value store comparison") } }
pub struct KeyValueEntryRef<'a, V> { p: *const V, _l: PhantomData<&'a ()> }
impl<'a, V> Deref for KeyValueEntryRef<'a, V> { type Target = V; fn deref(&self) -> &V { unsafe { &*self.p } } }
pub struct KeyValueEntryRefMut<'a, V> { p: *mut V, _l: PhantomData<&'a mut ()> }
impl<'a, V> Deref for KeyValueEntryRefMut<'a, V> { type Target = V; fn deref(&self) -> &V { unsafe { &*self.p } } }
impl<'a, V> DerefMut for KeyValueEntryRefMut<'a, V> { fn deref_mut(&mut self) -> &mut V { unsafe { &mut *self.p } } }
impl<'a, V: std::fmt::Display> std::fmt::Display for KeyValueEntryRef<'a, V> { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { (**self).fmt(f) } }

// ------------------------------------------------------------------------------------------------ resources
pub trait NfObj { fn as_any(&self) -> &dyn Any; fn set(&mut self, f: &str, v: Boxed); }
pub trait NonFungibleData: ScryptoSbor { fn set_field(&mut self, f: &str, v: Boxed); }
impl<T: NonFungibleData> NfObj for T { fn as_any(&self) -> &dyn Any { self } fn set(&mut self, f: &str, v: Boxed) { self.set_field(f, v) } }

fn res_rule(r: ResourceAddress, role: &str) -> AccessRule {
    ledger(|l| {
        let i = l.res.get(&r).unwrap_or_else(|| panic!("resource does not exist"));
        match i.roles.get(role) {
            Some(RoleVal::Rule(x)) => x.clone(),
            Some(RoleVal::Owner) => owner_rule(&i.owner),
            None => match role { "minter" | "burner" | "non_fungible_data_updater" => AccessRule::DenyAll, r if r.ends_with("_updater") => AccessRule::DenyAll, _ => AccessRule::AllowAll },
        }
    })
}
fn need(r: ResourceAddress, role: &str) { if !allowed(&res_rule(r, role)) { panic!("Unauthorized: {} of resource", role); } }
pub fn divisibility(r: ResourceAddress) -> u32 { ledger(|l| l.res.get(&r).map(|i| i.divisibility).unwrap_or(18)) }
pub fn is_fungible(r: ResourceAddress) -> bool { r.is_fungible() }
pub fn fit(r: ResourceAddress, a: Decimal, s: WithdrawStrategy) -> Decimal {
    match s { WithdrawStrategy::Exact => a, WithdrawStrategy::Rounded(m) => a.checked_round(divisibility(r) as i32, m).expect("rounding") }
}
fn check_amount(r: ResourceAddress, a: Decimal) {
    if a.is_negative() { panic!("InvalidAmount: negative"); }
    let d = divisibility(r);
    if d < 18 {
        let u = num_traits::pow(num_bigint::BigInt::from(10), (18 - d) as usize);
        let v = a.val();
        let rem = crate::term::sub(&v, &crate::term::scale(&crate::term::fdiv_c(&v, &u), &u));
        if !branch(crate::solver::eq0(&rem)) { panic!("InvalidAmount: divisibility"); }
    }
}
#[derive(Clone, Debug)]
pub enum Amt { F(Decimal), N(Vec<NonFungibleLocalId>) }
impl Amt {
    fn empty(r: ResourceAddress) -> Amt { if is_fungible(r) { Amt::F(Decimal::ZERO) } else { Amt::N(vec![]) } }
    fn amount(&self) -> Decimal { match self { Amt::F(d) => *d, Amt::N(v) => Decimal::from(v.len()) } }
    fn put(&mut self, o: Amt) { match (self, o) { (Amt::F(a), Amt::F(b)) => *a = *a + b, (Amt::N(a), Amt::N(b)) => a.extend(b), _ => panic!("resource kind") } }
    fn take(&mut self, r: ResourceAddress, a: Decimal) -> Amt {
        check_amount(r, a);
        match self {
            Amt::F(x) => { if a > *x { panic!("InsufficientBalance"); } *x = *x - a; Amt::F(a) }
            Amt::N(v) => {
                let n = (0..=v.len()).find(|n| a == Decimal::from(*n)).unwrap_or_else(|| panic!("InsufficientBalance"));
                Amt::N(v.drain(..n).collect())
            }
        }
    }
    fn take_ids(&mut self, ids: &[NonFungibleLocalId]) -> Amt {
        match self { Amt::N(v) => { for i in ids { let p = v.iter().position(|x| x == i).unwrap_or_else(|| panic!("MissingId")); v.remove(p); } Amt::N(ids.to_vec()) } _ => panic!("fungible") }
    }
    fn held(&self) -> Held { match self { Amt::F(d) => Held::Amt(*d), Amt::N(v) => Held::Ids(v.clone()) } }
    fn is_known_zero(&self) -> bool { match self { Amt::F(d) => d.is_const() && d.is_zero(), Amt::N(v) => v.is_empty() } }
}

macro_rules! container { ($name:ident) => {
    #[derive(Debug)]
    pub struct $name { res: ResourceAddress, amt: Rc<RefCell<Amt>>, live: Rc<Cell<bool>> }
    impl $name {
        fn mk(res: ResourceAddress, amt: Amt) -> Self { $name { res, amt: Rc::new(RefCell::new(amt)), live: Rc::new(Cell::new(true)) } }
        fn consume(self) -> Amt { self.live.set(false); self.amt.replace(Amt::N(vec![])) }
        pub fn resource_address(&self) -> ResourceAddress { self.res }
        pub fn resource_manager(&self) -> ResourceManager { ResourceManager(self.res) }
        pub fn amount(&self) -> Decimal { self.amt.borrow().amount() }
        pub fn is_empty(&self) -> bool { self.amount().is_zero() }
        pub fn new(res: ResourceAddress) -> Self { Self::mk(res, Amt::empty(res)) }
        pub fn create_proof_of_all(&self) -> Proof { Proof { res: self.res, amt: self.amt.borrow().clone(), cond: Form::True } }
        pub fn create_proof_of_amount<A: Into<Decimal>>(&self, a: A) -> Proof {
            let a = a.into();
            if a > self.amount() { panic!("InsufficientBalance"); }
            Proof { res: self.res, amt: match &*self.amt.borrow() { Amt::F(_) => Amt::F(a), x => x.clone() }, cond: Form::True }
        }
        pub fn authorize_with_amount<A: Into<Decimal>, F: FnOnce() -> O, O>(&self, a: A, f: F) -> O {
            let a = a.into();
            if a.is_negative() || a > self.amount() { panic!("InsufficientBalance: authority proof"); }
            with_proof(ProofEntry { res: self.res, amount: a, ids: vec![], cond: Form::True }, f)
        }
        pub fn authorize_with_all<F: FnOnce() -> O, O>(&self, f: F) -> O {
            let e = match &*self.amt.borrow() { Amt::F(d) => ProofEntry { res: self.res, amount: *d, ids: vec![], cond: Form::True }, Amt::N(v) => ProofEntry { res: self.res, amount: Decimal::from(v.len()), ids: v.clone(), cond: Form::True } };
            with_proof(e, f)
        }
        fn ids(&self) -> Vec<NonFungibleLocalId> { match &*self.amt.borrow() { Amt::N(v) => v.clone(), _ => vec![] } }
        pub fn model_amount(&self) -> Decimal { self.amt.borrow().amount() }
        pub fn model_set(&self, d: Decimal) { *self.amt.borrow_mut() = Amt::F(d) }
        pub fn held(&self) -> Held { self.amt.borrow().held() }
    }
    impl ScryptoSbor for $name { fn dup(&self) -> Self { panic!("resource containers cannot be copied") } fn sbor_eq(&self, _: &Self) -> bool { panic!("container comparison") } }
} }
container!(Bucket);
container!(FungibleBucket);
container!(NonFungibleBucket);
container!(Vault);
container!(FungibleVault);
container!(NonFungibleVault);

pub fn with_proof<O>(e: ProofEntry, f: impl FnOnce() -> O) -> O {
    ledger(|l| l.frames.last_mut().expect("frame").proofs.push(e));
    let r = f();
    ledger(|l| { l.frames.last_mut().expect("frame").proofs.pop(); });
    r
}
fn dropped(live: bool, amt: &Amt) {
    if live && !std::thread::panicking() {
        // a bucket that is dropped inside a transaction without being stored aborts the transaction (dangling bucket)
        let _ = amt;
        let _ = LEDGER.try_with(|l| if let Ok(mut l) = l.try_borrow_mut() { l.dangling = true; });
    }
}
macro_rules! bucket { ($name:ident) => {
    impl Drop for $name { fn drop(&mut self) { if Rc::strong_count(&self.live) == 1 { dropped(self.live.get(), &self.amt.borrow()) } } }
    impl $name {
        pub fn put<B: Into<Bucket>>(&mut self, o: B) { let o: Bucket = o.into(); if o.res != self.res { panic!("resource mismatch"); } self.amt.borrow_mut().put(o.consume()); }
        pub fn take<A: Into<Decimal>>(&self, a: A) -> $name { let a = a.into(); $name::mk(self.res, self.amt.borrow_mut().take(self.res, a)) }
        pub fn take_advanced<A: Into<Decimal>>(&self, a: A, s: WithdrawStrategy) -> $name { let a = fit(self.res, a.into(), s); $name::mk(self.res, self.amt.borrow_mut().take(self.res, a)) }
        pub fn take_all(&self) -> $name { let e = Amt::empty(self.res); $name::mk(self.res, self.amt.replace(e)) }
        pub fn burn(self) { need(self.res, "burner"); let r = self.res; let a = self.consume(); let n = a.amount(); ledger(|l| { let i = l.res.get_mut(&r).unwrap(); i.supply = i.supply - n; i.burned = i.burned + n; if let Amt::N(v) = &a { i.nfs.retain(|x| !v.contains(&x.0)); } }); }
        pub fn non_fungible_local_ids(&self) -> HashSet<NonFungibleLocalId> { self.ids().into_iter().collect() }
        pub fn contains_non_fungible(&self, id: &NonFungibleLocalId) -> bool { self.ids().contains(id) }
        pub fn drop_empty(self) { if !self.is_empty() { panic!("DropNonEmptyBucket"); } self.live.set(false); }
        pub fn model_take(self) -> Held { let a = self.consume(); a.held() }
        pub fn model(res: ResourceAddress, d: Decimal) -> Self { Self::mk(res, Amt::F(d)) }
        pub fn model_nf(res: ResourceAddress, ids: Vec<NonFungibleLocalId>) -> Self { Self::mk(res, Amt::N(ids)) }
    }
} }
bucket!(Bucket);
bucket!(FungibleBucket);
bucket!(NonFungibleBucket);
impl Bucket {
    pub fn as_fungible(&self) -> FungibleBucket { if !is_fungible(self.res) { panic!("not fungible"); } FungibleBucket { res: self.res, amt: self.amt.clone(), live: self.live.clone() } }
    pub fn as_non_fungible(&self) -> NonFungibleBucket { if is_fungible(self.res) { panic!("not non-fungible"); } NonFungibleBucket { res: self.res, amt: self.amt.clone(), live: self.live.clone() } }
}
impl From<FungibleBucket> for Bucket { fn from(b: FungibleBucket) -> Bucket { let r = b.res; Bucket::mk(r, b.consume()) } }
impl From<NonFungibleBucket> for Bucket { fn from(b: NonFungibleBucket) -> Bucket { let r = b.res; Bucket::mk(r, b.consume()) } }
impl NonFungibleBucket {
    pub fn non_fungible_local_id(&self) -> NonFungibleLocalId { match &*self.amt.borrow() { Amt::N(v) if v.len() == 1 => v[0].clone(), _ => panic!("Expecting singleton NFT bucket") } }
    pub fn non_fungible<T: NonFungibleData>(&self) -> NonFungible<T> { NonFungible::from(NonFungibleGlobalId::new(self.res, self.non_fungible_local_id())) }
}
macro_rules! vault { ($name:ident, $b:ident) => {
    impl $name {
        pub fn with_bucket<B: Into<Bucket>>(b: B) -> $name { let b: Bucket = b.into(); let mut v = $name::new(b.res); v.put(b); v }
        pub fn put<B: Into<Bucket>>(&mut self, o: B) { let o: Bucket = o.into(); if o.res != self.res { panic!("resource mismatch"); } need(self.res, "depositor"); self.amt.borrow_mut().put(o.consume()); }
        pub fn take<A: Into<Decimal>>(&mut self, a: A) -> $b { let a = a.into(); need(self.res, "withdrawer"); $b::mk(self.res, self.amt.borrow_mut().take(self.res, a)) }
        pub fn take_advanced<A: Into<Decimal>>(&mut self, a: A, s: WithdrawStrategy) -> $b { let a = fit(self.res, a.into(), s); need(self.res, "withdrawer"); $b::mk(self.res, self.amt.borrow_mut().take(self.res, a)) }
        pub fn take_all(&mut self) -> $b { need(self.res, "withdrawer"); let e = Amt::empty(self.res); $b::mk(self.res, self.amt.replace(e)) }
        pub fn burn<A: Into<Decimal>>(&mut self, a: A) { let b = self.take(a); b.burn() }
        pub fn lock_fee<A: Into<Decimal>>(&mut self, a: A) { let a = a.into(); if self.res != XRD { panic!("only XRD pays fees"); } let _ = self.amt.borrow_mut().take(self.res, a); ledger(|l| l.fees_locked = l.fees_locked + a); }
        pub fn non_fungible_local_ids(&self, limit: u32) -> HashSet<NonFungibleLocalId> { self.ids().into_iter().take(limit as usize).collect() }
        pub fn contains_non_fungible(&self, id: NonFungibleLocalId) -> bool { self.ids().contains(&id) }
        pub fn lock_contingent_fee<A: Into<Decimal>>(&mut self, a: A) { self.lock_fee(a) }
    }
} }
vault!(Vault, Bucket);
vault!(FungibleVault, FungibleBucket);
vault!(NonFungibleVault, NonFungibleBucket);
impl Vault {
    pub fn take_non_fungible(&mut self, id: &NonFungibleLocalId) -> Bucket { need(self.res, "withdrawer"); Bucket::mk(self.res, self.amt.borrow_mut().take_ids(&[id.clone()])) }
    pub fn as_fungible(&self) -> FungibleVault { if !is_fungible(self.res) { panic!("not fungible"); } FungibleVault { res: self.res, amt: self.amt.clone(), live: self.live.clone() } }
    pub fn as_non_fungible(&self) -> NonFungibleVault { if is_fungible(self.res) { panic!("not non-fungible"); } NonFungibleVault { res: self.res, amt: self.amt.clone(), live: self.live.clone() } }
}
impl NonFungibleVault {
    pub fn take_non_fungible(&mut self, id: &NonFungibleLocalId) -> NonFungibleBucket { need(self.res, "withdrawer"); NonFungibleBucket::mk(self.res, self.amt.borrow_mut().take_ids(&[id.clone()])) }
}

// ------------------------------------------------------------------------------------------------ proofs
#[derive(Clone, Debug)]
pub struct Proof { pub res: ResourceAddress, pub amt: Amt, pub cond: Form }
pub struct CheckedProof(Proof);
pub struct CheckedNonFungibleProof(Proof);
pub struct CheckedFungibleProof(Proof);
pub type NonFungibleProof = Proof;
pub type FungibleProof = Proof;
impl ScryptoSbor for Proof { fn dup(&self) -> Self { self.clone() } fn sbor_eq(&self, _: &Self) -> bool { panic!("proof comparison") } }
impl Proof {
    pub fn of_nf(res: ResourceAddress, ids: Vec<NonFungibleLocalId>) -> Proof { Proof { res, amt: Amt::N(ids), cond: Form::True } }
    pub fn of_amount(res: ResourceAddress, d: Decimal) -> Proof { Proof { res, amt: Amt::F(d), cond: Form::True } }
    pub fn check(self, r: ResourceAddress) -> CheckedProof { if self.res != r { panic!("invalid proof resource"); } CheckedProof(self) }
    pub fn check_with_message(self, r: ResourceAddress, m: impl std::fmt::Display) -> CheckedProof { if self.res != r { panic!("{}", m); } CheckedProof(self) }
    pub fn skip_checking(self) -> CheckedProof { CheckedProof(self) }
    pub fn resource_address(&self) -> ResourceAddress { self.res }
    pub fn amount(&self) -> Decimal { self.amt.amount() }
    pub fn drop(self) {}
}
fn entry(p: &Proof) -> ProofEntry { ProofEntry { res: p.res, amount: p.amount(), ids: match &p.amt { Amt::N(v) => v.clone(), _ => vec![] }, cond: p.cond.clone() } }
macro_rules! checked { ($name:ident) => { impl $name {
    pub fn resource_address(&self) -> ResourceAddress { self.0.res }
    pub fn resource_manager(&self) -> ResourceManager { ResourceManager(self.0.res) }
    pub fn amount(&self) -> Decimal { self.0.amount() }
    pub fn authorize<F: FnOnce() -> O, O>(&self, f: F) -> O { with_proof(entry(&self.0), f) }
    pub fn drop(self) {}
} impl Clone for $name { fn clone(&self) -> Self { $name(self.0.clone()) } } } }
checked!(CheckedProof);
checked!(CheckedFungibleProof);
checked!(CheckedNonFungibleProof);
impl From<CheckedProof> for Proof { fn from(p: CheckedProof) -> Proof { p.0 } }
impl From<CheckedFungibleProof> for Proof { fn from(p: CheckedFungibleProof) -> Proof { p.0 } }
impl From<CheckedNonFungibleProof> for Proof { fn from(p: CheckedNonFungibleProof) -> Proof { p.0 } }
/// the caller's own authorization zone (the proofs of the running frame)
pub struct LocalAuthZone;
impl LocalAuthZone {
    pub fn push<P: Into<Proof>>(p: P) { let e = entry(&p.into()); ledger(|l| l.frames.last_mut().expect("frame").proofs.push(e)) }
    pub fn pop() -> Option<Proof> { ledger(|l| l.frames.last_mut().expect("frame").proofs.pop()).map(|e| Proof { res: e.res, amt: if e.ids.is_empty() { Amt::F(e.amount) } else { Amt::N(e.ids) }, cond: e.cond }) }
    pub fn drop_proofs() { ledger(|l| l.frames.last_mut().expect("frame").proofs.clear()) }
    pub fn drop_regular_proofs() { Self::drop_proofs() }
}
pub struct Logger;
impl Logger { pub fn info(_: String) {} pub fn debug(_: String) {} pub fn warn(_: String) {} pub fn error(_: String) {} pub fn trace(_: String) {} }
impl CheckedProof {
    pub fn as_non_fungible(&self) -> CheckedNonFungibleProof { CheckedNonFungibleProof(self.0.clone()) }
    pub fn as_fungible(&self) -> CheckedFungibleProof { CheckedFungibleProof(self.0.clone()) }
}
impl CheckedNonFungibleProof {
    pub fn contains_non_fungible(&self, id: &NonFungibleLocalId) -> bool { self.non_fungible_local_ids().contains(id) }
    pub fn non_fungible_local_id(&self) -> NonFungibleLocalId { match &self.0.amt { Amt::N(v) if v.len() == 1 => v[0].clone(), _ => panic!("Expecting singleton NFT proof") } }
    pub fn non_fungible_local_ids(&self) -> HashSet<NonFungibleLocalId> { match &self.0.amt { Amt::N(v) => v.iter().cloned().collect(), _ => HashSet::new() } }
    pub fn non_fungible<T: NonFungibleData>(&self) -> NonFungible<T> { NonFungible::from(NonFungibleGlobalId::new(self.0.res, self.non_fungible_local_id())) }
}
#[derive(Clone, Debug)]
pub struct NonFungible<T> { id: NonFungibleGlobalId, _p: PhantomData<T> }
impl<T: NonFungibleData> NonFungible<T> {
    pub fn from(id: NonFungibleGlobalId) -> Self { NonFungible { id, _p: PhantomData } }
    pub fn data(&self) -> T { ResourceManager(self.id.resource_address()).get_non_fungible_data(self.id.local_id()) }
    pub fn local_id(&self) -> &NonFungibleLocalId { self.id.local_id() }
    pub fn global_id(&self) -> &NonFungibleGlobalId { &self.id }
    pub fn resource_address(&self) -> ResourceAddress { self.id.resource_address() }
    pub fn update_data<V: 'static>(&mut self, f: &str, v: V) { ResourceManager(self.id.resource_address()).update_non_fungible_data(self.id.local_id(), f, v) }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct ResourceManager(pub ResourceAddress);
pub type FungibleResourceManager = ResourceManager;
pub type NonFungibleResourceManager = ResourceManager;
crate::sbor_eq_clone!(ResourceManager);
impl From<ResourceAddress> for ResourceManager { fn from(r: ResourceAddress) -> Self { ResourceManager(r) } }
impl ResourceManager {
    pub fn from_address(r: ResourceAddress) -> Self { ResourceManager(r) }
    pub fn address(&self) -> ResourceAddress { self.0 }
    pub fn resource_address(&self) -> ResourceAddress { self.0 }
    pub fn resource_type(&self) -> ResourceType { ledger(|l| match l.res.get(&self.0) { Some(i) if !i.fungible => ResourceType::NonFungible { id_type: NonFungibleIdType::RUID }, i => ResourceType::Fungible { divisibility: i.map_or(18, |i| i.divisibility) as u8 } }) }
    pub fn total_supply(&self) -> Option<Decimal> { ledger(|l| l.res.get(&self.0).map(|i| i.supply)) }
    pub fn amount_for_withdrawal<A: Into<Decimal>>(&self, a: A, s: WithdrawStrategy) -> Decimal { fit(self.0, a.into(), s) }
    pub fn mint<A: Into<Decimal>>(&self, a: A) -> Bucket {
        let a = a.into();
        need(self.0, "minter");
        check_amount(self.0, a);
        ledger(|l| { let i = l.res.get_mut(&self.0).unwrap(); i.supply = i.supply + a; i.minted = i.minted + a; });
        Bucket::mk(self.0, Amt::F(a))
    }
    pub fn burn<B: Into<Bucket>>(&self, b: B) { let b: Bucket = b.into(); b.burn() }
    pub fn mint_ruid_non_fungible<T: NonFungibleData>(&self, d: T) -> Bucket {
        need(self.0, "minter");
        let id = ledger(|l| {
            let i = l.res.get_mut(&self.0).unwrap();
            i.next_id += 1;
            let mut b = [0u8; 32];
            b[24..].copy_from_slice(&i.next_id.to_be_bytes());
            b[0] = 0x77;
            let id = NonFungibleLocalId::ruid(b);
            i.nfs.push((id.clone(), Box::new(d)));
            i.supply = i.supply + Decimal::ONE;
            i.minted = i.minted + Decimal::ONE;
            id
        });
        Bucket::mk(self.0, Amt::N(vec![id]))
    }
    pub fn mint_non_fungible<T: NonFungibleData>(&self, id: &NonFungibleLocalId, d: T) -> Bucket {
        need(self.0, "minter");
        ledger(|l| { let i = l.res.get_mut(&self.0).unwrap(); if i.nfs.iter().any(|x| &x.0 == id) { panic!("NonFungibleAlreadyExists"); } i.nfs.push((id.clone(), Box::new(d))); i.supply = i.supply + Decimal::ONE; });
        Bucket::mk(self.0, Amt::N(vec![id.clone()]))
    }
    pub fn get_non_fungible_data<T: NonFungibleData>(&self, id: &NonFungibleLocalId) -> T {
        ledger(|l| l.res.get(&self.0).and_then(|i| i.nfs.iter().find(|x| &x.0 == id)).map(|x| x.1.as_any().downcast_ref::<T>().expect("non-fungible data type").dup())).unwrap_or_else(|| panic!("NonFungibleNotFound"))
    }
    pub fn non_fungible_exists(&self, id: &NonFungibleLocalId) -> bool { ledger(|l| l.res.get(&self.0).map_or(false, |i| i.nfs.iter().any(|x| &x.0 == id))) }
    pub fn update_non_fungible_data<V: 'static>(&self, id: &NonFungibleLocalId, f: &str, v: V) {
        need(self.0, "non_fungible_data_updater");
        record_fn(&format!("update_non_fungible_data({})", f));
        ledger(|l| { let i = l.res.get_mut(&self.0).expect("resource"); let x = i.nfs.iter_mut().find(|x| &x.0 == id).unwrap_or_else(|| panic!("NonFungibleNotFound")); x.1.set(f, Box::new(v)); })
    }
    pub fn set_metadata<K, V>(&self, _k: K, _v: V) {}
    /// replaces the rule of a resource role, which needs the role's updater
    fn set_rule(&self, role: &str, rule: AccessRule) {
        let up = format!("{}_updater", role);
        if !ledger(|l| l.res.get(&self.0).map_or(false, |i| i.roles.contains_key(role))) { panic!("Unauthorized: {} of resource is fixed", role); }
        need(self.0, &up);
        ledger(|l| { l.res.get_mut(&self.0).unwrap().roles.insert(role.to_string(), RoleVal::Rule(rule)); });
    }
    pub fn set_mintable(&self, rule: AccessRule) { self.set_rule("minter", rule) }
    pub fn set_burnable(&self, rule: AccessRule) { self.set_rule("burner", rule) }
    pub fn set_depositable(&self, rule: AccessRule) { self.set_rule("depositor", rule) }
    pub fn set_withdrawable(&self, rule: AccessRule) { self.set_rule("withdrawer", rule) }
}

// ------------------------------------------------------------------------------------------------ resource builder
pub struct ResBuilder { fungible: bool, div: u32, owner: OwnerRole, roles: BTreeMap<String, RoleVal>, addr: Option<ResourceAddress> }
pub struct ResourceBuilder;
impl ResourceBuilder {
    pub fn new_fungible(owner: OwnerRole) -> ResBuilder { ResBuilder { fungible: true, div: 18, owner, roles: Default::default(), addr: None } }
    pub fn new_ruid_non_fungible<T>(owner: OwnerRole) -> ResBuilder { ResBuilder { fungible: false, div: 0, owner, roles: Default::default(), addr: None } }
    pub fn new_integer_non_fungible<T>(owner: OwnerRole) -> ResBuilder { Self::new_ruid_non_fungible::<T>(owner) }
    pub fn new_string_non_fungible<T>(owner: OwnerRole) -> ResBuilder { Self::new_ruid_non_fungible::<T>(owner) }
}
impl ResBuilder {
    pub fn divisibility(mut self, d: u8) -> Self { self.div = d as u32; self }
    pub fn metadata<M>(self, _m: M) -> Self { self }
    fn with(mut self, r: Vec<(&'static str, RoleVal)>) -> Self { for (k, v) in r { self.roles.insert(k.to_string(), v); } self }
    pub fn mint_roles(self, r: Vec<(&'static str, RoleVal)>) -> Self { self.with(r) }
    pub fn burn_roles(self, r: Vec<(&'static str, RoleVal)>) -> Self { self.with(r) }
    pub fn deposit_roles(self, r: Vec<(&'static str, RoleVal)>) -> Self { self.with(r) }
    pub fn withdraw_roles(self, r: Vec<(&'static str, RoleVal)>) -> Self { self.with(r) }
    pub fn recall_roles(self, r: Vec<(&'static str, RoleVal)>) -> Self { self.with(r) }
    pub fn freeze_roles(self, r: Vec<(&'static str, RoleVal)>) -> Self { self.with(r) }
    pub fn non_fungible_data_update_roles(self, r: Vec<(&'static str, RoleVal)>) -> Self { self.with(r) }
    pub fn at(mut self, a: ResourceAddress) -> Self { self.addr = Some(a); self }
    pub fn create_with_no_initial_supply(self) -> ResourceManager {
        ledger(|l| {
            let a = self.addr.or(l.next_resource.take()).unwrap_or_else(|| { l.counter += 1; let mut b = [0u8; 30]; b[0] = if self.fungible { 0x5d } else { 0x9a }; b[1] = 0xdd; b[22..].copy_from_slice(&l.counter.to_be_bytes()); ResourceAddress::new_or_panic(b) });
            l.res.insert(a, ResInfo { fungible: self.fungible, divisibility: self.div, supply: Decimal::ZERO, owner: self.owner, roles: self.roles, nfs: vec![], next_id: 0, minted: Decimal::ZERO, burned: Decimal::ZERO });
            ResourceManager(a)
        })
    }
    pub fn mint_initial_supply<A: Into<Decimal>>(self, a: A) -> FungibleBucket {
        let a = a.into();
        let m = self.create_with_no_initial_supply();
        ledger(|l| { let i = l.res.get_mut(&m.0).unwrap(); i.supply = a; });
        FungibleBucket::mk(m.0, Amt::F(a))
    }
}

// ------------------------------------------------------------------------------------------------ runtime
pub trait ScryptoEvent: 'static {}
pub struct Runtime;
pub trait Bech { fn bech(&self) -> String; }
impl Bech for ResourceAddress { fn bech(&self) -> String { hex(&self.to_vec()) } }
impl Bech for ComponentAddress { fn bech(&self) -> String { hex(&self.to_vec()) } }
impl Bech for PackageAddress { fn bech(&self) -> String { hex(&self.to_vec()) } }
impl Bech for GlobalAddress { fn bech(&self) -> String { hex(&self.to_vec()) } }
pub fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }
pub struct AnyComponent;
#[derive(Clone, Copy)]
pub struct AnyStub(ComponentAddress);
impl Stub for AnyStub { fn at(a: ComponentAddress) -> Self { AnyStub(a) } fn addr(&self) -> ComponentAddress { self.0 } }
impl HasStub for AnyComponent { type Stub = AnyStub; const NAME: &'static str = "AnyComponent"; }
impl Runtime {
    pub fn allocate_component_address(_b: BlueprintId) -> (GlobalAddressReservation, ComponentAddress) { let a = alloc_address(); (GlobalAddressReservation(a), a) }
    pub fn assert_access_rule(r: AccessRule) { record_fn("Runtime::assert_access_rule"); if !ledger(|l| l.no_auth) && !allowed_inside(&r) { panic!("AssertAccessRuleFailed"); } }
    pub fn bech32_encode_address<A: Bech>(a: A) -> String { a.bech() }
    pub fn emit_event<E: ScryptoEvent>(e: E) { ledger(|l| { let emitter = l.frames.last().and_then(|f| f.comp); l.events.push(Event { emitter, name: std::any::type_name::<E>().rsplit("::").next().unwrap_or(""), data: Box::new(e) }) }) }
    pub fn blueprint_name() -> String { ledger(|l| l.frames.last().map_or(String::new(), |f| f.blueprint.to_string())) }
    /// the contracts do not use the epoch; a fixed one
    pub fn current_epoch() -> Epoch { Epoch::of(100_000) }
    pub fn package_address() -> PackageAddress { let mut b = [0u8; 30]; b[0] = 0x0d; b[1] = 0x77; PackageAddress::new_or_panic(b) }
    pub fn global_address() -> ComponentAddress { ledger(|l| l.frames.iter().rev().find_map(|f| f.comp).expect("global component")) }
    pub fn global_component() -> Global<AnyComponent> { Global::at(Self::global_address()) }
    pub fn get_usd_price() -> Decimal { ledger(|l| l.usd_price.unwrap_or(Decimal::from(16) + Decimal::from(2) / Decimal::from(3))) }
    pub fn panic(m: String) -> ! { panic!("{}", m) }
    pub fn generate_ruid() -> [u8; 32] { ledger(|l| { l.counter += 1; let mut b = [9u8; 32]; b[..8].copy_from_slice(&l.counter.to_le_bytes()); b }) }
    pub fn transaction_hash() -> Hash { Hash([7; 32]) }
}
pub struct Clock;
impl Clock {
    pub fn current_time_rounded_to_seconds() -> Instant { Instant { seconds_since_unix_epoch: ledger(|l| l.now.unwrap_or(i64k::c(1_700_000_000))) } }
    pub fn current_time(p: TimePrecision) -> Instant { match p { TimePrecision::Second => Self::current_time_rounded_to_seconds(), TimePrecision::Minute => Self::current_time_rounded_to_minutes() } }
    /// both sides are rounded down to the precision
    pub fn current_time_comparison(i: Instant, p: TimePrecision, o: TimeComparisonOperator) -> bool {
        let i = match p { TimePrecision::Second => i, TimePrecision::Minute => Instant { seconds_since_unix_epoch: i.seconds_since_unix_epoch / 60 * 60 } };
        Self::current_time(p).compare(i, o)
    }
    pub fn current_time_is_strictly_before(i: Instant, p: TimePrecision) -> bool { Self::current_time_comparison(i, p, TimeComparisonOperator::Lt) }
    pub fn current_time_is_at_or_before(i: Instant, p: TimePrecision) -> bool { Self::current_time_comparison(i, p, TimeComparisonOperator::Lte) }
    pub fn current_time_is_strictly_after(i: Instant, p: TimePrecision) -> bool { Self::current_time_comparison(i, p, TimeComparisonOperator::Gt) }
    pub fn current_time_is_at_or_after(i: Instant, p: TimePrecision) -> bool { Self::current_time_comparison(i, p, TimeComparisonOperator::Gte) }
    pub fn current_time_rounded_to_minutes() -> Instant { let s = Self::current_time_rounded_to_seconds().seconds_since_unix_epoch; Instant { seconds_since_unix_epoch: s / 60 * 60 } }
}
pub struct CryptoUtils;
impl CryptoUtils {
    pub fn keccak256_hash(d: impl AsRef<[u8]>) -> Hash { radix_common::crypto::keccak256_hash(d) }
    pub fn bls12381_v1_verify(m: impl AsRef<[u8]>, k: radix_common::prelude::Bls12381G1PublicKey, s: radix_common::prelude::Bls12381G2Signature) -> bool {
        ledger(|l| l.valid_sigs.iter().any(|(a, b, c)| a.as_slice() == m.as_ref() && b.as_slice() == &k.0[..] && c.as_slice() == &s.0[..]))
    }
}

// ------------------------------------------------------------------------------------------------ accounts
pub struct Account;
#[derive(Clone, Copy, Debug)]
pub struct AccountStub(ComponentAddress);
impl Stub for AccountStub { fn at(a: ComponentAddress) -> Self { AccountStub(a) } fn addr(&self) -> ComponentAddress { self.0 } }
impl HasStub for Account { type Stub = AccountStub; const NAME: &'static str = "Account"; }
impl AccountStub {
    fn rec(&self, b: Bucket) { need(b.res, "depositor"); let r = b.res; let h = b.consume(); ledger(|l| l.deposits.push((self.0, r, h.held()))) }
    pub fn try_deposit_or_abort(&self, b: Bucket, _badge: Option<ResourceOrNonFungible>) { self.rec(b) }
    pub fn try_deposit_batch_or_abort(&self, b: Vec<Bucket>, _badge: Option<ResourceOrNonFungible>) { for x in b { self.rec(x) } }
    pub fn try_deposit_or_refund(&self, b: Bucket, _badge: Option<ResourceOrNonFungible>) -> Option<Bucket> { self.rec(b); None }
    pub fn try_deposit_batch_or_refund(&self, b: Vec<Bucket>, _badge: Option<ResourceOrNonFungible>) -> Option<Vec<Bucket>> { for x in b { self.rec(x) } None }
}

/// Runs one transaction with the given user proofs; Err = aborted.
pub fn transaction<R>(proofs: Vec<ProofEntry>, f: impl FnOnce() -> R) -> Result<R, String> {
    ledger(|l| { l.frames.clear(); l.frames.push(Frame { comp: None, blueprint: "user", proofs }); l.dangling = false; l.events.clear(); l.deposits.clear(); l.calls.clear(); });
    let r = crate::explore::catch(|| {
        let r = f();
        if ledger(|l| l.dangling) { panic!("DanglingBucket"); }
        r
    });
    ledger(|l| { l.frames.clear(); });
    r
}
impl Amt { pub fn known_zero(&self) -> bool { self.is_known_zero() } }
