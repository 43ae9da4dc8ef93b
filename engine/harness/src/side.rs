//! The environment registry and the test-token faucet.
use crate::auth::bit;
use crate::ops::base;
use crate::order::taken;
use crate::world::*;
pub use ::env_registry::env_registry_mod::EnvRegistry;
pub use ::faucet::faucet_mod::Faucet;
use std::sync::atomic::Ordering;

fn steps() -> usize { if THOROUGH.load(Ordering::Relaxed) { 3 } else { 2 } }
/// keys and values that differ only in case or surrounding blanks, and empty ones
const KEYS: [&str; 3] = ["Ab", " ab ", ""];
fn some_keys(n: &str) -> Vec<usize> { let k = pick(3, n); (0..k).map(|j| pick(KEYS.len(), ["first key", "second key"][j])).collect() }
fn texts(v: &[usize]) -> Vec<String> { v.iter().map(|k| KEYS[*k].to_string()).collect() }
/// what the registry reports is what its owner last stored
pub fn env() {
    deploy();
    let r = setup(|| EnvRegistry::new(owner_role()));
    let other = setup(|| EnvRegistry::new(owner_role()));
    setup(|| other.set_variables(vec![(KEYS[0].into(), "kept".into())]));
    any_order();
    let owner = bit("has_owner_badge");
    let proofs = || vec![pe_if(owner_badge(), owner.clone()), pe(_AUTHORITY_RESOURCE), pe(_BASE_AUTHORITY_RESOURCE), pe(badge(1))];
    let mut model: [Option<String>; 3] = [None, None, None];
    for s in 0..steps() {
        let set = yes("set");
        let keys = some_keys("number of keys");
        let vals: Vec<String> = (0..keys.len()).map(|j| if set && j == 0 && yes("empty value") { String::new() } else { format!(" V{}{} ", s, j) }).collect();
        let l: Vec<(String, String)> = texts(&keys).into_iter().zip(vals.clone()).collect();
        let q = transaction(proofs(), || if set { r.set_variables(l.clone()) } else { r.remove_variables(texts(&keys)) });
        if q.is_err() { ck("C29", "the owner can change variables", owner.clone().not()); return; }
        ck("C29", "only the owner changes variables", owner.clone());
        cover(if set { "variables set" } else { "variables removed" });
        for (k, v) in keys.iter().zip(vals) { model[*k] = if set { Some(v) } else { None }; }
    }
    let asked = some_keys("asked keys");
    let m = match transaction(vec![], || r.get_variables(texts(&asked))) { Ok(m) => m, Err(_) => { ck("C29", "everyone can read variables", Form::False); return; } };
    if !asked.is_empty() { cover("variables read"); }
    ck("C29", "exactly the asked variables are reported", fof(m.len() == (0..3).filter(|k| asked.contains(k)).count() && asked.iter().all(|k| m.contains_key(&KEYS[*k].to_string()))));
    for k in &asked { ck("C29", "a variable has the value last stored, or none", fof(m.get(&KEYS[*k].to_string()).map(|s| s.as_str()) == Some(model[*k].as_deref().unwrap_or("")))); }
    let o = ask(|| other.get_variables(texts(&[0, 1])));
    ck("C29", "another registry is untouched", fof(o.get(&KEYS[0].to_string()).map(|s| s.as_str()) == Some("kept") && o.get(&KEYS[1].to_string()).map(|s| s.as_str()) == Some("")));
}

/// the tokens a new faucet brings along, and its owner token
fn new_faucet() -> (Global<Faucet>, ResourceAddress, Vec<ResourceAddress>) {
    let before: Vec<ResourceAddress> = ledger(|l| l.res.keys().cloned().collect());
    let (f, o) = setup(|| { let (f, b) = Faucet::new(); let o = b.resource_address(); taken(b); (f, o) });
    let toks = ledger(|l| l.res.keys().filter(|r| !before.contains(r) && **r != o).cloned().collect());
    (f, o, toks)
}
fn handed(f: Global<Faucet>, proofs: Vec<ProofEntry>) -> Result<Vec<(ResourceAddress, Decimal)>, String> {
    transaction(proofs, || { let mut f = f; f.free_tokens().into_iter().map(|b| { let r = b.resource_address(); (r, taken(b)) }).collect() })
}
fn amount(v: &[(ResourceAddress, Decimal)], r: ResourceAddress) -> Decimal { v.iter().filter(|x| x.0 == r).fold(zero(), |t, x| t + x.1) }
fn all_res() -> Vec<ResourceAddress> { ledger(|l| l.res.keys().cloned().collect()) }
/// tokens are handed out as configured, and only the owner configures and mints
pub fn faucet() {
    deploy();
    let (f, owner_token, toks) = new_faucet();
    any_order();
    let n = toks.len();
    if n < 2 { ck("C30", "a faucet has tokens", Form::False); return; }
    let (owner, user) = (bit("has_faucet_owner_token"), bit("has_user_badge"));
    let proofs = || vec![pe_if(owner_token, owner.clone()), pe_if(badge(3), user.clone()), pe(owner_badge()), pe(_AUTHORITY_RESOURCE), pe(_BASE_AUTHORITY_RESOURCE)];
    let initial = match handed(f, vec![]) { Ok(v) => v, Err(_) => { ck("C30", "a new faucet hands out tokens", Form::False); return; } };
    let restricted = yes("limited to users");
    if restricted { setup(|| f.set_role("user", rule!(require(badge(3))))); }
    let list = || { let mut v = all_res(); v.retain(|r| r.is_fungible()); v };
    let (s0, rs) = (list().into_iter().map(supply).collect::<Vec<_>>(), list());
    let only = |but: &[ResourceAddress]| all(rs.iter().zip(&s0).filter(|(r, _)| !but.contains(r)).map(|(r, a)| supply(*r).f_eq(*a)).collect());
    match pick(7, "operation") {
        0 => {
            // a configuration of some tokens, then the tokens are drawn twice
            let mut want: Vec<Decimal> = toks.iter().map(|t| amount(&initial, *t)).collect();
            for j in 0..1 + pick(2, "changes") {
                let (k, x) = (pick(n, "token"), dv(&format!("mint_amount{}", j), "-1000000000", "1000000000", &["5", "0", "-1", "0.00000001"]));
                let t = toks[k];
                if transaction(proofs(), || { let mut f = f; f.update_mint_amount(t, x) }).is_err() { ck("C30", "the owner sets the amounts", owner.clone().not()); return; }
                ck("C30", "only the owner sets the amounts", owner.clone());
                cover("amount configured");
                want[k] = x;
            }
            for round in 0..2 {
                let before: Vec<Decimal> = toks.iter().map(|t| supply(*t)).collect();
                let v = match handed(f, proofs()) { Ok(v) => v, Err(_) => return };
                cover(["drawn", "drawn again"][round]);
                ck("C30", "tokens are limited to the faucet's users", if restricted { user.clone() } else { Form::True });
                for (k, t) in toks.iter().enumerate() { ck("C30", "exactly the configured amount is handed out", amount(&v, *t).f_eq(want[k].max(Decimal::ZERO)).and((supply(*t) - before[k]).f_eq(want[k].max(Decimal::ZERO)))); }
                ck("C30", "nothing else is handed out", fof(v.iter().all(|x| toks.contains(&x.0))).and(only(&toks)));
            }
        }
        1 => {
            let (k, x) = (pick(n + 1, "token"), dv("minted", "-1000", "1000000000", &["5", "0", "0.00000001"]));
            let t = if k < n { toks[k] } else { _BASE_RESOURCE };
            let r = transaction(proofs(), || { let mut f = f; let b = f.admin_mint_token(t, x); (b.resource_address(), taken(b)) });
            let (r, a) = match r { Ok(x) => x, Err(_) => return };
            cover("minted by the owner");
            ck("C30", "only the owner mints", owner.clone());
            ck("C30", "only the faucet's own tokens can be minted", fof(k < n));
            ck("C30", "exactly the asked amount is minted", fof(r == t).and(a.f_eq(x)).and((supply(t) - s0[rs.iter().position(|q| *q == t).unwrap()]).f_eq(x)).and(only(&[t])));
        }
        2 => { let t = toks[pick(n, "token")]; let r = transaction(proofs(), || taken(ResourceManager(t).mint(de("1")))); ck("C30", "nobody mints past the faucet", fof(r.is_err())); }
        3 => { if transaction(proofs(), || f.set_role("user", AccessRule::AllowAll)).is_ok() { cover("users changed"); ck("C30", "only the owner decides who uses the faucet", owner.clone()); } }
        4 => { let t = toks[pick(n, "token")]; let r = transaction(proofs(), || ResourceManager(t).set_mintable(AccessRule::AllowAll)); if r.is_ok() { cover("minter changed"); ck("C30", "only the owner decides who mints", owner.clone()); } }
        5 => { if transaction(proofs(), || f.set_owner_role(AccessRule::AllowAll)).is_ok() { ck("C30", "only the owner hands over the faucet", owner.clone()); } }
        _ => { let r = transaction(proofs(), || taken(ResourceManager(owner_token).mint(de("1")))); ck("C30", "there is one owner token", fof(r.is_err()).and(supply(owner_token).f_eq(Decimal::ONE))); let _ = base; }
    }
}
