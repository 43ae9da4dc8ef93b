//! Wrapped base tokens, flash loans and delegated network fees.
use crate::auth::{account_op, drop_all, wrapper, ACCOUNT_OPS, TokenWrapper};
use crate::ops::*;
use crate::order::*;
use crate::world::*;

fn flash() -> ResourceAddress { res(0x71) }
fn junk() -> ResourceAddress { res(0x72) }
fn unit(d: usize) -> Decimal { de(match d { 18 => "0.000000000000000001", 6 => "0.000001", 2 => "0.01", _ => "1" }) }
pub fn floor(a: Decimal, d: usize) -> Decimal { if d == 18 { a } else { (a / unit(d)).checked_floor().unwrap() * unit(d) } }
struct Wr { t: Global<TokenWrapper>, w: [Decimal; 2], d: usize }
/// a wrapper with deposits of two tokens, the second no longer accepted for wrapping, and a base supply that is backed by them
fn wrapped() -> (W, Wr) {
    let w = deploy();
    let d = [18, 6, 2][pick(3, "divisibility")];
    let (a, b) = (dv("wrapped0", "0", "1000000000", &["1000", "0", "5.25"]), dv("wrapped1", "0", "1000000000", &["10", "0", "700"]));
    let w0 = floor(a, d);
    let t = setup(|| {
        resource(junk(), AccessRule::AllowAll);
        let mut t = wrapper();
        set_divisibility(coll(0), d);
        t.add_input(coll(0));
        t.add_input(coll(1));
        let _ = taken(t.wrap(Bucket::model(coll(0), w0)));
        let _ = taken(t.wrap(Bucket::model(coll(1), b)));
        t.update_wrappable(coll(1), false);
        for r in [junk(), _LP_RESOURCE, coll(0), coll(1), coll(2), XRD] { ledger(|l| { l.res.get_mut(&r).unwrap().supply = de("10000000000"); }); }
        t
    });
    (w, Wr { t, w: [w0, b], d })
}
fn inputs(t: Global<TokenWrapper>) -> Vec<(ResourceAddress, bool, Decimal)> { ask(|| t.get_inputs(c64(100), None)) }
fn all_supplies() -> Vec<(ResourceAddress, Decimal)> { [_BASE_RESOURCE, junk(), _LP_RESOURCE, coll(0), coll(1), coll(2), flash(), _FEE_OATH_RESOURCE, XRD].iter().map(|r| (*r, supply(*r))).collect() }
fn only_base(a: &[(ResourceAddress, Decimal)], b: &[(ResourceAddress, Decimal)]) -> Form { all(a.iter().zip(b).filter(|(x, _)| x.0 != _BASE_RESOURCE).map(|(x, y)| x.1.f_eq(y.1)).collect()) }
pub fn wrap_unwrap() {
    let (_w, x) = wrapped();
    let t = x.t;
    let s0 = all_supplies();
    ck("C22", "the deposits are reported as wrapped", { let v = inputs(t); fof(v.len() == 2 && v[0].0 == coll(0) && v[1].0 == coll(1) && v[0].1 && !v[1].1).and(v[0].2.f_eq(x.w[0])).and(v[1].2.f_eq(x.w[1])) });
    let am = dv("amount", "0", "1000000000", &["5", "0.123456789", "1000"]);
    let kids = [coll(0), coll(1), coll(2), _BASE_RESOURCE];
    if yes("configure") {
        // naming a token again, or switching it, touches no deposit
        let (op, k) = (pick(3, "setting"), pick(3, "token"));
        let r = transaction(vec![pe(owner_badge())], || { let mut t = t; match op { 0 => t.add_input(kids[k]), 1 => t.update_wrappable(kids[k], true), _ => t.update_wrappable(kids[k], false) } });
        if r.is_err() { return; }
        cover("token configured");
        let v = inputs(t);
        let new = op == 0 && k == 2;
        ck("C22", "configuring a token keeps every deposit", fof(v.len() == if new { 3 } else { 2 } && v[0].0 == coll(0) && v[1].0 == coll(1)).and(v[0].2.f_eq(x.w[0])).and(v[1].2.f_eq(x.w[1])));
        if new { ck("C22", "a new token starts without a deposit", fof(v.len() == 3 && v[2].0 == coll(2) && v[2].1).and(v.get(2).map_or(Form::False, |e| e.2.f_eq(zero())))); }
        ck("C22", "a token's wrapping is switched for it alone", fof(v[0].1 == !(op == 2 && k == 0) && v[1].1 == (op == 1 && k == 1)));
        ck("C22", "configuring mints and burns nothing", all(s0.iter().zip(&all_supplies()).map(|(p, q)| p.1.f_eq(q.1)).collect()));
        return;
    }
    if yes("unwrap") {
        let parents = [_BASE_RESOURCE, junk(), _LP_RESOURCE, coll(0), flash()];
        let (p, c) = (pick(parents.len(), "parent"), pick(4, "child"));
        let r = transaction(vec![], || { let mut t = t; let b = t.unwrap(Bucket::model(parents[p], am), kids[c]); (b.resource_address(), taken(b)) });
        match r {
            Err(_) => { if p == 0 && c < 2 { ck("C22", "base tokens can be unwrapped as far as the deposits reach", am.f_gt(x.w[c])); } }
            Ok((r, out)) => {
                cover("unwrapped");
                ckd("C22", "unwrapping takes base tokens and nothing else", fof(p == 0), || format!("{:?}", parents[p]));
                ck("C22", "unwrapping pays the chosen accepted token", fof(c < 2 && r == kids[c]));
                let s1 = all_supplies();
                ck("C22", "unwrapping burns exactly the base tokens given", (s0[0].1 - s1[0].1).f_eq(am).and(only_base(&s0, &s1)));
                let dd = if c == 0 { x.d } else { 18 };
                ck("C22", "at most as many child tokens are paid", out.f_le(am).and((am - out).f_lt(unit(dd)).or(out.f_eq(am))));
                let v = inputs(t);
                ck("C22", "only the chosen deposit falls by what is paid", v[0].2.f_eq(if c == 0 { x.w[0] - out } else { x.w[0] }).and(v[1].2.f_eq(if c == 1 { x.w[1] - out } else { x.w[1] })));
                ck("C22", "the base supply never exceeds the deposits", s1[0].1.f_le(v[0].2 + v[1].2));
            }
        }
        return;
    }
    let c = pick(4, "child");
    let am = if c == 0 { floor(am, x.d) } else { am };
    let r = transaction(vec![], || { let mut t = t; let b = t.wrap(Bucket::model(kids[c], am)); (b.resource_address(), taken(b)) });
    let (r, out) = match r { Ok(x) => x, Err(_) => { if c == 0 { ck("C22", "accepted tokens can be wrapped", Form::False); } else { cover("token refused"); } return; } };
    cover("wrapped");
    ckd("C22", "only accepted tokens are wrapped", fof(c == 0), || format!("{:?}", kids[c]));
    let s1 = all_supplies();
    let v = inputs(t);
    ck("C22", "wrapping mints exactly as many base tokens as are deposited", fof(r == _BASE_RESOURCE).and(out.f_eq(am)).and((s1[0].1 - s0[0].1).f_eq(am)).and((v[0].2 - x.w[0]).f_eq(am)).and(v[1].2.f_eq(x.w[1])));
    ck("C22", "wrapping mints base tokens only", only_base(&s0, &s1));
    ck("C22", "the base supply never exceeds the deposits", s1[0].1.f_le(v[0].2 + v[1].2));
}
pub fn flash_loan() {
    let (_w, x) = wrapped();
    let t = x.t;
    let s0 = all_supplies();
    let loan = dv("loan", "0", "1000000000000", &["1000", "0.000000000000000001", "5"]);
    if yes("left open") {
        // the loan is neither repaid nor is the oath kept anywhere
        let kept = pick(3, "kept");
        let r = transaction(vec![], || {
            let mut t = t;
            let (b, o) = t.flash_loan(loan);
            taken(b);
            match kept { 0 => drop(o), 1 => { let _v = Vault::with_bucket(o); } _ => { let mut v = Vault::new(flash()); v.put(o); } }
        });
        cover("loan left open");
        ck("C22", "a flash loan cannot be left open", fof(r.is_err()));
        return;
    }
    let oaths = [flash(), _FEE_OATH_RESOURCE, junk()];
    let toks = [_BASE_RESOURCE, junk(), coll(0), flash()];
    let (o, k) = (pick(3, "oath"), pick(4, "token"));
    let (due, pay) = (dv("oath", "0", "1000000000000", &["1000", "5", "3"]), dv("payment", "0", "1000000000000", &["1000", "5", "2000"]));
    let mut got = (junk(), flash(), zero(), zero());
    let r = transaction(vec![], || { let mut t = t; let (b, oa) = t.flash_loan(loan); got = (b.resource_address(), oa.resource_address(), taken(b), taken(oa)); });
    if r.is_err() { ck("C22", "a flash loan is granted", Form::False); return; }
    cover("loan taken");
    let s1 = all_supplies();
    ck("C22", "a flash loan mints the amount with an oath of the same amount", fof(got.0 == _BASE_RESOURCE && got.1 == flash()).and(got.2.f_eq(loan)).and(got.3.f_eq(loan)).and((s1[0].1 - s0[0].1).f_eq(loan)).and((s1[6].1 - s0[6].1).f_eq(loan)));
    assume_f(due.f_le(loan));
    assume_f(pay.f_le(s1[0].1));
    let r = transaction(vec![], || { let mut t = t; let b = t.repay_flash_loan(Bucket::model(oaths[o], due), Bucket::model(toks[k], pay)); (b.resource_address(), taken(b)) });
    let (rr, rest) = match r { Ok(x) => x, Err(_) => { if o == 0 && k == 0 { ck("C22", "a flash loan can be repaid", pay.f_lt(due)); } return; } };
    cover("loan repaid");
    ckd("C22", "a flash loan is repaid in base tokens with its oath", fof(o == 0 && k == 0), || format!("{:?} {:?}", oaths[o], toks[k]));
    let s2 = all_supplies();
    ck("C22", "repaying burns the borrowed amount and the oath", (s1[0].1 - s2[0].1).f_eq(due).and((s1[6].1 - s2[6].1).f_eq(due)).and(all((0..9).filter(|i| *i != 0 && *i != 6).map(|i| s1[i].1.f_eq(s2[i].1)).collect())));
    ck("C22", "only the excess is returned", fof(rr == _BASE_RESOURCE).and(rest.f_eq(pay - due)).and(pay.f_ge(due)));
    ck("C22", "no deposit moves with a flash loan", { let v = inputs(t); v[0].2.f_eq(x.w[0]).and(v[1].2.f_eq(x.w[1])) });
}

// ------------------------------------------------------------------------------------------------ delegated fees
pub fn lock() {
    let w = deploy();
    let usd = dv("usd_price", "0.000001", "1000", &["16.6", "0.02", "100"]);
    let (mult, max) = (dv("multiplier", "0", "100", &["1.5", "1", "0"]), dv("max_lock", "0", "1000000", &["3", "100", "1"]));
    let (vb, sup) = (dv("delegator_vb", "0", "1000000", &["5", "0", "100"]), dv("outstanding", "0", "1000000", &["0", "0.5", "2"]));
    let fund = dv("funds", "0", "1000000", &["100", "1", "0"]);
    let amount = dv("lock", "0", "1000000", &["1", "0.05", "7"]);
    let cont = yes("contingent");
    setup(|| {
        ledger(|l| { l.usd_price = Some(usd); l.res.get_mut(&XRD).unwrap().supply = de("10000000000"); });
        w.deleg.update_max_lock(max);
        w.deleg.update_price_multiplier(mult);
        w.deleg.update_is_contingent(cont);
        w.deleg.update_virtual_balance(vb);
        w.deleg.deposit(Bucket::model(XRD, fund));
        ledger(|l| l.res.get_mut(&_FEE_OATH_RESOURCE).unwrap().supply = sup);
    });
    let f0 = ledger(|l| l.fees_locked);
    let r = transaction(vec![], || { let b = w.deleg.lock_fee(amount); (b.resource_address(), taken(b)) });
    let (rr, val) = match r { Ok(x) => x, Err(_) => return };
    cover("fee locked");
    let i = ask(|| w.deleg.get_info());
    ck("C24", "a locked fee issues an oath", fof(rr == _FEE_OATH_RESOURCE).and((supply(_FEE_OATH_RESOURCE) - sup).f_eq(val)));
    ck("C24", "the oath is worth the locked amount at the configured price", near(val, usd * mult * amount, 100_000_000));
    ck("C24", "outstanding oaths stay within the maximum", (sup + val).f_le(max));
    ck("C24", "the delegator's claim rises by exactly the oath", (i.1 - vb).f_eq(val).and(ask(|| w.deleg.get_virtual_balance()).f_eq(i.1)));
    ck("C24", "the locked amount comes from the delegator's funds", (fund - i.0).f_eq(amount).and((ledger(|l| l.fees_locked) - f0).f_eq(amount)));
    ck("C24", "locking changes no setting", i.2.f_eq(max).and(i.3.f_eq(mult)).and(fof(i.4 == cont)));
}
pub const OATH_OPS: [&str; 12] = ["create_recovery_key", "add_auth_rule", "set_level_1_auth", "set_level_2_auth", "set_level_3_auth", "remove_collateral_request", "margin_order_request", "margin_order_tp_sl_request", "cancel_requests", "add_collateral", "add_collateral with tokens", "create_account"];
/// every method that takes a delegated fee: charged to the named account, in oaths only, and only with enough margin
pub fn charges() {
    let op = pick(OATH_OPS.len(), "operation");
    let wrong = pick(5, "oath token");
    let oath_res = [_FEE_OATH_RESOURCE, _BASE_RESOURCE, coll(0), _LP_RESOURCE, _KEEPER_REWARD_RESOURCE][wrong];
    let mut o = Opt { pos: vec![1 + pick(2, "position")], ccfg: 1, colls: vec![coll(0)], referral: true, ..Default::default() };
    o.requests = vec![keeper_request(crate::auth::plain("1"), 1)];
    o.active = vec![0];
    let st = state(&o);
    let value = dv("oath", "0.000000000000000001", "1000000000000", &["0.5", "3", "20", "2000000"]);
    let extra = dv("tokens", "0", "1000000", &["5", "3", "100"]);
    let b = setup(|| {
        ledger(|l| { for r in [_FEE_OATH_RESOURCE, _BASE_RESOURCE, coll(0), _LP_RESOURCE, _KEEPER_REWARD_RESOURCE] { l.res.get_mut(&r).unwrap().supply = de("1000000000000"); } });
        let b = make_account(ACC_B, None);
        b.g.update(acc_updates(dv("b_vb", "-1000", "1000000", &["5", "0"])));
        b
    });
    let mut proofs: Vec<ProofEntry> = (1..=3u8).map(|k| pe(level_badge(0, k))).collect();
    proofs.push(pe(owner_badge()));
    let accs = [st.a.g, b.g];
    let s0 = snap(&st.w, &accs, 1, &st.refs);
    let at = comp(0x66);
    let r = transaction(proofs, || {
        if op == 11 { st.w.ex.create_account(Some(Bucket::model(oath_res, value)), AccessRule::AllowAll, vec![base(extra)], None, Some(scrypto::ledger::GlobalAddressReservation(at))); }
        else { account_op(st.w.ex, op, st.a.addr, Some((oath_res, value)), [de("1"), extra]); }
    });
    if r.is_err() { if wrong > 0 { cover("wrong oath refused"); } return; }
    ckd("C24", "only the oath token pays a delegated fee", fof(wrong == 0), || OATH_OPS[op].to_string());
    if wrong > 0 { return; }
    cover(OATH_OPS[op]);
    let s1 = snap(&st.w, &accs, 1, &st.refs);
    ckd("C24", "the oath is burned", (s0.oath - s1.oath).f_eq(value), || OATH_OPS[op].to_string());
    ck("C24", "the delegator's claim stays as it was", s0.deleg.f_eq(s1.deleg));
    ck("C24", "no other account is charged", s0.accs[1].virtual_balance.f_eq(s1.accs[1].virtual_balance));
    if op == 11 {
        let i = ask(|| Global::<MarginAccount>::from(at).get_info());
        ck("C24", "a new account is charged exactly its oath", i.virtual_balance.f_eq(extra - value));
        ck("C24", "a new account stays sufficiently margined", i.virtual_balance.f_ge(zero()));
        ck("C24", "no other account is charged", s0.accs[0].virtual_balance.f_eq(s1.accs[0].virtual_balance));
        ck("C01", "the sum of all claims is unchanged", claims(&s0).f_eq(claims(&s1) + i.virtual_balance - extra + extra));
    } else {
        ckd("C24", "the account is charged exactly the oath's value", (s0.accs[0].virtual_balance - s1.accs[0].virtual_balance).f_eq(value), || OATH_OPS[op].to_string());
        let (val, margin) = st.value(&s1, true);
        ckd("C24", "after a delegated fee the account is sufficiently margined", val.f_ge(margin), || OATH_OPS[op].to_string());
        ckd("C06", "after a delegated fee the account holds its initial margin", val.f_ge(margin), || OATH_OPS[op].to_string());
        ck("C01", "the sum of all claims is unchanged", claims(&s0).f_eq(claims(&s1)));
    }
    if op == 11 { crate::evts::created(at, None, &[(_BASE_RESOURCE, extra)]); } else { crate::evts::told(&s0, &s1, &[st.a.addr, b.addr], if op == 9 || op == 10 { &[crate::evts::ADD] } else { &[] }); }
    let _ = drop_all;
    let _ = ACCOUNT_OPS;
}
/// nobody but the exchange burns an oath, and it cannot be kept
pub fn oaths() {
    let w = deploy();
    let what = pick(4, "use");
    setup(|| ledger(|l| { l.usd_price = Some(de("0.02")); l.res.get_mut(&XRD).unwrap().supply = de("1000"); }));
    setup(|| w.deleg.deposit(Bucket::model(XRD, de("100"))));
    let proofs = vec![pe(owner_badge()), pe(level_badge(0, 1)), pe(_LP_RESOURCE)];
    let amount = dv("lock", "0.000000000000000001", "50", &["1", "0.05", "7"]);
    let r = transaction(proofs, || {
        let b = w.deleg.lock_fee(amount);
        match what { 0 => b.burn(), 1 => { let _v = Vault::with_bucket(b); } 2 => { let mut v = Vault::new(_FEE_OATH_RESOURCE); v.put(b); } _ => drop(b) }
    });
    cover(["oath burned", "oath kept", "oath put away", "oath dropped"][what]);
    ck("C24", "an oath can only be used up by the exchange", fof(r.is_err()));
}
