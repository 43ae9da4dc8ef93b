//! Referral allocations, codes and their claims.
use crate::auth::drop_all;
use crate::ops::*;
use crate::order::*;
use crate::world::*;

fn hash(s: &str) -> Hash { CryptoUtils::keccak256_hash(s.to_string().into_bytes()) }
fn ref_data(id: &NonFungibleLocalId) -> ReferralData { ask(|| ResourceManager(_REFERRAL_RESOURCE).get_non_fungible_data::<ReferralData>(id)) }
fn other_ref() -> NonFungibleLocalId { NonFungibleLocalId::ruid([0x43; 32]) }
fn back(v: Vec<Bucket>) -> Vec<(ResourceAddress, Decimal)> { v.into_iter().map(|b| { let r = b.resource_address(); (r, taken(b)) }).collect() }
fn sum_of(v: &[(ResourceAddress, Decimal)], r: ResourceAddress) -> Decimal { v.iter().filter(|x| x.0 == r).fold(zero(), |t, x| t + x.1) }
fn world() -> St {
    let st = state(&Opt { pos: vec![], ccfg: 1, referral: true, ..Default::default() });
    let (n, m) = (uv("referrals", 0, 1_000_000_000_000, &[0, 1, 5]), uv("max_referrals", 0, 1_000_000_000_000, &[10, 3, 1]));
    setup(|| {
        let rm = ResourceManager(_REFERRAL_RESOURCE);
        rm.update_non_fungible_data(&ref_id(), "referrals", n);
        rm.update_non_fungible_data(&ref_id(), "max_referrals", m);
        let mut d: ReferralData = rm.get_non_fungible_data(&ref_id());
        d.referrals = c64(0);
        d.max_referrals = c64(1000);
        let b = rm.mint_non_fungible(&other_ref(), d);
        let _ = b.model_take();
    });
    st
}
/// a referral's share and rebate stay within 0 to 10 %, on minting and on every update; what is not named in an update stays
pub fn terms() {
    let st = world();
    let op = pick(3, "operation");
    let (f, r) = (dv("new_fee_referral", "-10", "10", &["0.05", "0.1", "0.2", "-0.1"]), dv("new_fee_rebate", "-10", "10", &["0.1", "0.05", "0", "0.3"]));
    let m = uv("new_max", 0, 1_000_000, &[5, 1, 0]);
    let (sf, sr, sm) = if op == 2 { (yes("set share"), yes("set rebate"), yes("set maximum")) } else { (true, true, true) };
    let ex = st.w.ex;
    let d0 = ref_data(&ref_id());
    let q = transaction(vec![pe(owner_badge())], || {
        let ids = |b: Bucket| match b.model_take() { Held::Ids(v) => v[0].clone(), _ => panic!("badge") };
        match op {
            0 => ids(ex.mint_referral("n".into(), "d".into(), Url::of("https://x"), f, r, m)),
            1 => { let (b, rest, _) = ex.mint_referral_with_allocation("n".into(), "d".into(), Url::of("https://x"), f, r, m, vec![], vec![], c64(0)); drop_all(rest); ids(b) }
            _ => { ex.update_referral(ref_id(), sf.then(|| f), sr.then(|| r), sm.then(|| m)); ref_id() }
        }
    });
    let id = match q { Ok(x) => x, Err(_) => return };
    cover(["referral minted", "referral minted with allocation", "referral updated"][op]);
    let d1 = ref_data(&id);
    let hi = de("0.1");
    ck("C05", "a referral's share and rebate lie between 0 and 10 %", all(vec![d1.fee_referral.f_ge(zero()), d1.fee_referral.f_le(hi), d1.fee_rebate.f_ge(zero()), d1.fee_rebate.f_le(hi)]));
    ck("C05", "a referral's terms are the accepted ones", d1.fee_referral.f_eq(if sf { f } else { d0.fee_referral }).and(d1.fee_rebate.f_eq(if sr { r } else { d0.fee_rebate })));
    ck("C21", "a referral's limit is the accepted one", d1.max_referrals.f_eq(if sm { m } else { d0.max_referrals }));
    if op == 2 { ck("C21", "changing a referral's terms keeps its account", all(vec![d1.balance.f_eq(d0.balance), d1.total_rewarded.f_eq(d0.total_rewarded), d1.referrals.f_eq(d0.referrals)])); }
    else { ck("C21", "a new referral has no rewards", all(vec![d1.balance.f_eq(zero()), d1.total_rewarded.f_eq(zero()), d1.referrals.f_eq(c64(0))])); }
}
/// what is taken for an allocation or for codes, what is given back, and the referrer's limit
pub fn funding() {
    any_order();
    let st = world();
    let op = pick(3, "operation");
    let shape = pick(5, "claims");
    let (x, y) = (dv("claim0", "-1000000", "1000000", &["5", "0.5", "0", "-1"]), dv("claim1", "-1000000", "1000000", &["3", "20", "0"]));
    let claims = match shape { 0 => vec![], 1 => vec![(coll(0), x)], 2 => vec![(coll(0), x), (_BASE_RESOURCE, y)], 3 => vec![(coll(0), x), (coll(0), y)], _ => vec![(coll(1), x), (_BASE_RESOURCE, y)] };
    let (g0, g1, g2) = (dv("given0", "0", "100000000", &["50", "5", "1000"]), dv("given1", "0", "100000000", &["60", "3", "5000"]), dv("given2", "0", "100000000", &["7", "0", "100"]));
    let tokens = || vec![Bucket::model(coll(0), g0), base(g1), Bucket::model(coll(0), g2)];
    // several allocations at once, single codes with claims, codes for many uses without
    let n = if op == 1 { uv("uses", 0, 1_000_000, &[1, 3, 0]) } else { uv("count", 0, 1_000_000, &[2, 1, 0, 5]) };
    let many = uv("many_uses", 0, 1_000_000, &[4, 2, 1]);
    let two = op == 1 && yes("second code");
    let ex = st.w.ex;
    let id = ref_id();
    let d0 = ref_data(&id);
    let max2 = uv("fresh_max", 0, 1_000_000, &[5, 1, 0]);
    let r = transaction(vec![pe(owner_badge())], || match op {
        0 => { let (b, i) = ex.add_referral_allocation(id.clone(), tokens(), claims.clone(), n); (back(b), Some(i), id.clone()) }
        1 => {
            let mut h = HashMap::new();
            h.insert(hash("one"), (claims.clone(), n));
            if two { h.insert(hash("many"), (vec![], many)); }
            (back(ex.create_referral_codes(nf_proof(_REFERRAL_RESOURCE, id.clone()), tokens(), h)), None, id.clone())
        }
        _ => {
            let (b, rest, i) = ex.mint_referral_with_allocation("n".into(), "d".into(), Url::of("https://x"), de("0.05"), de("0.05"), max2, tokens(), claims.clone(), n);
            let new = match b.model_take() { Held::Ids(v) => v[0].clone(), _ => panic!("badge") };
            (back(rest), Some(i), new)
        }
    });
    let (rest, index, who): (Vec<(ResourceAddress, Decimal)>, Option<u64k_>, NonFungibleLocalId) = match r { Ok(x) => x, Err(_) => return };
    cover(["allocation added", "codes created", "referral minted with allocation"][op]);
    let times = if op == 1 { Decimal::ONE } else { Decimal::from(n) };
    let want = |r: ResourceAddress| claims.iter().filter(|c| c.0 == r).fold(zero(), |t, c| t + c.1 * times);
    for c in &claims { ck("C21", "every claim amount is positive", c.1.f_gt(zero())); }
    for (r, g) in [(coll(0), g0 + g2), (_BASE_RESOURCE, g1), (coll(1), zero())] {
        ckd("C21", "the tokens taken cover exactly all claims and the rest is returned", (g - sum_of(&rest, r)).f_eq(want(r)), || format!("{:?}", r));
    }
    if op == 1 && !claims.is_empty() { ck("C21", "a code with claims is for one use", n.f_eq(c64(1))); }
    let d1 = ref_data(&who);
    let (before, max) = if op == 2 { (c64(0), max2) } else { (d0.referrals, d0.max_referrals) };
    let granted = if op == 1 && two { n + many } else { n };
    ck("C21", "the referrals granted are counted", d1.referrals.f_eq(before + granted));
    ck("C21", "the referrals granted never exceed the referrer's limit", d1.referrals.f_le(max).and(d1.max_referrals.f_eq(max)));
    if op != 2 { ck("C21", "nothing else of the referrer changes", d1.balance.f_eq(d0.balance).and(d1.fee_referral.f_eq(d0.fee_referral)).and(d1.fee_rebate.f_eq(d0.fee_rebate)).and(d1.total_rewarded.f_eq(d0.total_rewarded))); }
    let al = ask(|| st.w.refgen.get_allocations(who.clone()));
    match index {
        Some(i) => {
            let a = &al[0];
            ck("C21", "the allocation is recorded as given", fof(al.len() == 1 && a.claims.len() == claims.len() && a.claims.iter().zip(&claims).all(|(p, q)| p.0 == q.0)).and(i.f_eq(c64(0))).and(a.max_count.f_eq(n)).and(a.count.f_eq(c64(0))).and(all(a.claims.iter().zip(&claims).map(|(p, q)| p.1.f_eq(q.1)).collect())));
        }
        None => ck("C21", "creating codes adds no allocation", fof(al.is_empty())),
    }
    let o = ref_data(&other_ref());
    ck("C21", "other referrers are untouched", o.referrals.f_eq(c64(0)));
}
/// codes from allocations and with their own tokens, and all their claims
pub fn claims() {
    any_order();
    let coarse = yes("coarse token");
    let st = world();
    let n = 1 + pick(2, "allocation count");
    let (x, y) = (dv("claim0", "0.000000000000000001", "1000000", &["5", "0.5", "0.123456789"]), dv("claim1", "0.000000000000000001", "1000000", &["3", "20", "0.1"]));
    let z = dv("own_claim", "0.000000000000000001", "1000000", &["2", "7.5", "0.1"]);
    let own = dv("own_tokens", "0", "1000000", &["0", "4", "11"]);
    let uses = uv("uses", 0, 1_000_000, &[2, 1, 0, 3]);
    let alloc = vec![(coll(0), x), (_BASE_RESOURCE, y)];
    let ex = st.w.ex;
    setup(|| {
        if coarse { set_divisibility(coll(0), 2); }
        ResourceManager(_REFERRAL_RESOURCE).update_non_fungible_data(&ref_id(), "referrals", c64(0));
        ResourceManager(_REFERRAL_RESOURCE).update_non_fungible_data(&ref_id(), "max_referrals", c64(10_000_000));
        let (b, _) = st.w.refgen.add_allocation(vec![Bucket::model(coll(0), de("2000000")), base(de("2000000"))], ref_id(), alloc.clone(), c64(n as i128));
        drop_all(b);
        let (b, _) = st.w.refgen.add_allocation(vec![], ref_id(), vec![], c64(3));
        drop_all(b);
    });
    let fits = |a: Decimal| -> Decimal { if coarse { (a / de("0.01")).checked_floor().unwrap() * de("0.01") } else { a } };
    let me = || nf_proof(_REFERRAL_RESOURCE, ref_id());
    let set = |v: &[&str]| -> HashSet<Hash> { v.iter().map(|s| hash(s)).collect() };
    // codes from the allocation in one or two steps
    let first = [&["a"][..], &["a", "b"], &["a", "b", "c"]][pick(3, "first codes")];
    let r = transaction(vec![], || ex.create_referral_codes_from_allocation(me(), c64(0), set(first)));
    if r.is_err() { cover("allocation exhausted"); ck("C21", "an allocation yields all its codes", fof(first.len() > n)); return; }
    cover("codes from allocation");
    ck("C21", "an allocation never yields more codes than it was created with", fof(first.len() <= n));
    let mut codes: Vec<&str> = first.to_vec();
    match pick(6, "more codes") {
        1 => {
            let r = transaction(vec![], || ex.create_referral_codes_from_allocation(me(), c64(0), set(&["d"])));
            if r.is_err() { ck("C21", "an allocation yields all its codes", fof(codes.len() + 1 > n)); return; }
            codes.push("d");
            ck("C21", "an allocation never yields more codes than it was created with", fof(codes.len() <= n));
        }
        2 => {
            // the other allocation has room, but the code exists
            let r = transaction(vec![], || ex.create_referral_codes_from_allocation(me(), c64(1), set(&["a", "e"])));
            cover("taken code from allocation");
            ck("C21", "a code is never overwritten", fof(r.is_err()));
            return;
        }
        3 => {
            let by = yes("by another referrer");
            let r = transaction(vec![], || { let mut h = HashMap::new(); h.insert(hash("a"), (vec![], c64(5))); drop_all(ex.create_referral_codes(nf_proof(_REFERRAL_RESOURCE, if by { other_ref() } else { ref_id() }), vec![], h)) });
            cover("taken code");
            ck("C21", "a code is never overwritten", fof(r.is_err()));
            return;
        }
        5 => {
            // a code that has been used up stays known
            let r = transaction(vec![], || { ex.create_account(None, AccessRule::AllowAll, vec![], Some("a".to_string()), Some(scrypto::ledger::GlobalAddressReservation(comp(0x6f)))); });
            if r.is_err() { ck("C21", "every code is backed by its tokens", Form::False); return; }
            cover("used code");
            let r = if yes("from an allocation") { transaction(vec![], || ex.create_referral_codes_from_allocation(me(), c64(1), set(&["a"]))) }
                else { transaction(vec![], || { let mut h = HashMap::new(); h.insert(hash("a"), (vec![], c64(5))); drop_all(ex.create_referral_codes(me(), vec![], h)) }) };
            ck("C21", "a code is never overwritten", fof(r.is_err()));
            return;
        }
        4 => {
            let r = transaction(vec![], || ex.create_referral_codes_from_allocation(nf_proof(_REFERRAL_RESOURCE, other_ref()), c64(0), set(&["e"])));
            cover("another referrer's allocation");
            ck("C21", "an allocation serves its referrer only", fof(r.is_err()));
            return;
        }
        _ => {}
    }
    let al = ask(|| st.w.refgen.get_allocations(ref_id()));
    ck("C21", "an allocation counts its codes", al[0].count.f_eq(c64(codes.len() as i128)).and(al[0].max_count.f_eq(c64(n as i128))).and(al[1].count.f_eq(c64(0))));
    // a code with its own tokens and one for many uses
    let extra = yes("own codes");
    if extra {
        let r = transaction(vec![], || { let mut h = HashMap::new(); h.insert(hash("own"), (vec![(coll(0), z)], c64(1))); h.insert(hash("many"), (vec![], uses)); drop_all(ex.create_referral_codes(me(), vec![Bucket::model(coll(0), de("1000000"))], h)) });
        if r.is_err() { return; }
        codes.push("own");
    }
    let mut next = 0x70u8;
    let mut claim = |code: &str, tokens: Vec<Bucket>| { next += 1; let at = comp(next); transaction(vec![], || ex.create_account(None, AccessRule::AllowAll, tokens, Some(code.to_string()), Some(scrypto::ledger::GlobalAddressReservation(at)))).map(|a| Global::<MarginAccount>::from(a.address())) };
    if yes("backwards") { codes.reverse(); }
    // every code can be claimed, pays exactly its tokens, and only once
    for c in &codes {
        let o = if coarse { fits(own) } else { own };
        let a = match claim(c, vec![Bucket::model(coll(0), o)]) { Ok(a) => a, Err(e) => { note(e); ck("C21", "every code is backed by its tokens", Form::False); return; } };
        cover("code claimed");
        let i = ask(|| a.get_info());
        let (p, q) = if *c == "own" { (fits(z), zero()) } else { (fits(x), y) };
        ckd("C21", "a claim pays exactly the code's tokens", bal(&i, coll(0)).f_eq(o + p).and(i.virtual_balance.f_eq(q)), || c.to_string());
        ck("C21", "a claim names the code's referrer", fof(ask(|| a.get_info()).referral_id == Some(ref_id())));
    }
    if extra {
        let times = pick(3, "uses claimed");
        for k in 0..=times {
            match claim("many", vec![]) {
                Ok(a) => {
                    cover("code claimed repeatedly");
                    ck("C21", "a code is claimed at most its allowed number of times", uses.f_ge(c64(k as i128 + 1)));
                    let i = ask(|| a.get_info());
                    ck("C21", "a claim pays exactly the code's tokens", fof(i.collateral_balances.is_empty()).and(i.virtual_balance.f_eq(zero())));
                }
                Err(_) => { ck("C21", "a code is claimable its allowed number of times", uses.f_le(c64(k as i128))); return; }
            }
        }
    }
    let again = if yes("unknown code") { "nobody" } else { codes[pick(codes.len(), "code")] };
    let r = claim(again, vec![]);
    cover("second claim");
    ckd("C21", "a single-use code is claimed once", fof(r.is_err()), || again.to_string());
}

/// six codes from one allocation and six codes in one call, all claimed
pub fn claims_many() {
    let st = world();
    let ex = st.w.ex;
    let (x, y) = (dv("claim0", "0.000000000000000001", "1000000", &["5", "0.5", "0.123456789"]), dv("claim1", "0.000000000000000001", "1000000", &["3", "20", "0.1"]));
    let me = || nf_proof(_REFERRAL_RESOURCE, ref_id());
    let names = ["a", "b", "c", "d", "e", "f"];
    let from_allocation = yes("from an allocation");
    let n = 5 + pick(3, "allocation count");
    let all: Vec<(ResourceAddress, Decimal)> = vec![(coll(1), x), (coll(0), y), (coll(2), x), (_BASE_RESOURCE, y), (coll(4), x), (coll(3), y)];
    setup(|| {
        st.w.cfg.update_collateral_configs((0..5).map(|k| (coll(k), coll_cfg(k))).collect());
        ResourceManager(_REFERRAL_RESOURCE).update_non_fungible_data(&ref_id(), "referrals", c64(0));
        ResourceManager(_REFERRAL_RESOURCE).update_non_fungible_data(&ref_id(), "max_referrals", c64(10_000_000));
    });
    let given = || -> Vec<Bucket> { (0..5).map(|k| Bucket::model(coll(k), de("20000000"))).chain([base(de("20000000"))]).collect() };
    let r = transaction(vec![pe(owner_badge())], || if from_allocation {
        let (b, _) = ex.add_referral_allocation(ref_id(), given(), all.clone(), c64(n as i128));
        let rest = back(b);
        ex.create_referral_codes_from_allocation(me(), c64(0), names.iter().map(|s| hash(s)).collect());
        rest
    } else {
        let h: HashMap<Hash, (Vec<(ResourceAddress, Decimal)>, u64k_)> = names.iter().enumerate().map(|(i, s)| (hash(s), (if i == 4 { all.clone() } else { vec![all[i]] }, c64(1)))).collect();
        back(ex.create_referral_codes(me(), given(), h))
    });
    let rest = match r { Ok(x) => x, Err(_) => { if from_allocation { ck("C21", "an allocation yields all its codes", fof(n < 6)); } return } };
    cover("many codes");
    let of = |i: usize| -> Vec<(ResourceAddress, Decimal)> { if from_allocation || i == 4 { all.clone() } else { vec![all[i]] } };
    if from_allocation { ck("C21", "an allocation never yields more codes than it was created with", fof(n >= 6)); }
    for r in (0..5).map(coll).chain([_BASE_RESOURCE]) {
        let due = if from_allocation { sum_of(&all, r) * Decimal::from(n) } else { (0..6).fold(zero(), |t, i| t + sum_of(&of(i), r)) };
        ckd("C21", "the tokens taken cover exactly all claims and the rest is returned", (de("20000000") - sum_of(&rest, r)).f_eq(due), || format!("{:?}", r));
    }
    for (i, s) in names.iter().enumerate() {
        let at = comp(0x70 + i as u8);
        let a = match transaction(vec![], || ex.create_account(None, AccessRule::AllowAll, vec![], Some(s.to_string()), Some(scrypto::ledger::GlobalAddressReservation(at)))) { Ok(a) => Global::<MarginAccount>::from(a.address()), Err(e) => { note(e); ck("C21", "every code is backed by its tokens", Form::False); return; } };
        let v = ask(|| a.get_info());
        for r in (0..5).map(coll) { ck("C21", "a claim pays exactly the code's tokens", bal(&v, r).f_eq(sum_of(&of(i), r))); }
        ck("C21", "a claim pays exactly the code's tokens", v.virtual_balance.f_eq(sum_of(&of(i), _BASE_RESOURCE)));
    }
    cover("many codes claimed");
}
