//! Stored configuration: bounds, field-by-field round trip through the compact format, isolation of entries.
use crate::world::*;
use num_bigint::BigInt;
use scrypto::explore::set_ideal_compression;
pub use ::config::{CollateralConfigCompressed, ConfigInfo};

type Bound = (&'static str, Option<&'static str>, bool); // lower bound, upper bound, lower bound strict
macro_rules! fields { ($t:ty: $($f:ident $b:expr),* $(,)?) => { (vec![$( (stringify!($f), $b) ),*] as Vec<(&'static str, Bound)>, (|c: &$t| vec![$( c.$f ),*]) as fn(&$t) -> Vec<Decimal>, (|c: &mut $t, v: &[Decimal]| { let mut k = 0; $( c.$f = v[k]; k += 1; )* let _ = k; }) as fn(&mut $t, &[Decimal])) } }
macro_rules! ex_fields { () => { fields!(ExchangeConfig: skew_ratio_cap ("0", None, false), adl_offset ("0", None, false), adl_a ("0", None, false), adl_b ("0", None, false), fee_liquidity_add ("0", None, false), fee_liquidity_remove ("0", None, false),
    fee_share_protocol ("0", Some("0.3"), false), fee_share_treasury ("0", Some("0.15"), false), fee_share_referral ("0", Some("1"), false), fee_max ("0", None, false), protocol_burn_amount ("1000", None, false), reward_keeper ("0", None, false)) } }
macro_rules! pair_fields { () => { fields!(PairConfig: oi_max ("0", None, false), trade_size_min ("0", None, false), update_price_delta_ratio ("0", None, true), margin_initial ("0", Some("1"), false), margin_maintenance ("0", Some("1"), false),
    funding_1 ("0", Some("2"), false), funding_2 ("0", Some("4"), false), funding_2_delta ("0", Some("10000"), false), funding_2_decay ("0", None, false), funding_pool_0 ("0", Some("1"), false), funding_pool_1 ("0", Some("2"), false),
    funding_share ("0", Some("0.1"), false), fee_0 ("0", Some("0.015"), false), fee_1 ("0", Some("0.000001"), false)) } }
macro_rules! coll_fields { () => { fields!(CollateralConfig: discount ("0.8", Some("1"), false), margin ("0", Some("0.1"), false)) } }

fn ten(k: usize) -> BigInt { (0..k).fold(BigInt::from(1u8), |t, _| t * 10) }
fn within(x: Decimal, b: &Bound) -> Form {
    let lo = if b.2 { x.f_gt(de(b.0)) } else { x.f_ge(de(b.0)) };
    match b.1 { Some(h) => lo.and(x.f_le(de(h))), None => lo }
}
/// the stored value: never larger, within a percent, exact for up to three significant digits
fn rounded(x: Decimal, r: Decimal) -> Form { r.f_ge(zero()).and(r.f_le(x)).and(((x - r) * Decimal::from(100i32)).f_le(x)) }
fn info(w: &W) -> ConfigInfo {
    let ids: HashSet<String> = (0..3).map(pair).collect();
    let c = w.cfg;
    ask(|| c.get_info(ids)).decompress()
}
/// distinct values that the compact format represents exactly
pub fn plain_ex() -> ExchangeConfig {
    let mut e = ExchangeConfig::default();
    (e.positions_max, e.collaterals_max, e.active_requests_max) = (u16k_::from_i(7), u16k_::from_i(8), u16k_::from_i(9));
    (ex_fields!().2)(&mut e, &["0.151", "0.202", "0.073", "0.074", "0.0015", "0.0016", "0.217", "0.088", "0.99", "0.011", "10100", "1.01"].map(de));
    e
}
pub fn plain_pair(k: usize) -> PairConfig {
    let mut c = pair_cfg(&pair(k));
    (c.price_age_max, c.update_period_seconds) = (ci(61 + k as i128), ci(3601 + k as i128));
    (pair_fields!().2)(&mut c, &["1010000", "0.12", "0.0051", "0.021", "0.0111", "1.02", "1.03", "104", "105", "0.0206", "0.257", "0.098", "0.00051", "0.000000052"].map(de));
    if k == 1 { c.margin_initial = de("0.031"); c.fee_0 = de("0.0061"); }
    c
}
pub fn plain_coll(k: usize) -> CollateralConfig { let mut c = coll_cfg(k); c.price_age_max = ci(71 + k as i128); (c.discount, c.margin) = (de(["0.91", "0.93", "0.95"][k]), de(["0.011", "0.013", "0.015"][k])); c }

fn eq_list(a: Vec<Decimal>, b: Vec<Decimal>) -> Form { all(a.into_iter().zip(b).map(|(x, y)| x.f_eq(y)).collect()) }
pub fn same_ex(a: &ExchangeConfig, b: &ExchangeConfig) -> Form { let g = ex_fields!().1; eq_list(g(a), g(b)).and(a.positions_max.f_eq(b.positions_max)).and(a.collaterals_max.f_eq(b.collaterals_max)).and(a.active_requests_max.f_eq(b.active_requests_max)) }
pub fn same_pair(a: &PairConfig, b: &PairConfig) -> Form { let g = pair_fields!().1; fof(a.pair_id == b.pair_id).and(eq_list(g(a), g(b))).and(a.price_age_max.f_eq(b.price_age_max)).and(a.update_period_seconds.f_eq(b.update_period_seconds)) }
pub fn same_coll(a: &CollateralConfig, b: &CollateralConfig) -> Form { let g = coll_fields!().1; fof(a.pair_id == b.pair_id).and(eq_list(g(a), g(b))).and(a.price_age_max.f_eq(b.price_age_max)) }
fn opt_pair(a: &ConfigInfo, k: usize) -> Option<PairConfig> { a.pair_configs.get(&pair(k)).cloned().expect("asked pair") }

fn world() -> (W, ExchangeConfig, Vec<PairConfig>, Vec<CollateralConfig>) {
    let w = deploy();
    let (e, p, c) = (plain_ex(), vec![plain_pair(0), plain_pair(1)], vec![plain_coll(0), plain_coll(1)]);
    setup(|| {
        w.cfg.update_exchange_config(e.clone());
        w.cfg.update_pair_configs(p.clone());
        w.cfg.update_collateral_configs(vec![(coll(0), c[0].clone()), (coll(1), c[1].clone())]);
    });
    (w, e, p, c)
}
fn wide(n: &str, s: &'static [&'static str]) -> Decimal { dv(n, "-1000", "20000000000000000", s) }
fn sym(n: &str, fields: &[(&'static str, Bound)]) -> Vec<Decimal> {
    fields.iter().map(|(f, b)| match b.1 { Some("1") => dv(&format!("{}{}", n, f), "-10", "10", &["0.91", "0.5", "1.1"]), Some(_) => dv(&format!("{}{}", n, f), "-1", "20000", &["0.00000005", "0.01", "0.2"]), None => wide(&format!("{}{}", n, f), &["1000", "20000", "0.3"]) }).collect()
}
/// every field arbitrary at once; the compact format's rounding is the subject of the next scenario
pub fn fields_kept() {
    let (w, e0, p0, c0) = world();
    let kind = pick(3, "configuration");
    match kind {
        0 => {
            let (names, get, set) = ex_fields!();
            let mut e = plain_ex();
            let v = sym("", &names);
            set(&mut e, &v);
            (e.positions_max, e.collaterals_max, e.active_requests_max) = (wv("positions_max", 0, 65535, &[30, 1, 65535]), wv("collaterals_max", 0, 65535, &[5, 0, 300]), wv("active_requests_max", 0, 65535, &[100, 0, 1000]));
            let x = e.clone();
            if transaction(vec![authority_pe()], || w.cfg.update_exchange_config(x)).is_err() { return; }
            cover("exchange configured");
            for (k, (f, b)) in names.iter().enumerate() { ckd("C23", "an accepted exchange configuration is within its bounds", within(v[k], b), || f.to_string()); }
            ck("C23", "an accepted exchange configuration is within its bounds", e.positions_max.f_gt(u16k_::from_i(0)));
            let i = info(&w);
            for (k, (f, _)) in names.iter().enumerate() { ckd("C23", "the stored exchange configuration is the accepted one", get(&i.exchange)[k].f_eq(v[k]), || f.to_string()); }
            ck("C23", "the stored exchange limits are the accepted ones", same_ex(&e, &i.exchange));
            for k in 0..2 { ck("C23", "no other entry changes", same_pair(&p0[k], &opt_pair(&i, k).unwrap()).and(same_coll(&c0[k], &i.collaterals[&coll(k)]))); }
        }
        1 => {
            let (names, get, set) = pair_fields!();
            let which = pick(3, "pair");
            let mut c = plain_pair(0);
            c.pair_id = pair(which);
            let v = sym("", &names);
            set(&mut c, &v);
            (c.price_age_max, c.update_period_seconds) = (iv("price_age_max", -1_000_000, 10_000_000_000, &[60, 65535, 65536, 65596, 0]), iv("update_period_seconds", -1_000_000, 10_000_000_000, &[3600, 65535, 65536, 65596, 0]));
            let x = c.clone();
            if transaction(vec![authority_pe()], || w.cfg.update_pair_configs(vec![x])).is_err() { return; }
            cover("pair configured");
            for (k, (f, b)) in names.iter().enumerate() { ckd("C23", "an accepted pair configuration is within its bounds", within(v[k], b), || f.to_string()); }
            ck("C23", "an accepted pair configuration is within its bounds", c.price_age_max.f_gt(ci(0)).and(c.update_period_seconds.f_gt(ci(0))).and(c.margin_maintenance.f_le(c.margin_initial)));
            let i = info(&w);
            let s = opt_pair(&i, which).unwrap();
            for (k, (f, _)) in names.iter().enumerate() { ckd("C23", "the stored pair configuration is the accepted one", get(&s)[k].f_eq(v[k]), || f.to_string()); }
            ck("C23", "stored durations are the accepted ones", s.price_age_max.f_eq(c.price_age_max).and(s.update_period_seconds.f_eq(c.update_period_seconds)));
            ck("C23", "a pair keeps its name", fof(s.pair_id == pair(which)));
            for k in 0..2 { if k != which { ck("C23", "no other entry changes", same_pair(&p0[k], &opt_pair(&i, k).unwrap())); } ck("C23", "no other entry changes", same_coll(&c0[k], &i.collaterals[&coll(k)])); }
            if which < 2 { ck("C23", "no other entry changes", fof(opt_pair(&i, 2).is_none())); }
            ck("C23", "no other entry changes", same_ex(&e0, &i.exchange));
            let n = 2 + (which == 2) as usize;
            let l = ask(|| w.cfg.get_pair_configs(c64(10), None));
            ck("C23", "pairs keep their positions", fof(l.len() == n && (0..n).all(|k| l[k].pair_id == pair(k))).and(ask(|| w.cfg.get_pair_configs_len()).f_eq(c64(n as i128))));
        }
        _ => {
            let (names, get, set) = coll_fields!();
            let which = pick(3, "collateral");
            let mut c = plain_coll(0);
            c.pair_id = "other".to_string();
            let v = vec![dv("discount", "-10", "10", &["0.91", "0.5", "1.1"]), dv("margin", "-10", "10", &["0.05", "0.2", "-0.1"])];
            set(&mut c, &v);
            c.price_age_max = iv("price_age_max", -1_000_000, 10_000_000_000, &[60, 65535, 65536, 65596, 0]);
            let x = c.clone();
            let two = yes("two collaterals");
            let mut list = vec![(coll(which), x)];
            if two { list.push((coll((which + 1) % 3), plain_coll(2))); }
            if transaction(vec![authority_pe()], || w.cfg.update_collateral_configs(list)).is_err() { return; }
            cover("collateral configured");
            for (k, (f, b)) in names.iter().enumerate() { ckd("C23", "an accepted collateral configuration is within its bounds", within(v[k], b), || f.to_string()); }
            ck("C23", "an accepted collateral configuration is within its bounds", c.price_age_max.f_gt(ci(0)));
            let i = info(&w);
            let s = i.collaterals.get(&coll(which)).cloned().expect("stored collateral");
            for (k, (f, _)) in names.iter().enumerate() { ckd("C23", "the stored collateral configuration is the accepted one", get(&s)[k].f_eq(v[k]), || f.to_string()); }
            ck("C23", "stored durations are the accepted ones", s.price_age_max.f_eq(c.price_age_max));
            ck("C23", "the stored collateral configuration is the accepted one", fof(s.pair_id == "other"));
            for k in 0..3 {
                if k == which { continue; }
                let want = if two && k == (which + 1) % 3 { Some(plain_coll(2)) } else if k < 2 { Some(c0[k].clone()) } else { None };
                let got = i.collaterals.get(&coll(k));
                ck("C23", "no other entry changes", match (&want, got) { (Some(a), Some(b)) => same_coll(a, b), (None, None) => Form::True, _ => Form::False });
            }
            for k in 0..2 { ck("C23", "no other entry changes", same_pair(&p0[k], &opt_pair(&i, k).unwrap())); }
            ck("C23", "no other entry changes", same_ex(&e0, &i.exchange));
        }
    }
}
/// one arbitrary field at a time through the real compact format
pub fn rounding() {
    let (w, e0, p0, c0) = world();
    set_ideal_compression(false);
    let kind = pick(3, "configuration");
    let x = |b: &Bound| match b.1 { Some(h) => Decimal::of(&scrypto::explore::fresh("value", Some(big("-1")), Some(big(h) * 2), vec![big(h), big("0.01025"), big("0.00000006789"), big(b.0)])), None => wide("value", &["1025", "12345.678", "0.123456", "1000"]) };
    match kind {
        0 => {
            let (names, get, set) = ex_fields!();
            let f = pick(names.len(), "field");
            let mut e = e0.clone();
            let v = x(&names[f].1);
            let mut vs = get(&e);
            vs[f] = v;
            set(&mut e, &vs);
            if transaction(vec![authority_pe()], || w.cfg.update_exchange_config(e)).is_err() { return; }
            cover("exchange value stored");
            let got = get(&info(&w).exchange);
            ckd("C23", "a stored value is the accepted one rounded down to the compact format's precision", rounded(v, got[f]), || names[f].0.to_string());
            ckd("C23", "stored values are within the documented bounds", within(got[f], &names[f].1), || names[f].0.to_string());
            for k in 0..names.len() { if k != f { ckd("C23", "values of three significant digits are stored exactly", got[k].f_eq(vs[k]), || names[k].0.to_string()); } }
        }
        1 => {
            let (names, get, set) = pair_fields!();
            let f = pick(names.len(), "field");
            let mut c = p0[0].clone();
            let mut vs = get(&c);
            if names[f].0 == "margin_initial" { vs[4] = zero(); }
            if names[f].0 == "margin_maintenance" { vs[3] = de("1"); }
            let v = x(&names[f].1);
            vs[f] = v;
            set(&mut c, &vs);
            if transaction(vec![authority_pe()], || w.cfg.update_pair_configs(vec![c])).is_err() { return; }
            cover("pair value stored");
            let got = get(&opt_pair(&info(&w), 0).unwrap());
            ckd("C23", "a stored value is the accepted one rounded down to the compact format's precision", rounded(v, got[f]), || names[f].0.to_string());
            ckd("C23", "stored values are within the documented bounds", within(got[f], &names[f].1), || names[f].0.to_string());
            for k in 0..names.len() { if k != f { ckd("C23", "values of three significant digits are stored exactly", got[k].f_eq(vs[k]), || names[k].0.to_string()); } }
        }
        _ => {
            let (names, get, set) = coll_fields!();
            let f = pick(names.len(), "field");
            let mut c = c0[0].clone();
            let v = x(&names[f].1);
            let mut vs = get(&c);
            vs[f] = v;
            set(&mut c, &vs);
            if transaction(vec![authority_pe()], || w.cfg.update_collateral_configs(vec![(coll(0), c)])).is_err() { return; }
            cover("collateral value stored");
            let got = get(&info(&w).collaterals[&coll(0)]);
            ckd("C23", "a stored value is the accepted one rounded down to the compact format's precision", rounded(v, got[f]), || names[f].0.to_string());
            ckd("C23", "stored values are within the documented bounds", within(got[f], &names[f].1), || names[f].0.to_string());
            ckd("C23", "values of three significant digits are stored exactly", got[1 - f].f_eq(vs[1 - f]), || names[1 - f].0.to_string());
        }
    }
}
/// values of up to three significant digits at every exponent are stored exactly
pub fn exact() {
    let (w, _, _, _) = world();
    set_ideal_compression(false);
    let k = pick(32, "exponent");
    let lo = if k == 0 { 0 } else { 100 };
    let s = iv("digits", lo, 999, &[102, 999, 512, 103, 100]);
    let v = Decimal::of(&scrypto::term::mul(&s.val(), &scrypto::term::Val::C(ten(k))));
    let mut c = plain_pair(0);
    c.oi_max = v;
    if transaction(vec![authority_pe()], || w.cfg.update_pair_configs(vec![c])).is_err() { ck("C23", "values of three significant digits are accepted", Form::False); return; }
    cover("exact value stored");
    ck("C23", "values of three significant digits are stored exactly", opt_pair(&info(&w), 0).unwrap().oi_max.f_eq(v));
}
/// the stored maintenance margin never exceeds the stored initial margin
pub fn margins() {
    let (w, _, p0, _) = world();
    set_ideal_compression(false);
    let mut c = p0[0].clone();
    let k = pick(18, "magnitude");
    let (lo, hi) = (ten(k), ten(k + 1));
    c.margin_maintenance = Decimal::of(&scrypto::explore::fresh("maintenance", Some(BigInt::from(0u8)), Some(hi.clone()), vec![&lo * 1024 / 1000, &lo * 5, &hi - 1]));
    c.margin_initial = Decimal::of(&scrypto::explore::fresh("initial", Some(lo.clone()), Some(hi.clone()), vec![&lo * 1025 / 1000, &lo * 5 + 1, hi]));
    let x = c.clone();
    if transaction(vec![authority_pe()], || w.cfg.update_pair_configs(vec![x])).is_err() { return; }
    cover("margins stored");
    let s = opt_pair(&info(&w), 0).unwrap();
    ck("C23", "the stored maintenance margin is at most the stored initial margin", s.margin_maintenance.f_le(s.margin_initial));
}
/// several entries in one call, removal, windows
pub fn entries() {
    any_order();
    let (w, e0, p0, c0) = world();
    match pick(4, "operation") {
        3 => {
            // many at once, one of them with an arbitrary value
            let odd = pick(8, "arbitrary entry");
            let v = dv("oi_max", "0", "1000000000", &["5", "7", "100"]);
            let l: Vec<PairConfig> = (0..8).rev().map(|k| { let mut c = plain_pair(0); c.pair_id = pair(k); c.oi_max = if k == odd { v } else { de("7") * de(&(k + 1).to_string()) }; c }).collect();
            let d = dv("discount", "-10", "10", &["0.9", "0.85", "1.5"]);
            let cs: Vec<(ResourceAddress, CollateralConfig)> = (0..8).map(|k| { let mut c = plain_coll(k % 3); c.pair_id = cfeed(7 - k); if k == odd { c.discount = d; } (coll(k), c) }).collect();
            let (x, y) = (l.clone(), cs.clone());
            if transaction(vec![authority_pe()], || w.cfg.update_pair_configs(x)).is_err() { return; }
            if transaction(vec![authority_pe()], || w.cfg.update_collateral_configs(y)).is_err() { return; }
            cover("many entries configured");
            ck("C23", "every entry of an accepted call is within its bounds", d.f_ge(de("0.8")).and(d.f_le(de("1"))));
            let ids: HashSet<String> = (0..8).map(pair).collect();
            let i = ask(|| w.cfg.get_info(ids)).decompress();
            for k in 0..8 {
                ck("C23", "the last entry given for a pair is stored", match i.pair_configs.get(&pair(k)).cloned().flatten() { Some(y) => if k == odd { fof(y.pair_id == pair(k)).and(rounded(v, y.oi_max)) } else { same_pair(&l[7 - k], &y) }, None => Form::False });
                ck("C23", "the last entry given for a collateral is stored", match i.collaterals.get(&coll(k)) { Some(y) => if k == odd { fof(y.pair_id == cs[k].1.pair_id).and(rounded(d, y.discount)) } else { same_coll(&cs[k].1, y) }, None => Form::False });
            }
            ck("C23", "no other entry changes", same_ex(&e0, &i.exchange));
        }
        0 => {
            // the later of two entries for one pair counts
            let (a, b, d) = (pick(3, "first"), pick(3, "second"), pick(3, "third"));
            let make = |k: usize, n: &str| { let mut c = plain_pair(0); c.pair_id = pair(k); c.oi_max = dv(n, "0", "1000000000", &["5", "7", "100"]); c };
            let l = vec![make(a, "oi0"), make(b, "oi1"), make(d, "oi2")];
            let x = l.clone();
            if transaction(vec![authority_pe()], || w.cfg.update_pair_configs(x)).is_err() { return; }
            cover("several pairs configured");
            let i = info(&w);
            for k in 0..3 {
                let want = l.iter().rev().find(|c| c.pair_id == pair(k)).cloned().or(p0.get(k).cloned());
                ck("C23", "the last entry given for a pair is stored", match (&want, &opt_pair(&i, k)) { (Some(x), Some(y)) => same_pair(x, y), (None, None) => Form::True, _ => Form::False });
            }
            let n = if [a, b, d].contains(&2) { 3 } else { 2 };
            let l = ask(|| w.cfg.get_pair_configs(c64(10), None));
            ck("C23", "pairs keep their positions", fof(l.len() == n && (0..n).all(|k| l[k].pair_id == pair(k))));
        }
        1 => {
            let k = pick(3, "collateral");
            if transaction(vec![authority_pe()], || w.cfg.remove_collateral_config(coll(k))).is_err() { return; }
            cover("collateral removed");
            let i = info(&w);
            ck("C23", "exactly the named collateral is removed", fof(i.collaterals.len() == if k < 2 { 1 } else { 2 } && !i.collaterals.contains_key(&coll(k))));
            for j in 0..2 { if j != k { ck("C23", "no other entry changes", same_coll(&c0[j], &i.collaterals[&coll(j)])); } ck("C23", "no other entry changes", same_pair(&p0[j], &opt_pair(&i, j).unwrap())); }
            ck("C23", "no other entry changes", same_ex(&e0, &i.exchange));
        }
        _ => {
            // a failing entry anywhere rejects the call
            let bad = pick(2, "bad");
            let mut l: Vec<(ResourceAddress, CollateralConfig)> = vec![(coll(0), plain_coll(2)), (coll(1), plain_coll(2))];
            l[bad].1.discount = dv("discount", "-10", "10", &["0.9", "0.5", "1.5"]);
            let v = l[bad].1.discount;
            if transaction(vec![authority_pe()], || w.cfg.update_collateral_configs(l)).is_err() { return; }
            cover("several collaterals configured");
            ck("C23", "every entry of an accepted call is within its bounds", v.f_ge(de("0.8")).and(v.f_le(de("1"))));
        }
    }
}
