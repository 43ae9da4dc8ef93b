//! Which scenarios decide which property.
use crate::{auth, boxes, cfgs, codes, evts, feeds, ops, order, reqs, risk, side, tokens, views};
use crate::order::OrderVar;
pub struct Sc { pub name: String, pub f: Box<dyn Fn() + Sync>, pub weight: f64, pub covers: Vec<&'static str> }
pub const PROPS: [&str; 31] = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C24", "C25", "C26", "C27", "C28", "C29", "C30", "C31"];
pub fn sc(name: &str, weight: f64, covers: &[&'static str], f: impl Fn() + Sync + 'static) -> Sc { Sc { name: name.to_string(), f: Box::new(f), weight, covers: covers.to_vec() } }
pub fn scenarios(p: &str) -> Vec<Sc> {
    let mut v = vec![];
    let want = |ps: &[&str]| p == "ALL" || ps.contains(&p);
    const MONEY: [&str; 3] = ["C01", "C02", "C03"];
    let m = |x: &[&'static str]| -> bool { want(&MONEY) || want(x) };
    if m(&["C05", "C06", "C09", "C10", "C11", "C25", "C31"]) { v.push(sc("order", 1.0, &["order executed", "order opens", "order closes"], order::order)); }
    if m(&["C04", "C05", "C06", "C10", "C31"]) { v.push(sc("order several", 1.0, &["order executed", "order opens", "order closes"], order::order_several)); }
    if m(&["C04", "C05", "C06", "C10", "C31"]) { v.push(sc("order wide", 0.6, &["order executed", "order opens", "order closes"], || order::order_with(OrderVar { funding: true, wide: true, ..Default::default() }))); }
    if m(&["C10", "C31"]) { v.push(sc("order limits", 1.0, &["order executed"], || order::order_with(OrderVar { limits: true, ..Default::default() }))); }
    if m(&["C04", "C10", "C06", "C31"]) { v.push(sc("order funding", 1.0, &["order executed", "order opens", "order closes"], || order::order_with(OrderVar { funding: true, ..Default::default() }))); }
    if m(&["C04", "C10", "C06"]) { v.push(sc("order accrual", 3.0, &["order executed", "order opens", "order closes"], || order::order_with(OrderVar { funding: true, period: true, ..Default::default() }))); }
    if m(&["C05", "C06", "C11", "C20", "C25", "C27", "C31"]) { v.push(sc("withdraw", 1.0, &["withdrawal executed"], ops::remove_collateral)); v.push(sc("withdraw several", 0.7, &["withdrawal executed"], ops::remove_several)); v.push(sc("withdraw many", 0.4, &["withdrawal executed"], ops::remove_many)); }
    if want(&["C20", "C31"]) { v.push(sc("withdraw precision", 0.5, &["withdrawal of a coarse token"], ops::remove_precision)); }
    if want(&["C20", "C01"]) { v.push(sc("withdraw beside", 0.5, &["withdrawal beside another account"], ops::remove_other)); }
    if m(&["C06", "C09", "C20", "C24", "C31"]) { v.push(sc("deposit", 1.0, &["collateral added", "collateral added with a delegated fee"], ops::add_collateral)); v.push(sc("deposit many", 0.4, &["collateral added"], ops::add_many)); }
    if m(&["C05", "C18", "C31"]) { v.push(sc("add liquidity", 0.5, &["liquidity added"], ops::lp_add)); }
    if m(&["C05", "C09", "C18", "C31"]) { v.push(sc("remove liquidity", 0.5, &["liquidity removed"], ops::lp_remove)); }
    if want(&["C18"]) { v.push(sc("liquidity fair add", 1.0, &["liquidity changed"], || ops::lp_fair(true))); v.push(sc("liquidity fair remove", 1.0, &["liquidity changed"], || ops::lp_fair(false))); v.push(sc("liquidity round trip", 1.0, &["added and removed"], ops::lp_round_trip)); }
    if want(&["C18", "C19", "C27"]) { v.push(sc("wrong token", 0.3, &["accepted token"], ops::lp_wrong)); }
    if m(&["C27", "C31"]) { v.push(sc("collect", 0.5, &["protocol fees swapped", "referral rewards collected", "treasury collected", "delegated fees collected", "collected again"], ops::collect)); }
    if m(&["C19", "C20", "C31"]) { v.push(sc("swap debt", 1.0, &["debt swapped", "all collateral bought"], ops::swap_debt)); }
    if m(&["C04", "C05", "C07", "C11", "C20", "C25", "C31"]) { v.push(sc("liquidate", 1.0, &["account liquidated"], risk::liquidate)); v.push(sc("liquidate several", 1.0, &["account liquidated"], risk::liquidate_several)); v.push(sc("liquidate many", 0.6, &["account liquidated"], risk::liquidate_many)); }
    if m(&["C04", "C05", "C08", "C25", "C31"]) { v.push(sc("deleverage", 1.0, &["long position deleveraged", "short position deleveraged"], risk::adl)); }
    if m(&["C04", "C31"]) { v.push(sc("funding", 1.0, &["pair updated", "zero period", "one side empty", "longs pay", "shorts pay"], risk::funding)); }
    if m(&["C04"]) { v.push(sc("up to date", 1.0, &["liquidated after a while", "ordered after a while", "deleveraged after a while"], risk::up_to_date)); }
    if want(&["C04"]) { v.push(sc("funding sum", 1.0, &["pair updated"], risk::funding_sum)); }
    if m(&["C25", "C31"]) { v.push(sc("update reward", 1.0, &["pairs updated", "no update due", "update due", "updated again"], risk::update_reward)); }
    if want(&["C09", "C11", "C12", "C20", "C28", "C31"]) { v.push(sc("place requests", 1.0, &["withdrawal requested", "order requested", "combined order requested", "take profit and stop loss"], reqs::place)); }
    if want(&["C01", "C11", "C12", "C20", "C25", "C31"]) { v.push(sc("request window", 0.7, &["request processed", "expired request marked", "request executed in time", "closing order processed"], reqs::window)); }
    if want(&["C11", "C12", "C28", "C31"]) { v.push(sc("linked orders", 2.0, &["linked order executed", "linked order without a position"], reqs::links)); }
    if want(&["C01", "C11", "C12", "C28", "C31"]) { v.push(sc("cancel requests", 0.5, &["requests cancelled"], reqs::cancel)); }
    if want(&["C11", "C12", "C28"]) { v.push(sc("cancel many", 0.4, &["many requests cancelled"], reqs::cancel_many)); }
    if want(&["C09"]) { v.push(sc("position limit", 0.7, &["order executed", "position opened"], reqs::positions_max)); }
    if want(&["C13"]) { v.push(sc("account levels", 1.0, &auth::ACCOUNT_OPS, auth::levels_needed)); }
    if want(&["C14"]) { v.push(sc("component authority", 1.0, &auth::component_names(), auth::component_authority)); v.push(sc("entry point roles", 1.0, &auth::ROLE_OPS.iter().map(|r| r.1).collect::<Vec<_>>(), auth::roles)); }
    if want(&["C15"]) { v.push(sc("registry", 1.0, &["accounts created", "rule set", "rule added", "recovery key created"], auth::registry)); }
    if want(&["C16"]) { v.push(sc("price pushes", 2.0, &["signed", "another key's signature", "signature over other data", "unknown key", "removed key", "no signature", "added key", "replaced key", "changed data", "every key removed", "stored prices queried", "missing pair"], feeds::pushes)); v.push(sc("many prices", 0.4, &["many quotes pushed"], feeds::push_many)); v.push(sc("price removal", 0.3, &["price removed"], feeds::removal)); }
    if want(&["C17"]) { v.push(sc("fresh prices", 2.0, &["order", "withdrawal", "debt swap", "liquidation", "deleverage", "pair update", "prices pushed with the call"], feeds::fresh_prices)); v.push(sc("own feeds", 1.0, &["liquidation at own feeds", "update at own feeds", "swap at own feeds"], feeds::own_feeds)); }
    if want(&["C21"]) { v.push(sc("referral funding", 1.0, &["allocation added", "codes created", "referral minted with allocation"], codes::funding)); v.push(sc("referral claims", 1.0, &["codes from allocation", "allocation exhausted", "taken code", "used code", "taken code from allocation", "another referrer's allocation", "code claimed", "code claimed repeatedly", "second claim"], codes::claims)); v.push(sc("many codes", 0.4, &["many codes", "many codes claimed"], codes::claims_many)); }
    if want(&["C05", "C21"]) { v.push(sc("referral terms", 0.3, &["referral minted", "referral minted with allocation", "referral updated"], codes::terms)); }
    if want(&["C22"]) { v.push(sc("wrap and unwrap", 1.0, &["wrapped", "unwrapped", "token refused", "token configured"], tokens::wrap_unwrap)); v.push(sc("flash loan", 1.0, &["loan taken", "loan repaid", "loan left open"], tokens::flash_loan)); }
    if want(&["C23"]) {
        v.push(sc("config fields", 1.0, &["exchange configured", "pair configured", "collateral configured"], cfgs::fields_kept));
        v.push(sc("config rounding", 3.0, &["exchange value stored", "pair value stored", "collateral value stored"], cfgs::rounding));
        v.push(sc("config exact", 1.0, &["exact value stored"], cfgs::exact));
        v.push(sc("config margins", 2.0, &["margins stored"], cfgs::margins));
        v.push(sc("config entries", 0.5, &["several pairs configured", "collateral removed", "several collaterals configured", "many entries configured"], cfgs::entries));
    }
    if want(&["C29"]) { v.push(sc("environment", 1.0, &["variables set", "variables removed", "variables read"], side::env)); }
    if want(&["C30"]) { v.push(sc("faucet", 1.0, &["amount configured", "drawn", "drawn again", "minted by the owner", "users changed", "minter changed"], side::faucet)); }
    if want(&["C31"]) { v.push(sc("owner events", 0.5, &["upgrade signalled", "exchange configuration reported", "pair configurations reported", "collateral configurations reported", "collateral removal reported", "account created", "account created with a referral code"], evts::admin)); }
    if want(&["C28"]) {
        v.push(sc("account details", 1.5, &["account details"], views::account));
        v.push(sc("pool and pair details", 1.0, &["pool details", "pair details", "pair pages", "configurations", "referral details"], views::pool));
        v.push(sc("pages", 1.0, &["request page", "request tail", "single request", "wrapped tokens page"], views::pages));
        v.push(sc("long pages", 1.0, &["long request page", "long request tail"], views::long_pages));
    }
    if want(&["C26"]) {
        v.push(sc("list", 1.0, &["pushed", "updated", "update rejected", "written", "window"], boxes::list));
        v.push(sc("keyed list", 1.0, &["inserted", "replaced", "written", "window"], boxes::hash_list));
        v.push(sc("long lists", 1.0, &["long window of a list", "long window of a keyed list"], boxes::long));
        v.push(sc("vaults", 1.0, &["put", "put several", "taken", "taken several"], boxes::vaults));
    }
    if want(&["C24"]) { v.push(sc("lock fee", 0.5, &["fee locked"], tokens::lock)); v.push(sc("oath use", 0.3, &["oath burned", "oath kept", "oath put away", "oath dropped"], tokens::oaths)); }
    if want(&["C01", "C06", "C24", "C31"]) { v.push(sc("delegated fees", 1.0, &tokens::OATH_OPS, tokens::charges)); }
    v
}
