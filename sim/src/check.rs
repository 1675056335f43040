//! One simulated step and everything that is checked about it: the real execution against the
//! reference model, the invariants over the state reached, the public read queries, and the events.
use crate::act::*;
use crate::ledger::*;
use crate::model::*;
use crate::st::*;
use crate::world::*;
use radix_common::prelude::*;
use radix_engine_interface::prelude::*;
use radix_transactions::prelude::*;
use std::collections::{BTreeMap, BTreeSet};

pub type Tags = BTreeSet<&'static str>;
#[derive(Clone, Debug)]
pub struct Bad {
    pub tags: Tags,
    pub what: String,
    /// A short, stable name of what failed, for grouping and known findings.
    pub key: String,
}
pub fn tags(v: &[&'static str]) -> Tags {
    v.iter().copied().collect()
}

pub struct Sim {
    pub w: World,
    pub h: Handles,
    pub s: St,
    pub model_ok: u64,
    pub accepted: BTreeMap<&'static str, u64>,
    pub refused: BTreeMap<String, u64>,
    pub injected: BTreeMap<&'static str, u64>,
    pub fragile: u64,
    pub states: BTreeSet<u64>,
    pub events: u64,
    pub notes: BTreeMap<&'static str, u64>,
    pub skipped: u64,
    /// In the drain phase: what must be accepted is said by the drain, not only by the model.
    pub log: Option<Vec<String>>,
    pub looks: u64,
    pub drain_steps: u64,
}

/// The properties an operation of this kind is about.
pub fn kind_tags(a: &Act, s0: &St) -> Tags {
    let mut t = Tags::new();
    if matches!(a, Act::Batch(_) | Act::Flash { inner: Some(_), .. }) {
        t.insert("C38");
    }
    for a in a.flat() {
        let x: &[&'static str] = match a {
            Act::PushOracle { .. } | Act::OracleGet { .. } | Act::OracleAdd { .. } | Act::OracleDel { .. } | Act::OracleDelPrice { .. } => &["C15"],
            Act::AddLiq { .. } | Act::RemLiq { .. } => &["C17"],
            Act::NewAcct { code, .. } => if code.is_some() { &["C20", "C23", "C22", "C03"] } else { &["C20", "C03", "C23"] },
            Act::RecKey { .. } | Act::AddRule { .. } | Act::SetRule { .. } => &["C19", "C20"],
            Act::AddColl { .. } => &["C03", "C19"],
            Act::ReqRemove { .. } => &["C09", "C18", "C19", "C37"],
            Act::ReqOrder { .. } => &["C09", "C10", "C04", "C19", "C37"],
            Act::ReqTpSl { .. } => &["C09", "C10", "C04", "C19", "C37"],
            Act::Cancel { .. } => &["C09", "C10", "C19"],
            Act::Process { acct, idx, .. } => match s0.accts.get(acct).and_then(|q| q.reqs.get(*idx as usize)).map(|k| &k.req) {
                Some(Req::Remove(_)) => &["C18", "C09"],
                Some(Req::Order(_)) => &["C04", "C05", "C09", "C10"],
                None => &["C09"],
            },
            Act::SwapDebt { .. } => &["C14"],
            Act::Liquidate { .. } => &["C11", "C12"],
            Act::Adl { .. } => &["C13"],
            Act::UpdatePairs { .. } => &["C08", "C32"],
            Act::SwapProtocol { .. } | Act::CollectTreasury => &["C24"],
            Act::CollectDelegator => &["C24", "C25"],
            Act::MintRef { .. } | Act::UpdRef { .. } | Act::AddAlloc { .. } | Act::Codes { .. } | Act::CodesAlloc { .. } => &["C23"],
            Act::CollectRef { .. } => &["C22"],
            Act::SetX { .. } | Act::SetPairs { .. } | Act::SetColls { .. } | Act::DelColl { .. } => &["C27"],
            Act::WithdrawAuth | Act::DepositAuth { .. } | Act::Signal => &["C28"],
            Act::Lock { .. } | Act::DelMax { .. } | Act::DelMult { .. } | Act::DelCont { .. } | Act::DelDeposit { .. } | Act::DelWithdraw { .. } => &["C25"],
            Act::Wrap { .. } | Act::Unwrap { .. } | Act::Flash { .. } | Act::WrapAdd { .. } | Act::WrapSet { .. } => &["C26"],
            Act::Burn { .. } => &["C26"],
            Act::Intrude { what, .. } => match what {
                0 | 2 | 32 | 47 | 53 => &["C21", "C19"],
                1 => &["C21", "C22"],
                3 => &["C21", "C03"],
                4..=6 | 43 => &["C21", "C01"],
                7..=10 => &["C21", "C27"],
                11..=15 | 46 => &["C21", "C15"],
                16..=19 => &["C21", "C23"],
                20..=22 | 41 => &["C21", "C24"],
                23..=25 | 31 | 38 | 44 => &["C21", "C25"],
                26 => &["C21", "C20"],
                28 => &["C21", "C17"],
                29 => &["C21", "C32"],
                30 | 35..=37 | 39 | 45 => &["C21", "C26"],
                33 | 34 | 54..=56 => &["C21", "C34"],
                57 | 62 => &["C21", "C25"],
                58 => &["C21", "C26"],
                63 => &["C21", "C19"],
                _ => &["C21"],
            },
            Act::Forge { .. } => &["C39"],
            Act::FauFree | Act::FauSet { .. } | Act::FauMint { .. } => &["C34"],
            Act::EnvSet { .. } | Act::EnvDel { .. } | Act::EnvGet { .. } => &["C35"],
            Act::Look { .. } => &["C30"],
            Act::Idle | Act::Batch(_) => &[],
        };
        t.extend(x);
        if a.oath().is_some() {
            t.insert("C25");
        }
    }
    t
}

/// The properties that a wrong decision about this condition violates.
fn why_tags(why: &str, a: &Act, s0: &St) -> Tags {
    let oath = a.flat().iter().any(|a| a.oath().is_some());
    let removal = matches!(a, Act::Process { acct, idx, .. } if matches!(s0.accts.get(acct).and_then(|q| q.reqs.get(*idx as usize)).map(|k| &k.req), Some(Req::Remove(_))));
    let mut t: Tags = match why {
        "admin" | "intrude" => tags(&["C21"]),
        "forge" => tags(&["C39"]),
        "authority" => tags(&["C28"]),
        "level1" | "level2" | "level3" => tags(&["C19", "C21"]),
        "data" | "key" | "signature" | "key_exists" => tags(&["C15"]),
        "price_missing" | "price_old" | "price_sign" => tags(&["C16"]),
        "collateral" => tags(&["C03", "C14", "C23"]),
        "collaterals_max" | "oi" | "positions" | "skew" | "size" | "active_max" | "claims_max" | "links_max" => tags(&["C07"]),
        "margin" => {
            let mut t = tags(&["C06"]);
            if oath {
                t.insert("C25");
            }
            if removal {
                t.insert("C18");
            }
            t
        }
        "price_limit" | "slippage" => tags(&["C04"]),
        "valid_start" => tags(&["C09", "C12"]),
        "submission" | "request_status" | "request_missing" | "status_arg" => tags(&["C09"]),
        "healthy" => tags(&["C11"]),
        "payment_small" => match a {
            Act::Liquidate { .. } => tags(&["C12"]),
            Act::SwapProtocol { .. } => tags(&["C24"]),
            _ => tags(&["C26"]),
        },
        "payment" => tags(&["C39"]),
        "skew_low" | "adl_rank" | "skew_not_reduced" | "no_position" => tags(&["C13"]),
        "no_debt" => tags(&["C14"]),
        "referral_proof" => tags(&["C22", "C23", "C39"]),
        "referral_terms" | "referral_limit" | "claim" | "tokens" | "code_claims" | "code_exists" | "code_missing" | "code_used" | "alloc_missing" | "alloc_limit" => tags(&["C23"]),
        "config" => tags(&["C27"]),
        "oath" | "max_lock" | "delegator_empty" => tags(&["C25"]),
        "flash_oath" => tags(&["C26", "C39"]),
        "child" | "wrap_off" | "child_balance" | "burn" => tags(&["C26"]),
        "target" => tags(&["C18", "C39"]),
        "balance" => tags(&["C18", "C14", "C03"]),
        "pool_tokens" => tags(&["C17", "C18", "C24", "C01"]),
        _ => Tags::new(),
    };
    t.extend(kind_tags(a, s0));
    t
}

/// Words of the real refusal that say which rule was applied.
fn msg_tags(msg: &str) -> Tags {
    let m = msg.to_uppercase();
    let mut t = Tags::new();
    for (k, v) in [
        ("MARGIN", &["C06"][..]),
        ("SKEW", &["C07", "C13"]),
        ("OPEN INTEREST", &["C07"]),
        ("OI", &["C07"]),
        ("ACTIVE", &["C09", "C07"]),
        ("REQUEST", &["C09"]),
        ("PRICE LIMIT", &["C04"]),
        ("SLIPPAGE", &["C04"]),
        ("AUTH", &["C19", "C21"]),
        ("PRICE", &["C16"]),
        ("SIGNATURE", &["C15"]),
        ("LIQUIDATION", &["C11"]),
        ("ADL", &["C13"]),
        ("BALANCE", &["C03", "C18"]),
        ("REFERRAL", &["C23"]),
        ("ALLOCATION", &["C23"]),
        ("DIRECTORY", &["C20"]),
        ("TRADE SIZE", &["C07"]),
        ("POSITIONS TOO MANY", &["C07"]),
        ("COLLATERALS TOO MANY", &["C07"]),
        ("CLAIMS LIST", &["C07", "C37"]),
        ("EFFECTED", &["C07", "C10"]),
        ("POOL BALANCE", &["C17", "C18", "C24"]),
        ("DATA", &["C15"]),
        ("KEY ID", &["C15"]),
        ("BEFORE VALID START", &["C12"]),
        ("FEED", &["C16", "C27"]),
        ("CONFIG", &["C27"]),
        ("COLLATERAL", &["C03"]),
    ] {
        if m.contains(k) {
            t.extend(v);
        }
    }
    t
}

pub struct Diff {
    pub group: &'static str,
    /// The account concerned, if any.
    pub acct: Option<u16>,
    pub what: String,
}
struct D {
    v: Vec<Diff>,
    acct: Option<u16>,
}
impl D {
    fn n(&mut self, group: &'static str, name: impl Fn() -> String, exp: Dec, got: Dec) {
        if !close(exp, got) {
            self.v.push(Diff { group, acct: self.acct, what: format!("{}: expected {}, got {}", name(), exp, got) });
        }
    }
    fn e<T: PartialEq + std::fmt::Debug>(&mut self, group: &'static str, name: impl Fn() -> String, exp: &T, got: &T) {
        if exp != got {
            let mut x = format!("{}: expected {:?}, got {:?}", name(), exp, got);
            x.truncate(600);
            self.v.push(Diff { group, acct: self.acct, what: x });
        }
    }
    fn map<K: Ord + std::fmt::Debug>(&mut self, group: &'static str, name: &str, exp: &BTreeMap<K, Dec>, got: &BTreeMap<K, Dec>) {
        let keys: BTreeSet<&K> = exp.keys().chain(got.keys()).collect();
        for k in keys {
            self.n(group, || format!("{}[{:?}]", name, k), exp.get(k).copied().unwrap_or_default(), got.get(k).copied().unwrap_or_default());
        }
    }
}

pub fn diff(e: &St, g: &St, loose_xrd: bool) -> Vec<Diff> {
    let mut d = D { v: vec![], acct: None };
    d.e("cfg", || "exchange configuration".into(), &e.xc, &g.xc);
    d.e("cfg", || "pair configurations".into(), &e.pairs, &g.pairs);
    d.e("cfg", || "collateral configurations".into(), &e.colls, &g.colls);
    d.e("prices", || "oracle prices".into(), &e.prices, &g.prices);
    d.e("keys", || "oracle keys".into(), &e.keys, &g.keys);
    let (p, q) = (&e.pool, &g.pool);
    d.n("base", || "pool tokens".into(), p.base, q.base);
    d.n("vb", || "pool balance".into(), p.vb, q.vb);
    d.n("upf", || "pool funding".into(), p.upf, q.upf);
    d.n("snap", || "pool skew".into(), p.skew, q.skew);
    d.n("snap", || "pool pnl".into(), p.pnl, q.pnl);
    let keys: BTreeSet<&String> = p.pos.keys().chain(q.pos.keys()).collect();
    for k in keys {
        match (p.pos.get(k), q.pos.get(k)) {
            (Some(a), Some(b)) => {
                d.n("ppos", || format!("{} long interest", k), a.oi_long, b.oi_long);
                d.n("ppos", || format!("{} short interest", k), a.oi_short, b.oi_short);
                d.n("ppos", || format!("{} cost", k), a.cost, b.cost);
                d.n("snap", || format!("{} skew", k), a.skew, b.skew);
                d.n("snap", || format!("{} pnl", k), a.pnl, b.pnl);
                d.n("fund", || format!("{} adaptive rate", k), a.f2, b.f2);
                d.n("fund", || format!("{} long index", k), a.idx_long, b.idx_long);
                d.n("fund", || format!("{} short index", k), a.idx_short, b.idx_short);
                d.e("fund", || format!("{} last update", k), &a.last_update, &b.last_update);
                d.e("fund", || format!("{} last price", k), &a.last_price, &b.last_price);
            }
            (None, Some(b)) if b.oi_long.is_zero() && b.oi_short.is_zero() && b.cost.is_zero() => {}
            (Some(a), None) if a.oi_long.is_zero() && a.oi_short.is_zero() && a.cost.is_zero() => {}
            (a, b) => d.e("ppos", || format!("pool position {}", k), &a.is_some(), &b.is_some()),
        }
    }
    let keys: BTreeSet<&u16> = e.accts.keys().chain(g.accts.keys()).collect();
    for k in keys {
        d.acct = Some(*k);
        match (e.accts.get(k), g.accts.get(k)) {
            (Some(a), Some(b)) => {
                let pk: BTreeSet<&String> = a.pos.keys().chain(b.pos.keys()).collect();
                for p in pk {
                    match (a.pos.get(p), b.pos.get(p)) {
                        (Some(x), Some(y)) => {
                            d.n("pos", || format!("account {} {} amount", k, p), x.amount, y.amount);
                            d.n("pos", || format!("account {} {} cost", k, p), x.cost, y.cost);
                            d.n("idx", || format!("account {} {} funding index", k, p), x.idx, y.idx);
                        }
                        (x, y) => d.e("pos", || format!("account {} position {}", k, p), &x, &y),
                    }
                }
                d.map("coll", &format!("account {} collateral", k), &a.coll, &b.coll);
                d.map("coll", &format!("account {} tokens", k), &a.held, &b.held);
                d.n("vb", || format!("account {} balance", k), a.vb, b.vb);
                if a.reqs != b.reqs {
                    for i in 0..a.reqs.len().max(b.reqs.len()) {
                        let (x, y) = (a.reqs.get(i), b.reqs.get(i));
                        d.e("req", || format!("account {} request {}", k, i), &x, &y);
                    }
                }
                d.e("active", || format!("account {} active requests", k), &a.active, &b.active);
                d.e("valid", || format!("account {} first valid request", k), &a.valid_start, &b.valid_start);
                d.e("referral", || format!("account {} referral", k), &a.referral, &b.referral);
                for l in 0..3 {
                    d.e("rules", || format!("account {} level {} rule", k, l + 1), &a.rules[l], &b.rules[l]);
                }
            }
            (a, b) => d.e("acct", || format!("account {}", k), &a.is_some(), &b.is_some()),
        }
    }
    d.acct = None;
    d.n("dist", || "protocol balance".into(), e.protocol, g.protocol);
    d.n("dist", || "treasury balance".into(), e.treasury, g.treasury);
    d.n("del", || "delegation balance".into(), e.del.vb, g.del.vb);
    d.e("del", || "delegation limit".into(), &e.del.max_lock, &g.del.max_lock);
    d.e("del", || "delegation multiplier".into(), &e.del.mult, &g.del.mult);
    d.e("del", || "delegation contingent".into(), &e.del.contingent, &g.del.contingent);
    if !loose_xrd {
        d.n("del", || "delegation XRD".into(), e.del.xrd, g.del.xrd);
    }
    let keys: BTreeSet<&u16> = e.refs.keys().chain(g.refs.keys()).collect();
    for k in keys {
        match (e.refs.get(k), g.refs.get(k)) {
            (Some((i, a)), Some((j, b))) => {
                d.e("refdata", || format!("referral {} id", k), i, j);
                d.n("refbal", || format!("referral {} balance", k), a.balance, b.balance);
                d.n("refbal", || format!("referral {} total", k), a.total_rewarded, b.total_rewarded);
                d.e("refcount", || format!("referral {} count", k), &(a.referrals, a.max_referrals), &(b.referrals, b.max_referrals));
                d.e("refdata", || format!("referral {} terms", k), &(a.fee_referral, a.fee_rebate), &(b.fee_referral, b.fee_rebate));
                d.e("refdata", || format!("referral {} text", k), &(&a.name, &a.description), &(&b.name, &b.description));
            }
            (a, b) => d.e("refdata", || format!("referral {}", k), &a.is_some(), &b.is_some()),
        }
    }
    d.e("alloc", || "allocations".into(), &e.allocs, &g.allocs);
    d.e("codes", || "codes".into(), &e.codes, &g.codes);
    d.map("gen", "promised tokens", &e.gen_held, &g.gen_held);
    if e.perms != g.perms {
        let keys: BTreeSet<&AccessRule> = e.perms.keys().chain(g.perms.keys()).collect();
        for k in keys {
            d.e("perms", || format!("directory of {:?}", k), &e.perms.get(k).cloned().unwrap_or_default(), &g.perms.get(k).cloned().unwrap_or_default());
        }
    }
    d.e("wrap", || "wrapper holdings".into(), &e.wrap, &g.wrap);
    d.e("wrap", || "wrapper listing".into(), &e.wrap_list, &g.wrap_list);
    d.n("supply_base", || "base supply".into(), e.supply_base, g.supply_base);
    d.n("lp", || "LP supply".into(), e.supply_lp, g.supply_lp);
    d.n("reward", || "reward supply".into(), e.supply_reward, g.supply_reward);
    d.e("supply_protocol", || "protocol token supply".into(), &e.supply_protocol, &g.supply_protocol);
    d.e("oath", || "oath supply".into(), &e.supply_oath, &g.supply_oath);
    d.e("authority", || "authority held".into(), &e.authority, &g.authority);
    d.map("wallet", "wallet", &e.wallet, &g.wallet);
    d.e("fau", || "faucet amounts".into(), &e.fau, &g.fau);
    d.e("fau", || "faucet token supplies".into(), &e.fau_supply, &g.fau_supply);
    d.e("env", || "environment".into(), &e.env, &g.env);
    d.v
}

fn group_tags(g: &str) -> &'static [&'static str] {
    match g {
        "cfg" => &["C27", "C21"],
        "prices" => &["C15", "C21"],
        "keys" => &["C15", "C21"],
        "base" => &["C01", "C03"],
        "vb" => &["C01"],
        "upf" => &["C08", "C01"],
        "snap" => &["C02"],
        "ppos" => &["C02", "C05"],
        "fund" | "idx" => &["C08"],
        "pos" => &["C04", "C05"],
        "coll" => &["C03"],
        "req" | "active" => &["C09", "C10"],
        "valid" => &["C09", "C12"],
        "referral" => &["C22", "C23"],
        "rules" => &["C19", "C20"],
        "acct" => &["C21", "C20"],
        "dist" => &["C24", "C05"],
        "del" => &["C25", "C21"],
        "refbal" => &["C22"],
        "refcount" => &["C23"],
        "refdata" => &["C22", "C23"],
        "alloc" | "codes" | "gen" => &["C23"],
        "perms" => &["C20"],
        "wrap" | "supply_base" => &["C26"],
        "lp" => &["C17"],
        "reward" => &["C32"],
        "supply_protocol" => &["C24"],
        "oath" => &["C25"],
        "authority" => &["C28"],
        "wallet" => &["C03"],
        "fau" => &["C34", "C21"],
        "env" => &["C35", "C21"],
        _ => &[],
    }
}

/// What else a wrong effect can mean, given what the operation does.
fn effect_tags(a: &Act, s0: &St, ds: &[Diff]) -> Tags {
    let mut t = unlisted_tags(a, s0);
    let has = |g: &[&str]| ds.iter().any(|d| g.contains(&d.group));
    // A trade settles funding, fees and profit into the same balances.
    let trade = a.flat().iter().any(|a| matches!(a, Act::Process { .. } | Act::Liquidate { .. } | Act::Adl { .. }));
    if trade && has(&["vb", "pos", "upf"]) {
        t.extend(["C05", "C08"]);
    }
    if trade && has(&["vb", "dist", "refbal"]) && a.accounts().iter().any(|i| s0.accts.get(i).map(|q| q.referral.is_some()).unwrap_or(false)) {
        t.insert("C22");
    }
    // The price acted on.
    if ds.iter().any(|d| d.what.contains("last price")) || a.flat().iter().any(|a| matches!(a, Act::SwapDebt { .. } | Act::Liquidate { .. })) {
        t.insert("C16");
    }
    if has(&["snap", "fund"]) && a.flat().iter().any(|a| matches!(a, Act::Process { push: Some(_), .. } | Act::SwapDebt { push: Some(_), .. } | Act::Liquidate { push: Some(_), .. } | Act::Adl { push: Some(_), .. } | Act::UpdatePairs { push: Some(_), .. })) {
        t.extend(["C15", "C16"]);
    }
    t
}

/// An operation on an account that holds a token whose configuration was removed.
fn unlisted_tags(a: &Act, s0: &St) -> Tags {
    if a.accounts().iter().any(|i| s0.accts.get(i).map(|q| q.coll.keys().any(|r| !s0.colls.contains_key(r))).unwrap_or(false)) {
        tags(&["C27"])
    } else {
        Tags::new()
    }
}

/// Facts that must hold in every reachable state, whatever led there.
pub fn invariants(w: &World, s: &St) -> Vec<Bad> {
    let mut v: Vec<Bad> = vec![];
    let mut bad = |t: &[&'static str], key: &str, what: String| v.push(Bad { tags: tags(t), key: format!("invariant {}", key), what });
    let accts: Dec = s.accts.values().map(|a| a.vb).fold(Dec::ZERO, |a, b| a + b);
    let refs: Dec = s.refs.values().map(|r| r.1.balance).fold(Dec::ZERO, |a, b| a + b);
    let net = s.pool.vb + accts + s.protocol + s.treasury + refs + s.del.vb;
    if !net.is_zero() {
        bad(&["C01"], "net", format!("balances do not net to zero: pool {} + accounts {} + protocol {} + treasury {} + referrals {} + delegation {} = {}", s.pool.vb, accts, s.protocol, s.treasury, refs, s.del.vb, net));
    }
    let mut pairs: BTreeMap<&String, (Dec, Dec, Dec)> = BTreeMap::new();
    for a in s.accts.values() {
        for (p, x) in &a.pos {
            let e = pairs.entry(p).or_insert((Dec::ZERO, Dec::ZERO, Dec::ZERO));
            if x.amount.is_positive() {
                e.0 += x.amount;
            } else {
                e.1 -= x.amount;
            }
            e.2 += x.cost;
            if x.amount.is_zero() {
                bad(&["C02"], "zero position", format!("an empty position is kept in {}", p));
            }
        }
    }
    for (p, x) in &s.pool.pos {
        let e = pairs.get(p).copied().unwrap_or_default();
        if x.oi_long != e.0 || x.oi_short != e.1 || x.cost != e.2 {
            bad(&["C02"], "totals", format!("{}: pool has long {} short {} cost {}, positions sum to {} {} {}", p, x.oi_long, x.oi_short, x.cost, e.0, e.1, e.2));
        }
        // The snapshots of a market are those of its own totals at its own last processed price.
        let skew = (x.oi_long - x.oi_short) * x.last_price;
        if !close(skew.checked_abs().unwrap(), x.skew) || !close(x.cost - skew, x.pnl) {
            bad(&["C02"], "snapshots", format!("{}: snapshots skew {} pnl {} are not those of the totals at {}", p, x.skew, x.pnl, x.last_price));
        }
        // The adaptive rate cannot exceed what open interest supports by more than what is still decaying: checked by the model.
    }
    for p in pairs.keys() {
        if !s.pool.pos.contains_key(*p) {
            bad(&["C02"], "totals", format!("{}: positions exist but the pool has none", p));
        }
    }
    let sk = s.pool.pos.values().map(|p| p.skew).fold(Dec::ZERO, |a, b| a + b);
    let pn = s.pool.pos.values().map(|p| p.pnl).fold(Dec::ZERO, |a, b| a + b);
    if sk != s.pool.skew || pn != s.pool.pnl {
        bad(&["C02"], "pool snapshots", format!("pool skew {} pnl {} against per-market sums {} {}", s.pool.skew, s.pool.pnl, sk, pn));
    }
    for (i, a) in &s.accts {
        let held: BTreeMap<Res, Dec> = a.coll.iter().filter(|x| !x.1.is_zero()).map(|(k, v)| (*k, *v)).collect();
        if held != a.held {
            bad(&["C03"], "held", format!("account {}: recorded {:?}, held {:?}", i, held, a.held));
        }
        let live: BTreeSet<u64> = a.reqs.iter().enumerate().filter(|(i, k)| *i as u64 >= a.valid_start && k.live()).map(|(i, _)| i as u64).collect();
        if live != a.active {
            bad(&["C09", "C10", "C07"], "active set", format!("account {}: live requests {:?}, listed as active {:?}", i, live, a.active));
        }
    }
    let backing = s.wrap.values().map(|x| x.0).fold(Dec::ZERO, |a, b| a + b);
    if backing < s.supply_base {
        bad(&["C26"], "backing", format!("{} base tokens in circulation, {} listed tokens held", s.supply_base, backing));
    }
    // Promised tokens of unclaimed codes and allocations are held.
    let mut owed: BTreeMap<Res, Dec> = BTreeMap::new();
    for c in s.codes.values() {
        for (r, x) in &c.claims {
            *owed.entry(*r).or_default() += floor_to(*x, divisibility(w, *r)) * Decimal::from(c.max - c.count.min(c.max));
        }
        if c.count > c.max {
            bad(&["C23"], "code count", format!("a code was claimed {} times of {}", c.count, c.max));
        }
    }
    for l in s.allocs.values() {
        for x in l {
            for (r, v) in &x.claims {
                *owed.entry(*r).or_default() += floor_to(*v, divisibility(w, *r)) * Decimal::from(x.max - x.count.min(x.max));
            }
            if x.count > x.max {
                bad(&["C23"], "allocation count", format!("an allocation was used {} times of {}", x.count, x.max));
            }
        }
    }
    for (r, x) in owed {
        let have = s.gen_held.get(&r).copied().unwrap_or_default();
        if have < x {
            bad(&["C23"], "promises", format!("{} promised, {} held", x, have));
        }
    }
    // Directory against rules.
    let mut want: BTreeMap<AccessRule, Perm> = BTreeMap::new();
    for a in s.accts.values() {
        for l in 0..3 {
            let mut rs = vec![a.rules[l].clone()];
            if let AccessRule::Protected(AccessRuleNode::AnyOf(v)) = &a.rules[l] {
                rs.extend(v.iter().map(|n| AccessRule::Protected(n.clone())));
            }
            for r in rs {
                want.entry(r).or_default().0[l].insert(a.addr);
            }
        }
    }
    if want != s.perms {
        let keys: BTreeSet<&AccessRule> = want.keys().chain(s.perms.keys()).collect();
        for k in keys {
            if want.get(k) != s.perms.get(k) {
                let mut x = format!("{:?}: rules say {:?}, directory says {:?}", k, want.get(k), s.perms.get(k));
                x.truncate(700);
                bad(&["C20"], "directory", x);
                break;
            }
        }
    }
    v
}

fn method_of(a: &Act) -> Option<&'static str> {
    Some(match a {
        Act::PushOracle { .. } => "push_and_get_prices",
        Act::OracleGet { .. } => "get_prices",
        Act::ReqRemove { .. } => "remove_collateral_request",
        Act::ReqOrder { .. } => "margin_order_request",
        Act::ReqTpSl { .. } => "margin_order_tp_sl_request",
        Act::UpdatePairs { .. } => "update_pairs",
        Act::AddAlloc { .. } => "add_referral_allocation",
        Act::EnvGet { .. } => "get_variables",
        _ => return None,
    })
}
fn post_order<'a>(a: &'a Act, v: &mut Vec<&'a Act>) {
    match a {
        Act::Batch(x) => x.iter().for_each(|a| post_order(a, v)),
        Act::Flash { inner: Some(i), .. } => {
            post_order(i, v);
            v.push(a);
        }
        a => v.push(a),
    }
}
pub fn hash64(b: &[u8]) -> u64 {
    let h = hash(b);
    u64::from_be_bytes(h.0[..8].try_into().unwrap())
}

impl Sim {
    pub fn new(world: &World) -> Sim {
        let w = world.clone();
        let mut h = Handles::new();
        h.wallet = read_wallets(&w);
        let s = read(&w, &mut h);
        Sim {
            w,
            h,
            s,
            model_ok: 0,
            accepted: Default::default(),
            refused: Default::default(),
            injected: Default::default(),
            fragile: 0,
            states: Default::default(),
            events: 0,
            notes: Default::default(),
            skipped: 0,
            log: None,
            looks: 0,
            drain_steps: 0,
        }
    }

    /// Execute one step for real and judge it. Returns whether it was accepted.
    pub fn step(&mut self, step: &Step) -> (Option<bool>, Vec<Bad>) {
        if !resolvable(&self.h, &step.act) || step.dt < 0 {
            self.skipped += 1;
            return (None, vec![]);
        }
        if step.dt > 0 {
            self.w.now += step.dt;
            let now = self.w.now;
            self.w.l.set_time(now);
            self.s.now = now;
        }
        let kind = step.act.kind();
        if let Act::Look { acct, slot, n, at, names } = &step.act {
            let (n, bad) = crate::look::look(&self.w, &self.h, &self.s, *acct, *slot, *n, *at, names);
            self.looks += n;
            if let Some(l) = &mut self.log {
                l.push(format!("t={} {:?}", self.w.now, step.act));
            }
            return (Some(true), bad);
        }
        let costing = step.costing || step.act.needs_costing();
        let m = manifest(&self.w, &self.h, step);
        let opts = TxOpts { abort_at: step.abort_at, costing, cost_limit: step.cost_limit };
        let out = self.w.l.exec(m.clone(), &signers(&self.w, step), &opts);
        let mut bad = vec![];
        let mut ids = Ids::default();
        ids.comps = out.new_components.iter().copied().filter(|c| !c.as_node_id().is_global_virtual()).collect();
        for (_, r, ch) in &out.vaults {
            if let radix_engine::transaction::BalanceChange::NonFungible { added, .. } = ch {
                if let Some(x) = added.iter().next() {
                    if *r == self.w.referral {
                        ids.referral = Some(x.clone());
                    } else if *r == self.w.recovery {
                        ids.key = Some(x.clone());
                    }
                }
            }
        }
        let comps = ids.comps.clone();
        let v = predict(&self.w, &self.h, &self.s, step, ids.clone());
        for n in &v.facts.notes {
            *self.notes.entry(n).or_default() += 1;
        }
        if v.facts.fragile {
            self.fragile += 1;
        }
        let asked = step.abort_at > 0 || step.cost_limit.is_some();
        if let Some(l) = &mut self.log {
            l.push(format!("t={} by={} {:?} => {} / model {}", self.w.now, ACTOR_NAMES[step.by as usize], step.act, match &out.result { Ok(_) => "ok".to_string(), Err(e) => format!("{:?}", e) }, match &v.result { Ok(_) => "ok", Err(e) => e.why }));
        }
        match &out.result {
            Ok(_) => {
                *self.accepted.entry(kind).or_default() += 1;
                // What the run now knows about, from the operation itself.
                let mut it = comps.into_iter();
                for a in step.act.flat() {
                    match a {
                        Act::NewAcct { slot, .. } => {
                            if let Some(c) = it.next() {
                                self.h.accts.insert(*slot, c);
                            }
                        }
                        Act::MintRef { slot, to, .. } => {
                            if let Some(i) = &ids.referral {
                                self.h.refs.insert(*slot, i.clone());
                                self.h.ref_holder.insert(*slot, *to);
                            }
                        }
                        Act::RecKey { slot, .. } => {
                            if let Some(i) = &ids.key {
                                self.h.keys.insert(*slot, (i.clone(), step.by));
                            }
                        }
                        _ => {}
                    }
                }
                apply_wallets(&self.w, &mut self.h, &out);
                let s1 = read(&self.w, &mut self.h);
                match &v.result {
                    Ok(e) if !v.facts.fragile => {
                        self.model_ok += 1;
                        let ds = diff(e, &s1, costing);
                        if !ds.is_empty() {
                            let mut t = kind_tags(&step.act, &self.s);
                            for d in &ds {
                                t.extend(group_tags(d.group));
                                if d.group == "vb" || d.group == "wallet" {
                                    t.insert("C01");
                                }
                            }
                            t.extend(effect_tags(&step.act, &self.s, &ds));
                            // The effects on others of an operation on one account.
                            let named = step.act.accounts();
                            if ds.iter().any(|d| d.acct.map(|a| !named.contains(&a)).unwrap_or(false)) {
                                t.insert("C36");
                            }
                            let g: BTreeSet<&str> = ds.iter().map(|d| d.group).collect();
                            let txt = ds.iter().take(6).map(|d| d.what.clone()).collect::<Vec<_>>().join("; ");
                            bad.push(Bad { tags: t, key: format!("effect {} [{}]", kind, g.into_iter().collect::<Vec<_>>().join(",")), what: format!("{} did not have exactly its stated effect: {}", kind, txt) });
                        }
                        bad.extend(self.returns(step, &m, &out, &v));
                        bad.extend(crate::events::check(&self.w, &self.h, &self.s, e, step, &out, &v, &mut self.events));
                    }
                    Ok(_) => {}
                    Err(r) if v.facts.fragile || r.why == "arithmetic" => {}
                    Err(r) => {
                        let mut t = why_tags(r.why, &step.act, &self.s);
                        // What should have failed as a whole went through in part or in full.
                        t.insert("C31");
                        t.extend(unlisted_tags(&step.act, &self.s));
                        bad.push(Bad { tags: t, key: format!("accepted {} despite {}", kind, r.why), what: format!("{} was accepted although it must be refused ({})", kind, r.why) });
                    }
                }
                bad.extend(invariants(&self.w, &s1));
                if let Some(e) = self.h.cfg.as_ref().and_then(|c| c.unreadable.as_ref()) {
                    bad.push(Bad { tags: tags(&["C27", "C29", "C30"]), key: "configuration unreadable".into(), what: format!("the configuration can no longer be read after {}: {:.300}", kind, e) });
                }
                if let Some(x) = self.request_history(&s1) {
                    bad.push(x);
                }
                self.s = s1;
                self.cover(kind);
                (Some(true), bad)
            }
            Err(e) => {
                // Running out of fees can surface wrapped in whatever was being decoded at the time.
                let injected = matches!(e, Fail::Injected)
                    || (costing && matches!(e, Fail::Cost(_) | Fail::Rejected(_)))
                    || (costing && matches!(e, Fail::Engine(m) if step.cost_limit.is_some() || m.contains("Costing")));
                if injected {
                    *self.injected.entry(e.kind()).or_default() += 1;
                }
                let why = match &v.result {
                    Err(r) => r.why,
                    Ok(_) => "-",
                };
                *self.refused.entry(format!("{}:{}", kind, if injected { "injected" } else { why })).or_default() += 1;
                if v.result.is_ok() && !v.facts.fragile && !(injected && (asked || costing)) {
                    let mut t = kind_tags(&step.act, &self.s);
                    let msg = match e {
                        Fail::App(m) | Fail::Auth(m) | Fail::Cost(m) | Fail::Engine(m) | Fail::Rejected(m) => m.clone(),
                        Fail::Injected => String::new(),
                    };
                    t.extend(msg_tags(&msg));
                    if matches!(e, Fail::Auth(_)) {
                        t.extend(["C19", "C21"]);
                    }
                    t.extend(unlisted_tags(&step.act, &self.s));
                    if step.act.flat().iter().any(|a| {
                        matches!(a, Act::Process { .. } | Act::Liquidate { .. } | Act::Cancel { .. } | Act::ReqOrder { .. } | Act::ReqTpSl { .. } | Act::ReqRemove { .. } | Act::SwapDebt { .. } | Act::Adl { .. } | Act::RemLiq { .. } | Act::AddColl { .. } | Act::UpdatePairs { .. } | Act::PushOracle { .. } | Act::Unwrap { .. })
                    }) {
                        t.insert("C29");
                    }
                    let mut m = msg;
                    m.truncate(300);
                    bad.push(Bad { tags: t, key: format!("refused {}", kind), what: format!("{} was refused although every stated condition holds: {:?} {}", kind, e.kind(), m) });
                }
                // Nothing but fees may have changed.
                if !matches!(e, Fail::Rejected(_)) {
                    let s1 = read(&self.w, &mut self.h);
                    let ds = diff(&self.s, &s1, costing);
                    let w1 = out.vaults.iter().any(|(_, r, _)| *r != XRD);
                    if !ds.is_empty() || w1 {
                        let mut t = kind_tags(&step.act, &self.s);
                        t.insert("C31");
                        bad.push(Bad { tags: t, key: format!("failed {} left traces", kind), what: format!("a failed {} changed the state: {}", kind, ds.iter().take(4).map(|d| d.what.clone()).collect::<Vec<_>>().join("; ")) });
                    }
                    self.s = s1;
                }
                self.cover(if injected { "injected" } else { why });
                (Some(false), bad)
            }
        }
    }

    /// What happened to requests, whatever the operation claims to be.
    fn request_history(&self, s1: &St) -> Option<Bad> {
        for (i, a) in &self.s.accts {
            let b = s1.accts.get(i)?;
            for (n, k) in a.reqs.iter().enumerate() {
                let l = match b.reqs.get(n) {
                    Some(l) => l,
                    None => return Some(Bad { tags: tags(&["C09"]), key: "request lost".into(), what: format!("account {} request {} disappeared", i, n) }),
                };
                let fine = k.status == l.status || (k.status == DORMANT && l.status != EXECUTED) || (k.status == ACTIVE && l.status != DORMANT);
                let ended = !k.live() && k != l;
                if !fine || ended || k.req != l.req || k.submission != l.submission || k.expiry != l.expiry {
                    return Some(Bad { tags: tags(&["C09", "C10"]), key: "request history".into(), what: format!("account {} request {} went from {:?} to {:?}", i, n, k, l) });
                }
            }
        }
        None
    }

    /// A coarse measure of where the run has been.
    fn cover(&mut self, kind: &str) {
        let s = &self.s;
        let mut sig = format!("{}|", kind);
        for a in s.accts.values() {
            sig.push_str(&format!("{}{}{}{};", a.pos.values().map(|p| if p.amount.is_positive() { 'L' } else { 'S' }).collect::<String>(), a.coll.len(), if a.vb.is_negative() { '-' } else { '+' }, a.active.len().min(3)));
        }
        sig.push_str(&format!("|{}{}{}", s.pool.vb.is_negative() as u8, (s.skew_ratio() >= s.xc.skew_ratio_cap) as u8, s.authority.is_zero() as u8));
        self.states.insert(hash64(sig.as_bytes()));
    }

    fn returns(&self, step: &Step, m: &TransactionManifestV1, out: &Out, v: &Verdict) -> Vec<Bad> {
        let mut acts = vec![];
        post_order(&step.act, &mut acts);
        let mut bad = vec![];
        if acts.len() != v.rets.len() {
            return bad;
        }
        let mut from = 0;
        for (a, r) in acts.iter().zip(&v.rets) {
            let (name, r) = match (method_of(a), r) {
                (Some(n), r) if *r != Ret::None => (n, r),
                _ => continue,
            };
            let i = match m.instructions.iter().enumerate().skip(from).find(|(_, x)| matches!(x, InstructionV1::CallMethod { method_name, .. } if method_name == name)) {
                Some((i, _)) => i,
                None => continue,
            };
            from = i + 1;
            let val: V = match out.try_output(i) {
                Some(v) => v,
                None => continue,
            };
            let ok = match r {
                Ret::Index(x) => match a {
                    Act::AddAlloc { .. } => to::<u64>(fld(&val, 1)) == *x,
                    _ => to::<u64>(&val) == *x,
                },
                Ret::Triple(x, y, z) => to::<(u64, Option<u64>, Option<u64>)>(&val) == (*x, *y, *z),
                Ret::Prices(p) => {
                    let g: BTreeMap<String, (Dec, i64)> = entries(&val).iter().map(|(k, v)| (to(k), (dec(fld(v, 0)), to::<Instant>(fld(v, 1)).seconds_since_unix_epoch))).collect();
                    g == *p
                }
                Ret::Rewarded(p) => {
                    let mut g: Vec<bool> = to(fld(&val, 1));
                    let mut e: Vec<bool> = p.values().copied().collect();
                    g.sort();
                    e.sort();
                    g == e
                }
                Ret::Vars(p) => {
                    let g: Vec<(String, String)> = entries(&val).iter().map(|(k, v)| (to(k), to(v))).collect();
                    g.len() == p.len() && g.iter().all(|(k, v)| p.get(k) == Some(v))
                }
                Ret::None => true,
            };
            if !ok {
                let mut t = kind_tags(a, &self.s);
                t.insert("C30");
                bad.push(Bad { tags: t, key: format!("return of {}", name), what: format!("{} returned {:?} instead of {:?}", name, val, r) });
            }
        }
        bad
    }
}
