//! Every public read query, in one transaction on a copy of the ledger, against the state read
//! straight from the store.
use crate::act::*;
use crate::check::*;
use crate::ledger::*;
use crate::model::close;
use crate::st::*;
use crate::world::*;
use radix_common::prelude::*;
use radix_engine_interface::prelude::*;
use radix_engine_interface::*;
use radix_transactions::builder::*;
use std::collections::{BTreeMap, BTreeSet};

type Want<'a> = Box<dyn Fn(&V) -> Result<(), String> + 'a>;
struct Q<'a> {
    mb: Option<ManifestBuilder>,
    want: Vec<(&'static str, Want<'a>)>,
}
impl<'a> Q<'a> {
    fn ask(&mut self, c: ComponentAddress, m: &'static str, args: impl ResolvableArguments, want: impl Fn(&V) -> Result<(), String> + 'a) {
        let mb = self.mb.take().unwrap();
        self.mb = Some(mb.call_method(c, m, args));
        self.want.push((m, Box::new(want)));
    }
}
fn same<T: PartialEq + std::fmt::Debug>(n: &str, e: &T, g: &T) -> Result<(), String> {
    if e == g { Ok(()) } else { Err(format!("{}: expected {:?}, got {:?}", n, e, g)) }
}
fn num(n: &str, e: Dec, g: Dec) -> Result<(), String> {
    if close(e, g) { Ok(()) } else { Err(format!("{}: expected {}, got {}", n, e, g)) }
}
fn secs(v: &V) -> i64 {
    to::<Instant>(v).seconds_since_unix_epoch
}
fn krq(v: &V) -> KReq {
    let bytes: Vec<u8> = to(fld(v, 0));
    let r: V = scrypto_decode(&bytes).expect("request bytes");
    KReq { req: req_of(&r), submission: secs(fld(v, 1)), expiry: secs(fld(v, 2)), status: to(fld(v, 3)), effected: to(fld(v, 4)) }
}
fn alloc(v: &V) -> Alloc {
    Alloc { claims: to(fld(v, 0)), count: to(fld(v, 1)), max: to(fld(v, 2)) }
}
fn perm(v: &V) -> Perm {
    let s = |i| elems(fld(v, i)).iter().map(|c| to::<ComponentAddress>(c)).collect::<BTreeSet<_>>();
    Perm([s(0), s(1), s(2)])
}
fn list<T>(v: &V, f: impl Fn(&V) -> T) -> Vec<T> {
    elems(v).iter().map(|x| f(x)).collect()
}
fn ppos(n: &str, e: &PPos, v: &V) -> Result<(), String> {
    let g = ppos_of(v);
    for (k, a, b) in [
        ("long interest", e.oi_long, g.oi_long),
        ("short interest", e.oi_short, g.oi_short),
        ("cost", e.cost, g.cost),
        ("skew", e.skew, g.skew),
        ("pnl", e.pnl, g.pnl),
        ("adaptive rate", e.f2, g.f2),
        ("long index", e.idx_long, g.idx_long),
        ("short index", e.idx_short, g.idx_short),
        ("last price", e.last_price, g.last_price),
    ] {
        num(&format!("{} {}", n, k), a, b)?;
    }
    same(&format!("{} last update", n), &e.last_update, &g.last_update)
}

/// The newest requests first, ending at `end` (or at the newest).
fn tail(a: &Acct, n: u64, end: Option<u64>) -> Vec<(u64, KReq)> {
    let len = a.reqs.len() as u64;
    let e = end.map(|x| (x + 1).min(len)).unwrap_or(len);
    let s = e.saturating_sub(n);
    (s..e).rev().map(|i| (i, a.reqs[i as usize].clone())).collect()
}

pub fn look(w: &World, h: &Handles, s: &St, acct: u16, slot: u16, n: u64, at: Option<u64>, names: &[String]) -> (u64, Vec<Bad>) {
    let mut q = Q { mb: Some(ManifestBuilder::new()), want: vec![] };
    let ex = w.exchange;
    let mut first: Vec<Bad> = vec![];
    // Configuration.
    q.ask(ex, "get_exchange_config", manifest_args!(), |v| same("exchange configuration", &s.xc, &xcfg_of(v)));
    let start = at.unwrap_or(0).min(s.pairs.len() as u64);
    let st = at.map(|_| start);
    let page: Vec<PCfg> = s.pairs.iter().skip(start as usize).take(n as usize).cloned().collect();
    let p2 = page.clone();
    q.ask(ex, "get_pair_configs", manifest_args!(n, st), move |v| same("pair configurations", &page, &list(v, pcfg_of)));
    q.ask(ex, "get_pairs", manifest_args!(n, st), move |v| same("pairs", &p2.iter().map(|p| p.pair_id.clone()).collect::<Vec<_>>(), &list(v, |x| to::<String>(x))));
    q.ask(ex, "get_pair_configs_len", manifest_args!(), |v| same("number of pairs", &(s.pairs.len() as u64), &to(v)));
    q.ask(w.config, "get_pair_configs_len", manifest_args!(), |v| same("number of pairs", &(s.pairs.len() as u64), &to(v)));
    q.ask(ex, "get_collateral_configs", manifest_args!(), |v| {
        let g: BTreeMap<Res, CCfg> = entries(v).iter().map(|(k, v)| (to(k), ccfg_of(v))).collect();
        same("collateral configurations", &s.colls, &g)
    });
    q.ask(ex, "get_collaterals", manifest_args!(), |v| {
        let g: Vec<Res> = list(v, |x| to(x));
        same("collaterals", &s.colls.keys().copied().collect::<Vec<_>>(), &{
            let mut g = g;
            g.sort();
            g
        })
    });
    // The pool.
    q.ask(ex, "get_pool_details", manifest_args!(), |v| {
        num("pool tokens", s.pool.base, dec(fld(v, 0)))?;
        num("pool balance", s.pool.vb, dec(fld(v, 1)))?;
        num("pool funding", s.pool.upf, dec(fld(v, 2)))?;
        num("pool pnl", s.pool.pnl, dec(fld(v, 3)))?;
        num("skew ratio", s.skew_ratio(), dec(fld(v, 4)))?;
        num("skew cap", s.xc.skew_ratio_cap, dec(fld(v, 5)))?;
        num("LP supply", s.supply_lp, dec(fld(v, 6)))?;
        let price = if s.supply_lp.is_zero() { Dec::ONE } else { s.pool_value().max(Dec::ONE) / s.supply_lp };
        num("LP price", price, dec(fld(v, 7)))
    });
    let set: BTreeSet<String> = names.iter().cloned().collect();
    let hs: std::collections::HashSet<String> = set.iter().cloned().collect();
    let cfgd: Vec<String> = names.iter().filter(|p| s.pair(p).is_some()).cloned().collect();
    let c2 = cfgd.clone();
    q.ask(ex, "get_pair_details", manifest_args!(cfgd), move |v| {
        let g = elems(v);
        same("number of pair details", &c2.len(), &g.len())?;
        for (p, d) in c2.iter().zip(&g) {
            same("pair", p, &to::<String>(fld(d, 0)))?;
            ppos(p, &s.ppos(p), fld(d, 1))?;
            same("pair configuration", s.pair(p).unwrap(), &pcfg_of(fld(d, 2)))?;
        }
        Ok(())
    });
    let s2 = set.clone();
    let pinfo = move |v: &V| -> Result<(), String> {
        let g: BTreeMap<String, V> = entries(v).iter().map(|(k, v)| (to(k), v.clone())).collect();
        same("pairs", &s2, &g.keys().cloned().collect())?;
        for (p, v) in &g {
            ppos(p, &s.ppos(p), v)?;
        }
        Ok(())
    };
    let f2 = pinfo.clone();
    q.ask(w.pool, "get_info", manifest_args!(hs.clone()), move |v| {
        f2(fld(v, 0))?;
        num("pool tokens", s.pool.base, dec(fld(v, 1)))?;
        num("pool balance", s.pool.vb, dec(fld(v, 2)))?;
        num("pool funding", s.pool.upf, dec(fld(v, 3)))?;
        num("pool skew", s.pool.skew, dec(fld(v, 4)))?;
        num("pool pnl", s.pool.pnl, dec(fld(v, 5)))
    });
    q.ask(w.pool, "get_positions", manifest_args!(hs.clone()), pinfo);
    if let Some(p) = names.first().cloned() {
        q.ask(w.pool, "get_position", manifest_args!(p.clone()), move |v| ppos(&p, &s.ppos(&p), v));
    }
    let priced: BTreeSet<String> = set.iter().filter(|p| s.prices.contains_key(*p)).cloned().collect();
    let ph: std::collections::HashSet<String> = priced.iter().cloned().collect();
    q.ask(w.oracle, "get_prices", manifest_args!(ph), move |v| {
        let g: BTreeMap<String, (Dec, i64)> = entries(v).iter().map(|(k, v)| (to(k), (dec(fld(v, 0)), secs(fld(v, 1))))).collect();
        let e: BTreeMap<String, (Dec, i64)> = s.prices.iter().filter(|(k, _)| priced.contains(*k)).map(|(k, v)| (k.clone(), *v)).collect();
        same("oracle prices", &e, &g)
    });
    // Money held elsewhere.
    for (c, m, e) in [(ex, "get_protocol_balance", s.protocol), (ex, "get_treasury_balance", s.treasury), (w.feedist, "get_protocol_virtual_balance", s.protocol), (w.feedist, "get_treasury_virtual_balance", s.treasury), (w.feedel, "get_virtual_balance", s.del.vb)] {
        q.ask(c, m, manifest_args!(), move |v| num(m, e, dec(v)));
    }
    q.ask(w.feedel, "get_info", manifest_args!(), |v| {
        num("XRD", s.del.xrd, dec(fld(v, 0)))?;
        num("balance", s.del.vb, dec(fld(v, 1)))?;
        num("limit", s.del.max_lock, dec(fld(v, 2)))?;
        num("multiplier", s.del.mult, dec(fld(v, 3)))?;
        same("contingent", &s.del.contingent, &to(fld(v, 4)))
    });
    let start = at.unwrap_or(0).min(s.wrap_list.len() as u64);
    let st = at.map(|_| start);
    q.ask(w.wrapper, "get_inputs", manifest_args!(n, st), move |v| {
        let e: Vec<(Res, bool, Dec)> = s.wrap_list.iter().skip(start as usize).take(n as usize).map(|r| (*r, s.wrap[r].1, s.wrap[r].0)).collect();
        same("wrapper inputs", &e, &to(v))
    });
    // Permissions.
    let mut rules: Vec<AccessRule> = s.perms.keys().take(2).cloned().collect();
    if let Some(a) = s.accts.get(&acct) {
        rules.extend(a.rules.iter().cloned());
    }
    rules.push(AccessRule::Protected(AccessRuleNode::ProofRule(ProofRule::Require(ResourceOrNonFungible::NonFungible(w.actors[EVIL].badge.clone())))));
    for r in rules {
        let e = s.perms.get(&r).cloned().unwrap_or_default();
        let e2 = e.clone();
        q.ask(ex, "get_permissions", manifest_args!(r.clone()), move |v| same("permissions", &e, &perm(v)));
        q.ask(w.permreg, "get_permissions", manifest_args!(r), move |v| same("permissions", &e2, &perm(v)));
    }
    // Referrals.
    if let Some((id, d)) = s.refs.get(&slot) {
        let e = s.allocs.get(id).cloned().unwrap_or_default();
        let e2 = e.clone();
        q.ask(ex, "get_referral_details", manifest_args!(id.clone()), move |v| {
            let g: crate::mirror::ReferralData = to(fld(v, 0));
            same("referral", d, &g)?;
            same("allocations", &e, &list(fld(v, 1), alloc))
        });
        q.ask(w.refgen, "get_allocations", manifest_args!(id.clone()), move |v| same("allocations", &e2, &list(v, alloc)));
    }
    for k in s.codes.keys().take(2).copied().chain([Hash([7; 32])]) {
        q.ask(w.refgen, "get_referral_code", manifest_args!(k), move |v| {
            let e = s.codes.get(&k).cloned();
            let g = if variant(v) == 0 { None } else { let c = fld(v, 0); Some(Code { referral: to(fld(c, 0)), claims: to(fld(c, 1)), count: to(fld(c, 2)), max: to(fld(c, 3)) }) };
            same("referral code", &e, &g)
        });
    }
    // One account.
    if let Some(a) = s.accts.get(&acct) {
        let len = a.reqs.len() as u64;
        // The exchange's summary needs the configuration of every market the account is in: they cannot be removed.
        let hist = tail(a, n, at);
        let h2 = hist.clone();
        let rq = |v: &V| (to::<u64>(fld(v, 0)), req_of(fld(v, 1)), secs(fld(v, 2)), secs(fld(v, 3)), to::<u8>(fld(v, 4)));
        let er = |x: &(u64, KReq)| (x.0, x.1.req.clone(), x.1.submission, x.1.expiry, x.1.status);
        // Claims of tokens that are not collateral (any more) make this query fail: a known finding, asked on its own.
        let unlisted = hist.iter().map(|x| &x.1).chain(a.active.iter().map(|i| &a.reqs[*i as usize])).any(|k| matches!(&k.req, Req::Remove(r) if r.claims.iter().any(|c| !s.colls.contains_key(&c.0) && c.0 != w.base)));
        let hist = hist.clone();
        let details = move |v: &V| {
            num("balance", a.vb, dec(fld(v, 0)))?;
            let g: BTreeMap<String, V> = elems(fld(v, 1)).iter().map(|x| (to(fld(x, 0)), x.clone())).collect();
            same("markets", &a.pos.keys().cloned().collect::<Vec<_>>(), &g.keys().cloned().collect())?;
            same("positions listed", &a.pos.len(), &elems(fld(v, 1)).len())?;
            for (p, x) in &a.pos {
                let (g, c, pp) = (&g[p], s.pair(p).unwrap(), s.ppos(p));
                num("amount", x.amount, dec(fld(g, 1)))?;
                let abs = x.amount.checked_abs().unwrap();
                num("initial margin", abs * c.margin_initial, dec(fld(g, 2)))?;
                num("maintenance margin", abs * c.margin_maintenance, dec(fld(g, 3)))?;
                num("cost", x.cost, dec(fld(g, 4)))?;
                let f = if x.amount.is_positive() { x.amount * (pp.idx_long - x.idx) } else { abs * (pp.idx_short - x.idx) };
                num("funding", f, dec(fld(g, 5)))?;
            }
            let g: BTreeMap<Res, V> = elems(fld(v, 2)).iter().map(|x| (to(fld(x, 1)), x.clone())).collect();
            same("collaterals", &s.colls.keys().copied().collect::<Vec<_>>(), &g.keys().copied().collect())?;
            for (r, c) in &s.colls {
                let x = a.coll.get(r).copied().unwrap_or_default();
                let g = &g[r];
                same("collateral pair", &c.pair_id, &to::<String>(fld(g, 0)))?;
                num("collateral", x, dec(fld(g, 2)))?;
                num("collateral discount", c.discount, dec(fld(g, 3)))?;
                num("collateral margin", x * c.margin, dec(fld(g, 4)))?;
            }
            same("first valid request", &a.valid_start, &to(fld(v, 3)))?;
            let e: Vec<_> = a.active.iter().rev().map(|i| er(&(*i, a.reqs[*i as usize].clone()))).collect();
            same("active requests", &e, &list(fld(v, 4), rq))?;
            same("history", &hist.iter().map(er).collect::<Vec<_>>(), &list(fld(v, 5), rq))?;
            same("number of requests", &len, &to(fld(v, 6)))?;
            let r = fld(v, 7);
            let g = if variant(r) == 0 { None } else { Some((to::<NonFungibleGlobalId>(fld(fld(r, 0), 0)), to::<crate::mirror::ReferralData>(fld(fld(r, 0), 1)))) };
            let e = a.referral.as_ref().and_then(|id| s.refs.values().find(|x| x.0 == *id)).map(|x| (NonFungibleGlobalId::new(w.referral, x.0.clone()), x.1.clone()));
            same("referral", &e, &g)
        };
        if unlisted {
            let m = ManifestBuilder::new().call_method(ex, "get_account_details", manifest_args!(a.addr, n, at)).build();
            let out = w.l.clone().exec(m, &[], &TxOpts::default());
            match (&out.result, out.try_output::<V>(0)) {
                (Err(Fail::Engine(e)), _) if e.contains("NodeNotVisible") && e.contains("RequestRemoveCollateral") => first.push(Bad {
                    tags: tags(&["C30"]),
                    key: "read get_account_details with a claim of an unlisted token".into(),
                    what: format!("get_account_details of account {} was refused because a listed removal request names a token that is not configured as collateral", acct),
                }),
                (Ok(_), Some(v)) => {
                    if let Err(e) = details(&v) {
                        first.push(Bad { tags: tags(&["C30"]), key: "read get_account_details".into(), what: e });
                    }
                }
                (e, _) => first.push(Bad { tags: tags(&["C30"]), key: "read get_account_details".into(), what: format!("get_account_details was refused: {:?}", e.as_ref().err()) }),
            }
        } else {
            q.ask(ex, "get_account_details", manifest_args!(a.addr, n, at), details);
        }
        q.ask(a.addr, "get_info", manifest_args!(), move |v| {
            let g: BTreeMap<String, V> = entries(fld(v, 0)).iter().map(|(k, v)| (to(k), v.clone())).collect();
            same("markets", &a.pos.keys().cloned().collect::<Vec<_>>(), &g.keys().cloned().collect())?;
            for (p, x) in &a.pos {
                num("amount", x.amount, dec(fld(&g[p], 0)))?;
                num("cost", x.cost, dec(fld(&g[p], 1)))?;
                num("index", x.idx, dec(fld(&g[p], 2)))?;
            }
            let g: BTreeMap<Res, Dec> = entries(fld(v, 1)).iter().map(|(k, v)| (to(k), dec(v))).collect();
            same("collateral", &a.coll, &g)?;
            num("balance", a.vb, dec(fld(v, 2)))?;
            same("number of requests", &len, &to(fld(v, 3)))?;
            same("number of active requests", &a.active.len(), &(to::<u64>(&crate::look::widen(fld(v, 4))) as usize))?;
            same("first valid request", &a.valid_start, &to(fld(v, 5)))?;
            same("referral", &a.referral, &to(fld(v, 6)))
        });
        q.ask(a.addr, "get_requests_len", manifest_args!(), move |v| same("number of requests", &len, &to(v)));
        let kl = |v: &V| list(v, |x| (to::<u64>(fld(x, 0)), krq(fld(x, 1))));
        q.ask(a.addr, "get_requests_tail", manifest_args!(n, at), move |v| same("latest requests", &h2, &kl(v)));
        let start = at.unwrap_or(0).min(len);
        let st = at.map(|_| start);
        q.ask(a.addr, "get_requests", manifest_args!(n, st), move |v| {
            let e: Vec<(u64, KReq)> = (start..(start + n).min(len)).map(|i| (i, a.reqs[i as usize].clone())).collect();
            same("requests", &e, &kl(v))
        });
        q.ask(a.addr, "get_active_requests", manifest_args!(), move |v| {
            let g: BTreeMap<u64, KReq> = entries(v).iter().map(|(k, v)| (to(k), krq(v))).collect();
            same("active requests", &a.active.iter().map(|i| (*i, a.reqs[*i as usize].clone())).collect(), &g)
        });
        let ids: Vec<u64> = [0, len / 2, len, len.saturating_sub(1), at.unwrap_or(3)].into_iter().collect::<BTreeSet<_>>().into_iter().collect();
        let i2 = ids.clone();
        let opt = |v: &V| if variant(v) == 0 { None } else { Some(krq(fld(v, 0))) };
        q.ask(a.addr, "get_requests_by_indexes", manifest_args!(ids.clone()), move |v| {
            let g: BTreeMap<u64, Option<KReq>> = entries(v).iter().map(|(k, v)| (to(k), opt(v))).collect();
            same("requests by index", &i2.iter().map(|i| (*i, a.reqs.get(*i as usize).cloned())).collect(), &g)
        });
        let i = ids[ids.len() / 2];
        q.ask(a.addr, "get_request", manifest_args!(i), move |v| same("request", &a.reqs.get(i as usize).cloned(), &opt(v)));
    }
    let Q { mb, want } = q;
    let mut l = w.l.clone();
    let out = l.exec(mb.unwrap().build(), &[], &TxOpts::default());
    let mut bad = first;
    let mut b = |m: &str, what: String| {
        let mut what = what;
        what.truncate(3000);
        bad.push(Bad { tags: tags(&["C30"]), key: format!("read {}", m), what });
    };
    match &out.result {
        Err(e) => b("all", format!("a public read query was refused: {:?}", e)),
        Ok(_) => {
            for (i, (m, f)) in want.iter().enumerate() {
                match out.try_output::<V>(i) {
                    None => b(m, format!("{} returned nothing readable", m)),
                    Some(v) => {
                        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&v))).unwrap_or_else(|_| Err(format!("answer has another shape: {:?}", v)));
                        if let Err(e) = r {
                            b(m, format!("{} reported something else than the state — {}", m, e));
                        }
                    }
                }
            }
            if !out.vaults.is_empty() {
                b("effects", "a read query moved tokens".into());
            }
        }
    }
    (want.len() as u64, bad)
}
/// Whatever integer width the answer uses.
pub fn widen(v: &V) -> V {
    use sbor::Value::*;
    match v {
        U8 { value } => U64 { value: *value as u64 },
        U16 { value } => U64 { value: *value as u64 },
        U32 { value } => U64 { value: *value as u64 },
        I64 { value } => U64 { value: *value as u64 },
        v => v.clone(),
    }
}
