//! What accepted operations announce must be what they did: indexers, keepers and users' interfaces
//! know the exchange by its events.
use crate::act::*;
use crate::check::*;
use crate::ledger::*;
use crate::model::*;
use crate::st::*;
use crate::world::*;
use radix_common::prelude::*;
use std::collections::{BTreeMap, BTreeSet};

const TOLD: [&str; 14] = [
    "EventMarginOrder",
    "EventLiquidate",
    "EventAutoDeleverage",
    "EventLiquidityChange",
    "EventAddCollateral",
    "EventRemoveCollateral",
    "EventSwapDebt",
    "EventAccountCreation",
    "EventSignalUpgrade",
    "EventExchangeConfigUpdate",
    "EventPairConfigUpdates",
    "EventCollateralConfigUpdates",
    "EventCollateralConfigRemoval",
    "EventValidRequestsStart",
];

fn same(f: &F, v: &V) -> bool {
    match f {
        F::D(x) => close(*x, dec(v)),
        F::A(a) => to::<ComponentAddress>(v) == *a,
        F::R(r) => to::<Res>(v) == *r,
        F::S(s) => to::<String>(v) == *s,
        F::L(l) => to::<PriceLimit>(v) == *l,
        F::Set(s) => {
            let g: Vec<u64> = to(v);
            g.len() == s.len() && g.iter().all(|i| s.contains(i))
        }
        F::Pm(m) => {
            let g: Vec<(String, Dec)> = to(v);
            let n: BTreeMap<String, Dec> = g.iter().cloned().collect();
            n.len() == g.len() && n.len() == m.len() && n.iter().all(|(k, x)| m.get(k).map(|y| close(*x, *y)).unwrap_or(false))
        }
        F::Rm(m) => {
            let g: Vec<(Res, Dec)> = to(v);
            let mut n: BTreeMap<Res, Dec> = BTreeMap::new();
            for (r, a) in g {
                *n.entry(r).or_insert(Dec::ZERO) += a;
            }
            n.retain(|_, a| !a.is_zero());
            n.len() == m.len() && n.iter().all(|(k, x)| m.get(k).map(|y| close(*x, *y)).unwrap_or(false))
        }
        F::Ref(r) => to::<Option<NonFungibleLocalId>>(v) == *r,
        // As asked for, or as stored.
        F::X(c) => {
            let g = xcfg_of(v);
            g == *c || valid_x(c).map(|c| c == g).unwrap_or(false)
        }
        F::P(c) => {
            let g: Vec<PCfg> = elems(v).iter().map(pcfg_of).collect();
            g.len() == c.len() && g.iter().zip(c).all(|(g, c)| g == c || valid_p(c).map(|c| c == *g).unwrap_or(false))
        }
        F::C(c) => {
            let g: Vec<(Res, CCfg)> = elems(v).iter().map(|x| (to(fld(x, 0)), ccfg_of(fld(x, 1)))).collect();
            g.len() == c.len() && g.iter().zip(c).all(|(g, c)| g.0 == c.0 && (g.1 == c.1 || valid_c(&c.1).map(|c| c == g.1).unwrap_or(false)))
        }
    }
}

fn bad(key: String, what: String) -> Bad {
    Bad { tags: tags(&["C33"]), key, what }
}

/// `s0` and `e`: the states before and after, `e` already known to be the real one.
pub fn check(w: &World, _h: &Handles, s0: &St, e: &St, step: &Step, out: &Out, v: &Verdict, n: &mut u64) -> Vec<Bad> {
    let mut bads = vec![];
    let mut told: BTreeMap<&str, Vec<V>> = BTreeMap::new();
    let (mut reqs, mut pairs): (BTreeMap<(ComponentAddress, u64), KReq>, BTreeMap<String, PPos>) = Default::default();
    for (node, name, data) in &out.events {
        if node != w.exchange.as_node_id() {
            continue;
        }
        *n += 1;
        let d: V = match scrypto_decode(data) {
            Ok(d) => d,
            Err(_) => continue,
        };
        match name.as_str() {
            "EventRequests" => {
                let a: ComponentAddress = to(fld(&d, 0));
                for x in elems(fld(&d, 1)) {
                    reqs.insert((a, to(fld(&x, 0))), kreq_of(fld(&x, 1)));
                }
            }
            "EventPairUpdates" => {
                for x in elems(fld(&d, 0)) {
                    pairs.insert(to(fld(&x, 0)), ppos_of(fld(&x, 1)));
                }
            }
            x => {
                if let Some(t) = TOLD.iter().find(|t| **t == x) {
                    told.entry(t).or_default().push(d)
                }
            }
        }
    }
    let mut want: BTreeMap<&str, Vec<Ev>> = BTreeMap::new();
    for x in &v.facts.ev {
        want.entry(x.name).or_default().push(x.clone());
    }
    for a in &v.facts.liquidated {
        let q = &e.accts[a];
        want.entry("EventValidRequestsStart").or_default().push(Ev { name: "EventValidRequestsStart", f: vec![("account", F::A(q.addr))] });
    }
    let names: BTreeSet<&str> = told.keys().chain(want.keys()).copied().collect();
    for k in names {
        let (t, x) = (told.get(k).map(|v| v.as_slice()).unwrap_or(&[]), want.get(k).map(|v| v.as_slice()).unwrap_or(&[]));
        if t.len() != x.len() {
            bads.push(bad(format!("event {} count", k), format!("{} announced {} {} instead of {}", step.act.kind(), t.len(), k, x.len())));
            continue;
        }
        for (t, x) in t.iter().zip(x) {
            for (i, (f, want)) in x.f.iter().enumerate() {
                if !same(want, fld(t, i)) {
                    bads.push(bad(format!("event {} {}", k, f), format!("{} announced {} with {} {:?} instead of {:?}", step.act.kind(), k, f, fld(t, i), want)));
                }
            }
            if k == "EventValidRequestsStart" {
                let a: ComponentAddress = to(fld(t, 0));
                let s: u64 = to(fld(t, 1));
                if e.accts.values().any(|q| q.addr == a && q.valid_start != s) {
                    bads.push(bad(format!("event {}", k), format!("{} announced that requests of {:?} are valid from {}", step.act.kind(), a, s)));
                }
            }
        }
    }
    // Every request and every pair that changed is announced as it now is; nothing else is claimed.
    for (i, q) in &e.accts {
        let old = s0.accts.get(i);
        for (j, k) in q.reqs.iter().enumerate() {
            let changed = old.and_then(|o| o.reqs.get(j)) != Some(k);
            match reqs.remove(&(q.addr, j as u64)) {
                None if changed => bads.push(bad("event request missing".into(), format!("{} changed request {} of account {} without announcing it", step.act.kind(), j, i))),
                Some(t) if t != *k => bads.push(bad("event request wrong".into(), format!("{} announced request {} of account {} as {:?}; it is {:?}", step.act.kind(), j, i, t, k))),
                _ => {}
            }
        }
    }
    for (a, _) in reqs {
        bads.push(bad("event request unknown".into(), format!("{} announced request {} of {:?}, which does not exist", step.act.kind(), a.1, a.0)));
    }
    let all: BTreeSet<&String> = pairs.keys().chain(e.pool.pos.keys()).collect();
    for p in all {
        let (o, g) = (s0.pool.pos.get(p), e.pool.pos.get(p));
        match (pairs.get(p), g) {
            (None, Some(g)) if o != Some(g) => bads.push(bad("event pair missing".into(), format!("{} changed {} without announcing it", step.act.kind(), p))),
            (Some(t), Some(g)) => {
                let ok = close(t.oi_long, g.oi_long)
                    && close(t.oi_short, g.oi_short)
                    && close(t.cost, g.cost)
                    && close(t.skew, g.skew)
                    && close(t.pnl, g.pnl)
                    && close(t.f2, g.f2)
                    && close(t.idx_long, g.idx_long)
                    && close(t.idx_short, g.idx_short)
                    && t.last_update == g.last_update
                    && close(t.last_price, g.last_price);
                if !ok {
                    bads.push(bad("event pair wrong".into(), format!("{} announced {} as {:?}; it is {:?}", step.act.kind(), p, t, g)));
                }
            }
            (Some(_), None) => bads.push(bad("event pair unknown".into(), format!("{} announced {}, which does not exist", step.act.kind(), p))),
            _ => {}
        }
    }
    bads
}
