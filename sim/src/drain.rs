//! The end of a run: faults stop, prices are fresh, the administrators restore a sane configuration, and
//! everybody tries to finish and get out. Everything must succeed, or be refused for a reason the property
//! allows, within a bounded number of steps. Deterministic: a function of the state the run reached.
use crate::act::*;
use crate::check::*;
use crate::gen::{default_p, default_x, FEEDS};
use crate::model::*;
use crate::st::*;
use crate::world::*;
use radix_engine_interface::prelude::*;
use radix_common::prelude::*;
use std::collections::{BTreeMap, BTreeSet};

const ROUNDS: usize = 5;
const KEEPER: u8 = 7;
const SAFE: u8 = 3;
const TOKENS: [R; 6] = [R::Usda, R::Usdb, R::Btc, R::Eth, R::Junk, R::Base];

struct D<'a> {
    s: &'a mut Sim,
    bads: &'a mut Vec<Bad>,
    px: BTreeMap<String, Dec>,
    key: (u64, u64),
    stop: bool,
    budget: u64,
    /// Accounts whose closes were refused, rightly, because the imbalance would have grown too far.
    skewed: BTreeSet<u16>,
}

fn res(w: &World, r: Res) -> Option<R> {
    TOKENS.iter().copied().find(|t| t.addr(w) == r)
}
fn sane(v: Dec) -> bool {
    v.checked_abs().map(|a| a < dec!("1000000000000000")).unwrap_or(false)
}

impl<'a> D<'a> {
    fn stuck(&mut self, key: &str, what: String) {
        self.bads.push(Bad { tags: tags(&["C29"]), key: format!("stuck {}", key), what });
        self.stop = true;
    }
    /// Submit; refusals other than the given ones mean somebody is stuck.
    fn go(&mut self, by: u8, cosign: Vec<u8>, keys: Vec<u16>, dt: i64, act: Act, fine: &[&str], purpose: &str) -> bool {
        if self.stop {
            return false;
        }
        if self.budget == 0 {
            self.stuck("budget", format!("not finished within the step budget while trying to {}", purpose));
            return false;
        }
        self.budget -= 1;
        self.s.drain_steps += 1;
        let st = Step { dt, by, cosign, keys, act, abort_at: 0, costing: false, cost_limit: None };
        let s0 = self.s.s.clone();
        let (ok, bads) = self.s.step(&st);
        let judged = !bads.is_empty();
        self.bads.extend(bads);
        if judged {
            // The step itself was already wrong; what follows would only repeat it.
            self.stop = true;
            return false;
        }
        match ok {
            Some(true) => true,
            Some(false) => {
                let mut s1 = s0;
                s1.now = self.s.w.now;
                let v = predict(&self.s.w, &self.s.h, &s1, &st, Ids::default());
                let why = match &v.result {
                    Err(e) => e.why,
                    Ok(_) => "fragile",
                };
                if !fine.contains(&why) && why != "fragile" {
                    self.stuck(&format!("{} {}", st.act.kind(), why), format!("cannot {}: {} refused ({}) at t={}", purpose, st.act.kind(), why, self.s.w.now));
                }
                false
            }
            None => false,
        }
    }
    fn push(&self) -> Push {
        let now = self.s.w.now + 1;
        Push { prices: self.px.iter().map(|(k, v)| (k.clone(), *v, now)).collect(), key_id: self.key.0, signer: self.key.1, tamper: 0 }
    }
    fn anyone(&mut self, act: Act, fine: &[&str], purpose: &str) -> bool {
        self.go(KEEPER, vec![], vec![], 1, act, fine, purpose)
    }
    fn admin(&mut self, act: Act, fine: &[&str], purpose: &str) -> bool {
        self.go(ADMIN as u8, vec![], vec![], 1, act, fine, purpose)
    }
    /// Who, acting together, controls this level of an account; nobody, if its own rules lock it.
    fn owner(&self, a: u16, level: usize) -> Option<(u8, Vec<u8>, Vec<u16>)> {
        let rule = &self.s.s.accts[&a].rules[level - 1];
        let all: Vec<u8> = (0..N_SENDERS as u8).collect();
        for by in [3u8, 4, 5, 6, 1, 2, 9, 11, 7, 8] {
            let keys: Vec<u16> = self.s.h.keys.iter().filter(|(_, k)| k.1 == by).map(|(i, _)| *i).collect();
            for (c, k) in [(vec![], vec![]), (all.clone(), vec![]), (all.clone(), keys.clone())] {
                if (Shown { w: &self.s.w, h: &self.s.h, by, cosign: &c, keys: &k }).rule(rule) {
                    return Some((by, c, k));
                }
            }
        }
        None
    }
    fn owned(&mut self, a: u16, level: usize, act: Act, fine: &[&str], purpose: &str) -> bool {
        match self.owner(a, level) {
            Some((by, c, k)) => self.go(by, c, k, 1, act, fine, purpose),
            None => false,
        }
    }
    fn accts(&self) -> Vec<u16> {
        self.s.s.accts.keys().copied().collect()
    }
    fn wallet(&self, by: u8, r: R) -> Dec {
        self.s.s.wallet.get(&(by, r.addr(&self.s.w))).copied().unwrap_or_default()
    }
    /// The actor holding most of a token (never the one who refuses deposits).
    fn richest(&self, r: R) -> (u8, Dec) {
        (1u8..10).map(|b| (b, self.wallet(b, r))).max_by_key(|x| x.1).unwrap()
    }
    fn value(&self, a: u16) -> Option<(Dec, Dec)> {
        let st = Step { dt: 0, by: KEEPER, cosign: vec![], keys: vec![], act: Act::Idle, abort_at: 0, costing: false, cost_limit: None };
        let mut m = M::new(&self.s.w, &self.s.h, self.s.s.clone(), &st, Ids::default());
        m.s.now += 1;
        m.funding_now(a, &self.px).ok()?;
        m.valuation(a, &self.px, true).ok()
    }

    fn restore(&mut self) {
        let w = self.s.w.clone();
        if self.s.s.authority.is_zero() && self.wallet(ADMIN as u8, R::Authority).is_positive() {
            self.admin(Act::DepositAuth { res: R::Authority }, &[], "restore the exchange's authority");
        }
        let known: Vec<(u64, u64)> = self.s.s.keys.iter().filter_map(|(id, k)| (0..6).find(|i| oracle_key(*i).public_key().0.to_vec() == *k).map(|i| (*id, i))).collect();
        match known.first() {
            Some(k) => self.key = *k,
            None => {
                let id = (0..).find(|i| !self.s.s.keys.contains_key(i)).unwrap();
                self.admin(Act::OracleAdd { id, key: 1 }, &[], "register an oracle key");
                self.key = (id, 1);
            }
        }
        for (p, (q, t)) in self.s.s.prices.clone() {
            if !q.is_positive() || t > self.s.s.now {
                self.admin(Act::OracleDelPrice { pair: p }, &[], "remove a bad price");
            }
        }
        let mut x = default_x();
        x.positions_max = 1000;
        x.collaterals_max = 100;
        x.active_requests_max = 60000;
        x.skew_ratio_cap = dec!(1000);
        self.admin(Act::SetX { cfg: x }, &[], "restore the exchange configuration");
        let ps: Vec<PCfg> = self
            .s
            .s
            .pairs
            .iter()
            .map(|p| {
                let mut c = default_p(&p.pair_id);
                c.price_age_max = 3600;
                c.oi_max = dec!("1000000000000");
                c
            })
            .collect();
        if !ps.is_empty() {
            self.admin(Act::SetPairs { cfgs: ps.clone() }, &[], "restore the pair configurations");
        }
        for p in ps {
            let q = self.s.s.prices.get(&p.pair_id).map(|x| x.0).filter(|q| q.is_positive() && sane(*q)).unwrap_or(dec!(10));
            self.px.insert(p.pair_id, q);
        }
        for f in FEEDS {
            let q = self.s.s.prices.get(f).map(|x| x.0).filter(|q| q.is_positive() && sane(*q)).unwrap_or(dec!(10));
            self.px.insert(f.to_string(), q);
        }
        let mut held: BTreeSet<Res> = self.s.s.colls.keys().copied().collect();
        for a in self.s.s.accts.values() {
            held.extend(a.coll.keys().copied());
        }
        let mut cs = vec![];
        for r in held {
            let old = self.s.s.colls.get(&r);
            let feed = match old {
                Some(c) if self.px.contains_key(&c.pair_id) => c.pair_id.clone(),
                _ => FEEDS[cs.len() % FEEDS.len()].to_string(),
            };
            if let Some(t) = res(&w, r) {
                cs.push((t, CCfg { pair_id: feed, price_age_max: 3600, discount: dec!("0.9"), margin: dec!("0.01") }));
            }
        }
        if !cs.is_empty() {
            self.admin(Act::SetColls { cfgs: cs }, &[], "restore the collateral configurations");
        }
        let p = self.push();
        self.anyone(Act::PushOracle { push: p, want: vec![] }, &[], "publish fresh prices");
        // Liquidity providers still believe in the place: a pool that owes more than it has can be refilled.
        for r in [R::Usda, R::Usdb] {
            for by in [1u8, 2] {
                let v = self.wallet(by, r);
                let on = self.s.s.wrap.get(&r.addr(&w)).map(|x| x.1).unwrap_or(false);
                if on && v.is_positive() {
                    self.go(by, vec![], vec![], 1, Act::Wrap { res: r, amount: v }, &[], "wrap tokens");
                }
            }
        }
    }

    fn requests(&mut self, first: bool) {
        const STATED: &[&str] = &["price_limit", "slippage", "margin", "balance", "target", "oi", "skew", "positions", "pool_tokens", "request_missing", "child_balance"];
        for a in self.accts() {
            let due: Vec<u64> = self.s.s.accts[&a].active.iter().copied().collect();
            for i in due.into_iter().take(25) {
                let k = match self.s.s.accts[&a].reqs.get(i as usize) {
                    Some(k) => k.clone(),
                    None => continue,
                };
                let t = self.s.s.now + 1;
                if t > k.submission && (k.status == ACTIVE || (k.status == DORMANT && t >= k.expiry)) {
                    let push = Some(self.push());
                    // A claim of less than nothing cannot be honoured by anybody; its owner can only cancel it.
                    let absurd = matches!(&k.req, Req::Remove(q) if q.claims.iter().any(|(_, v)| v.is_negative()));
                    let fine: Vec<&str> = STATED.iter().copied().chain(absurd.then_some("engine")).collect();
                    let ok = self.anyone(Act::Process { acct: a, idx: i, push }, &fine, "process a due request");
                    if ok {
                        let st = self.s.s.accts[&a].reqs[i as usize].status;
                        if st != EXECUTED && st != EXPIRED {
                            self.stuck("process left", format!("account {} request {} was processed but is still open", a, i));
                        }
                    }
                }
                if self.stop {
                    return;
                }
            }
            if first {
                let live: Vec<u64> = self.s.s.accts[&a].reqs.iter().enumerate().filter(|(_, k)| k.live()).map(|(i, _)| i as u64).collect();
                for c in live.chunks(20) {
                    self.owned(a, 3, Act::Cancel { acct: a, idx: c.to_vec(), oath: None }, &[], "cancel open requests");
                }
            }
        }
    }

    fn liquidations(&mut self) {
        for a in self.accts() {
            if self.stop {
                return;
            }
            let (v, m) = match self.value(a) {
                Some(x) => x,
                None => {
                    self.stuck("valuation", format!("account {} cannot be valued", a));
                    return;
                }
            };
            if v < m && !close(v, m) {
                let (by, pay) = self.richest(R::Base);
                let push = Some(self.push());
                self.go(by, vec![], vec![], 1, Act::Liquidate { acct: a, pay_res: R::Base, pay, push }, &["payment_small"], "liquidate an undercollateralised account");
            }
        }
    }

    fn closes(&mut self) {
        // Those that reduce the imbalance go first.
        self.skewed.clear();
        for any in [false, true] {
            for a in self.accts() {
                let pos: Vec<(String, Dec)> = self.s.s.accts[&a].pos.iter().map(|(p, q)| (p.clone(), q.amount)).collect();
                for (pair, amount) in pos {
                    if self.stop {
                        return;
                    }
                    let pp = self.s.s.ppos(&pair);
                    let skew = pp.oi_long - pp.oi_short;
                    let grows = (skew - amount).checked_abs().unwrap() > skew.checked_abs().unwrap();
                    if grows && !any {
                        continue;
                    }
                    if self.s.s.accts[&a].pos.get(&pair).map(|p| p.amount) != Some(amount) {
                        continue;
                    }
                    let idx = self.s.s.accts[&a].reqs.len() as u64;
                    let act = Act::ReqOrder { acct: a, pair: pair.clone(), amount: -amount, ro: true, pl: PriceLimit::None, sl: SlipLimit::None, activate: vec![], cancel: vec![], status: ACTIVE, delay: 0, expiry: 1000, oath: None };
                    if !self.owned(a, 3, act, &[], "request to close a position") {
                        continue;
                    }
                    let push = Some(self.push());
                    if self.anyone(Act::Process { acct: a, idx, push }, &["skew"], "close a position") {
                        if self.s.s.accts[&a].pos.contains_key(&pair) {
                            self.stuck("close left", format!("account {} closed {} but still holds a position", a, pair));
                        }
                    } else if !self.stop {
                        self.skewed.insert(a);
                        self.owned(a, 3, Act::Cancel { acct: a, idx: vec![idx], oath: None }, &[], "cancel a close");
                    }
                }
            }
        }
    }

    fn refill(&mut self) {
        for by in [1u8, 2] {
            let v = self.wallet(by, R::Base);
            if v.is_positive() && self.s.s.pool_value() < dec!(1) {
                self.go(by, vec![], vec![], 1, Act::AddLiq { res: R::Base, amount: v }, &[], "add liquidity");
            }
        }
    }

    fn debts(&mut self) {
        for a in self.accts() {
            if self.stop {
                return;
            }
            let q = self.s.s.accts[&a].clone();
            if !q.pos.is_empty() || !q.vb.is_negative() {
                continue;
            }
            for r in q.coll.keys() {
                let vb = self.s.s.accts[&a].vb;
                if !vb.is_negative() || !self.s.s.colls.contains_key(r) {
                    break;
                }
                if let Some(t) = res(&self.s.w, *r) {
                    let (by, have) = self.richest(R::Base);
                    let push = Some(self.push());
                    self.go(by, vec![], vec![], 1, Act::SwapDebt { acct: a, res: t, pay_res: R::Base, pay: have.min(-vb), push }, &[], "swap an account's debt");
                }
            }
            let vb = self.s.s.accts[&a].vb;
            if vb.is_negative() && self.s.s.accts[&a].coll.is_empty() {
                if let Some((by, c, k)) = self.owner(a, 3) {
                    let have = self.wallet(by, R::Base);
                    if have >= -vb {
                        self.go(by, c, k, 1, Act::AddColl { acct: a, toks: vec![(R::Base, -vb)], oath: None }, &[], "repay an account's debt");
                    }
                }
            }
        }
    }

    fn withdraw(&mut self) {
        for a in self.accts() {
            if self.stop {
                return;
            }
            let q = self.s.s.accts[&a].clone();
            if !q.pos.is_empty() || q.vb.is_negative() {
                continue;
            }
            let mut claims: Toks = vec![];
            for (r, v) in &q.coll {
                if let Some(t) = res(&self.s.w, *r) {
                    claims.push((t, *v));
                }
            }
            let v = q.vb.min(self.s.s.pool.base);
            if v.is_positive() {
                claims.push((R::Base, v));
            }
            claims.truncate(10);
            if claims.is_empty() {
                continue;
            }
            let idx = q.reqs.len() as u64;
            if !self.owned(a, 2, Act::ReqRemove { acct: a, target: Tgt::Actor(SAFE), claims, expiry: 1000, oath: None }, &[], "request a withdrawal") {
                continue;
            }
            let push = Some(self.push());
            self.anyone(Act::Process { acct: a, idx, push }, &[], "withdraw everything");
        }
    }

    fn leave(&mut self) {
        for by in 1u8..10 {
            let lp = self.wallet(by, R::Lp);
            if !lp.is_positive() || self.stop {
                continue;
            }
            let pv = self.s.s.pool_value().max(Dec::ZERO);
            let per = pv / self.s.s.supply_lp;
            let worth = lp * per;
            let amount = if worth > self.s.s.pool.base { lp * (self.s.s.pool.base / worth) * dec!("0.999") } else { lp };
            self.go(by, vec![], vec![], 1, Act::RemLiq { res: R::Lp, amount }, &["skew", "pool_tokens"], "withdraw liquidity");
        }
        let fees = self.s.s.treasury;
        if fees <= self.s.s.pool.base {
            self.admin(Act::CollectTreasury, &[], "collect the treasury's fees");
        }
        if self.s.s.del.vb <= self.s.s.pool.base {
            self.admin(Act::CollectDelegator, &[], "collect the delegated fees");
        }
        let slots: Vec<u16> = self.s.s.refs.keys().copied().collect();
        for r in slots {
            if let Some(by) = self.s.h.ref_holder.get(&r).copied() {
                if self.s.s.refs[&r].1.balance <= self.s.s.pool.base {
                    self.go(by, vec![], vec![], 1, Act::CollectRef { slot: r }, &[], "collect referral rewards");
                }
            }
        }
        // Base tokens are redeemed for what backs them.
        for by in 1u8..10 {
            for r in [R::Usda, R::Usdb] {
                let (held, _) = self.s.s.wrap.get(&r.addr(&self.s.w)).copied().unwrap_or_default();
                let amount = floor_to(self.wallet(by, R::Base).min(held), divisibility(&self.s.w, r.addr(&self.s.w)));
                if amount.is_positive() && !self.stop {
                    self.go(by, vec![], vec![], 1, Act::Unwrap { res: R::Base, amount, child: r }, &[], "unwrap base tokens");
                }
            }
        }
    }

    fn last(&mut self) {
        for a in self.accts() {
            if self.stop {
                return;
            }
            if self.owner(a, 2).is_none() || self.owner(a, 3).is_none() {
                *self.s.notes.entry("locked by its own rules").or_default() += 1;
                continue;
            }
            let q = self.s.s.accts[&a].clone();
            let over = self.s.s.skew_ratio() >= self.s.s.xc.skew_ratio_cap;
            if !q.pos.is_empty() {
                if !over && !self.skewed.contains(&a) {
                    self.stuck("position", format!("account {} could not close {:?}", a, q.pos));
                }
                continue;
            }
            if q.reqs.iter().any(|k| k.live()) {
                self.stuck("request", format!("account {} still has open requests", a));
            } else if q.vb.is_negative() {
                *self.s.notes.entry("debt left").or_default() += 1;
            } else if !q.coll.is_empty() {
                self.stuck("collateral", format!("account {} still holds {:?}", a, q.coll));
            } else if q.vb.is_positive() && self.s.s.pool.base.is_positive() {
                *self.s.notes.entry("pool paid what it had").or_default() += 1;
            } else {
                *self.s.notes.entry("account emptied").or_default() += 1;
            }
        }
    }
}

pub fn drain(s: &mut Sim, bads: &mut Vec<Bad>) {
    let mut d = D { s, bads, px: BTreeMap::new(), key: (0, 0), stop: false, budget: 600, skewed: BTreeSet::new() };
    d.restore();
    for round in 0..ROUNDS {
        if d.stop {
            return;
        }
        let before = d.s.s.accts.values().all(|q| q.pos.is_empty() && q.coll.is_empty() && q.vb.is_zero());
        if round > 0 && before {
            break;
        }
        d.requests(round == 0);
        d.liquidations();
        d.refill();
        d.closes();
        d.debts();
        if d.s.s.accts.values().all(|q| q.pos.is_empty()) || round + 1 == ROUNDS {
            d.withdraw();
            break;
        }
    }
    if !d.stop {
        d.withdraw();
        d.leave();
        d.last();
    }
}
