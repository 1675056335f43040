//! The executable reference: what one accepted operation does to the abstract state, and when an
//! operation must be refused. It is evaluated from the state that was really reached, one step at a
//! time, and the real execution has to refine it.
use crate::act::*;
use crate::act::Ref;
use crate::st::*;
use crate::world::*;
use radix_common::prelude::*;
use radix_engine_interface::prelude::*;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, PartialEq)]
pub struct Rej {
    pub why: &'static str,
}
pub type Rs<T> = Result<T, Rej>;
pub fn no<T>(why: &'static str) -> Rs<T> {
    Err(Rej { why })
}

/// What a call must return.
#[derive(Clone, Debug, PartialEq)]
pub enum Ret {
    None,
    Index(u64),
    Triple(u64, Option<u64>, Option<u64>),
    Prices(BTreeMap<String, (Dec, i64)>),
    Rewarded(BTreeMap<String, bool>),
    Vars(BTreeMap<String, String>),
}

/// Identifiers the ledger chose during the execution.
#[derive(Clone, Debug, Default)]
pub struct Ids {
    pub comps: Vec<ComponentAddress>,
    pub referral: Option<NonFungibleLocalId>,
    pub key: Option<NonFungibleLocalId>,
}

/// Facts about one step that the properties are stated over.
#[derive(Clone, Debug, Default)]
pub struct Facts {
    /// Whether some acceptance test was decided by less than the comparison tolerance.
    pub fragile: bool,
    pub opened: Vec<(u16, String)>,
    pub liquidated: Vec<u16>,
    pub margin_checked: Vec<u16>,
    pub notes: BTreeSet<&'static str>,
    /// What the operation announces, in order.
    pub ev: Vec<Ev>,
}
#[derive(Clone, Debug)]
pub enum F {
    D(Dec),
    A(ComponentAddress),
    R(Res),
    S(String),
    L(PriceLimit),
    Set(BTreeSet<u64>),
    Pm(BTreeMap<String, Dec>),
    Rm(BTreeMap<Res, Dec>),
    Ref(Option<NonFungibleLocalId>),
    X(XCfg),
    P(Vec<PCfg>),
    C(Vec<(Res, CCfg)>),
}
#[derive(Clone, Debug)]
pub struct Ev {
    pub name: &'static str,
    pub f: Vec<(&'static str, F)>,
}

pub struct M<'a> {
    pub w: &'a World,
    pub h: &'a Handles,
    pub s: St,
    pub by: usize,
    pub cosign: Vec<u8>,
    pub keys: Vec<u16>,
    pub ids: Ids,
    pub f: Facts,
    pub rets: Vec<Ret>,
    pub del_touched: bool,
    /// Slots created by this step.
    pub new_accts: Vec<(u16, ComponentAddress)>,
    pub new_ref: Option<(u16, NonFungibleLocalId, u8)>,
    pub new_key: Option<(u16, NonFungibleLocalId, u8)>,
}

pub fn tol(a: Dec, b: Dec) -> Dec {
    let m = a.checked_abs().unwrap_or(Dec::MAX).max(b.checked_abs().unwrap_or(Dec::MAX));
    dec!("0.000000001") + m * dec!("0.000000000000001")
}
pub fn close(a: Dec, b: Dec) -> bool {
    if a == b {
        return true;
    }
    match a.checked_sub(b) {
        Some(d) => d.checked_abs().map(|d| d <= tol(a, b)).unwrap_or(false),
        None => false,
    }
}
/// Keep what the compact number format keeps: as many leading digits as make at most 1024.
pub fn compact(v: Dec) -> Option<Dec> {
    if v.is_zero() {
        return Some(v);
    }
    let mut m = v.0;
    let mut e = 0u32;
    let ten = I192::TEN;
    while m > I192::from(1024) {
        m = m / ten;
        e += 1;
    }
    if e > 31 {
        return None;
    }
    for _ in 0..e {
        m = m * ten;
    }
    Some(Decimal(m))
}
pub fn floor_to(v: Dec, div: u8) -> Dec {
    v.checked_round(div, RoundingMode::ToZero).unwrap()
}
pub fn ceil_to(v: Dec, div: u8) -> Dec {
    v.checked_round(div, RoundingMode::ToPositiveInfinity).unwrap()
}

/// What the sender of a transaction can show: signatures and recovery keys.
pub struct Shown<'a> {
    pub w: &'a World,
    pub h: &'a Handles,
    pub by: u8,
    pub cosign: &'a [u8],
    pub keys: &'a [u16],
}
impl<'a> Shown<'a> {
    fn shows(&self, r: &ResourceOrNonFungible) -> bool {
        match r {
            ResourceOrNonFungible::NonFungible(id) => {
                let signer = std::iter::once(self.by).chain(self.cosign.iter().copied()).any(|i| self.w.actors[i as usize].badge == *id);
                let key = self.keys.iter().any(|k| self.h.keys.get(k).map(|x| x.1 == self.by && NonFungibleGlobalId::new(self.w.recovery, x.0.clone()) == *id).unwrap_or(false));
                signer || key
            }
            ResourceOrNonFungible::Resource(_) => false,
        }
    }
    fn node(&self, n: &AccessRuleNode) -> bool {
        match n {
            AccessRuleNode::ProofRule(p) => match p {
                ProofRule::Require(r) => self.shows(r),
                ProofRule::AmountOf(..) => false,
                ProofRule::CountOf(c, v) => v.iter().filter(|r| self.shows(r)).count() >= *c as usize,
                ProofRule::AllOf(v) => v.iter().all(|r| self.shows(r)),
                ProofRule::AnyOf(v) => v.iter().any(|r| self.shows(r)),
            },
            AccessRuleNode::AnyOf(v) => v.iter().any(|n| self.node(n)),
            AccessRuleNode::AllOf(v) => v.iter().all(|n| self.node(n)),
        }
    }
    pub fn rule(&self, r: &AccessRule) -> bool {
        match r {
            AccessRule::AllowAll => true,
            AccessRule::DenyAll => false,
            AccessRule::Protected(n) => self.node(n),
        }
    }
}

impl<'a> M<'a> {
    pub fn new(w: &'a World, h: &'a Handles, s: St, step: &Step, ids: Ids) -> Self {
        let keys = step.keys.iter().copied().filter(|k| h.keys.get(k).map(|x| x.1 == step.by).unwrap_or(false)).collect();
        M { w, h, s, by: step.by as usize, cosign: step.cosign.clone(), keys, ids, f: Facts::default(), rets: vec![], del_touched: false, new_accts: vec![], new_ref: None, new_key: None }
    }

    // ---------------------------------------------------------------- helpers
    fn edge(&mut self, a: Dec, b: Dec) {
        if a != b && close(a, b) {
            self.f.fragile = true;
        }
    }
    fn le(&mut self, a: Dec, b: Dec) -> bool {
        self.edge(a, b);
        a <= b
    }
    fn lt(&mut self, a: Dec, b: Dec) -> bool {
        self.edge(a, b);
        a < b
    }
    fn say(&mut self, name: &'static str, f: Vec<(&'static str, F)>) {
        self.f.ev.push(Ev { name, f });
    }
    fn adr(&self, a: u16) -> F {
        F::A(self.s.accts[&a].addr)
    }
    fn need(&self, c: bool, why: &'static str) -> Rs<()> {
        if c { Ok(()) } else { no(why) }
    }
    fn admin(&self) -> Rs<()> {
        self.need(self.by == ADMIN, "admin")
    }
    fn authority(&self) -> Rs<()> {
        self.need(self.s.authority >= dec!("0.000000000000000001"), "authority")
    }
    fn take(&mut self, r: Res, a: Dec) -> Rs<Dec> {
        if r == XRD {
            return Ok(a);
        }
        if a.is_negative() {
            return no("wallet");
        }
        if floor_to(a, divisibility(self.w, r)) != a {
            return no("wallet");
        }
        let k = (self.by as u8, r);
        let have = self.s.wallet.get(&k).copied().unwrap_or_default();
        if have < a {
            return no("wallet");
        }
        // Nothing out of nothing: the ledger refuses it where there never was a vault.
        self.f.fragile |= a.is_zero() && have.is_zero();
        self.set_wallet(k, have - a);
        Ok(a)
    }
    fn set_wallet(&mut self, k: (u8, Res), v: Dec) {
        if v.is_zero() {
            self.s.wallet.remove(&k);
        } else {
            self.s.wallet.insert(k, v);
        }
    }
    fn give_to(&mut self, actor: u8, r: Res, a: Dec) {
        if r == XRD {
            return;
        }
        let k = (actor, r);
        let have = self.s.wallet.get(&k).copied().unwrap_or_default();
        self.set_wallet(k, have + a);
    }
    fn give(&mut self, r: Res, a: Dec) {
        self.give_to(self.by as u8, r, a)
    }
    fn toks(&mut self, t: &Toks) -> Rs<Vec<(Res, Dec)>> {
        let mut v = vec![];
        for (r, a) in t {
            let r = r.addr(self.w);
            self.take(r, *a)?;
            v.push((r, *a));
        }
        Ok(v)
    }
    fn acct(&mut self, a: u16) -> &mut Acct {
        self.s.accts.get_mut(&a).expect("account slot")
    }
    fn pp(&mut self, pair: &str) -> &mut PPos {
        if !self.s.pool.pos.contains_key(pair) {
            let d = self.s.ppos(pair);
            self.s.pool.pos.insert(pair.to_string(), d);
        }
        self.s.pool.pos.get_mut(pair).unwrap()
    }
    fn cfg(&self, pair: &str) -> Rs<PCfg> {
        match self.s.pair(pair) {
            Some(c) => Ok(c.clone()),
            None => no("pair"),
        }
    }
    fn rebate(&self, a: u16) -> Dec {
        match self.referral(a) {
            Some(i) => dec!(1) - self.s.refs[&i].1.fee_rebate,
            None => dec!(1),
        }
    }
    fn referral(&self, a: u16) -> Option<u16> {
        let id = self.s.accts[&a].referral.as_ref()?;
        Some(self.s.ref_slot(id).expect("known referral"))
    }

    // ---------------------------------------------------------------- authorisation
    pub fn rule_ok(&self, r: &AccessRule) -> bool {
        Shown { w: self.w, h: self.h, by: self.by as u8, cosign: &self.cosign, keys: &self.keys }.rule(r)
    }
    fn level(&self, a: u16, l: u8) -> Rs<()> {
        let why = ["level1", "level2", "level3"][l as usize - 1];
        self.need(self.rule_ok(&self.s.accts[&a].rules[l as usize - 1]), why)
    }
    fn list(&mut self, rule: &AccessRule, level: usize, addr: ComponentAddress) {
        let mut rules = vec![rule.clone()];
        if let AccessRule::Protected(AccessRuleNode::AnyOf(v)) = rule {
            rules.extend(v.iter().map(|n| AccessRule::Protected(n.clone())));
        }
        for r in rules {
            self.s.perms.entry(r).or_default().0[level].insert(addr);
        }
    }
    fn set_rule(&mut self, a: u16, level: u8, rule: AccessRule) {
        let l = level as usize - 1;
        let addr = self.s.accts[&a].addr;
        for p in self.s.perms.values_mut() {
            p.0[l].remove(&addr);
        }
        self.s.perms.retain(|_, p| *p != Perm::default());
        self.acct(a).rules[l] = rule.clone();
        self.list(&rule, l, addr);
    }
    fn widen(old: &AccessRule, extra: AccessRuleNode) -> AccessRule {
        match old {
            AccessRule::AllowAll | AccessRule::DenyAll => AccessRule::Protected(extra),
            AccessRule::Protected(n) => AccessRule::Protected(n.clone().or(extra)),
        }
    }

    // ---------------------------------------------------------------- prices
    fn push(&mut self, p: &Push) -> Rs<()> {
        self.need(p.tamper != 2 && p.tamper != 5, "data")?;
        let key = match self.s.keys.get(&p.key_id) {
            Some(k) => k.clone(),
            None => return no("key"),
        };
        self.need(p.honest() && oracle_key(p.signer).public_key().0.to_vec() == key, "signature")?;
        for (pair, q, t) in &p.prices {
            match self.s.prices.get(pair) {
                Some((_, t0)) if *t <= *t0 => {}
                _ => {
                    self.s.prices.insert(pair.clone(), (*q, *t));
                }
            }
        }
        Ok(())
    }
    /// The prices an operation may use: all fresh enough, all positive, or the operation is refused.
    fn prices(&mut self, ages: BTreeMap<String, i64>, push: &Option<Push>) -> Rs<BTreeMap<String, Dec>> {
        let mut ages = ages;
        for c in self.s.colls.values() {
            let e = ages.entry(c.pair_id.clone()).or_insert(c.price_age_max);
            *e = (*e).min(c.price_age_max);
        }
        if let Some(p) = push {
            self.push(p)?;
        }
        let mut m = BTreeMap::new();
        for (p, age) in ages {
            let (q, t) = match self.s.prices.get(&p) {
                Some(x) => *x,
                None => return no("price_missing"),
            };
            self.need(t > self.s.now - age, "price_old")?;
            self.need(q.is_positive(), "price_sign")?;
            m.insert(p, q);
        }
        Ok(m)
    }
    fn ages(&self, pairs: &BTreeSet<String>) -> Rs<BTreeMap<String, i64>> {
        pairs.iter().map(|p| Ok((p.clone(), self.cfg(p)?.price_age_max))).collect()
    }
    fn pairs_of(&self, a: u16) -> BTreeSet<String> {
        self.s.accts[&a].pos.keys().cloned().collect()
    }

    // ---------------------------------------------------------------- pool and accounts
    fn settle(&mut self, a: u16, v: Dec) {
        self.s.pool.vb = self.s.pool.vb + -v;
        self.acct(a).vb += v;
    }
    fn pool_out(&mut self, v: Dec) -> Rs<()> {
        let b = self.s.pool.base;
        let ok = self.le(v, b);
        self.need(ok, "pool_tokens")?;
        self.need(!v.is_negative(), "engine")?;
        self.s.pool.base -= v;
        Ok(())
    }
    fn skew_ok(&mut self, delta: Dec) -> Rs<()> {
        let r = self.s.skew_ratio();
        let cap = self.s.xc.skew_ratio_cap;
        let a = self.lt(r, cap);
        if a {
            return Ok(());
        }
        let b = self.lt(delta, Dec::ZERO);
        self.need(b, "skew")
    }
    pub fn fee(&self, pair: &str, c: &PCfg, rebate: Dec, price: Dec, value: Dec) -> Dec {
        let p = self.s.ppos(pair);
        let abs = value.checked_abs().unwrap();
        let skew = (p.oi_long - p.oi_short) * price;
        let fee_0 = abs * c.fee_0;
        let fee_1 = value * (dec!(2) * skew + value) * c.fee_1;
        let max = abs * self.s.xc.fee_max;
        ((fee_0 + fee_1) * rebate).max(Dec::ZERO).min(max)
    }
    fn accrued(p: &Pos, pp: &PPos) -> Dec {
        if p.amount.is_positive() { p.amount * (pp.idx_long - p.idx) } else { -p.amount * (pp.idx_short - p.idx) }
    }
    /// (value of the account, margin it needs)
    pub fn valuation(&self, a: u16, px: &BTreeMap<String, Dec>, maintenance: bool) -> Rs<(Dec, Dec)> {
        let acct = &self.s.accts[&a];
        let rebate = self.rebate(a);
        let (mut value, mut margin) = (acct.vb, Dec::ZERO);
        for (pair, p) in &acct.pos {
            let c = self.cfg(pair)?;
            let price = px[pair];
            let v = -p.amount * price;
            let fee = self.fee(pair, &c, rebate, price, v);
            let pp = self.s.ppos(pair);
            value += -v - p.cost - fee - Self::accrued(p, &pp);
            margin += v.checked_abs().unwrap() * if maintenance { c.margin_maintenance } else { c.margin_initial };
        }
        for (r, amount) in &acct.coll {
            if let Some(c) = self.s.colls.get(r) {
                let v = *amount * px[&c.pair_id];
                value += v * c.discount;
                margin += v * c.margin;
            }
        }
        Ok((value, margin))
    }
    fn margin_ok(&mut self, a: u16, px: &BTreeMap<String, Dec>) -> Rs<()> {
        let (v, m) = self.valuation(a, px, false)?;
        self.f.margin_checked.push(a);
        let ok = self.le(m, v);
        self.need(ok, "margin")
    }
    fn snaps(&mut self, pair: &str, price: Dec) {
        let p = self.pp(pair);
        let skew = (p.oi_long - p.oi_short) * price;
        let abs = skew.checked_abs().unwrap();
        let d_skew = abs - p.skew;
        p.skew = abs;
        let pnl = p.cost - skew;
        let d_pnl = pnl - p.pnl;
        p.pnl = pnl;
        self.s.pool.skew += d_skew;
        self.s.pool.pnl += d_pnl;
    }
    /// Accrue funding for the time since the pair was last touched; true when that deserves a reward.
    fn update_pair(&mut self, pair: &str, price: Dec) -> Rs<bool> {
        let c = self.cfg(pair)?;
        let now = self.s.now;
        self.pp(pair);
        self.snaps(pair, price);
        let p = self.pp(pair);
        let seconds = now - p.last_update;
        let period = Decimal::from(seconds) / dec!(31536000);
        let ratio = (price - p.last_price).checked_abs().unwrap() / p.last_price;
        p.last_price = price;
        p.last_update = now;
        let mut gain = Dec::ZERO;
        if !period.is_zero() {
            let (l, s) = (p.oi_long, p.oi_short);
            let skew = (l - s) * price;
            let hi = l * price;
            let lo = -s * price;
            let drift = skew * c.funding_2_delta * period;
            let inside = p.f2 <= hi && p.f2 >= lo;
            if inside {
                p.f2 = (p.f2 + drift).min(hi).max(lo);
            } else {
                let over = p.f2 > hi;
                let excess = if over { p.f2 - hi } else { p.f2 - lo };
                let decay = excess * (c.funding_2_decay * period).min(dec!(1));
                p.f2 -= decay;
                if over && drift.is_negative() {
                    p.f2 = (p.f2 + drift).max(lo);
                } else if !over && drift.is_positive() {
                    p.f2 = (p.f2 + drift).min(hi);
                }
            }
            if !l.is_zero() && !s.is_zero() {
                let r1 = skew * c.funding_1;
                let r2 = p.f2.min(hi).max(lo) * c.funding_2;
                let rate = r1 + r2;
                let (dl, ds, share) = if rate.is_positive() {
                    let pay = rate * period;
                    let share = pay * c.funding_share;
                    (pay / l, -(pay - share) / s, share)
                } else {
                    let pay = -rate * period;
                    let share = pay * c.funding_share;
                    (-(pay - share) / l, pay / s, share)
                };
                let pool_rate = (l + s) * price * c.funding_pool_0 + skew.checked_abs().unwrap() * c.funding_pool_1;
                let pool = pool_rate * period;
                let idx = pool / (l + s);
                p.idx_long += dl + idx;
                p.idx_short += ds + idx;
                gain = pool + share;
            }
        }
        self.s.pool.upf += gain;
        let due = seconds >= c.update_period_seconds;
        let need = c.update_price_delta_ratio;
        if !due {
            self.edge(ratio, need);
        }
        Ok(due || ratio >= need)
    }
    /// Bring the funding of an account's pairs up to date at these prices.
    pub fn funding_now(&mut self, a: u16, px: &BTreeMap<String, Dec>) -> Rs<()> {
        for p in self.pairs_of(a) {
            self.update_pair(&p, px[&p])?;
        }
        Ok(())
    }
    fn settle_funding(&mut self, a: u16, pair: &str) -> Dec {
        let pp = self.s.ppos(pair);
        let mut f = Dec::ZERO;
        if let Some(p) = self.acct(a).pos.get_mut(pair) {
            f = Self::accrued(p, &pp);
            p.idx = if p.amount.is_positive() { pp.idx_long } else { pp.idx_short };
        }
        self.s.pool.upf += -f;
        self.settle(a, -f);
        -f
    }
    fn fees_basic(&mut self, fee: Dec) -> Vec<(&'static str, F)> {
        let p = fee * self.s.xc.fee_share_protocol;
        let t = fee * self.s.xc.fee_share_treasury;
        self.s.pool.vb += -p - t;
        self.s.protocol += p;
        self.s.treasury += t;
        vec![("fee_pool", F::D(-(fee - p - t))), ("fee_protocol", F::D(-p)), ("fee_treasury", F::D(-t))]
    }
    fn fees_referral(&mut self, a: u16, fee: Dec) -> Vec<(&'static str, F)> {
        let p = fee * self.s.xc.fee_share_protocol;
        let t = fee * self.s.xc.fee_share_treasury;
        let slot = self.referral(a);
        let r = match slot {
            Some(i) => fee * self.s.xc.fee_share_referral * self.s.refs[&i].1.fee_referral,
            None => Dec::ZERO,
        };
        self.s.pool.vb += -p - t - r;
        self.s.protocol += p;
        self.s.treasury += t;
        if let Some(i) = slot {
            let d = &mut self.s.refs.get_mut(&i).unwrap().1;
            d.balance += r;
            d.total_rewarded += r;
        }
        vec![("fee_pool", F::D(-(fee - p - t - r))), ("fee_protocol", F::D(-p)), ("fee_treasury", F::D(-t)), ("fee_referral", F::D(-r))]
    }
    fn close_pos(&mut self, a: u16, pair: &str, amount: Dec, price: Dec) -> Rs<(Dec, Dec)> {
        let c = self.cfg(pair)?;
        let value = amount * price;
        let fee = self.fee(pair, &c, self.rebate(a), price, value);
        let pos = self.s.accts[&a].pos[pair].clone();
        let cost = -amount / pos.amount * pos.cost;
        let pnl = -value - cost - fee;
        let p = self.pp(pair);
        if amount.is_negative() {
            p.oi_long += amount;
        } else {
            p.oi_short -= amount;
        }
        p.cost -= cost;
        let q = self.acct(a).pos.get_mut(pair).unwrap();
        q.amount += amount;
        q.cost -= cost;
        self.settle(a, pnl);
        self.snaps(pair, price);
        Ok((pnl, fee))
    }
    fn open_pos(&mut self, a: u16, pair: &str, amount: Dec, px: &BTreeMap<String, Dec>) -> Rs<Dec> {
        let c = self.cfg(pair)?;
        let price = px[pair];
        let value = amount * price;
        let fee = self.fee(pair, &c, self.rebate(a), price, value);
        let cost = value + fee;
        let p = self.pp(pair);
        let oi = if amount.is_positive() {
            p.oi_long += amount;
            p.oi_long
        } else {
            p.oi_short -= amount;
            p.oi_short
        };
        p.cost += cost;
        let (il, is) = (p.idx_long, p.idx_short);
        let ok = self.le(oi, c.oi_max);
        self.need(ok, "oi")?;
        let q = self.acct(a).pos.entry(pair.to_string()).or_insert(Pos { amount: Dec::ZERO, cost: Dec::ZERO, idx: Dec::ZERO });
        q.amount += amount;
        q.cost += cost;
        q.idx = if q.amount.is_positive() { il } else { is };
        self.snaps(pair, price);
        self.need(self.s.accts[&a].pos.len() <= self.s.xc.positions_max as usize, "positions")?;
        self.f.opened.push((a, pair.to_string()));
        self.margin_ok(a, px)?;
        Ok(fee)
    }
    fn prune(&mut self, a: u16) {
        self.acct(a).pos.retain(|_, p| !p.amount.is_zero());
    }
    fn coll_in(&mut self, a: u16, tokens: &[(Res, Dec)]) -> Rs<()> {
        let base = self.w.base;
        let mut m = BTreeMap::new();
        for (r, v) in tokens {
            *m.entry(*r).or_insert(Dec::ZERO) += *v;
        }
        m.retain(|_, v| !v.is_zero());
        let who = self.adr(a);
        self.say("EventAddCollateral", vec![("account", who), ("amounts", F::Rm(m))]);
        for (r, v) in tokens {
            if *r == base {
                self.s.pool.base += *v;
                self.settle(a, *v);
            } else {
                self.need(self.s.colls.contains_key(r), "collateral")?;
                let q = self.acct(a);
                *q.coll.entry(*r).or_insert(Dec::ZERO) += *v;
                if !v.is_zero() {
                    *q.held.entry(*r).or_insert(Dec::ZERO) += *v;
                }
            }
        }
        self.need(self.s.accts[&a].coll.len() <= self.s.xc.collaterals_max as usize, "collaterals_max")
    }
    /// Collateral tokens leaving an account's vaults, rounded down to what the token can express.
    fn coll_out(&mut self, a: u16, r: Res, v: Dec) -> Rs<Dec> {
        let v = floor_to(v, divisibility(self.w, r));
        self.need(!v.is_negative(), "engine")?;
        let q = self.acct(a);
        let have = q.held.get(&r).copied().unwrap_or_default();
        if v > have || !q.coll.contains_key(&r) {
            return no("balance");
        }
        let rest = have - v;
        if rest.is_zero() {
            q.held.remove(&r);
        } else {
            q.held.insert(r, rest);
        }
        let c = q.coll.get_mut(&r).unwrap();
        *c -= v;
        if c.is_zero() {
            q.coll.remove(&r);
        }
        Ok(v)
    }
    fn oath_value(&mut self, amount: Dec) -> Rs<Dec> {
        // The engine locks fees only from vaults untouched in the same transaction.
        if self.del_touched {
            self.f.fragile = true;
            return no("engine");
        }
        self.del_touched = true;
        self.need(self.s.del.xrd >= amount, "delegator_empty")?;
        let price: Decimal = dec!("16.666666666666666666");
        let v = amount / price * self.s.del.mult;
        self.s.del.vb += v;
        let ok = self.le(v, self.s.del.max_lock);
        self.need(ok, "max_lock")?;
        Ok(v)
    }
    /// Charge a delegated transaction fee to an account.
    fn oath(&mut self, a: u16, oath: &Option<Dec>, value: Dec, extra: Option<&str>) -> Rs<()> {
        if oath.is_none() {
            return Ok(());
        }
        let mut pairs = self.pairs_of(a);
        if let Some(p) = extra {
            self.cfg(p)?;
            pairs.insert(p.to_string());
        }
        let px = self.prices(pairs.into_iter().map(|p| (p, i64::MAX)).collect(), &None)?;
        self.acct(a).vb -= value;
        self.margin_ok(a, &px)
    }
    fn lock(&mut self, oath: &Option<Dec>) -> Rs<Dec> {
        match oath {
            Some(x) => self.oath_value(*x),
            None => Ok(Dec::ZERO),
        }
    }
    fn add_active(&mut self, a: u16, k: KReq) {
        let q = self.acct(a);
        q.active.insert(q.reqs.len() as u64);
        q.reqs.push(k);
    }
    fn active_ok(&self, a: u16) -> Rs<()> {
        self.need(self.s.accts[&a].active.len() <= self.s.xc.active_requests_max as usize, "active_max")
    }
    fn times(&self, delay: u64, expiry: u64) -> (i64, i64) {
        let sub = self.s.now + delay as i64;
        (sub, sub + expiry as i64)
    }
    fn claims(&self, t: &Toks) -> Vec<(Res, Dec)> {
        t.iter().map(|(r, a)| (r.addr(self.w), *a)).collect()
    }
    fn holder(&self, slot: u16) -> Rs<()> {
        self.need(self.h.ref_holder.get(&slot) == Some(&(self.by as u8)), "referral_proof")
    }
    fn mint_reward(&mut self, n: Dec) {
        self.s.supply_reward += n;
        self.give(self.w.reward, n);
    }
    fn payout(&mut self, v: Dec) -> Rs<()> {
        self.s.pool.vb += v;
        self.pool_out(v)?;
        let b = self.w.base;
        self.give(b, v);
        Ok(())
    }
    fn reserve(&mut self, tokens: &[(Res, Dec)], totals: &BTreeMap<Res, Dec>) -> Rs<()> {
        let base = self.w.base;
        let mut have: BTreeMap<Res, Dec> = BTreeMap::new();
        for (r, v) in tokens {
            self.need(*r == base || self.s.colls.contains_key(r), "collateral")?;
            *have.entry(*r).or_default() += *v;
        }
        for (r, t) in totals {
            match have.get_mut(r) {
                Some(h) => {
                    self.need(*t <= *h, "tokens")?;
                    let t = ceil_to(*t, divisibility(self.w, *r));
                    self.need(t <= *h, "tokens")?;
                    *h -= t;
                    if !t.is_zero() {
                        *self.s.gen_held.entry(*r).or_default() += t;
                    }
                }
                None => self.need(t.is_zero(), "tokens")?,
            }
        }
        for (r, v) in have {
            self.give(r, v);
        }
        Ok(())
    }
    fn alloc(&mut self, slot: u16, tokens: &[(Res, Dec)], claims: Vec<(Res, Dec)>, count: u64) -> Rs<u64> {
        let (id, d) = self.s.refs[&slot].clone();
        self.need(d.referrals + count <= d.max_referrals, "referral_limit")?;
        self.s.refs.get_mut(&slot).unwrap().1.referrals += count;
        let mut totals: BTreeMap<Res, Dec> = BTreeMap::new();
        for (r, v) in &claims {
            self.need(v.is_positive(), "claim")?;
            *totals.entry(*r).or_default() += *v * Decimal::from(count);
        }
        self.reserve(tokens, &totals)?;
        let l = self.s.allocs.entry(id).or_default();
        l.push(Alloc { claims, count: 0, max: count });
        Ok(l.len() as u64 - 1)
    }

    // ---------------------------------------------------------------- operations
    pub fn act(&mut self, a: &Act) -> Rs<()> {
        let mut ret = Ret::None;
        match a {
            Act::Idle | Act::Look { .. } => {}
            Act::Batch(v) => {
                for x in v {
                    self.act(x)?;
                }
                return Ok(());
            }
            Act::PushOracle { push, want } => {
                self.push(push)?;
                ret = self.quote(want)?;
            }
            Act::OracleGet { want } => ret = self.quote(want)?,
            Act::OracleAdd { id, key } => {
                self.admin()?;
                self.need(!self.s.keys.contains_key(id), "key_exists")?;
                self.s.keys.insert(*id, oracle_key(*key).public_key().0.to_vec());
            }
            Act::OracleDel { id } => {
                self.admin()?;
                self.s.keys.remove(id);
            }
            Act::OracleDelPrice { pair } => {
                self.admin()?;
                self.s.prices.remove(pair);
            }
            Act::AddLiq { res, amount } => {
                let v = self.take(res.addr(self.w), *amount)?;
                self.authority()?;
                self.need(*res == R::Base, "payment")?;
                let fee = v * self.s.xc.fee_liquidity_add;
                let pv = self.s.pool_value().max(dec!(1));
                let each = if self.s.supply_lp.is_zero() { dec!(1) } else { pv / self.s.supply_lp };
                let lp = (v - fee) / each;
                self.need(!lp.is_negative(), "engine")?;
                self.s.pool.base += v;
                self.s.supply_lp += lp;
                let split = self.fees_basic(fee);
                let mut f = vec![("lp_price", F::D(each)), ("lp_amount", F::D(lp)), ("amount", F::D(v))];
                f.extend(split);
                self.say("EventLiquidityChange", f);
                let r = self.w.lp;
                self.give(r, lp);
            }
            Act::RemLiq { res, amount } => {
                let lp = self.take(res.addr(self.w), *amount)?;
                self.authority()?;
                self.need(*res == R::Lp, "payment")?;
                let pv = self.s.pool_value().max(dec!(0));
                let each = pv / self.s.supply_lp;
                let value = lp * each;
                let fee = value * self.s.xc.fee_liquidity_remove;
                let out = value - fee;
                self.pool_out(out)?;
                self.s.supply_lp -= lp;
                let split = self.fees_basic(fee);
                let mut f = vec![("lp_price", F::D(each)), ("lp_amount", F::D(-lp)), ("amount", F::D(-out))];
                f.extend(split);
                self.say("EventLiquidityChange", f);
                self.skew_ok(Dec::ZERO)?;
                let r = self.w.base;
                self.give(r, out);
            }
            Act::NewAcct { slot, rule, toks, code, oath, .. } => self.new_acct(*slot, rule, toks, code, oath)?,
            Act::RecKey { slot, acct, oath } => {
                let v = self.lock(oath)?;
                self.authority()?;
                self.level(*acct, 1)?;
                self.oath(*acct, oath, v, None)?;
                let id = self.ids.key.clone().unwrap_or(NonFungibleLocalId::ruid([9; 32]));
                let node = AccessRuleNode::ProofRule(ProofRule::Require(ResourceOrNonFungible::NonFungible(NonFungibleGlobalId::new(self.w.recovery, id.clone()))));
                let rule = Self::widen(&self.s.accts[acct].rules[0], node);
                self.set_rule(*acct, 1, rule);
                self.new_key = Some((*slot, id, self.by as u8));
            }
            Act::AddRule { acct, level, rule, oath } => {
                let v = self.lock(oath)?;
                self.authority()?;
                self.level(*acct, 1)?;
                self.oath(*acct, oath, v, None)?;
                self.need((1..=3).contains(level), "level_number")?;
                let r = Self::widen(&self.s.accts[acct].rules[*level as usize - 1], rule.node(self.w, self.h));
                self.set_rule(*acct, *level, r);
            }
            Act::SetRule { acct, level, rule, oath } => {
                let v = self.lock(oath)?;
                self.authority()?;
                self.level(*acct, 1)?;
                self.oath(*acct, oath, v, None)?;
                let r = rule.rule(self.w, self.h);
                self.set_rule(*acct, *level, r);
            }
            Act::AddColl { acct, toks, oath } => {
                let v = self.lock(oath)?;
                let t = self.toks(toks)?;
                self.authority()?;
                self.level(*acct, 3)?;
                self.coll_in(*acct, &t)?;
                self.oath(*acct, oath, v, None)?;
            }
            Act::ReqRemove { acct, target, claims, expiry, oath } => {
                let v = self.lock(oath)?;
                self.authority()?;
                self.level(*acct, 2)?;
                self.oath(*acct, oath, v, None)?;
                self.need(claims.len() <= 10, "claims_max")?;
                let (submission, expiry) = self.times(0, *expiry);
                let target = tgt(self.w, self.h, *target);
                let claims = self.claims(claims);
                ret = Ret::Index(self.s.accts[acct].reqs.len() as u64);
                self.add_active(*acct, KReq { req: Req::Remove(Removal { target, claims }), submission, expiry, status: ACTIVE, effected: vec![target] });
                self.active_ok(*acct)?;
            }
            Act::ReqOrder { acct, pair, amount, ro, pl, sl, activate, cancel, status, delay, expiry, oath } => {
                let v = self.lock(oath)?;
                self.authority()?;
                self.level(*acct, 3)?;
                self.oath(*acct, oath, v, Some(pair))?;
                let c = self.cfg(pair)?;
                self.need(amount.checked_abs().unwrap() >= c.trade_size_min, "size")?;
                self.need(activate.len() <= 2 && cancel.len() <= 2, "links_max")?;
                self.need(*status == ACTIVE || *status == DORMANT, "status_arg")?;
                let me = self.s.accts[acct].reqs.len() as u64;
                let f = |v: &Vec<Ref>| {
                    v.iter()
                        .map(|r| match r {
                            Ref::Abs(i) => *i,
                            Ref::Rel(o) => (me as i64 + o) as u64,
                        })
                        .collect::<Vec<u64>>()
                };
                let (submission, expiry) = self.times(*delay, *expiry);
                let o = Order { pair: pair.clone(), amount: *amount, reduce_only: *ro, price_limit: *pl, slip: *sl, activate: f(activate), cancel: f(cancel) };
                self.add_active(*acct, KReq { req: Req::Order(o), submission, expiry, status: *status, effected: vec![] });
                self.active_ok(*acct)?;
                ret = Ret::Index(me);
            }
            Act::ReqTpSl { acct, pair, amount, ro, pl, sl, tp, stop, delay, expiry, oath } => {
                let v = self.lock(oath)?;
                self.authority()?;
                self.level(*acct, 3)?;
                self.oath(*acct, oath, v, Some(pair))?;
                let c = self.cfg(pair)?;
                self.need(amount.checked_abs().unwrap() >= c.trade_size_min, "size")?;
                let me = self.s.accts[acct].reqs.len() as u64;
                let (submission, expiry) = self.times(*delay, *expiry);
                let i_tp = tp.map(|_| me + 1);
                let i_sl = stop.map(|_| me + 1 + tp.is_some() as u64);
                let mk = |amount: Dec, ro: bool, pl: PriceLimit, activate: Vec<u64>, cancel: Vec<u64>, status: u8| KReq {
                    req: Req::Order(Order { pair: pair.clone(), amount, reduce_only: ro, price_limit: pl, slip: *sl, activate, cancel }),
                    submission,
                    expiry,
                    status,
                    effected: vec![],
                };
                let links = i_tp.iter().chain(i_sl.iter()).copied().collect();
                self.add_active(*acct, mk(*amount, *ro, *pl, links, vec![], ACTIVE));
                let long = amount.is_positive();
                if let Some(p) = tp {
                    let lim = if long { PriceLimit::Gte(*p) } else { PriceLimit::Lte(*p) };
                    self.add_active(*acct, mk(-*amount, true, lim, vec![], i_sl.into_iter().collect(), DORMANT));
                }
                if let Some(p) = stop {
                    let lim = if long { PriceLimit::Lte(*p) } else { PriceLimit::Gte(*p) };
                    self.add_active(*acct, mk(-*amount, true, lim, vec![], i_tp.into_iter().collect(), DORMANT));
                }
                self.active_ok(*acct)?;
                ret = Ret::Triple(me, i_tp, i_sl);
            }
            Act::Cancel { acct, idx, oath } => {
                let v = self.lock(oath)?;
                self.authority()?;
                self.level(*acct, 3)?;
                self.oath(*acct, oath, v, None)?;
                let set: BTreeSet<u64> = idx.iter().copied().collect();
                for i in set {
                    let q = self.acct(*acct);
                    let k = match q.reqs.get_mut(i as usize) {
                        Some(k) => k,
                        None => return no("request_missing"),
                    };
                    if !k.live() {
                        return no("request_status");
                    }
                    k.status = CANCELLED;
                    q.active.remove(&i);
                }
            }
            Act::Process { acct, idx, push } => self.process(*acct, *idx, push)?,
            Act::SwapDebt { acct, res, pay_res, pay, push } => {
                let r = res.addr(self.w);
                let pay = self.take(pay_res.addr(self.w), *pay)?;
                self.authority()?;
                let px = self.prices(BTreeMap::new(), push)?;
                self.need(*pay_res == R::Base, "payment")?;
                let c = match self.s.colls.get(&r) {
                    Some(c) => c.clone(),
                    None => return no("collateral"),
                };
                let vb = self.s.accts[acct].vb;
                let ok = self.lt(vb, Dec::ZERO);
                self.need(ok, "no_debt")?;
                let price = px[&c.pair_id] * (c.discount * dec!("0.1") + dec!("0.9"));
                let value = pay.min(-vb);
                let amount = value / price;
                let available = self.s.accts[acct].coll.get(&r).copied().unwrap_or_default();
                let (amount, value) = if amount > available { (available, available * price) } else { (amount, value) };
                self.need(value <= pay, "engine")?;
                self.s.pool.base += value;
                self.settle(*acct, value);
                let got = self.coll_out(*acct, r, amount)?;
                let who = self.adr(*acct);
                self.say("EventSwapDebt", vec![("account", who), ("resource", F::R(r)), ("amount", F::D(got)), ("price", F::D(price))]);
                self.give(r, got);
                let b = self.w.base;
                self.give(b, pay - value);
            }
            Act::Liquidate { acct, pay_res, pay, push } => self.liquidate(*acct, *pay_res, *pay, push)?,
            Act::Adl { acct, pair, push } => self.adl(*acct, pair, push)?,
            Act::UpdatePairs { pairs, push } => {
                self.authority()?;
                let set: BTreeSet<String> = pairs.iter().cloned().collect();
                let ages = self.ages(&set)?;
                let px = self.prices(ages, push)?;
                let mut m = BTreeMap::new();
                for p in &set {
                    let r = self.update_pair(p, px[p])?;
                    m.insert(p.clone(), r);
                }
                let n = m.values().filter(|x| **x).count();
                self.mint_reward(Decimal::from(n as u64));
                ret = Ret::Rewarded(m);
            }
            Act::SwapProtocol { res, amount } => {
                let pay = self.take(res.addr(self.w), *amount)?;
                self.authority()?;
                self.need(*res == R::Protocol, "payment")?;
                let burn = self.s.xc.protocol_burn_amount;
                self.need(pay >= burn, "payment_small")?;
                self.s.supply_protocol -= burn;
                let r = self.w.protocol;
                self.give(r, pay - burn);
                let v = self.s.protocol;
                self.s.protocol = Dec::ZERO;
                self.payout(v)?;
            }
            Act::CollectTreasury => {
                self.admin()?;
                self.authority()?;
                let v = self.s.treasury;
                self.s.treasury = Dec::ZERO;
                self.payout(v)?;
            }
            Act::CollectDelegator => {
                self.admin()?;
                self.authority()?;
                let v = self.s.del.vb;
                self.s.del.vb = Dec::ZERO;
                self.payout(v)?;
            }
            Act::MintRef { slot, to, fee_ref, rebate, max, alloc } => {
                let toks = match alloc {
                    Some((t, _, _)) => self.toks(t)?,
                    None => vec![],
                };
                self.admin()?;
                self.authority()?;
                let ok = |x: &Dec| *x >= dec!(0) && *x <= dec!("0.1");
                self.need(ok(fee_ref) && ok(rebate), "referral_terms")?;
                let id = self.ids.referral.clone().unwrap_or(NonFungibleLocalId::ruid([8; 32]));
                self.s.refs.insert(
                    *slot,
                    (
                        id.clone(),
                        crate::mirror::ReferralData {
                            name: "n".into(),
                            description: "d".into(),
                            key_image_url: UncheckedUrl::of("https://surge.trade"),
                            fee_referral: *fee_ref,
                            fee_rebate: *rebate,
                            referrals: 0,
                            max_referrals: *max,
                            balance: Dec::ZERO,
                            total_rewarded: Dec::ZERO,
                        },
                    ),
                );
                self.new_ref = Some((*slot, id, *to));
                if let Some((_, c, n)) = alloc {
                    let c = self.claims(c);
                    self.alloc(*slot, &toks, c, *n)?;
                }
            }
            Act::UpdRef { slot, fee_ref, rebate, max } => {
                self.admin()?;
                self.authority()?;
                let ok = |x: &Option<Dec>| x.map(|x| x >= dec!(0) && x <= dec!("0.1")).unwrap_or(true);
                self.need(ok(fee_ref) && ok(rebate), "referral_terms")?;
                let d = &mut self.s.refs.get_mut(slot).unwrap().1;
                if let Some(x) = fee_ref {
                    d.fee_referral = *x;
                }
                if let Some(x) = rebate {
                    d.fee_rebate = *x;
                }
                if let Some(x) = max {
                    d.max_referrals = *x;
                }
            }
            Act::AddAlloc { slot, toks, claims, count } => {
                let t = self.toks(toks)?;
                self.admin()?;
                self.authority()?;
                let c = self.claims(claims);
                ret = Ret::Index(self.alloc(*slot, &t, c, *count)?);
            }
            Act::Codes { slot, toks, codes } => {
                self.holder(*slot)?;
                let t = self.toks(toks)?;
                self.authority()?;
                let m: BTreeMap<Hash, (Vec<(Res, Dec)>, u64)> = codes.iter().map(|(c, cl, n)| (keccak256_hash(c.as_bytes()), (self.claims(cl), *n))).collect();
                let (id, d) = self.s.refs[slot].clone();
                let count: u64 = m.values().map(|x| x.1).sum();
                self.need(d.referrals + count <= d.max_referrals, "referral_limit")?;
                self.s.refs.get_mut(slot).unwrap().1.referrals += count;
                let mut totals: BTreeMap<Res, Dec> = BTreeMap::new();
                for (claims, n) in m.values() {
                    self.need(*n == 1 || claims.is_empty(), "code_claims")?;
                    for (r, v) in claims {
                        self.need(v.is_positive(), "claim")?;
                        *totals.entry(*r).or_default() += *v;
                    }
                }
                self.reserve(&t, &totals)?;
                for (hash, (claims, max)) in m {
                    self.need(!self.s.codes.contains_key(&hash), "code_exists")?;
                    self.s.codes.insert(hash, Code { referral: id.clone(), claims, count: 0, max });
                }
            }
            Act::CodesAlloc { slot, index, codes } => {
                self.holder(*slot)?;
                self.authority()?;
                let set: BTreeSet<Hash> = codes.iter().map(|c| keccak256_hash(c.as_bytes())).collect();
                let id = self.s.refs[slot].0.clone();
                let al = match self.s.allocs.get_mut(&id).and_then(|l| l.get_mut(*index as usize)) {
                    Some(x) => x,
                    None => return no("alloc_missing"),
                };
                al.count += set.len() as u64;
                let (over, claims) = (al.count > al.max, al.claims.clone());
                self.need(!over, "alloc_limit")?;
                for hash in set {
                    self.need(!self.s.codes.contains_key(&hash), "code_exists")?;
                    self.s.codes.insert(hash, Code { referral: id.clone(), claims: claims.clone(), count: 0, max: 1 });
                }
            }
            Act::CollectRef { slot } => {
                self.holder(*slot)?;
                self.authority()?;
                let d = &mut self.s.refs.get_mut(slot).unwrap().1;
                let v = d.balance;
                d.balance = Dec::ZERO;
                self.payout(v)?;
            }
            Act::SetX { cfg } => {
                self.admin()?;
                self.authority()?;
                self.s.xc = valid_x(cfg)?;
                self.say("EventExchangeConfigUpdate", vec![("config", F::X(cfg.clone()))]);
            }
            Act::SetPairs { cfgs } => {
                self.admin()?;
                self.authority()?;
                for c in cfgs {
                    let c = valid_p(c)?;
                    match self.s.pairs.iter_mut().find(|p| p.pair_id == c.pair_id) {
                        Some(p) => *p = c,
                        None => self.s.pairs.push(c),
                    }
                }
                self.say("EventPairConfigUpdates", vec![("configs", F::P(cfgs.clone()))]);
            }
            Act::SetColls { cfgs } => {
                self.admin()?;
                self.authority()?;
                for (r, c) in cfgs {
                    let c = valid_c(c)?;
                    self.s.colls.insert(r.addr(self.w), c);
                }
                let v = cfgs.iter().map(|(r, c)| (r.addr(self.w), c.clone())).collect();
                self.say("EventCollateralConfigUpdates", vec![("configs", F::C(v))]);
            }
            Act::DelColl { res } => {
                self.admin()?;
                self.authority()?;
                self.s.colls.remove(&res.addr(self.w));
                self.say("EventCollateralConfigRemoval", vec![("resource", F::R(res.addr(self.w)))]);
            }
            Act::WithdrawAuth => {
                self.admin()?;
                let v = self.s.authority;
                self.s.authority = Dec::ZERO;
                let r = self.w.authority;
                self.give(r, v);
            }
            Act::DepositAuth { res } => {
                self.take(res.addr(self.w), Dec::ONE)?;
                self.admin()?;
                self.need(*res == R::Authority, "engine")?;
                self.s.authority += Dec::ONE;
            }
            Act::Signal => {
                self.admin()?;
                self.say("EventSignalUpgrade", vec![("new_exchange", F::A(self.w.oracle))]);
            }
            // A fee locked on someone else's behalf must be charged to an account before the end.
            Act::Lock { amount, burn } => {
                let v = self.oath_value(*amount)?;
                // Nothing is owed when the fee is priced at nothing.
                self.need(v.is_zero(), "oath")?;
                self.f.fragile |= *burn;
            }
            Act::DelMax { v } => {
                self.admin()?;
                self.need(*v >= dec!(0), "engine")?;
                self.s.del.max_lock = *v;
            }
            Act::DelMult { v } => {
                self.admin()?;
                self.need(*v >= dec!(0), "engine")?;
                self.s.del.mult = *v;
            }
            Act::DelCont { v } => {
                self.admin()?;
                self.s.del.contingent = *v;
            }
            Act::DelDeposit { amount } => {
                self.admin()?;
                self.del_touched = true;
                self.s.del.xrd += *amount;
            }
            Act::DelWithdraw { amount } => {
                self.admin()?;
                self.del_touched = true;
                self.need(*amount <= self.s.del.xrd && !amount.is_negative(), "engine")?;
                self.s.del.xrd -= *amount;
            }
            Act::Wrap { res, amount } => {
                let r = res.addr(self.w);
                let v = self.take(r, *amount)?;
                let e = match self.s.wrap.get_mut(&r) {
                    Some(e) => e,
                    None => return no("child"),
                };
                if !e.1 {
                    return no("wrap_off");
                }
                e.0 += v;
                self.s.supply_base += v;
                let b = self.w.base;
                self.give(b, v);
            }
            Act::Unwrap { res, amount, child } => {
                let v = self.take(res.addr(self.w), *amount)?;
                self.need(*res == R::Base, "payment")?;
                let c = child.addr(self.w);
                let div = divisibility(self.w, c);
                let e = match self.s.wrap.get_mut(&c) {
                    Some(e) => e,
                    None => return no("child"),
                };
                let out = floor_to(v, div);
                if out > e.0 {
                    return no("child_balance");
                }
                e.0 -= out;
                self.s.supply_base -= v;
                self.give(c, out);
            }
            Act::Flash { amount, inner, repay_res, repay, oath } => {
                let b = self.w.base;
                self.need(!amount.is_negative(), "engine")?;
                self.s.supply_base += *amount;
                self.give(b, *amount);
                if let Some(i) = inner {
                    self.act(i)?;
                }
                let r = self.take(repay_res.addr(self.w), *repay)?;
                self.need(*oath, "flash_oath")?;
                self.need(*repay_res == R::Base, "payment")?;
                self.need(r >= *amount, "payment_small")?;
                self.s.supply_base -= *amount;
                self.give(b, r - *amount);
            }
            Act::WrapAdd { res } => {
                self.admin()?;
                let r = res.addr(self.w);
                if !self.s.wrap.contains_key(&r) {
                    self.s.wrap.insert(r, (Dec::ZERO, true));
                    self.s.wrap_list.push(r);
                }
            }
            Act::WrapSet { res, on } => {
                self.admin()?;
                match self.s.wrap.get_mut(&res.addr(self.w)) {
                    Some(e) => e.1 = *on,
                    None => return no("child"),
                }
            }
            Act::Burn { res, amount } => {
                let v = self.take(res.addr(self.w), *amount)?;
                match res {
                    R::Base => self.s.supply_base -= v,
                    R::Reward => self.s.supply_reward -= v,
                    R::Protocol => self.s.supply_protocol -= v,
                    R::Usda | R::Usdb | R::Btc | R::Eth | R::Junk => {}
                    _ => return no("burn"),
                }
            }
            Act::Intrude { .. } => return no("intrude"),
            Act::Forge { .. } => return no("forge"),
            Act::FauFree => {
                for (r, a) in self.s.fau.clone() {
                    if a.is_positive() {
                        self.fau_mint(r, a)?;
                    }
                }
            }
            Act::FauSet { res, amount, badge } => {
                self.admin()?;
                self.need(*badge, "admin")?;
                self.s.fau.insert(res.addr(self.w), *amount);
            }
            Act::FauMint { res, amount, badge } => {
                self.admin()?;
                self.need(*badge, "admin")?;
                self.fau_mint(res.addr(self.w), *amount)?;
            }
            Act::EnvSet { vars } => {
                self.admin()?;
                for (k, v) in vars {
                    self.s.env.insert(k.clone(), v.clone());
                }
            }
            Act::EnvDel { keys } => {
                self.admin()?;
                for k in keys {
                    self.s.env.remove(k);
                }
            }
            Act::EnvGet { keys } => {
                ret = Ret::Vars(keys.iter().map(|k| (k.clone(), self.s.env.get(k).cloned().unwrap_or_default())).collect());
            }
        }
        self.rets.push(ret);
        Ok(())
    }

    /// The faucet can make its own tokens only, in amounts they can have.
    fn fau_mint(&mut self, r: Res, a: Dec) -> Rs<()> {
        self.need(self.w.ftok.contains(&r) && !a.is_negative() && floor_to(a, divisibility(self.w, r)) == a, "mint")?;
        *self.s.fau_supply.get_mut(&r).unwrap() += a;
        self.give(r, a);
        Ok(())
    }
    fn quote(&mut self, want: &[String]) -> Rs<Ret> {
        let mut m = BTreeMap::new();
        for p in want {
            match self.s.prices.get(p) {
                Some(x) => {
                    m.insert(p.clone(), *x);
                }
                None => return no("price_missing"),
            }
        }
        Ok(Ret::Prices(m))
    }

    fn new_acct(&mut self, slot: u16, rule: &Rule, toks: &Toks, code: &Option<String>, oath: &Option<Dec>) -> Rs<()> {
        let v = self.lock(oath)?;
        let mut t = self.toks(toks)?;
        self.authority()?;
        let mut referral = None;
        if let Some(c) = code {
            let c = match self.s.codes.get_mut(&keccak256_hash(c.as_bytes())) {
                Some(c) => c,
                None => return no("code_missing"),
            };
            if c.count >= c.max {
                return no("code_used");
            }
            c.count += 1;
            let c = c.clone();
            for (r, a) in &c.claims {
                let a = floor_to(*a, divisibility(self.w, *r));
                let have = self.s.gen_held.get(r).copied().unwrap_or_default();
                self.need(a <= have, "engine")?;
                if have == a {
                    self.s.gen_held.remove(r);
                } else {
                    self.s.gen_held.insert(*r, have - a);
                }
                t.push((*r, a));
            }
            referral = Some(c.referral);
        }
        let addr = if self.ids.comps.is_empty() { self.w.pool } else { self.ids.comps.remove(0) };
        let rule = rule.rule(self.w, self.h);
        self.s.accts.insert(
            slot,
            Acct {
                addr,
                pos: Default::default(),
                coll: Default::default(),
                held: Default::default(),
                vb: Dec::ZERO,
                reqs: vec![],
                active: Default::default(),
                valid_start: 0,
                referral,
                rules: [rule.clone(), rule.clone(), rule.clone()],
            },
        );
        self.new_accts.push((slot, addr));
        for l in 0..3 {
            self.list(&rule, l, addr);
        }
        self.coll_in(slot, &t)?;
        self.oath(slot, oath, v, None)?;
        let (who, r) = (self.adr(slot), F::Ref(self.s.accts[&slot].referral.clone()));
        self.say("EventAccountCreation", vec![("account", who), ("referral", r)]);
        Ok(())
    }

    fn process(&mut self, a: u16, idx: u64, push: &Option<Push>) -> Rs<()> {
        self.authority()?;
        let now = self.s.now;
        self.need(idx >= self.s.accts[&a].valid_start, "valid_start")?;
        let k = match self.s.accts[&a].reqs.get(idx as usize) {
            Some(k) => k.clone(),
            None => return no("request_missing"),
        };
        let expired = now >= k.expiry;
        if expired {
            self.need(k.live(), "request_status")?;
        } else {
            self.need(k.status == ACTIVE, "request_status")?;
        }
        self.need(now > k.submission, "submission")?;
        let q = self.acct(a);
        q.reqs[idx as usize].status = if expired { EXPIRED } else { EXECUTED };
        q.active.remove(&idx);
        if !expired {
            let mut pairs = self.pairs_of(a);
            if let Req::Order(o) = &k.req {
                pairs.insert(o.pair.clone());
            }
            let ages = self.ages(&pairs)?;
            let px = self.prices(ages, push)?;
            match &k.req {
                Req::Remove(r) => self.removal(a, r, &px)?,
                Req::Order(o) => self.order(a, o, &px)?,
            }
        }
        self.prune(a);
        let r = self.s.xc.reward_keeper;
        self.mint_reward(r);
        Ok(())
    }

    fn removal(&mut self, a: u16, r: &Removal, px: &BTreeMap<String, Dec>) -> Rs<()> {
        let mut claims: BTreeMap<Res, Dec> = BTreeMap::new();
        for (res, v) in &r.claims {
            *claims.entry(*res).or_default() += *v;
        }
        let mut out = vec![];
        for (res, v) in &claims {
            if *res == self.w.base {
                let vb = self.s.accts[&a].vb;
                let ok = self.le(*v, vb);
                self.need(ok, "balance")?;
                self.pool_out(*v)?;
                self.settle(a, -*v);
                out.push((*res, *v));
            } else {
                let have = self.s.accts[&a].coll.get(res).copied().unwrap_or_default();
                self.need(*v <= have, "balance")?;
                let got = self.coll_out(a, *res, *v)?;
                out.push((*res, got));
            }
        }
        let mut m: BTreeMap<Res, Dec> = out.iter().cloned().collect();
        m.retain(|_, v| !v.is_zero());
        let from = self.adr(a);
        self.say("EventRemoveCollateral", vec![("account", from), ("target", F::A(r.target)), ("amounts", F::Rm(m))]);
        let who = match self.w.actors.iter().position(|x| x.addr == r.target) {
            Some(i) => i,
            None => return no("target"),
        };
        let welcome = |r: &Res| match who {
            REFUSER => false,
            HOLDER => *r == self.w.base || *r == self.w.btc,
            _ => true,
        };
        let ok = out.iter().all(|x| welcome(&x.0));
        self.need(ok, "target")?;
        for (res, v) in out {
            self.give_to(who as u8, res, v);
        }
        self.margin_ok(a, px)
    }

    fn order(&mut self, a: u16, o: &Order, px: &BTreeMap<String, Dec>) -> Rs<()> {
        let price = px[&o.pair];
        let ok = match o.price_limit {
            PriceLimit::None => true,
            PriceLimit::Gte(l) => price >= l,
            PriceLimit::Lte(l) => price <= l,
        };
        self.need(ok, "price_limit")?;
        self.update_pair(&o.pair, price)?;
        let funding = self.settle_funding(a, &o.pair);
        let have = self.s.accts[&a].pos.get(&o.pair).map(|p| p.amount).unwrap_or_default();
        let opposite = (have.is_positive() && o.amount.is_negative()) || (have.is_negative() && o.amount.is_positive());
        let closing = if !opposite {
            Dec::ZERO
        } else if have.is_positive() {
            o.amount.max(-have)
        } else {
            o.amount.min(-have)
        };
        let opening = if o.reduce_only { Dec::ZERO } else { o.amount - closing };
        let skew_0 = self.s.pool.skew;
        let mut fee = Dec::ZERO;
        let mut pnl = funding;
        if !closing.is_zero() {
            let (x, y) = self.close_pos(a, &o.pair, closing, price)?;
            pnl += x;
            fee += y;
        }
        if !opening.is_zero() {
            fee += self.open_pos(a, &o.pair, opening, px)?;
        }
        let traded = price * (opening + closing).checked_abs().unwrap();
        let allowed = match o.slip {
            SlipLimit::None => Dec::MAX,
            SlipLimit::Percent(p) => traded * p / dec!(100),
            SlipLimit::Absolute(x) => x,
        };
        let ok = if allowed == Dec::MAX { true } else { self.le(fee, allowed) };
        self.need(ok, "slippage")?;
        let split = self.fees_referral(a, fee);
        let mut touched = vec![BTreeSet::new(), BTreeSet::new()];
        for (list, status) in [(&o.activate, ACTIVE), (&o.cancel, CANCELLED)] {
            let set: BTreeSet<u64> = list.iter().copied().collect();
            for i in &set {
                self.need((*i as u128) < self.s.accts[&a].reqs.len() as u128, "request_missing")?;
            }
            for i in set {
                let q = self.acct(a);
                let k = &mut q.reqs[i as usize];
                if status == ACTIVE && k.status == DORMANT {
                    k.status = ACTIVE;
                    touched[0].insert(i);
                } else if status == CANCELLED && k.live() {
                    k.status = CANCELLED;
                    q.active.remove(&i);
                    touched[1].insert(i);
                }
            }
        }
        let mut f = vec![
            ("account", self.adr(a)),
            ("pair", F::S(o.pair.clone())),
            ("price", F::D(price)),
            ("price_limit", F::L(o.price_limit)),
            ("amount_close", F::D(closing)),
            ("amount_open", F::D(opening)),
            ("pnl", F::D(pnl)),
            ("funding", F::D(funding)),
        ];
        f.extend(split);
        f.push(("cancelled", F::Set(touched.pop().unwrap())));
        f.insert(f.len() - 1, ("activated", F::Set(touched.pop().unwrap())));
        self.say("EventMarginOrder", f);
        let d = self.s.pool.skew - skew_0;
        self.skew_ok(d)
    }

    fn liquidate(&mut self, a: u16, pay_res: R, pay: Dec, push: &Option<Push>) -> Rs<()> {
        let pay = self.take(pay_res.addr(self.w), pay)?;
        self.authority()?;
        let pairs = self.pairs_of(a);
        let ages = self.ages(&pairs)?;
        let px = self.prices(ages, push)?;
        self.need(pay_res == R::Base, "payment")?;
        for p in &pairs {
            self.update_pair(p, px[p])?;
        }
        let (value, margin) = self.valuation(a, &px, true)?;
        let ok = self.lt(value, margin);
        self.need(ok, "healthy")?;
        let vb_0 = self.s.accts[&a].vb;
        let rebate = self.rebate(a);
        let (mut pnl, mut fees, mut funding) = (Dec::ZERO, Dec::ZERO, Dec::ZERO);
        let pos = std::mem::take(&mut self.acct(a).pos);
        for (pair, q) in &pos {
            let c = self.cfg(pair)?;
            let price = px[pair];
            let v = -q.amount * price;
            let fee = self.fee(pair, &c, rebate, price, v);
            let p = self.pp(pair);
            let f = Self::accrued(q, p);
            if q.amount.is_positive() {
                p.oi_long -= q.amount;
            } else {
                p.oi_short += q.amount;
            }
            p.cost -= q.cost;
            pnl += -v - q.cost - fee - f;
            fees += fee;
            funding += f;
        }
        self.s.pool.upf += -funding;
        for p in &pairs {
            self.snaps(p, px[p]);
        }
        let (mut worth, mut full) = (Dec::ZERO, Dec::ZERO);
        let mut coll_px = BTreeMap::new();
        let coll = self.s.accts[&a].coll.clone();
        let mut seized = vec![];
        for (r, amount) in coll {
            if let Some(c) = self.s.colls.get(&r) {
                worth += amount * px[&c.pair_id] * c.discount;
                full += amount * px[&c.pair_id];
                coll_px.insert(r, px[&c.pair_id]);
                seized.push((r, amount));
            }
        }
        let ok = self.le(worth, pay);
        self.need(ok, "payment_small")?;
        let mut seized_map: BTreeMap<Res, Dec> = seized.iter().cloned().collect();
        seized_map.retain(|_, v| !v.is_zero());
        for (r, v) in seized {
            let got = self.coll_out(a, r, v)?;
            self.give(r, got);
        }
        self.s.pool.base += worth;
        let b = self.w.base;
        self.give(b, pay - worth);
        self.settle(a, pnl + worth);
        let vb = self.s.accts[&a].vb;
        let loss = vb.min(Dec::ZERO);
        if vb.is_negative() {
            self.settle(a, -vb);
            self.f.notes.insert("bad_debt");
        }
        let split = self.fees_referral(a, fees);
        let mut f = vec![
            ("account", self.adr(a)),
            ("position_prices", F::Pm(pairs.iter().map(|p| (p.clone(), px[p])).collect())),
            ("collateral_prices", F::Rm(coll_px)),
            ("account_value", F::D(value)),
            ("margin", F::D(margin)),
            ("virtual_balance", F::D(vb_0)),
            ("position_amounts", F::Pm(pos.iter().map(|(p, q)| (p.clone(), q.amount)).collect())),
            ("positions_pnl", F::D(pnl)),
            ("collateral_amounts", F::Rm(seized_map)),
            ("collateral_value", F::D(full)),
            ("collateral_value_discounted", F::D(worth)),
            ("funding", F::D(-funding)),
        ];
        f.extend(split);
        f.push(("pool_loss", F::D(loss)));
        self.say("EventLiquidate", f);
        let q = self.acct(a);
        q.valid_start = q.reqs.len() as u64;
        q.active.clear();
        self.f.liquidated.push(a);
        let r = self.s.xc.reward_keeper;
        self.mint_reward(r);
        Ok(())
    }

    fn adl(&mut self, a: u16, pair: &str, push: &Option<Push>) -> Rs<()> {
        self.authority()?;
        let mut pairs = self.pairs_of(a);
        pairs.insert(pair.to_string());
        let ages = self.ages(&pairs)?;
        let px = self.prices(ages, push)?;
        let price = px[pair];
        self.update_pair(pair, price)?;
        let funding = self.settle_funding(a, pair);
        let r0 = self.s.skew_ratio();
        let cap = self.s.xc.skew_ratio_cap;
        let ok = self.lt(cap, r0);
        self.need(ok, "skew_low")?;
        let pos = match self.s.accts[&a].pos.get(pair) {
            Some(p) => p.clone(),
            None => return no("no_position"),
        };
        // Return of the position on what it cost, whichever side it is on.
        let gain = pos.amount * price - pos.cost;
        let pct = gain / pos.cost.checked_abs().unwrap();
        let x = &self.s.xc;
        let u = r0 / x.adl_a - x.adl_offset / x.adl_a;
        let threshold = -(u * u * u) - x.adl_b * u;
        let ok = self.lt(threshold, pct);
        self.need(ok, "adl_rank")?;
        let (pnl, fee) = self.close_pos(a, pair, -pos.amount, price)?;
        let split = self.fees_referral(a, fee);
        let mut f = vec![
            ("account", self.adr(a)),
            ("pair", F::S(pair.to_string())),
            ("price", F::D(price)),
            ("amount_close", F::D(-pos.amount)),
            ("pnl", F::D(pnl + funding)),
            ("funding", F::D(funding)),
        ];
        f.extend(split);
        f.extend([("pnl_percent", F::D(pct)), ("threshold", F::D(threshold))]);
        self.say("EventAutoDeleverage", f);
        let r1 = self.s.skew_ratio();
        let ok = self.lt(r1, r0);
        self.need(ok, "skew_not_reduced")?;
        self.prune(a);
        let r = self.s.xc.reward_keeper;
        self.mint_reward(r);
        Ok(())
    }
}

// ---------------------------------------------------------------- configuration
fn cz(v: Dec) -> Rs<Dec> {
    compact(v).ok_or(Rej { why: "config" })
}
fn within(v: Dec, lo: Dec, hi: Option<Dec>) -> Rs<Dec> {
    if v < lo || hi.map(|h| v > h).unwrap_or(false) {
        return no("config");
    }
    cz(v)
}
fn secs(v: i64) -> Rs<i64> {
    if v <= 0 || v > 65535 { no("config") } else { Ok(v) }
}
pub fn valid_x(c: &XCfg) -> Rs<XCfg> {
    let z = dec!(0);
    if c.positions_max == 0 {
        return no("config");
    }
    Ok(XCfg {
        positions_max: c.positions_max,
        collaterals_max: c.collaterals_max,
        active_requests_max: c.active_requests_max,
        skew_ratio_cap: within(c.skew_ratio_cap, z, None)?,
        adl_offset: within(c.adl_offset, z, None)?,
        adl_a: within(c.adl_a, z, None)?,
        adl_b: within(c.adl_b, z, None)?,
        fee_liquidity_add: within(c.fee_liquidity_add, z, None)?,
        fee_liquidity_remove: within(c.fee_liquidity_remove, z, None)?,
        fee_share_protocol: within(c.fee_share_protocol, z, Some(dec!("0.3")))?,
        fee_share_treasury: within(c.fee_share_treasury, z, Some(dec!("0.15")))?,
        fee_share_referral: within(c.fee_share_referral, z, Some(dec!(1)))?,
        fee_max: within(c.fee_max, z, None)?,
        protocol_burn_amount: within(c.protocol_burn_amount, dec!(1000), None)?,
        reward_keeper: within(c.reward_keeper, z, None)?,
    })
}
pub fn valid_p(c: &PCfg) -> Rs<PCfg> {
    let z = dec!(0);
    if c.update_price_delta_ratio <= z || c.margin_maintenance > c.margin_initial {
        return no("config");
    }
    Ok(PCfg {
        pair_id: c.pair_id.clone(),
        price_age_max: secs(c.price_age_max)?,
        oi_max: within(c.oi_max, z, None)?,
        trade_size_min: within(c.trade_size_min, z, None)?,
        update_price_delta_ratio: cz(c.update_price_delta_ratio)?,
        update_period_seconds: secs(c.update_period_seconds)?,
        margin_initial: within(c.margin_initial, z, Some(dec!(1)))?,
        margin_maintenance: within(c.margin_maintenance, z, Some(dec!(1)))?,
        funding_1: within(c.funding_1, z, Some(dec!(2)))?,
        funding_2: within(c.funding_2, z, Some(dec!(4)))?,
        funding_2_delta: within(c.funding_2_delta, z, Some(dec!(10000)))?,
        funding_2_decay: within(c.funding_2_decay, z, None)?,
        funding_pool_0: within(c.funding_pool_0, z, Some(dec!(1)))?,
        funding_pool_1: within(c.funding_pool_1, z, Some(dec!(2)))?,
        funding_share: within(c.funding_share, z, Some(dec!("0.1")))?,
        fee_0: within(c.fee_0, z, Some(dec!("0.015")))?,
        fee_1: within(c.fee_1, z, Some(dec!("0.000001")))?,
    })
}
pub fn valid_c(c: &CCfg) -> Rs<CCfg> {
    Ok(CCfg {
        pair_id: c.pair_id.clone(),
        price_age_max: secs(c.price_age_max)?,
        discount: within(c.discount, dec!("0.8"), Some(dec!(1)))?,
        margin: within(c.margin, dec!(0), Some(dec!("0.1")))?,
    })
}

/// What the model says about a step: the state it must lead to, or why it must be refused.
pub struct Verdict {
    pub result: Result<St, Rej>,
    pub facts: Facts,
    pub rets: Vec<Ret>,
    pub new_accts: Vec<(u16, ComponentAddress)>,
    pub new_ref: Option<(u16, NonFungibleLocalId, u8)>,
    pub new_key: Option<(u16, NonFungibleLocalId, u8)>,
}

pub fn predict(w: &World, h: &Handles, s: &St, step: &Step, ids: Ids) -> Verdict {
    let mut m = M::new(w, h, s.clone(), step, ids);
    let q = crate::vm::quiet(true);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| m.act(&step.act)));
    crate::vm::quiet(q);
    let result = match r {
        Ok(Ok(())) => Ok(m.s),
        Ok(Err(e)) => Err(e),
        // Arithmetic that cannot be represented aborts the operation.
        Err(p) => {
            let msg = p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            if msg.contains("account slot") || msg.contains("known referral") || msg.contains("index out of") || msg.contains("no entry") {
                eprintln!("MODEL PANIC {} on {:?}", msg, step);
            }
            no("arithmetic")
        }
    };
    Verdict { result, facts: m.f, rets: m.rets, new_accts: m.new_accts, new_ref: m.new_ref, new_key: m.new_key }
}
