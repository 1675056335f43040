//! The seeded generator: it decides every operation, sender, delay, fault and price, looking at the
//! state reached so far so that runs get deep into the system instead of bouncing off its checks.
use crate::act::*;
use crate::act::Ref;
use crate::model::*;
use crate::st::*;
use crate::world::*;
use radix_common::prelude::*;
use radix_engine_interface::prelude::*;
use std::collections::{BTreeMap, BTreeSet, VecDeque};

#[derive(Clone)]
pub struct Rng(u64, u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15, seed.wrapping_mul(0xD134_2543_DE82_EF95) | 1);
        for _ in 0..8 {
            r.next();
        }
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(self.1 | 1);
        let mut x = self.0;
        x ^= x >> 30;
        x = x.wrapping_mul(0xBF58476D1CE4E5B9);
        x ^= x >> 27;
        x = x.wrapping_mul(0x94D049BB133111EB);
        x ^ (x >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 { 0 } else { self.next() % n }
    }
    /// Probability in thousandths.
    pub fn p(&mut self, milli: u64) -> bool {
        self.below(1000) < milli
    }
    pub fn pick<T: Clone>(&mut self, v: &[T]) -> T {
        v[self.below(v.len() as u64) as usize].clone()
    }
    pub fn f(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn int(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u64) as i64
    }
}

pub fn fl(d: Dec) -> f64 {
    d.to_string().parse().unwrap_or(0.0)
}
pub fn df(f: f64, digits: usize) -> Dec {
    let f = if f.is_finite() { f.clamp(-1e15, 1e15) } else { 0.0 };
    Dec::try_from(format!("{:.*}", digits.min(17), f).as_str()).unwrap_or(Dec::ZERO)
}
fn d(s: &str) -> Dec {
    Dec::try_from(s).unwrap()
}

pub const PAIRS: [&str; 4] = ["BTC/USD", "ETH/USD", "XRP/USD", "SOL/USD"];
pub const FEEDS: [&str; 4] = ["BTC/USD", "ETH/USD", "XRP/USD", "USDB/USD"];

pub fn default_x() -> XCfg {
    XCfg {
        positions_max: 30,
        collaterals_max: 5,
        active_requests_max: 100,
        skew_ratio_cap: dec!("0.15"),
        adl_offset: dec!("0.2"),
        adl_a: dec!("0.07"),
        adl_b: dec!("0.07"),
        fee_liquidity_add: dec!("0.001"),
        fee_liquidity_remove: dec!("0.001"),
        fee_share_protocol: dec!("0.22"),
        fee_share_treasury: dec!("0.08"),
        fee_share_referral: dec!(1),
        fee_max: dec!("0.01"),
        protocol_burn_amount: dec!(10000),
        reward_keeper: dec!(1),
    }
}
pub fn default_p(pair: &str) -> PCfg {
    PCfg {
        pair_id: pair.to_string(),
        price_age_max: 60,
        oi_max: dec!(1000000000),
        trade_size_min: dec!(0),
        update_price_delta_ratio: dec!("0.005"),
        update_period_seconds: 3600,
        margin_initial: dec!("0.01"),
        margin_maintenance: dec!("0.005"),
        funding_1: dec!(1),
        funding_2: dec!(1),
        funding_2_delta: dec!(100),
        funding_2_decay: dec!(100),
        funding_pool_0: dec!("0.02"),
        funding_pool_1: dec!("0.25"),
        funding_share: dec!("0.02"),
        fee_0: dec!("0.0005"),
        fee_1: dec!("0.0000000005"),
    }
}

#[derive(Clone, Debug)]
pub enum Plan {
    Do(Step),
    Newest { acct: u16, back: u64 },
    Any { acct: u16 },
    /// Something its owner does at the account's expense, with the transaction's fee borrowed.
    Spend { acct: u16 },
    Move { pair: String, factor: f64 },
    Edge { acct: u16, maintenance: bool },
    Liq { acct: u16 },
    Adl { acct: u16, pair: String },
    Close { acct: u16 },
    Swap { acct: u16 },
    Open { acct: u16 },
    OpenVia { acct: u16, pair: String, long: bool, lev: f64 },
    Withdraw { acct: u16 },
    LowerCap,
    RaiseCap,
    Wait { secs: i64 },
    Update,
    Collect { slot: u16 },
    Restore,
    /// Limits set below what an account already has.
    Tighten { acct: u16 },
    Loosen,
    /// Providers leave, a trader wins, and takes what the pool can pay.
    LpOut { who: u8 },
    CapOff,
    TakeAll { acct: u16 },
    /// Collateral out, up to what covers the debt and beyond.
    TakeOut { acct: u16 },
    Fees { what: u8 },
    /// An operation sized so that it is only just accepted, or only just refused.
    Brink { acct: u16, what: u8 },
}

const BASE: &[(&str, u64)] = &[
    ("push_oracle", 40),
    ("oracle_get", 6),
    ("oracle_add_key", 4),
    ("oracle_remove_key", 3),
    ("oracle_remove_price", 2),
    ("add_liquidity", 25),
    ("remove_liquidity", 25),
    ("create_account", 18),
    ("create_recovery_key", 10),
    ("add_auth_rule", 10),
    ("set_level_auth", 14),
    ("add_collateral", 45),
    ("remove_collateral_request", 40),
    ("margin_order_request", 90),
    ("margin_order_tp_sl_request", 30),
    ("cancel_requests", 30),
    ("process_request", 150),
    ("swap_debt", 30),
    ("liquidate", 45),
    ("auto_deleverage", 30),
    ("update_pairs", 35),
    ("swap_protocol_fee", 12),
    ("collect_treasury", 8),
    ("collect_fee_delegator", 8),
    ("mint_referral", 8),
    ("update_referral", 8),
    ("add_referral_allocation", 10),
    ("create_referral_codes", 14),
    ("create_referral_codes_from_allocation", 12),
    ("collect_referral_rewards", 14),
    ("update_exchange_config", 14),
    ("update_pair_configs", 14),
    ("update_collateral_configs", 10),
    ("remove_collateral_config", 3),
    ("withdraw_authority", 4),
    ("deposit_authority", 3),
    ("signal_upgrade", 3),
    ("lock_fee", 4),
    ("update_max_lock", 4),
    ("update_price_multiplier", 4),
    ("update_is_contingent", 2),
    ("delegator_deposit", 2),
    ("delegator_withdraw", 3),
    ("wrap", 6),
    ("unwrap", 8),
    ("flash_loan", 8),
    ("add_input", 3),
    ("update_wrappable", 4),
    ("burn", 3),
    ("free_tokens", 3),
    ("update_mint_amount", 2),
    ("admin_mint_token", 2),
    ("set_variables", 2),
    ("remove_variables", 1),
    ("get_variables", 2),
    ("intrude", 14),
    ("forge", 8),
    ("idle", 4),
    ("batch", 25),
    ("plan", 110),
];

/// Which kinds of operation matter most to a property, and which plans.
fn focus(property: &str) -> (&'static [&'static str], &'static [u8]) {
    match property {
        "C01" => (&["process_request", "liquidate", "swap_debt", "remove_liquidity", "collect_referral_rewards", "auto_deleverage", "plan"], &[0, 1, 2, 3, 4, 12]),
        "C02" => (&["process_request", "liquidate", "auto_deleverage", "update_pairs", "plan"], &[0, 1, 2]),
        "C03" => (&["add_collateral", "remove_collateral_request", "swap_debt", "liquidate", "create_account", "plan"], &[1, 3, 4]),
        "C04" => (&["margin_order_request", "process_request", "plan"], &[0, 5]),
        "C05" => (&["margin_order_request", "process_request", "plan"], &[0, 1, 14]),
        "C06" => (&["margin_order_request", "remove_collateral_request", "process_request", "add_collateral", "plan"], &[0, 4, 6, 11, 13, 14, 14]),
        "C07" => (&["margin_order_request", "process_request", "add_collateral", "remove_liquidity", "update_exchange_config", "update_pair_configs", "plan"], &[0, 7, 11, 14]),
        "C08" => (&["update_pairs", "process_request", "plan"], &[0, 8, 14]),
        "C09" => (&["process_request", "cancel_requests", "margin_order_request", "remove_collateral_request", "liquidate", "plan"], &[9, 5, 1, 13]),
        "C10" => (&["margin_order_tp_sl_request", "margin_order_request", "process_request", "cancel_requests", "plan"], &[5, 9]),
        "C11" => (&["liquidate", "plan"], &[1, 1, 6, 13, 14]),
        "C12" => (&["liquidate", "plan"], &[1, 1, 13]),
        "C13" => (&["auto_deleverage", "plan"], &[2, 14]),
        "C14" => (&["swap_debt", "plan"], &[3, 13]),
        "C15" => (&["push_oracle", "oracle_add_key", "oracle_remove_key", "oracle_get", "update_pairs", "process_request"], &[0]),
        "C16" => (&["push_oracle", "process_request", "liquidate", "update_pairs", "swap_debt", "auto_deleverage", "update_pair_configs", "update_collateral_configs"], &[0, 1, 14]),
        "C17" => (&["add_liquidity", "remove_liquidity", "plan"], &[0, 8, 12, 14]),
        "C18" => (&["remove_collateral_request", "process_request", "plan"], &[4, 12, 13, 14]),
        "C19" => (&["set_level_auth", "add_auth_rule", "create_recovery_key", "add_collateral", "remove_collateral_request", "margin_order_request", "cancel_requests", "create_account"], &[9]),
        "C20" => (&["create_account", "set_level_auth", "add_auth_rule", "create_recovery_key"], &[0]),
        "C21" => (&["intrude", "intrude", "intrude", "free_tokens"], &[0]),
        "C22" => (&["create_referral_codes", "create_account", "collect_referral_rewards", "update_referral", "plan"], &[10, 10, 0, 12]),
        "C23" => (&["create_referral_codes", "create_referral_codes_from_allocation", "add_referral_allocation", "create_account", "mint_referral", "update_referral"], &[10]),
        "C24" => (&["swap_protocol_fee", "collect_treasury", "collect_fee_delegator", "process_request", "plan"], &[0, 12]),
        "C25" => (&["lock_fee", "update_max_lock", "update_price_multiplier", "collect_fee_delegator", "delegator_withdraw", "add_collateral", "cancel_requests", "margin_order_request", "create_account"], &[0, 14]),
        "C26" => (&["wrap", "unwrap", "flash_loan", "add_input", "update_wrappable", "burn"], &[0]),
        "C27" => (&["update_exchange_config", "update_pair_configs", "update_collateral_configs", "remove_collateral_config"], &[0]),
        "C28" => (&["withdraw_authority", "deposit_authority"], &[0]),
        "C29" => (&["cancel_requests", "liquidate", "margin_order_tp_sl_request", "remove_collateral_config", "update_collateral_configs", "set_level_auth", "plan"], &[1, 9, 2, 3, 11, 12, 13]),
        "C30" => (&["plan", "margin_order_request", "update_pair_configs", "create_account"], &[0, 1, 9, 10]),
        "C31" => (&["process_request", "liquidate", "swap_debt", "auto_deleverage", "plan"], &[0, 1, 3, 14]),
        "C32" => (&["update_pairs", "process_request", "liquidate", "auto_deleverage", "plan"], &[0, 1, 8]),
        "C33" => (&["process_request", "margin_order_tp_sl_request", "liquidate", "auto_deleverage", "swap_debt", "add_liquidity", "remove_liquidity", "remove_collateral_request", "batch", "plan"], &[0, 1, 2, 3, 4, 5, 10]),
        "C36" => (&["process_request", "liquidate", "cancel_requests", "set_level_auth", "add_collateral", "swap_debt", "auto_deleverage", "margin_order_request", "plan"], &[0, 1, 2, 3, 5, 8]),
        "C37" => (&["margin_order_request", "margin_order_tp_sl_request", "remove_collateral_request", "cancel_requests", "process_request"], &[5, 9]),
        "C38" => (&["batch", "batch", "flash_loan"], &[0, 1, 5]),
        "C39" => (&["forge", "forge", "forge", "remove_collateral_request", "process_request", "swap_debt", "liquidate", "swap_protocol_fee", "remove_liquidity", "unwrap", "flash_loan", "plan"], &[0, 4]),
        "C34" => (&["free_tokens", "free_tokens", "update_mint_amount", "admin_mint_token", "intrude"], &[0]),
        "C35" => (&["set_variables", "remove_variables", "get_variables"], &[0]),
        _ => (&[], &[]),
    }
}
const N_PLANS: u8 = 15;

pub struct Gen {
    pub r: Rng,
    weights: Vec<(&'static str, u64)>,
    plan_w: [u64; N_PLANS as usize],
    pub px: BTreeMap<String, Dec>,
    pub plans: VecDeque<Plan>,
    queue: Vec<(u64, Step)>,
    pub n: u64,
    pushes: Vec<Push>,
    codes: Vec<String>,
    nacct: u16,
    nref: u16,
    nkey: u16,
    ncode: u32,
    round: bool,
    vol: f64,
    calm: bool,
    p_push_bad: u64,
    p_dup: u64,
    p_abort: u64,
    p_cost: u64,
    p_wrong: u64,
    p_oath: u64,
    p_stall: u64,
    p_edge: u64,
    max_accts: usize,
    /// Referrals are what the run is about; orders' own limits are.
    refs: bool,
    terms: bool,
    /// Rules that are open to all or closed to all, more often.
    perms: bool,
    /// Withdrawals leave traces behind, more often.
    dust: bool,
    pub stats: BTreeMap<&'static str, u64>,
    /// Operations placed just inside or outside of what is accepted.
    pub brinks: u64,
}

impl Gen {
    pub fn new(seed: u64, property: &str) -> Gen {
        let mut r = Rng::new(seed);
        let (kinds, plans) = focus(property);
        // A quarter of the runs ignore the focus, so that interactions stay in reach.
        let focused = !r.p(250);
        let mut weights = vec![];
        for (k, w) in BASE {
            let mut w = *w * 10;
            let essential = ["process_request", "margin_order_request", "push_oracle", "plan", "add_collateral", "add_liquidity"].contains(k);
            w = w * r.pick(&[if essential { 1 } else { 0 }, 1, 1, 1, 2, 3]);
            if focused && kinds.contains(k) {
                w = (w + 60).max(100) * 3;
                if property == "C38" && *k == "batch" || property == "C21" && *k == "intrude" || property == "C39" && *k == "forge" {
                    w *= 4;
                }
            }
            weights.push((*k, w));
        }
        let mut plan_w = [10u64; N_PLANS as usize];
        for i in 0..N_PLANS {
            plan_w[i as usize] = r.pick(&[4, 10, 10, 20]);
            if focused && plans.contains(&i) {
                plan_w[i as usize] += 60;
            }
        }
        let round = r.p(450);
        let mut px = BTreeMap::new();
        for (f, a, b) in [("BTC/USD", "100", "61234.56789"), ("ETH/USD", "10", "3021.987654321"), ("XRP/USD", "1", "0.523456"), ("USDB/USD", "1", "0.998765")] {
            px.insert(f.to_string(), d(if round { a } else { b }));
        }
        let vol = r.pick(&[0.0005, 0.005, 0.02, 0.06]);
        let faulty = r.p(800);
        let q = |r: &mut Rng, v: &[u64]| if faulty { r.pick(v) } else { 0 };
        Gen {
            weights,
            plan_w,
            px,
            plans: VecDeque::new(),
            queue: vec![],
            n: 0,
            pushes: vec![],
            codes: vec![],
            nacct: 0,
            nref: 0,
            nkey: 0,
            ncode: 0,
            round,
            vol,
            calm: r.p(300),
            p_push_bad: if property == "C15" || property == "C16" { 350 } else { q(&mut r, &[30, 100, 200]) },
            p_dup: q(&mut r, &[0, 30, 80, 150]),
            p_abort: if property == "C31" { 200 } else { q(&mut r, &[0, 10, 30, 80]) },
            p_cost: if property == "C31" || property == "C25" { 60 } else { q(&mut r, &[0, 10, 30]) },
            p_wrong: if property == "C19" { 200 } else { q(&mut r, &[10, 40, 100]) },
            p_oath: if property == "C25" { 450 } else { r.pick(&[0, 40, 150]) },
            p_stall: q(&mut r, &[0, 10, 40]),
            p_edge: if property == "C16" || property == "C09" { 300 } else { r.pick(&[50, 150]) },
            max_accts: r.int(2, 6) as usize,
            refs: property == "C22" || property == "C23",
            terms: property == "C04",
            perms: ["C19", "C20"].contains(&property),
            dust: ["C03", "C12", "C18"].contains(&property),
            stats: BTreeMap::new(),
            brinks: 0,
            r,
        }
    }
    fn fault(&mut self, k: &'static str) {
        *self.stats.entry(k).or_default() += 1;
    }
    fn step(&self, by: usize, act: Act) -> Step {
        Step { dt: 0, by: by as u8, cosign: vec![], keys: vec![], act, abort_at: 0, costing: false, cost_limit: None }
    }
    fn later(mut s: Step, dt: i64) -> Step {
        s.dt = dt;
        s
    }

    // ---------------------------------------------------------------- start-up
    /// The configuration and first participants of a run.
    pub fn setup(&mut self) {
        let mut v: Vec<Step> = vec![];
        let x = self.x_cfg();
        v.push(self.step(ADMIN, Act::SetX { cfg: x }));
        let n = self.r.int(2, 4) as usize;
        let ps: Vec<PCfg> = (0..n).map(|i| self.p_cfg(PAIRS[i])).collect();
        v.push(self.step(ADMIN, Act::SetPairs { cfgs: ps }));
        let mut cs = vec![(R::Btc, self.c_cfg("BTC/USD"))];
        if self.r.p(750) {
            cs.push((R::Usdb, self.c_cfg("USDB/USD")));
        }
        if self.r.p(600) {
            cs.push((R::Eth, self.c_cfg("ETH/USD")));
        }
        v.push(self.step(ADMIN, Act::SetColls { cfgs: cs.clone() }));
        v.push(self.step(ADMIN, Act::DelMax { v: self.r.clone().pick(&[dec!(1), dec!(10), dec!(100)]) }));
        if self.r.p(500) {
            let m = self.r.pick(&[dec!(1), dec!("1.5"), dec!(2), dec!("0.5")]);
            v.push(self.step(ADMIN, Act::DelMult { v: m }));
        }
        let p = Push { prices: self.px.iter().map(|(k, p)| (k.clone(), *p, T0)).collect(), key_id: 0, signer: 0, tamper: 0 };
        v.push(self.step(KEEPERS[0], Act::PushOracle { push: p.clone(), want: vec![] }));
        self.pushes.push(p);
        let liq = self.r.pick(&[dec!(10000), dec!(100000), dec!(1000000), dec!("1234567.890123456789012345")]);
        v.push(self.step(LPS[0], Act::AddLiq { res: R::Base, amount: liq }));
        if self.refs || self.r.p(700) {
            let max = self.r.pick(&[2, 5, 100]);
            let (f, b) = (self.r.pick(&[dec!("0.1"), dec!("0.05"), dec!("0.03")]), self.r.pick(&[dec!("0.1"), dec!("0.05"), dec!(0)]));
            // An allocation without tokens, for codes to be issued from.
            let alloc = if self.refs && max > 3 && self.r.p(500) { Some((vec![], vec![], max / 2)) } else { None };
            v.push(self.step(ADMIN, Act::MintRef { slot: 0, to: REFERRER as u8, fee_ref: f, rebate: b, max, alloc: alloc.clone() }));
            self.nref = 1;
            let codes = vec![("c0".to_string(), vec![(R::Base, dec!(10))], 1), ("c1".to_string(), vec![], if alloc.is_some() { (max - max / 2).saturating_sub(1).max(1) } else if self.refs { max - 1 } else { 2.min(max - 1) })];
            self.ncode = 2;
            self.codes.extend(["c0".to_string(), "c1".to_string()]);
            v.push(self.step(REFERRER, Act::Codes { slot: 0, toks: vec![(R::Base, dec!(10))], codes }));
        }
        let k = self.r.int(2, self.max_accts.min(4) as i64);
        for i in 0..k {
            let by = TRADERS[i as usize % 4];
            let mut toks = vec![];
            if self.r.p(800) {
                toks.push((R::Base, self.r.pick(&[dec!(1000), dec!(10000), dec!(100), dec!("777.123456789012345678")])));
            }
            if self.r.p(500) || toks.is_empty() {
                let c = self.r.pick(&cs).0;
                toks.push((c, self.coll_amount(c)));
            }
            let code = if self.nref > 0 && self.r.p(if self.refs { 800 } else { 400 }) { Some(self.r.pick(&self.codes.clone())) } else { None };
            let rule = if self.r.p(800) { Rule::B(by as u8) } else { self.rule(by as u8) };
            let slot = self.nacct;
            self.nacct += 1;
            v.push(self.step(by, Act::NewAcct { slot, rule, toks, code, oath: None, reserve: self.r.clone().p(100) }));
        }
        self.plans.extend(v.into_iter().map(Plan::Do));
    }
    fn coll_amount(&mut self, r: R) -> Dec {
        match r {
            R::Btc => self.r.pick(&[dec!(1), dec!(10), dec!("0.12345678"), dec!(100)]),
            R::Eth => self.r.pick(&[dec!(1), dec!(10), dec!(100), dec!("3.123456789012345678")]),
            _ => self.r.pick(&[dec!(100), dec!(1000), dec!("250.5"), dec!(10000)]),
        }
    }
    fn x_cfg(&mut self) -> XCfg {
        let mut x = default_x();
        let r = &mut self.r;
        x.positions_max = r.pick(&[1, 2, 3, 30]);
        x.collaterals_max = r.pick(&[1, 2, 3, 5]);
        x.active_requests_max = r.pick(&[2, 4, 8, 100]);
        x.skew_ratio_cap = r.pick(&[d("0.05"), d("0.15"), d("0.5"), d("1"), d("5")]);
        x.adl_offset = r.pick(&[d("0"), d("0.05"), d("0.2"), d("0.5")]);
        x.adl_a = r.pick(&[d("0.07"), d("0.1"), d("1"), d("0.5")]);
        x.adl_b = r.pick(&[d("0"), d("0.07"), d("0.5")]);
        x.fee_liquidity_add = r.pick(&[d("0"), d("0.001"), d("0.01")]);
        x.fee_liquidity_remove = r.pick(&[d("0"), d("0.001"), d("0.02")]);
        x.fee_share_protocol = r.pick(&[d("0"), d("0.22"), d("0.3"), d("0.1")]);
        x.fee_share_treasury = r.pick(&[d("0"), d("0.08"), d("0.15")]);
        x.fee_share_referral = r.pick(&[d("1"), d("0.5"), d("1")]);
        x.fee_max = r.pick(&[d("0.01"), d("0.002"), d("0.05"), d("0.0001")]);
        x.protocol_burn_amount = r.pick(&[d("1000"), d("10000")]);
        x.reward_keeper = r.pick(&[d("1"), d("2.5"), d("0")]);
        if r.p(150) {
            // Values with more precision than the stored format keeps.
            x.skew_ratio_cap = r.pick(&[d("0.12345"), d("0.9876543"), d("1.0256")]);
            x.fee_max = r.pick(&[d("0.0123456"), d("0.0099999")]);
        }
        x
    }
    fn p_cfg(&mut self, pair: &str) -> PCfg {
        let mut c = default_p(pair);
        let free = self.round && self.r.p(500);
        let r = &mut self.r;
        c.price_age_max = r.pick(&[5, 60, 60, 300, 3600, 65535]);
        c.oi_max = r.pick(&[d("1000000000"), d("1000000"), d("100"), d("1000"), d("20")]);
        c.trade_size_min = r.pick(&[d("0"), d("0"), d("0.1"), d("1"), d("0.001")]);
        c.update_price_delta_ratio = r.pick(&[d("0.005"), d("0.01"), d("0.1"), d("0.001")]);
        c.update_period_seconds = r.pick(&[3600, 60, 600, 1]);
        let (i, m) = r.pick(&[("0.01", "0.005"), ("0.05", "0.025"), ("0.1", "0.05"), ("0.1", "0.1"), ("0.5", "0.25"), ("0.02", "0.001")]);
        c.margin_initial = d(i);
        c.margin_maintenance = d(m);
        let strong = r.p(600);
        c.funding_1 = r.pick(&[d("0"), d("1"), d("2"), d("0.1")]);
        c.funding_2 = r.pick(&[d("0"), d("1"), d("4"), d("0.3")]);
        c.funding_2_delta = if strong { r.pick(&[d("100"), d("1000"), d("10000")]) } else { r.pick(&[d("0"), d("10")]) };
        c.funding_2_decay = r.pick(&[d("0"), d("100"), d("1000"), d("10")]);
        c.funding_pool_0 = r.pick(&[d("0"), d("0.02"), d("1"), d("0.1")]);
        c.funding_pool_1 = r.pick(&[d("0"), d("0.25"), d("2")]);
        c.funding_share = r.pick(&[d("0"), d("0.02"), d("0.1")]);
        c.fee_0 = r.pick(&[d("0.0005"), d("0.001"), d("0.01"), d("0.015"), d("0.00001")]);
        c.fee_1 = r.pick(&[d("0.0000000005"), d("0.000001"), d("0.0000001"), d("0")]);
        if free {
            c.fee_0 = d("0");
            c.fee_1 = d("0");
        }
        if r.p(200) {
            for x in [&mut c.funding_1, &mut c.funding_2, &mut c.funding_pool_0, &mut c.funding_pool_1] {
                *x = d("0");
            }
        }
        c
    }
    fn c_cfg(&mut self, pair: &str) -> CCfg {
        let r = &mut self.r;
        CCfg {
            pair_id: pair.to_string(),
            price_age_max: r.pick(&[60, 60, 300, 3600, 65535, 5]),
            discount: r.pick(&[d("1"), d("0.9"), d("0.8"), d("0.95")]),
            margin: r.pick(&[d("0"), d("0.01"), d("0.1"), d("0.05")]),
        }
    }

    // ---------------------------------------------------------------- the market and its oracle
    fn drift(&mut self) {
        if self.calm && !self.r.p(100) {
            return;
        }
        for f in FEEDS {
            let big = self.r.p(40);
            let v = if f == "USDB/USD" { self.vol / 10.0 } else if big { self.vol * 8.0 } else { self.vol };
            let g = 1.0 + v * (self.r.f() * 2.0 - 1.0);
            self.scale(f, g);
        }
    }
    fn scale(&mut self, f: &str, g: f64) {
        let p = fl(self.px[f]) * g;
        let p = p.clamp(0.01, 1e6);
        let n = if self.round { self.r.pick(&[1, 2, 2, 4]) } else { self.r.pick(&[4, 6, 12]) };
        let mut x = df(p, n);
        if !x.is_positive() {
            x = d("0.01");
        }
        self.px.insert(f.to_string(), x);
    }
    fn key(&mut self, s: &St) -> (u64, u64) {
        let known: Vec<(u64, u64)> = s.keys.iter().filter_map(|(id, k)| (0..6).find(|i| oracle_key(*i).public_key().0.to_vec() == *k).map(|i| (*id, i))).collect();
        if known.is_empty() { (0, 0) } else { self.r.pick(&known) }
    }
    pub fn good_push(&mut self, s: &St, now: i64) -> Push {
        let (key_id, signer) = self.key(s);
        Push { prices: self.px.iter().map(|(k, p)| (k.clone(), *p, now)).collect(), key_id, signer, tamper: 0 }
    }
    fn any_push(&mut self, s: &St, now: i64) -> Push {
        let mut p = self.good_push(s, now);
        if !self.r.p(self.p_push_bad) {
            if self.r.p(150) {
                for x in p.prices.iter_mut() {
                    x.2 -= self.r.int(0, 4);
                }
            }
            self.pushes.push(p.clone());
            return p;
        }
        match self.r.below(12) {
            0 => {
                p.tamper = self.r.int(1, 5) as u8;
                self.fault("price_data_tampered");
            }
            1 => {
                p.key_id = self.r.pick(&[0, 1, 2, 99]);
                self.fault("price_key_mixed");
            }
            2 => {
                p.signer = self.r.pick(&[0, 1, 2, 5]);
                self.fault("price_signer_mixed");
            }
            3 | 4 if !self.pushes.is_empty() => {
                let i = self.r.below(self.pushes.len() as u64) as usize;
                p = self.pushes[i].clone();
                self.fault("price_replayed");
            }
            5 => {
                let i = self.r.below(p.prices.len() as u64) as usize;
                p.prices[i].1 = self.r.pick(&[dec!(0), dec!(-1)]);
                self.fault("price_not_positive");
            }
            6 => {
                let i = self.r.below(p.prices.len() as u64) as usize;
                p.prices.remove(i);
                self.fault("price_missing_feed");
            }
            7 => {
                for x in p.prices.iter_mut() {
                    x.2 += self.r.int(1, 30);
                }
                self.fault("price_clock_ahead");
            }
            8 => {
                let i = self.r.below(p.prices.len() as u64) as usize;
                let mut e = p.prices[i].clone();
                e.1 = e.1 + dec!(1);
                e.2 += self.r.int(-1, 1);
                p.prices.push(e);
                self.fault("price_repeated_in_message");
            }
            _ => {
                // Exactly around the oldest acceptable timestamp of some market.
                let mut ages: Vec<i64> = s.pairs.iter().map(|c| c.price_age_max).chain(s.colls.values().map(|c| c.price_age_max)).collect();
                ages.push(60);
                let a = self.r.pick(&ages);
                let off = self.r.int(-1, 1);
                let all = self.r.p(500);
                let one = self.r.below(p.prices.len() as u64) as usize;
                for (i, x) in p.prices.iter_mut().enumerate() {
                    if all || i == one {
                        x.2 = now - a + off;
                    }
                }
                self.fault("price_delayed");
            }
        }
        if p.tamper == 0 {
            self.pushes.push(p.clone());
        }
        p
    }
    fn opt_push(&mut self, s: &St, now: i64) -> Option<Push> {
        if self.r.p(120) { None } else { Some(self.any_push(s, now)) }
    }

    // ---------------------------------------------------------------- choosing
    fn acct(&mut self, s: &St) -> Option<u16> {
        let v: Vec<u16> = s.accts.keys().copied().collect();
        if v.is_empty() { None } else { Some(self.r.pick(&v)) }
    }
    /// Sometimes one that is open to everybody, or closed to all, at some level.
    fn open_acct(&mut self, s: &St) -> Option<u16> {
        let v: Vec<u16> = s.accts.iter().filter(|(_, a)| a.rules.iter().any(|r| matches!(r, AccessRule::AllowAll | AccessRule::DenyAll))).map(|x| *x.0).collect();
        if v.is_empty() || self.r.p(600) { self.acct(s) } else { Some(self.r.pick(&v)) }
    }
    fn exposed(&mut self, s: &St) -> Option<u16> {
        let v: Vec<u16> = s.accts.iter().filter(|(_, a)| !a.pos.is_empty()).map(|x| *x.0).collect();
        if v.is_empty() { self.acct(s) } else { Some(self.r.pick(&v)) }
    }
    fn keeper(&mut self) -> usize {
        if self.r.p(900) { self.r.pick(&KEEPERS) } else { self.r.int(1, N_SENDERS as i64 - 1) as usize }
    }
    /// Somebody able to act for the account at this level (or, sometimes, somebody who is not).
    fn who(&mut self, w: &World, h: &Handles, s: &St, a: u16, level: usize) -> (u8, Vec<u8>, Vec<u16>) {
        if self.r.p(self.p_wrong) {
            self.fault("wrong_sender");
            let by = self.r.int(0, N_SENDERS as i64 - 1) as u8;
            let co = if self.r.p(200) { vec![self.r.int(1, N_SENDERS as i64 - 1) as u8] } else { vec![] };
            return (by, co, vec![]);
        }
        let rule = &s.accts[&a].rules[level - 1];
        let n = N_SENDERS as u8;
        let start = self.r.below(n as u64) as u8;
        for i in 0..n {
            let by = (start + i) % n;
            let keys: Vec<u16> = h.keys.iter().filter(|(_, k)| k.1 == by).map(|k| *k.0).collect();
            for ks in [vec![], keys] {
                if (Shown { w, h, by, cosign: &[], keys: &ks }).rule(rule) {
                    return (by, vec![], ks);
                }
            }
        }
        for i in 1..n {
            for j in i + 1..n {
                for by in [i, j] {
                    let keys: Vec<u16> = h.keys.iter().filter(|(_, k)| k.1 == by).map(|k| *k.0).collect();
                    let co = vec![if by == i { j } else { i }];
                    if (Shown { w, h, by, cosign: &co, keys: &keys }).rule(rule) {
                        return (by, co, keys);
                    }
                }
            }
        }
        (self.r.pick(&TRADERS) as u8, vec![], vec![])
    }
    fn auth(&mut self, w: &World, h: &Handles, s: &St, a: u16, level: usize, act: Act) -> Step {
        let (by, cosign, keys) = self.who(w, h, s, a, level);
        let mut st = self.step(by as usize, act);
        st.cosign = cosign;
        st.keys = keys;
        st
    }
    fn rule(&mut self, me: u8) -> Rule {
        let t = |g: &mut Gen| g.r.pick(&TRADERS) as u8;
        match self.r.below(14) {
            0..=4 => Rule::B(if self.r.p(600) { me } else { t(self) }),
            5 => Rule::AnyB(vec![me, t(self)]),
            6 => Rule::AllB(vec![me, t(self)]),
            7 => Rule::Two(vec![me, t(self), t(self)]),
            8 | 9 => Rule::Any(vec![Rule::B(me), Rule::B(t(self))]),
            10 => Rule::All(vec![Rule::B(me), Rule::B(t(self))]),
            11 if self.nkey > 0 => Rule::Key(self.r.below(self.nkey as u64) as u16),
            12 => if self.r.p(400) { Rule::Allow } else if self.r.p(400) { Rule::Deny } else { Rule::B(me) },
            13 if self.perms && self.r.p(600) => if self.r.p(600) { Rule::Allow } else { Rule::Deny },
            _ => Rule::Any(vec![Rule::B(me), Rule::AllB(vec![t(self), t(self)]), Rule::B(t(self))]),
        }
    }
    fn is_node(r: &Rule) -> bool {
        !matches!(r, Rule::Allow | Rule::Deny)
    }
    fn oath(&mut self) -> Option<Dec> {
        if self.r.p(self.p_oath) {
            let f = self.r.f();
            Some(if self.round { self.r.pick(&[dec!(1), dec!(5), dec!(20)]) } else { df(0.2 + f * 30.0, 6) })
        } else {
            None
        }
    }
    fn configured(&mut self, s: &St) -> String {
        if s.pairs.is_empty() || self.r.p(15) {
            return self.r.pick(&["SOL/USD", "BAD/USD", "USDB/USD"]).to_string();
        }
        let i = self.r.below(s.pairs.len() as u64) as usize;
        s.pairs[i].pair_id.clone()
    }
    fn price(&self, s: &St, pair: &str) -> Dec {
        self.px.get(pair).copied().or(s.prices.get(pair).map(|p| p.0)).unwrap_or(dec!(1))
    }
    fn market(&self, s: &St) -> BTreeMap<String, Dec> {
        let mut m: BTreeMap<String, Dec> = s.prices.iter().map(|(k, v)| (k.clone(), v.0)).collect();
        m.extend(self.px.clone());
        m
    }
    fn worth(&self, w: &World, h: &Handles, s: &St, a: u16, px: &BTreeMap<String, Dec>, maint: bool) -> Option<(f64, f64)> {
        let q = crate::vm::quiet(true);
        let m = M::new(w, h, s.clone(), &self.step(1, Act::Idle), Ids::default());
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| m.valuation(a, px, maint)));
        crate::vm::quiet(q);
        match r {
            Ok(Ok((v, m))) => Some((fl(v), fl(m))),
            _ => None,
        }
    }
    fn exact(&mut self, w: &World, h: &Handles, s: &St, a: u16) -> Option<(Dec, Dec)> {
        let px = self.market(s);
        let q = crate::vm::quiet(true);
        let m = M::new(w, h, s.clone(), &self.step(1, Act::Idle), Ids::default());
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| m.valuation(a, &px, false)));
        crate::vm::quiet(q);
        r.ok()?.ok()
    }
    /// A number of tokens near x, with few or with all digits.
    fn near(&mut self, x: f64) -> Dec {
        if self.round {
            let m = x.abs().max(1e-9).log10().floor();
            let digits = (1.0 - m).clamp(0.0, 8.0) as usize;
            let v = df(x, digits);
            if v.is_zero() { df(x, 8) } else { v }
        } else if self.r.p(300) {
            df(x, 3) + Decimal(I192::from(self.r.below(1_000_000_000_000)))
        } else {
            df(x, 6)
        }
    }
    fn delay(&mut self) -> u64 {
        self.r.pick(&[0, 0, 0, 0, 1, 5, 30, 600])
    }
    fn expiry(&mut self) -> u64 {
        self.r.pick(&[10_000_000, 10_000_000, 100_000, 3600, 60, 10, 1, 0])
    }
    fn slip(&mut self, fee: Option<Dec>, value: Dec) -> SlipLimit {
        let k = if self.terms { 14 } else { 11 };
        match self.r.below(k) {
            0..=5 => SlipLimit::None,
            6 | 7 => SlipLimit::Percent(self.r.pick(&[dec!("0.05"), dec!("0.1"), dec!("1"), dec!("1.5"), dec!(0), dec!("0.001"), dec!("5")])),
            8 => SlipLimit::Absolute(self.r.pick(&[dec!("0.5"), dec!(10), dec!(1000), dec!(0)])),
            10 | 11 if fee.is_some() && value.is_positive() => {
                let f = fee.unwrap() * dec!(100) / value;
                SlipLimit::Percent(f * self.r.pick(&[dec!(1), dec!("0.999"), dec!("0.999"), dec!("1.001")]))
            }
            _ => match fee {
                Some(f) => SlipLimit::Absolute(match self.r.below(3) {
                    0 => f,
                    1 => f * dec!("0.999"),
                    _ => f * dec!("1.001"),
                }),
                None => SlipLimit::None,
            },
        }
    }
    fn limit(&mut self, p: Dec) -> PriceLimit {
        let x = match self.r.below(5) {
            0 | 1 => p,
            2 => p * dec!("1.001"),
            3 => p * dec!("0.999"),
            _ => p * df(0.9 + 0.2 * self.r.f(), 3),
        };
        match self.r.below(8) {
            0..=3 => PriceLimit::None,
            4 | 5 => PriceLimit::Gte(x),
            _ => PriceLimit::Lte(x),
        }
    }
    /// How much to trade.
    fn size(&mut self, w: &World, h: &Handles, s: &St, a: u16, pair: &str) -> Dec {
        let have = s.accts[&a].pos.get(pair).map(|p| p.amount).unwrap_or_default();
        let price = fl(self.price(s, pair)).max(1e-9);
        let cfg = s.pair(pair).cloned().unwrap_or(default_p(pair));
        if !have.is_zero() && self.r.p(600) {
            return match self.r.below(6) {
                0 | 1 => -have,
                2 => {
                    let x = -fl(have) * self.r.pick(&[0.5, 0.25, 0.9, 0.1]);
                    self.near(x)
                }
                3 => -have * dec!("1.5"),
                4 => -have - have,
                _ => {
                    let x = fl(have) * self.r.f();
                    self.near(x)
                }
            };
        }
        let sign = if self.r.p(500) { 1.0 } else { -1.0 };
        let px = self.market(s);
        let (v, m) = self.worth(w, h, s, a, &px, false).unwrap_or((100.0, 0.0));
        let room = (v - m).max(1.0);
        let mi = fl(cfg.margin_initial).max(0.0001);
        match self.r.below(20) {
            // The largest position the margin allows, give or take.
            0 | 1 => {
                let per = mi + fl(cfg.fee_0) * 2.0;
                let k = self.r.pick(&[1.0, 1.0, 0.999, 1.001, 0.98, 1.05]);
                let x = sign * room / per / price * k;
                self.near(x)
            }
            2 => {
                // To the open interest cap, or one unit over.
                let pp = s.ppos(pair);
                let oi = if sign > 0.0 { pp.oi_long } else { pp.oi_short };
                let mut x = cfg.oi_max - oi;
                if self.r.p(400) {
                    x = x + self.r.pick(&[dec!("0.000001"), dec!("0.1"), dec!("-0.000001")]);
                }
                if sign < 0.0 { -x } else { x }
            }
            3 => {
                let x = cfg.trade_size_min + self.r.pick(&[dec!(0), dec!(0), dec!("-0.000000000000000001"), dec!("0.001")]);
                if sign < 0.0 { -x } else { x }
            }
            4 => {
                let x = sign * room / price * 1000.0;
                self.near(x)
            }
            5 if !self.round => {
                let x = self.r.pick(&[1e-9, 1e-6, 0.001]);
                df(sign * x, 12) 
            }
            _ => {
                let lev = f64::min(self.r.pick(&[0.1f64, 0.5, 1.0, 2.0, 4.0, 8.0]), 0.8 / mi);
                let x = sign * room * lev / price;
                self.near(x)
            }
        }
    }
    fn fee_guess(&mut self, w: &World, h: &Handles, s: &St, a: u16, pair: &str, amount: Dec) -> Option<Dec> {
        let c = s.pair(pair)?.clone();
        let price = self.price(s, pair);
        let m = M::new(w, h, s.clone(), &self.step(1, Act::Idle), Ids::default());
        let q = crate::vm::quiet(true);
        let rebate = s.accts[&a].referral.as_ref().and_then(|i| s.ref_slot(i)).map(|i| dec!(1) - s.refs[&i].1.fee_rebate).unwrap_or(dec!(1));
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| m.fee(pair, &c, rebate, price, amount * price))).ok();
        crate::vm::quiet(q);
        r
    }
    fn links(&mut self, s: &St, a: u16) -> Vec<Ref> {
        let n = s.accts[&a].reqs.len() as i64;
        let k = self.r.pick(&[0, 0, 0, 1, 1, 2, 3]);
        (0..k)
            .map(|_| match self.r.below(10) {
                0..=3 if n > 0 => Ref::Abs(self.r.below(n as u64)),
                4 | 5 => {
                    let o = self.r.pick(&[1, 2, -1, -1, 0, -2, -5]);
                    Ref::Rel(if self.r.p(800) { o.max(-n) } else { o })
                }
                6 => Ref::Abs(n as u64 + self.r.below(3)),
                7 if n > 0 => {
                    let v: Vec<u64> = s.accts[&a].reqs.iter().enumerate().filter(|r| r.1.live()).map(|r| r.0 as u64).collect();
                    if v.is_empty() { Ref::Rel(1) } else { Ref::Abs(self.r.pick(&v)) }
                }
                _ => Ref::Rel(self.r.int(1, 3)),
            })
            .collect()
    }
    fn order(&mut self, w: &World, h: &Handles, s: &St, a: u16) -> Act {
        let pos: Vec<String> = s.accts[&a].pos.keys().cloned().collect();
        let pair = if !pos.is_empty() && self.r.p(500) { self.r.pick(&pos) } else { self.configured(s) };
        let mut amount = self.size(w, h, s, a, &pair);
        let have = s.accts[&a].pos.get(&pair).map(|p| p.amount).unwrap_or_default();
        let ro = self.r.p(if !self.terms { 180 } else if have.is_zero() { 200 } else { 500 });
        if ro && !have.is_zero() && self.r.p(if self.terms { 750 } else { 500 }) {
            amount = -have * self.r.pick(&[dec!(1), dec!("1.5"), dec!(2), dec!(10), dec!("0.5"), dec!(-1)]);
        }
        // What such an order would really trade.
        let traded = if !ro {
            amount
        } else if have.is_positive() {
            amount.min(Dec::ZERO).max(-have)
        } else {
            amount.max(Dec::ZERO).min(-have)
        };
        let fee = self.fee_guess(w, h, s, a, &pair, traded);
        let p = self.price(s, &pair);
        let value = (traded * p).checked_abs().unwrap_or_default();
        // Often one special term, so that the others do not decide first.
        let all = self.r.p(120);
        let one = if self.r.p(500) { self.r.below(if self.terms { 8 } else { 5 }) } else { 99 };
        let asleep: Vec<u64> = s.accts[&a].reqs.iter().enumerate().filter(|r| r.1.status == DORMANT).map(|r| r.0 as u64).collect();
        let wake = !asleep.is_empty() && self.r.p(150);
        let activate = if wake {
            vec![Ref::Abs(self.r.pick(&asleep))]
        } else if all || one == 2 {
            self.links(s, a)
        } else {
            vec![]
        };
        let cancel = if !activate.is_empty() && self.r.p(if wake { 500 } else { 200 }) {
            activate.clone() // The same requests activated and cancelled at once.
        } else if all || one == 2 && self.r.p(500) || one == 3 {
            self.links(s, a)
        } else {
            vec![]
        };
        Act::ReqOrder {
            acct: a,
            pair,
            amount,
            ro,
            pl: if all || one == 0 || one == 5 { self.limit(p) } else { PriceLimit::None },
            sl: if all || one == 1 || one >= 5 && one < 10 { self.slip(fee, value) } else { SlipLimit::None },
            activate,
            cancel,
            status: if self.r.p(880) { ACTIVE } else { self.r.pick(&[DORMANT, DORMANT, DORMANT, EXECUTED, 7]) },
            delay: if all || one == 4 { self.delay() } else { 0 },
            expiry: if all || one == 4 { self.expiry() } else { 10_000_000 },
            oath: self.oath(),
        }
    }
    fn tp_sl(&mut self, w: &World, h: &Handles, s: &St, a: u16) -> Act {
        let pair = self.configured(s);
        let amount = self.size(w, h, s, a, &pair);
        let p = self.price(s, &pair);
        let k = self.r.pick(&["1.02", "1.1", "1.001"]);
        let (up, dn) = (p * d(k), p * (dec!(2) - d(k)));
        let (tp, sl) = if amount.is_positive() { (up, dn) } else { (dn, up) };
        Act::ReqTpSl {
            acct: a,
            pair,
            amount,
            ro: self.r.p(60),
            pl: if self.r.p(200) { self.limit(p) } else { PriceLimit::None },
            sl: if self.r.p(200) { self.slip(None, Dec::ZERO) } else { SlipLimit::None },
            tp: if self.r.p(850) { Some(tp) } else { None },
            stop: if self.r.p(850) { Some(sl) } else { None },
            delay: if self.r.p(200) { self.delay() } else { 0 },
            expiry: if self.r.p(200) { self.expiry() } else { 10_000_000 },
            oath: self.oath(),
        }
    }
    fn removal(&mut self, w: &World, h: &Handles, s: &St, a: u16) -> Act {
        let q = &s.accts[&a];
        let mut claims: Toks = vec![];
        let n = self.r.pick(&[1, 1, 1, 2, 3, 4, 0]);
        let mut coll: Vec<(R, Dec)> = vec![];
        for r in [R::Btc, R::Eth, R::Usdb, R::Usda, R::Junk] {
            if let Some(x) = q.coll.get(&r.addr(w)) {
                coll.push((r, *x));
            }
        }
        let room = self.exact(w, h, s, a).map(|(v, m)| v - m);
        for _ in 0..n {
            if !coll.is_empty() && self.r.p(500) {
                let (r, x) = self.r.pick(&coll);
                let f = fl(x);
                let k = if self.dust { 9 } else { 6 };
                let y = match self.r.below(k) {
                    0 | 1 => x,
                    2 => x + d("0.000000001"),
                    3 => {
                        let k = f * self.r.f();
                        self.near(k)
                    }
                    4 => df(f * 0.5, 9),
                    // All but a trace.
                    5..=8 if (self.dust || self.r.p(400)) && !x.is_zero() => x - self.r.pick(&[d("0.000000000000000001"), d("0.000000000001"), d("0.00000001"), d("0.000001")]).min(x),
                    _ => df(f / 3.0, 17),
                };
                claims.push((r, y));
            } else {
                let v = q.vb;
                let y = match self.r.below(8) {
                    0 | 1 => v,
                    2 => v + d("0.01"),
                    3 if room.is_some() => room.unwrap().min(v),
                    4 if room.is_some() => room.unwrap() + d("0.001"),
                    _ => {
                        let k = fl(v) * self.r.f();
                        self.near(k)
                    }
                };
                if y.is_negative() && self.r.p(900) {
                    claims.push((R::Base, dec!(1)));
                } else {
                    claims.push((R::Base, y));
                }
            }
        }
        if self.r.p(25) {
            claims.push((self.r.pick(&[R::Junk, R::Eth, R::Lp]), dec!(1)));
        }
        if self.r.p(15) {
            claims = (0..11).map(|_| (R::Base, d("0.1"))).collect();
        }
        let owner = self.r.pick(&TRADERS) as u8;
        let target = match self.r.below(20) {
            0 => Tgt::Actor(REFUSER as u8),
            1 => if self.r.p(700) { Tgt::Rogue } else { Tgt::Pool },
            2 => Tgt::Acct(a),
            3 => Tgt::Actor(EVIL as u8),
            4 | 5 => Tgt::Actor(self.r.pick(&[PICKY, HOLDER, HOLDER]) as u8),
            _ => Tgt::Actor(owner),
        };
        Act::ReqRemove { acct: a, target, claims, expiry: if self.r.p(300) { self.expiry() } else { 10_000_000 }, oath: self.oath() }
    }
    fn deposit(&mut self, s: &St, w: &World) -> Toks {
        let n = self.r.pick(&[1, 1, 1, 2, 3]);
        (0..n)
            .map(|_| match self.r.below(10) {
                0..=3 => {
                    let k = self.r.pick(&[10.0, 100.0, 1000.0, 10000.0]) * (0.5 + self.r.f());
                    (R::Base, self.near(k))
                }
                4 if self.r.p(250) => (self.r.pick(&[R::Junk, R::Usda, R::Lp]), dec!(1)),
                _ => {
                    let have: Vec<R> = [R::Btc, R::Eth, R::Usdb].into_iter().filter(|r| s.colls.contains_key(&r.addr(w))).collect();
                    let r = if have.is_empty() { R::Btc } else { self.r.pick(&have) };
                    (r, self.coll_amount(r))
                }
            })
            .collect()
    }
    fn swap(&mut self, w: &World, s: &St, a: u16) -> Act {
        let q = &s.accts[&a];
        let have: Vec<R> = [R::Btc, R::Eth, R::Usdb].into_iter().filter(|r| q.coll.contains_key(&r.addr(w))).collect();
        let res = if have.is_empty() || self.r.p(60) { self.r.pick(&[R::Btc, R::Eth, R::Usdb, R::Junk, R::Base]) } else { self.r.pick(&have) };
        let debt = if q.vb.is_negative() { -q.vb } else { dec!(1) };
        let x = fl(debt);
        let pay = match self.r.below(6) {
            0 | 1 => debt,
            2 => debt + self.surplus(),
            3 => dec!(1000000),
            _ => {
                let k = x * self.r.f();
                self.near(k)
            }
        };
        let now = s.now;
        Act::SwapDebt { acct: a, res, pay_res: if self.r.p(970) { R::Base } else { R::Junk }, pay, push: self.opt_push(s, now) }
    }
    /// How much more than needed is paid, on every scale.
    fn surplus(&mut self) -> Dec {
        self.r.pick(&[d("0.000000000000000001"), d("0.000001"), d("0.004"), d("0.05"), d("0.4"), d("0.5"), dec!(5), dec!(300)])
    }
    fn liquidation(&mut self, w: &World, s: &St, a: u16) -> Act {
        let now = s.now;
        let push = self.opt_push(s, now);
        let mut worth = Dec::ZERO;
        for (r, x) in &s.accts[&a].coll {
            if let Some(c) = s.colls.get(r) {
                let p = push.as_ref().and_then(|p| p.prices.iter().find(|e| e.0 == c.pair_id)).map(|e| e.1).or(s.prices.get(&c.pair_id).map(|p| p.0)).unwrap_or(dec!(1));
                worth = worth + x.checked_mul(p).and_then(|v| v.checked_mul(c.discount)).unwrap_or_default();
            }
        }
        let pay = match self.r.below(8) {
            0 | 1 => worth,
            2 => worth - worth * d("0.001"),
            3 | 5 => worth + self.surplus(),
            4 => worth * d("0.5"),
            _ => worth + dec!(1000),
        };
        let pay = if pay.is_negative() { dec!(0) } else { pay };
        let _ = w;
        Act::Liquidate { acct: a, pay_res: if self.r.p(980) { R::Base } else { R::Usdb }, pay, push }
    }
    fn weakest(&mut self, w: &World, h: &Handles, s: &St) -> Option<u16> {
        let px = self.market(s);
        let mut best: Option<(f64, u16)> = None;
        for a in s.accts.keys() {
            if s.accts[a].pos.is_empty() && !s.accts[a].vb.is_negative() {
                continue;
            }
            if let Some((v, m)) = self.worth(w, h, s, *a, &px, true) {
                let k = v - m;
                if best.map(|b| k < b.0).unwrap_or(true) {
                    best = Some((k, *a));
                }
            }
        }
        best.map(|b| b.1).or_else(|| self.acct(s))
    }
    /// The market price at which the account sits right at its requirement.
    fn edge_price(&mut self, w: &World, h: &Handles, s: &St, a: u16, maint: bool) -> Option<(String, f64)> {
        let mut pairs: Vec<String> = s.accts[&a].pos.keys().cloned().collect();
        if pairs.is_empty() || self.r.p(120) {
            // The collateral falls.
            let feeds: Vec<String> = s.accts[&a].coll.keys().filter_map(|r| s.colls.get(r)).map(|c| c.pair_id.clone()).collect();
            if !feeds.is_empty() {
                pairs = feeds;
            }
        }
        if pairs.is_empty() {
            return None;
        }
        let pair = self.r.pick(&pairs);
        let mut px = self.market(s);
        let p0 = fl(*px.get(&pair)?);
        let mut g = |x: f64| -> Option<f64> {
            px.insert(pair.clone(), df(x, 12));
            self.worth(w, h, s, a, &px, maint).map(|(v, m)| v - m)
        };
        let (mut x0, mut x1) = (p0, p0 * 1.01);
        let (mut y0, mut y1) = (g(x0)?, g(x1)?);
        for _ in 0..4 {
            if (y1 - y0).abs() < 1e-12 {
                return None;
            }
            let x2 = x1 - y1 * (x1 - x0) / (y1 - y0);
            if !(x2 > p0 * 0.05 && x2 < p0 * 20.0) {
                return None;
            }
            x0 = x1;
            y0 = y1;
            x1 = x2;
            y1 = g(x1)?;
        }
        Some((pair, x1))
    }
    /// Whether the last of these steps is accepted, going by the model.
    fn accepted(&self, w: &World, h: &Handles, s: &St, steps: &[Step]) -> bool {
        let mut s = s.clone();
        let mut ok = false;
        for st in steps {
            s.now += st.dt;
            match predict(w, h, &s, st, Ids::default()).result {
                Ok(next) => {
                    s = next;
                    ok = true;
                }
                Err(_) => ok = false,
            }
        }
        ok
    }
    /// An operation just inside, or just outside, of what is accepted: found by bisection on the model.
    fn brink(&mut self, w: &World, h: &Handles, s: &St, acct: u16, what: u8) -> Option<Step> {
        let q = s.accts.get(&acct)?;
        let now = s.now;
        // Some market moves, and no market is brought up to date.
        if self.r.p(600) {
            let l: Vec<String> = if q.pos.is_empty() || self.r.p(300) { self.px.keys().cloned().collect() } else { q.pos.keys().filter(|k| self.px.contains_key(*k)).cloned().collect() };
            if !l.is_empty() {
                let pair = self.r.pick(&l);
                let f = 0.85 + 0.3 * self.r.f();
                self.scale(&pair, f);
            }
        }
        let dt = self.r.pick(&[1, 1, 1, 2, 30, 3600, 86400]);
        let by = self.keeper();
        let push = self.good_push(s, now + dt);
        let idx = q.reqs.len() as u64;
        let process = Self::later(self.step(by, Act::Process { acct, idx, push: Some(push.clone()) }), dt);
        let px = self.market(s);
        let (v, m) = self.worth(w, h, s, acct, &px, false).unwrap_or((100.0, 0.0));
        let room = (v - m).max(1.0);
        let liquidating = what % 7 == 4;
        let mut steps;
        let (lo, hi);
        let mut moved = None;
        match what % 7 {
            0 | 1 => {
                let pair = self.configured(s);
                let price = fl(*px.get(&pair)?).max(1e-9);
                let act = Act::ReqOrder { acct, pair, amount: dec!(1), ro: false, pl: PriceLimit::None, sl: SlipLimit::None, activate: vec![], cancel: vec![], status: ACTIVE, delay: 0, expiry: 10_000_000, oath: None };
                steps = vec![self.auth(w, h, s, acct, 3, act), process];
                let sign = if self.r.p(500) { 1.0 } else { -1.0 };
                (lo, hi) = (sign * room / price * 1e-4, sign * room / price * 1e5);
            }
            2 => {
                let held: Vec<R> = [R::Btc, R::Eth, R::Usdb].into_iter().filter(|r| q.coll.contains_key(&r.addr(w))).collect();
                let r = if held.is_empty() || self.r.p(400) { R::Base } else { self.r.pick(&held) };
                let all = fl(if r == R::Base { q.vb } else { q.coll[&r.addr(w)] });
                if all <= 0.0 {
                    return None;
                }
                let target = Tgt::Actor(self.r.pick(&TRADERS) as u8);
                let act = Act::ReqRemove { acct, target, claims: vec![(r, dec!(1))], expiry: 10_000_000, oath: None };
                steps = vec![self.auth(w, h, s, acct, 2, act), process];
                (lo, hi) = (all * 1e-6, all * 1.5);
            }
            3 => {
                let by = self.r.pick(&LPS);
                let have = fl(s.wallet.get(&(by as u8, w.lp)).copied().unwrap_or_default());
                if have <= 0.0 {
                    return None;
                }
                steps = vec![self.step(by, Act::RemLiq { res: R::Lp, amount: dec!(1) })];
                (lo, hi) = (have * 1e-7, have);
            }
            4 | 5 => {
                let mut l: Vec<String> = q.pos.keys().filter(|k| self.px.contains_key(*k)).cloned().collect();
                if l.is_empty() {
                    return None;
                }
                let on = self.r.pick(&l);
                if liquidating && self.r.p(300) {
                    l = self.px.keys().cloned().collect();
                }
                let pair = if liquidating { self.r.pick(&l) } else { on.clone() };
                let p0 = fl(self.px[&pair]);
                let act = if liquidating { Act::Liquidate { acct, pay_res: R::Base, pay: dec!(1000000000), push: Some(push) } } else { Act::Adl { acct, pair: on, push: Some(push) } };
                steps = vec![Self::later(self.step(by, act), dt)];
                (lo, hi) = (p0, p0 * self.r.pick(&[0.2, 0.7, 1.5, 5.0]));
                moved = Some(pair);
            }
            _ => {
                let act = Act::AddColl { acct, toks: vec![], oath: Some(dec!(1)) };
                steps = vec![self.auth(w, h, s, acct, 3, act)];
                (lo, hi) = (room * 1e-5, room * 10.0);
            }
        }
        let digits = if liquidating || what % 7 == 5 { 10 } else { 12 };
        let set = |steps: &mut Vec<Step>, x: f64| {
            let v = df(x, digits);
            match &mut steps[0].act {
                Act::ReqOrder { amount, .. } => *amount = v,
                Act::ReqRemove { claims, .. } => claims[0].1 = v,
                Act::RemLiq { amount, .. } => *amount = v,
                Act::AddColl { oath, .. } => *oath = Some(v),
                Act::Liquidate { push: Some(p), .. } | Act::Adl { push: Some(p), .. } => {
                    for x in p.prices.iter_mut() {
                        if Some(&x.0) == moved.as_ref() {
                            x.1 = v;
                        }
                    }
                }
                _ => {}
            }
        };
        let (mut a, mut b) = (lo, hi);
        set(&mut steps, a);
        let at_a = self.accepted(w, h, s, &steps);
        set(&mut steps, b);
        if self.accepted(w, h, s, &steps) == at_a {
            return None;
        }
        for _ in 0..30 {
            let c = a.signum() * (a * b).sqrt();
            set(&mut steps, c);
            if self.accepted(w, h, s, &steps) == at_a {
                a = c;
            } else {
                b = c;
            }
        }
        let d = self.r.pick(&[1e-6, 1e-6, 1e-5, 1e-4, 1e-3, 1e-2]);
        // A step away from the edge, on either side.
        let x = if self.r.p(500) { a * (1.0 + d * if hi.abs() > lo.abs() { -1.0 } else { 1.0 }) } else { b * (1.0 + d * if hi.abs() > lo.abs() { 1.0 } else { -1.0 }) };
        set(&mut steps, x);
        if let Some(p) = moved.clone() {
            self.px.insert(p, df(x, digits));
        }
        self.brinks += 1;
        let mut it = steps.into_iter();
        let first = it.next()?;
        for (i, st) in it.enumerate() {
            self.plans.insert(i, Plan::Do(st));
        }
        Some(first)
    }
    fn due(&mut self, s: &St, a: u16) -> u64 {
        let q = &s.accts[&a];
        let n = q.reqs.len() as u64;
        let live: Vec<u64> = q.reqs.iter().enumerate().filter(|(i, k)| k.status == ACTIVE && *i as u64 >= q.valid_start).map(|x| x.0 as u64).collect();
        if !live.is_empty() && self.r.p(820) {
            return self.r.pick(&live);
        }
        if n > 0 && self.r.p(900) { self.r.below(n) } else { n + self.r.below(2) }
    }
    fn busy(&mut self, s: &St) -> Option<u16> {
        let v: Vec<u16> = s.accts.iter().filter(|(_, q)| q.reqs.iter().enumerate().any(|(i, k)| k.status == ACTIVE && i as u64 >= q.valid_start)).map(|x| *x.0).collect();
        if v.is_empty() || self.r.p(80) { self.acct(s) } else { Some(self.r.pick(&v)) }
    }
    fn oks(&mut self) -> i64 {
        self.r.pick(&[1, 1, 2, 5])
    }

    // ---------------------------------------------------------------- plans
    fn start_plan(&mut self, w: &World, h: &Handles, s: &St) {
        let total: u64 = self.plan_w.iter().sum();
        let mut k = self.r.below(total);
        let mut which = 0u8;
        for (i, x) in self.plan_w.iter().enumerate() {
            if k < *x {
                which = i as u8;
                break;
            }
            k -= *x;
        }
        let a = match self.acct(s) {
            Some(a) => a,
            None => return,
        };
        let pos: Vec<(u16, String)> = s.accts.iter().flat_map(|(i, q)| q.pos.keys().map(move |p| (*i, p.clone()))).collect();
        let now = s.now;
        match which {
            // Open, hold, close.
            0 => {
                self.plans.extend([Plan::Open { acct: a }, Plan::Newest { acct: a, back: 0 }]);
                if self.r.p(500) {
                    let secs = self.r.pick(&[60, 3600, 86400]);
                    self.plans.extend([Plan::Wait { secs }, Plan::Close { acct: a }, Plan::Newest { acct: a, back: 0 }]);
                }
            }
            // To the brink of liquidation.
            1 | 6 => {
                if let Some((a, p)) = if pos.is_empty() { None } else { Some(self.r.pick(&pos)) } {
                    if self.edge_price(w, h, s, a, true).is_none() || self.r.p(250) {
                        // Too well covered for prices alone to bring it down.
                        let long = self.r.p(500);
                        let pair = if self.r.p(600) { p } else { self.r.pick(&s.pairs.iter().map(|p| p.pair_id.clone()).collect::<Vec<_>>()) };
                        self.plans.extend([Plan::RaiseCap, Plan::OpenVia { acct: a, pair, long, lev: 1e9 }, Plan::Newest { acct: a, back: 0 }]);
                    }
                    self.plans.push_back(Plan::Edge { acct: a, maintenance: true });
                    if which == 1 {
                        self.plans.push_back(Plan::Liq { acct: a });
                        if self.r.p(400) {
                            self.plans.push_back(Plan::Any { acct: a });
                        }
                    } else if self.r.p(400) {
                        if let Some(Plan::Edge { maintenance, .. }) = self.plans.back_mut() {
                            *maintenance = false;
                        }
                        self.plans.push_back(Plan::Spend { acct: a });
                    } else if self.r.p(500) {
                        self.plans.extend([Plan::Withdraw { acct: a }, Plan::Newest { acct: a, back: 0 }]);
                    } else {
                        self.plans.extend([Plan::Open { acct: a }, Plan::Newest { acct: a, back: 0 }]);
                    }
                } else {
                    self.plans.extend([Plan::Open { acct: a }, Plan::Newest { acct: a, back: 0 }, Plan::Edge { acct: a, maintenance: true }, Plan::Liq { acct: a }]);
                }
            }
            // Deleverage.
            2 => {
                let pair = s.pairs.first().map(|p| p.pair_id.clone()).unwrap_or(PAIRS[0].into());
                if pos.is_empty() || self.r.p(400) {
                    let long = self.r.p(500);
                    self.plans.extend([Plan::RaiseCap, Plan::OpenVia { acct: a, pair: pair.clone(), long, lev: 3.0 }, Plan::Newest { acct: a, back: 0 }]);
                    let f = if long { 1.0 } else { -1.0 };
                    let f = 1.0 + f * self.r.pick(&[0.02, 0.1, 0.3, -0.05]);
                    self.plans.extend([Plan::Move { pair: pair.clone(), factor: f }, Plan::LowerCap, Plan::Adl { acct: a, pair }]);
                } else {
                    let (a, p) = self.r.pick(&pos);
                    let f = self.r.pick(&[1.05, 0.95, 1.3, 0.75]);
                    self.plans.extend([Plan::Move { pair: p.clone(), factor: f }, Plan::LowerCap, Plan::Adl { acct: a, pair: p.clone() }]);
                    if self.r.p(300) {
                        let (b, q) = self.r.pick(&pos);
                        self.plans.push_back(Plan::Adl { acct: b, pair: q });
                    }
                    self.plans.push_back(Plan::RaiseCap);
                }
            }
            // Into debt, then a debt swap.
            3 => {
                if s.accts[&a].vb.is_negative() {
                    self.plans.push_back(Plan::Swap { acct: a });
                } else if let Some((a, p)) = if pos.is_empty() { None } else { Some(self.r.pick(&pos)) } {
                    let long = s.accts[&a].pos[&p].amount.is_positive();
                    let f = if long { 0.9 } else { 1.1 };
                    self.plans.extend([Plan::Move { pair: p, factor: f }, Plan::Close { acct: a }, Plan::Newest { acct: a, back: 0 }, Plan::Swap { acct: a }, Plan::Swap { acct: a }]);
                } else {
                    // Spend the base balance so that only collateral backs the account.
                    let toks = vec![(R::Btc, dec!(10))];
                    let st = self.auth(w, h, s, a, 3, Act::AddColl { acct: a, toks, oath: None });
                    self.plans.extend([Plan::Do(st), Plan::Withdraw { acct: a }, Plan::Newest { acct: a, back: 0 }, Plan::Open { acct: a }, Plan::Newest { acct: a, back: 0 }]);
                }
            }
            4 => self.plans.extend([Plan::Withdraw { acct: a }, Plan::Newest { acct: a, back: 0 }]),
            // A bracket order driven through its stop or its target.
            5 => {
                let t = self.tp_sl(w, h, s, a);
                let (pair, up) = match &t {
                    Act::ReqTpSl { pair, .. } => (pair.clone(), self.r.p(500)),
                    _ => unreachable!(),
                };
                let st = self.auth(w, h, s, a, 3, t);
                let n = s.accts[&a].reqs.len() as u64;
                let f = if up { 1.15 } else { 0.85 };
                self.plans.extend([Plan::Do(st), Plan::Newest { acct: a, back: 2 }, Plan::Move { pair, factor: f }, Plan::Newest { acct: a, back: 1 }, Plan::Newest { acct: a, back: 0 }]);
                if self.r.p(400) {
                    let by = self.keeper();
                    let p = Some(self.good_push(s, now));
                    let st = self.step(by, Act::Process { acct: a, idx: n, push: p });
                    self.plans.push_back(Plan::Do(st));
                }
            }
            // Exposure up to the caps.
            7 => {
                let pair = self.configured(s);
                let long = self.r.p(500);
                let lev = self.r.pick(&[1.0, 3.0, 8.0]);
                for _ in 0..2 {
                    self.plans.extend([Plan::OpenVia { acct: a, pair: pair.clone(), long, lev }, Plan::Newest { acct: a, back: 0 }]);
                }
            }
            // Funding over time with both sides open.
            8 => {
                let v: Vec<u16> = s.accts.keys().copied().collect();
                let pair = s.pairs.first().map(|p| p.pair_id.clone()).unwrap_or(PAIRS[0].into());
                if v.len() > 1 && pos.len() < 3 {
                    let b = self.r.pick(&v);
                    let (l1, l2) = (self.r.pick(&[1.0, 2.0]), self.r.pick(&[0.5, 1.0, 3.0]));
                    let side = self.r.p(500);
                    self.plans.extend([
                        Plan::OpenVia { acct: a, pair: pair.clone(), long: side, lev: l1 },
                        Plan::Newest { acct: a, back: 0 },
                        Plan::OpenVia { acct: b, pair: pair.clone(), long: !side, lev: l2 },
                        Plan::Newest { acct: b, back: 0 },
                    ]);
                }
                for _ in 0..self.r.int(1, 3) {
                    let secs = self.r.pick(&[3600, 86400, 10, 600000]);
                    self.plans.extend([Plan::Wait { secs }, Plan::Update]);
                }
            }
            // Request life cycle: submit, race, repeat.
            9 => {
                let o = self.order(w, h, s, a);
                let st = self.auth(w, h, s, a, 3, o);
                self.plans.push_back(Plan::Do(st));
                for _ in 0..self.r.int(1, 3) {
                    let p = match self.r.below(5) {
                        0 => Plan::Any { acct: a },
                        1 => {
                            let n = s.accts[&a].reqs.len() as u64;
                            let st = self.auth(w, h, s, a, 3, Act::Cancel { acct: a, idx: vec![n], oath: None });
                            Plan::Do(st)
                        }
                        _ => Plan::Newest { acct: a, back: 0 },
                    };
                    self.plans.push_back(p);
                }
            }
            // Limits move under what exists; leaving must stay possible.
            11 => {
                let held: Vec<u16> = s.accts.iter().filter(|(_, q)| q.pos.len() + q.coll.len() + q.active.len() > 1).map(|x| *x.0).collect();
                let a = if held.is_empty() { a } else { self.r.pick(&held) };
                if s.accts[&a].pos.len() < 2 || self.r.p(300) {
                    for _ in 0..2 {
                        let pair = self.configured(s);
                        let long = self.r.p(500);
                        self.plans.extend([Plan::OpenVia { acct: a, pair, long, lev: 1.0 }, Plan::Newest { acct: a, back: 0 }]);
                    }
                }
                self.plans.push_back(Plan::Tighten { acct: a });
                for _ in 0..self.r.int(1, 3) {
                    match self.r.below(6) {
                        0..=2 => self.plans.extend([Plan::Close { acct: a }, Plan::Newest { acct: a, back: 0 }]),
                        3 => self.plans.extend([Plan::Withdraw { acct: a }, Plan::Newest { acct: a, back: 0 }]),
                        4 => self.plans.extend([Plan::Open { acct: a }, Plan::Newest { acct: a, back: 0 }]),
                        _ => self.plans.extend([Plan::Edge { acct: a, maintenance: true }, Plan::Liq { acct: a }]),
                    }
                }
                self.plans.push_back(Plan::Loosen);
            }
            // The pool is emptied by those it owes most; the others still claim.
            12 => {
                let pair = self.configured(s);
                let long = self.r.p(500);
                let held: Vec<(String, bool)> = s.accts[&a].pos.iter().map(|(p, q)| (p.clone(), q.amount.is_positive())).collect();
                let (pair, long) = if held.is_empty() || self.r.p(500) {
                    let lev = self.r.pick(&[1e9, 3.0]);
                    self.plans.extend([Plan::CapOff, Plan::OpenVia { acct: a, pair: pair.clone(), long, lev }, Plan::Newest { acct: a, back: 0 }]);
                    (pair, long)
                } else {
                    self.r.pick(&held)
                };
                let factor = if long { self.r.pick(&[1.5, 3.0, 10.0]) } else { self.r.pick(&[0.6, 0.3, 0.1]) };
                self.plans.extend([Plan::CapOff, Plan::LpOut { who: LPS[0] as u8 }, Plan::LpOut { who: LPS[1] as u8 }, Plan::Move { pair, factor }]);
                self.plans.extend([Plan::Close { acct: a }, Plan::Newest { acct: a, back: 0 }, Plan::TakeAll { acct: a }, Plan::Newest { acct: a, back: 0 }]);
                for _ in 0..self.r.int(2, 5) {
                    let what = if self.refs && self.r.p(500) { 3 } else { self.r.below(6) as u8 };
                    self.plans.push_back(Plan::Fees { what });
                }
                let b = self.acct(s).unwrap_or(a);
                self.plans.extend([Plan::TakeAll { acct: b }, Plan::Newest { acct: b, back: 0 }]);
            }
            // In debt and without positions: only the collateral stands for it.
            14 => {
                let held: Vec<u16> = s.accts.iter().filter(|(_, q)| !q.pos.is_empty()).map(|x| *x.0).collect();
                for _ in 0..self.r.pick(&[1, 2, 3]) {
                    let acct = if held.is_empty() || self.r.p(200) { a } else { self.r.pick(&held) };
                    let what = self.r.below(7) as u8;
                    self.plans.push_back(Plan::Brink { acct, what });
                }
            }
            13 => {
                let v: Vec<u16> = s.accts.iter().filter(|(_, q)| q.vb.is_negative() && !q.coll.is_empty()).map(|x| *x.0).collect();
                let a = if v.is_empty() { a } else { self.r.pick(&v) };
                if v.is_empty() {
                    let long = self.r.p(500);
                    let pair = self.configured(s);
                    let lev = self.r.pick(&[1.0, 3.0, 10.0, 1e9]);
                    let have: Vec<R> = [R::Btc, R::Eth, R::Usdb].into_iter().filter(|r| s.colls.contains_key(&r.addr(w))).collect();
                    let r = if have.is_empty() { R::Btc } else { self.r.pick(&have) };
                    let toks = vec![(r, self.coll_amount(r))];
                    let st = self.auth(w, h, s, a, 3, Act::AddColl { acct: a, toks, oath: None });
                    let factor = if long { self.r.pick(&[0.95, 0.98, 0.9]) } else { self.r.pick(&[1.05, 1.02, 1.1]) };
                    self.plans.extend([Plan::Do(st), Plan::TakeAll { acct: a }, Plan::Newest { acct: a, back: 0 }, Plan::OpenVia { acct: a, pair: pair.clone(), long, lev }, Plan::Newest { acct: a, back: 0 }, Plan::Move { pair, factor }]);
                }
                for _ in 0..s.accts[&a].pos.len().max(1) {
                    self.plans.extend([Plan::Close { acct: a }, Plan::Newest { acct: a, back: 0 }]);
                }
                for _ in 0..self.r.int(1, 2) {
                    match self.r.below(8) {
                        0 => self.plans.push_back(Plan::Swap { acct: a }),
                        // The price of what stands for the debt gives way.
                        2 | 3 => {
                            if self.r.p(600) {
                                self.plans.push_back(Plan::Open { acct: a });
                            }
                            self.plans.extend([Plan::Edge { acct: a, maintenance: true }, Plan::Liq { acct: a }]);
                            if self.r.p(500) {
                                self.plans.push_back(Plan::Any { acct: a });
                            }
                        }
                        1 => self.plans.extend([Plan::Open { acct: a }, Plan::Newest { acct: a, back: 0 }]),
                        _ => self.plans.extend([Plan::TakeOut { acct: a }, Plan::Newest { acct: a, back: 0 }]),
                    }
                }
            }
            // A referred trader earning for the referrer.
            _ => {
                let v: Vec<u16> = s.accts.iter().filter(|(_, q)| q.referral.is_some()).map(|x| *x.0).collect();
                let a = if v.is_empty() { a } else { self.r.pick(&v) };
                match self.r.below(10) {
                    // Liquidated, or closed by others.
                    0..=2 => {
                        let pair = self.configured(s);
                        let long = self.r.p(500);
                        if s.accts[&a].pos.is_empty() || self.r.p(300) {
                            self.plans.extend([Plan::RaiseCap, Plan::OpenVia { acct: a, pair, long, lev: 1e9 }, Plan::Newest { acct: a, back: 0 }]);
                        }
                        self.plans.extend([Plan::Edge { acct: a, maintenance: true }, Plan::Liq { acct: a }]);
                    }
                    3 => {
                        let held: Vec<(String, bool)> = s.accts[&a].pos.iter().map(|(p, q)| (p.clone(), q.amount.is_positive())).collect();
                        if let Some((pair, long)) = if held.is_empty() { None } else { Some(self.r.pick(&held)) } {
                            let factor = if long { 1.1 } else { 0.9 };
                            self.plans.extend([Plan::Move { pair: pair.clone(), factor }, Plan::LowerCap, Plan::Adl { acct: a, pair }, Plan::RaiseCap]);
                        } else {
                            self.plans.extend([Plan::Open { acct: a }, Plan::Newest { acct: a, back: 0 }]);
                        }
                    }
                    4 => self.plans.extend([Plan::Close { acct: a }, Plan::Newest { acct: a, back: 0 }]),
                    _ => self.plans.extend([Plan::Open { acct: a }, Plan::Newest { acct: a, back: 0 }]),
                }
                if let Some(slot) = s.accts[&a].referral.as_ref().and_then(|i| s.ref_slot(i)) {
                    self.plans.push_back(Plan::Collect { slot });
                }
            }
        }
    }
    fn plan(&mut self, w: &World, h: &Handles, s: &St, p: Plan) -> Option<Step> {
        let now = s.now;
        Some(match p {
            Plan::Do(st) => st,
            Plan::Newest { acct, back } => {
                let n = s.accts.get(&acct)?.reqs.len() as u64;
                let idx = n.checked_sub(1 + back)?;
                let due = (s.accts[&acct].reqs[idx as usize].submission + 1 - now).max(0);
                let dt = if due <= 700 { due } else { 1 };
                let by = self.keeper();
                let push = if self.r.p(850) { Some(self.good_push(s, now + dt)) } else { self.opt_push(s, now + dt) };
                Self::later(self.step(by, Act::Process { acct, idx, push }), dt)
            }
            Plan::Any { acct } => {
                s.accts.get(&acct)?;
                let idx = self.due(s, acct);
                let dt = self.oks();
                let by = self.keeper();
                let push = self.opt_push(s, now + dt);
                Self::later(self.step(by, Act::Process { acct, idx, push }), dt)
            }
            Plan::Move { pair, factor } => {
                if !self.px.contains_key(&pair) {
                    return None;
                }
                self.scale(&pair, factor);
                let dt = self.oks();
                let push = self.good_push(s, now + dt);
                self.pushes.push(push.clone());
                let by = self.keeper();
                Self::later(self.step(by, Act::PushOracle { push, want: vec![] }), dt)
            }
            Plan::Edge { acct, maintenance } => {
                s.accts.get(&acct)?;
                let (pair, x) = self.edge_price(w, h, s, acct, maintenance)?;
                let k = self.r.pick(&[1.0, 1.0 + 1e-6, 1.0 - 1e-6, 1.001, 0.999, 0.98, 1.02, 0.9, 1.1]);
                let digits = if self.round && self.r.p(500) { 3 } else { 9 };
                let v = df(x * k, digits);
                if !v.is_positive() {
                    return None;
                }
                self.px.insert(pair, v);
                let dt = self.oks();
                let push = self.good_push(s, now + dt);
                self.pushes.push(push.clone());
                let by = self.keeper();
                Self::later(self.step(by, Act::PushOracle { push, want: vec![] }), dt)
            }
            Plan::Spend { acct } => {
                let q = s.accts.get(&acct)?;
                let max = fl(s.del.max_lock).min(fl(s.del.xrd)).max(0.01);
                let f = 0.02 + 0.5 * self.r.f();
                let fee = df(max * f, 6);
                let oath = Some(fee);
                let act = match self.r.below(8) {
                    0 => Act::Cancel { acct, idx: (0..q.reqs.len() as u64).rev().take(1).collect(), oath },
                    1 => Act::ReqRemove { acct, target: Tgt::Actor(TRADERS[0] as u8), claims: vec![(R::Base, dec!(1))], expiry: 10_000_000, oath },
                    2 => Act::AddColl { acct, toks: vec![], oath },
                    3 => {
                        let r = self.r.pick(&[R::Btc, R::Usdb]);
                        Act::AddColl { acct, toks: vec![(r, self.coll_amount(r) * d("0.01"))], oath }
                    }
                    _ => {
                        let k = self.r.pick(&[d("0.5"), dec!(1), d("1.2"), dec!(2), dec!(5)]);
                        Act::AddColl { acct, toks: vec![(R::Base, fee * k)], oath }
                    }
                };
                self.auth(w, h, s, acct, if matches!(act, Act::ReqRemove { .. }) { 2 } else { 3 }, act)
            }
            Plan::Liq { acct } => {
                s.accts.get(&acct)?;
                let a = self.liquidation(w, s, acct);
                let by = self.keeper();
                self.step(by, a)
            }
            Plan::Adl { acct, pair } => {
                s.accts.get(&acct)?;
                let push = self.opt_push(s, now);
                let by = self.keeper();
                self.step(by, Act::Adl { acct, pair, push })
            }
            Plan::Close { acct } => {
                let pos: Vec<(String, Dec)> = s.accts.get(&acct)?.pos.iter().map(|(p, q)| (p.clone(), q.amount)).collect();
                if pos.is_empty() {
                    return None;
                }
                let (pair, amount) = self.r.pick(&pos);
                let k = self.r.pick(&[dec!(1), dec!(1), dec!("0.5"), dec!(2)]);
                let sl = if self.r.p(if self.terms { 350 } else { 60 }) {
                    let x = -amount * k.min(Dec::ONE);
                    let fee = self.fee_guess(w, h, s, acct, &pair, x);
                    let value = (x * self.price(s, &pair)).checked_abs().unwrap_or_default();
                    self.slip(fee, value)
                } else {
                    SlipLimit::None
                };
                let a = Act::ReqOrder { acct, pair, amount: -amount * k, ro: self.r.p(500), pl: PriceLimit::None, sl, activate: vec![], cancel: vec![], status: ACTIVE, delay: 0, expiry: 10_000_000, oath: self.oath() };
                self.auth(w, h, s, acct, 3, a)
            }
            Plan::Swap { acct } => {
                s.accts.get(&acct)?;
                let a = self.swap(w, s, acct);
                let by = self.keeper();
                self.step(by, a)
            }
            Plan::Open { acct } => {
                s.accts.get(&acct)?;
                let a = self.order(w, h, s, acct);
                self.auth(w, h, s, acct, 3, a)
            }
            Plan::OpenVia { acct, pair, long, lev } => {
                s.accts.get(&acct)?;
                let px = self.market(s);
                let (v, m) = self.worth(w, h, s, acct, &px, false).unwrap_or((100.0, 0.0));
                let mi = s.pair(&pair).map(|c| fl(c.margin_initial)).unwrap_or(0.1).max(0.001);
                let x = (v - m).max(1.0) * lev.min(0.8 / mi) / fl(self.price(s, &pair)).max(1e-9);
                let x = self.near(if long { x } else { -x });
                let a = Act::ReqOrder { acct, pair, amount: x, ro: false, pl: PriceLimit::None, sl: SlipLimit::None, activate: vec![], cancel: vec![], status: ACTIVE, delay: 0, expiry: 10_000_000, oath: None };
                self.auth(w, h, s, acct, 3, a)
            }
            Plan::Withdraw { acct } => {
                s.accts.get(&acct)?;
                let a = self.removal(w, h, s, acct);
                self.auth(w, h, s, acct, 2, a)
            }
            Plan::LowerCap => {
                let mut cfg = s.xc.clone();
                let r = fl(s.skew_ratio());
                let k = self.r.pick(&[0.9, 0.5, 0.99, 0.1, 1.0, 1.01]);
                cfg.skew_ratio_cap = df(r * k, 6);
                if self.r.p(500) {
                    cfg.adl_offset = df(r * self.r.pick(&[0.9, 1.0, 1.1, 0.5]), 4);
                }
                self.step(ADMIN, Act::SetX { cfg })
            }
            Plan::RaiseCap => {
                let mut cfg = s.xc.clone();
                cfg.skew_ratio_cap = self.r.pick(&[dec!(5), dec!(1), dec!("0.5")]);
                self.step(ADMIN, Act::SetX { cfg })
            }
            Plan::Wait { secs } => {
                let secs = self.r.int(secs / 2, secs + 1);
                self.drift();
                let push = self.good_push(s, now + secs);
                let by = self.keeper();
                Self::later(self.step(by, Act::PushOracle { push, want: vec![] }), secs)
            }
            Plan::Update => {
                let pairs = s.pairs.iter().map(|p| p.pair_id.clone()).filter(|p| s.prices.contains_key(p)).collect();
                let push = Some(self.good_push(s, now));
                let by = self.keeper();
                self.step(by, Act::UpdatePairs { pairs, push })
            }
            Plan::Collect { slot } => {
                let by = *h.ref_holder.get(&slot)?;
                self.step(by as usize, Act::CollectRef { slot })
            }
            Plan::Tighten { acct } => {
                let q = s.accts.get(&acct)?;
                let mut cfg = s.xc.clone();
                let k = self.r.below(6);
                if k >= 4 && !q.pos.is_empty() {
                    let pairs: Vec<String> = q.pos.keys().cloned().collect();
                    let p = self.r.pick(&pairs);
                    let mut c = s.pair(&p)?.clone();
                    let x = s.ppos(&p);
                    let have = q.pos[&p].amount.checked_abs()?;
                    match self.r.below(4) {
                        0 => c.oi_max = x.oi_long.max(x.oi_short) * d("0.5"),
                        1 => c.oi_max = x.oi_long.min(x.oi_short),
                        2 => c.trade_size_min = have * self.r.pick(&[dec!(1), d("1.001"), dec!(2)]),
                        _ => c.margin_initial = (c.margin_initial * dec!(3)).min(dec!(1)),
                    }
                    return Some(self.step(ADMIN, Act::SetPairs { cfgs: vec![c] }));
                }
                match k {
                    0 | 1 => cfg.positions_max = ((q.pos.len() as i64 - self.r.int(0, 1)).max(1)) as _,
                    2 => cfg.collaterals_max = ((q.coll.len() as i64 - self.r.int(0, 1)).max(0)) as _,
                    3 => cfg.active_requests_max = ((q.active.len() as i64 - self.r.int(0, 1)).max(0)) as _,
                    _ => cfg.skew_ratio_cap = df(fl(s.skew_ratio()) * 0.5, 6),
                }
                self.step(ADMIN, Act::SetX { cfg })
            }
            Plan::LpOut { who } => {
                let have = s.wallet.get(&(who, w.lp)).copied().unwrap_or_default();
                // What the pool has beyond what it owes, at most.
                let k = self.r.pick(&[d("1"), d("0.999"), d("0.99"), d("0.9")]);
                let amount = have * k;
                if !amount.is_positive() {
                    return None;
                }
                self.step(who as usize, Act::RemLiq { res: R::Lp, amount })
            }
            Plan::Brink { acct, what } => self.brink(w, h, s, acct, what)?,
            Plan::CapOff => {
                let mut cfg = s.xc.clone();
                cfg.skew_ratio_cap = dec!(1000000);
                self.step(ADMIN, Act::SetX { cfg })
            }
            Plan::TakeAll { acct } => {
                let q = s.accts.get(&acct)?;
                let most = q.vb.min(s.pool.base);
                if !most.is_positive() {
                    return None;
                }
                let x = match self.r.below(8) {
                    0 => most + d("0.000000000000000001"),
                    1 => most * d("0.5"),
                    2 => q.vb,
                    3 => most - d("0.000000000000000001"),
                    _ => most,
                };
                let target = Tgt::Actor(self.r.pick(&TRADERS) as u8);
                let a = Act::ReqRemove { acct, target, claims: vec![(R::Base, x)], expiry: 10_000_000, oath: None };
                self.auth(w, h, s, acct, 2, a)
            }
            Plan::TakeOut { acct } => {
                let q = s.accts.get(&acct)?;
                let mut coll: Toks = vec![];
                for r in [R::Btc, R::Eth, R::Usdb, R::Usda, R::Junk] {
                    if let Some(x) = q.coll.get(&r.addr(w)) {
                        coll.push((r, *x));
                    }
                }
                if coll.is_empty() {
                    return None;
                }
                let claims = if self.r.p(250) {
                    coll
                } else {
                    let (r, x) = self.r.pick(&coll);
                    let mut y = x;
                    if let Some((v, m)) = self.exact(w, h, s, acct) {
                        // What the rest of the collateral still covers, if this is all there is.
                        let (all, room) = (fl(v - q.vb), fl(v - m));
                        let k = self.r.pick(&[1.0, 1.0, 1.001, 0.999, 1.05, 0.5]);
                        if all > 0.0 && self.r.p(700) {
                            y = x.min(df((fl(x) * room / all * k).max(0.0), 8));
                        }
                    }
                    vec![(r, y)]
                };
                let target = Tgt::Actor(self.r.pick(&TRADERS) as u8);
                let a = Act::ReqRemove { acct, target, claims, expiry: 10_000_000, oath: None };
                self.auth(w, h, s, acct, 2, a)
            }
            Plan::Fees { what } => match what {
                0 | 1 => self.step(ADMIN, Act::CollectTreasury),
                2 => self.step(ADMIN, Act::CollectDelegator),
                3 => {
                    let owed: Vec<u16> = s.refs.iter().filter(|(_, r)| r.1.balance.is_positive()).map(|x| *x.0).collect();
                    let slot = if owed.is_empty() { self.slot(h)? } else { self.r.pick(&owed) };
                    let by = *h.ref_holder.get(&slot)?;
                    self.step(by as usize, Act::CollectRef { slot })
                }
                _ => {
                    let amount = s.xc.protocol_burn_amount;
                    self.step(TRADERS[0], Act::SwapProtocol { res: R::Protocol, amount })
                }
            },
            Plan::Loosen => {
                let mut cfg = s.xc.clone();
                cfg.positions_max = cfg.positions_max.max(self.r.pick(&[2, 3, 30]));
                cfg.collaterals_max = cfg.collaterals_max.max(3);
                cfg.active_requests_max = cfg.active_requests_max.max(8);
                cfg.skew_ratio_cap = cfg.skew_ratio_cap.max(dec!("0.15"));
                self.step(ADMIN, Act::SetX { cfg })
            }
            Plan::Restore => self.step(ADMIN, Act::DepositAuth { res: R::Authority }),
        })
    }

    // ---------------------------------------------------------------- one step
    pub fn look(&mut self, _h: &Handles, s: &St) -> Step {
        let accts: Vec<u16> = s.accts.keys().copied().collect();
        let acct = if accts.is_empty() { 0 } else { self.r.pick(&accts) };
        let slots: Vec<u16> = s.refs.keys().copied().collect();
        let slot = if slots.is_empty() { 0 } else { self.r.pick(&slots) };
        let len = s.accts.get(&acct).map(|a| a.reqs.len()).unwrap_or(0) as u64;
        let at = match self.r.below(5) {
            0 | 1 => None,
            2 => Some(0),
            3 => Some(self.r.below(len + 2)),
            _ => Some(len.saturating_sub(1)),
        };
        let n = self.r.pick(&[0, 1, 2, 3, 5, 100]);
        let mut names: Vec<String> = PAIRS.iter().map(|p| p.to_string()).filter(|_| self.r.p(700)).collect();
        if self.r.p(200) {
            names.push("NONE/USD".into());
        }
        if self.r.p(300) {
            names.reverse();
        }
        self.step(EVIL, Act::Look { acct, slot, n, at, names })
    }
    pub fn next(&mut self, w: &World, h: &Handles, s: &St) -> Step {
        self.n += 1;
        if s.authority.is_zero() && !self.plans.iter().any(|p| matches!(p, Plan::Restore)) {
            // The window in which the exchange is switched off does not last for ever.
            if self.r.p(250) {
                self.plans.clear();
                self.plans.push_back(Plan::Restore);
            }
        }
        // Delayed and duplicated messages that are now delivered.
        if let Some(i) = self.queue.iter().position(|q| q.0 <= self.n) {
            let (_, st) = self.queue.remove(i);
            self.fault("delivered_late_or_again");
            return st;
        }
        let mut st = None;
        let setting_up = self.n < 14 && matches!(self.plans.front(), Some(Plan::Do(_)));
        if !self.plans.is_empty() && (setting_up || self.r.p(850)) {
            let p = self.plans.pop_front().unwrap();
            st = self.plan(w, h, s, p);
        }
        if setting_up {
            if let Some(st) = st {
                return st;
            }
        }
        let mut st = match st {
            Some(st) => st,
            None => {
                if self.r.p(400) {
                    self.drift();
                }
                let dt = self.dt(s);
                let mut later = s.clone();
                later.now += dt;
                let mut st = self.random(w, h, &later);
                st.dt = dt;
                st
            }
        };
        // What goes wrong with it.
        if self.r.p(self.p_abort) {
            let most = self.r.pick(&[20, 120, 400]);
            st.abort_at = 1 + self.r.below(most);
            self.fault("abort_inside_transaction");
            if self.r.p(500) {
                let mut again = st.clone();
                again.abort_at = 0;
                again.dt = 0;
                self.plans.push_front(Plan::Do(again));
            }
        } else if self.r.p(self.p_cost) {
            st.costing = true;
            if self.r.p(600) {
                st.cost_limit = Some(self.r.int(200_000, 12_000_000) as u32);
                self.fault("fee_budget_exhausted");
            }
        }
        if self.r.p(self.p_dup) && !matches!(st.act, Act::NewAcct { .. } | Act::MintRef { .. } | Act::RecKey { .. } | Act::Codes { .. } | Act::WithdrawAuth) {
            let mut c = st.clone();
            c.abort_at = 0;
            c.dt = 0;
            let at = self.n + 1 + self.r.below(8);
            self.queue.push((at, c));
            self.fault("message_duplicated");
            if self.r.p(300) {
                self.fault("message_delayed");
                return self.step(KEEPERS[0], Act::Idle);
            }
        }
        st
    }
    fn dt(&mut self, s: &St) -> i64 {
        if self.r.p(self.p_stall) {
            self.fault("clock_jump");
            return self.r.pick(&[86400, 604800, 31_536_000, 100_000]);
        }
        if self.r.p(self.p_edge) {
            // Land on or next to a moment at which something changes.
            let mut at: Vec<i64> = vec![];
            for q in s.accts.values() {
                for k in q.reqs.iter().filter(|k| k.live()) {
                    at.extend([k.submission, k.submission + 1, k.expiry - 1, k.expiry, k.expiry + 1]);
                }
            }
            for (p, (_, t)) in &s.prices {
                for a in s.pairs.iter().filter(|c| c.pair_id == *p).map(|c| c.price_age_max).chain(s.colls.values().filter(|c| c.pair_id == *p).map(|c| c.price_age_max)) {
                    at.extend([t + a - 1, t + a, t + a + 1]);
                }
            }
            for (p, q) in &s.pool.pos {
                if let Some(c) = s.pair(p) {
                    at.extend([q.last_update + c.update_period_seconds - 1, q.last_update + c.update_period_seconds]);
                }
            }
            at.retain(|t| *t >= s.now && *t < s.now + 200_000);
            if !at.is_empty() {
                return self.r.pick(&at) - s.now;
            }
        }
        match self.r.below(20) {
            0..=7 => 0,
            8..=12 => 1,
            13..=15 => self.r.int(2, 30),
            16 | 17 => self.r.int(30, 900),
            18 => self.r.int(900, 20000),
            _ => self.r.int(1, 5),
        }
    }
    fn random(&mut self, w: &World, h: &Handles, s: &St) -> Step {
        for _ in 0..20 {
            let total: u64 = self.weights.iter().map(|x| x.1).sum();
            let mut k = self.r.below(total);
            let mut kind = "idle";
            for (n, x) in &self.weights {
                if k < *x {
                    kind = n;
                    break;
                }
                k -= *x;
            }
            if kind == "plan" {
                if self.plans.len() < 12 {
                    self.start_plan(w, h, s);
                }
                if let Some(p) = self.plans.pop_front() {
                    if let Some(mut st) = self.plan(w, h, s, p) {
                        st.dt = 0;
                        return st;
                    }
                }
                continue;
            }
            if let Some(st) = self.make(kind, w, h, s) {
                return st;
            }
        }
        self.step(KEEPERS[0], Act::Idle)
    }
    fn var(&mut self) -> String {
        self.r.pick(&["", "A", "a", "B", "PAIR", "PAIR_2", "\u{e9}"]).to_string()
    }
    fn admin_or_not(&mut self) -> usize {
        if self.r.p(900) {
            ADMIN
        } else {
            self.fault("wrong_sender");
            self.r.int(1, N_SENDERS as i64 - 1) as usize
        }
    }
    fn slot(&mut self, h: &Handles) -> Option<u16> {
        let v: Vec<u16> = h.refs.keys().copied().collect();
        if v.is_empty() { None } else { Some(self.r.pick(&v)) }
    }
    fn holder(&mut self, h: &Handles, slot: u16) -> usize {
        let _ = slot;
        if self.r.p(930) {
            h.ref_holder.get(&slot).copied().unwrap_or(REFERRER as u8) as usize
        } else {
            self.fault("wrong_sender");
            self.r.int(1, N_SENDERS as i64 - 1) as usize
        }
    }
    fn some_claims(&mut self, n: u64) -> (Toks, Toks) {
        // (tokens handed over, claims of one code)
        let k = self.r.pick(&[0, 1, 1, 1, 2]);
        let mut c = vec![];
        let mut t: Toks = vec![];
        for _ in 0..k {
            let r = self.r.pick(&[R::Base, R::Base, R::Btc, R::Usdb]);
            let v = match r {
                R::Btc => self.r.pick(&[d("0.001"), d("0.5"), d("0.123456789")]),
                _ => self.r.pick(&[dec!(1), dec!(10), d("2.5"), d("0.333333333333333333")]),
            };
            c.push((r, v));
            let mut x = v * Decimal::from(n);
            if r == R::Btc {
                x = ceil_to(x, 8);
            }
            t.push((r, x));
        }
        match self.r.below(12) {
            0 => {
                if let Some(x) = t.first_mut() {
                    x.1 = x.1 * d("0.5");
                    if x.0 == R::Btc {
                        x.1 = floor_to(x.1, 8);
                    }
                }
            }
            1 => t.push((R::Base, dec!(3))),
            2 => {
                if let Some(x) = t.first_mut() {
                    x.1 = x.1 + dec!(1);
                }
            }
            3 if self.r.p(300) => t.push((R::Junk, dec!(1))),
            4 if self.r.p(300) => c.push((R::Base, dec!(-1))),
            _ => {}
        }
        (t, c)
    }
    fn make(&mut self, kind: &'static str, w: &World, h: &Handles, s: &St) -> Option<Step> {
        let now = s.now;
        let st = match kind {
            "idle" => self.step(KEEPERS[0], Act::Idle),
            "push_oracle" => {
                let push = self.any_push(s, now);
                let want = if self.r.p(700) { vec![] } else { vec![self.r.pick(&["BTC/USD", "ETH/USD", "USDB/USD", "NONE/USD"]).to_string()] };
                let by = self.keeper();
                self.step(by, Act::PushOracle { push, want })
            }
            "oracle_get" => {
                let want: BTreeSet<String> = (0..self.r.int(1, 3)).map(|_| self.r.pick(&FEEDS).to_string()).collect();
                let by = self.keeper();
                self.step(by, Act::OracleGet { want: want.into_iter().collect() })
            }
            "oracle_add_key" => {
                let (id, key) = (self.r.pick(&[0, 1, 2, 3]), self.r.pick(&[0, 1, 2]));
                let by = self.admin_or_not();
                self.step(by, Act::OracleAdd { id, key })
            }
            "oracle_remove_key" => {
                if s.keys.len() < 2 && self.r.p(800) {
                    return None;
                }
                let v: Vec<u64> = s.keys.keys().copied().collect();
                let id = if v.is_empty() { 0 } else { self.r.pick(&v) };
                if v.len() == 1 {
                    let st = self.step(ADMIN, Act::OracleAdd { id: 1, key: 1 });
                    self.plans.push_back(Plan::Do(st));
                }
                let by = self.admin_or_not();
                self.step(by, Act::OracleDel { id })
            }
            "oracle_remove_price" => {
                let pair = self.r.pick(&FEEDS).to_string();
                let by = self.admin_or_not();
                self.step(by, Act::OracleDelPrice { pair })
            }
            "add_liquidity" => {
                let k = self.r.pick(&[100.0, 1000.0, 50000.0]) * (0.5 + self.r.f());
                let mut amount = self.near(k);
                if self.r.p(100) {
                    amount = d("0.000000000000000001") * Decimal::from(self.r.below(5000) + 1);
                }
                let by = if self.r.p(900) { self.r.pick(&LPS) } else { self.keeper() };
                let res = if self.r.p(960) { R::Base } else { self.r.pick(&[R::Usdb, R::Lp, R::Junk]) };
                self.step(by, Act::AddLiq { res, amount })
            }
            "remove_liquidity" => {
                let v: Vec<(u8, Dec)> = s.wallet.iter().filter(|(k, _)| k.1 == w.lp).map(|(k, v)| (k.0, *v)).collect();
                if v.is_empty() {
                    return None;
                }
                let (by, have) = self.r.pick(&v);
                let x = match self.r.below(6) {
                    0 => have,
                    1 => floor_to(have * d("0.5"), 18),
                    2 => d("0.000000000000000001") * Decimal::from(self.r.below(5000) + 1),
                    _ => {
                        let k = fl(have) * self.r.f() * 0.3;
                        self.near(k).min(have)
                    }
                };
                let res = if self.r.p(960) { R::Lp } else { R::Base };
                self.step(by as usize, Act::RemLiq { res, amount: x })
            }
            "create_account" => {
                if s.accts.len() >= self.max_accts {
                    return None;
                }
                let by = self.r.pick(&TRADERS);
                let toks = if self.r.p(900) { self.deposit(s, w) } else { vec![] };
                let live: Vec<String> = self.codes.iter().filter(|c| s.codes.get(&keccak256_hash(c.as_bytes())).map(|k| k.count < k.max).unwrap_or(false)).cloned().collect();
                let code = if self.r.p(450) {
                    if !live.is_empty() && self.r.p(750) { Some(self.r.pick(&live)) } else if !self.codes.is_empty() && self.r.p(800) { Some(self.r.pick(&self.codes.clone())) } else { Some("nope".to_string()) }
                } else {
                    None
                };
                let slot = self.nacct;
                self.nacct += 1;
                let rule = self.rule(by as u8);
                let oath = self.oath();
                let reserve = self.r.p(150);
                self.step(by, Act::NewAcct { slot, rule, toks, code, oath, reserve })
            }
            "create_recovery_key" => {
                let a = self.open_acct(s)?;
                let slot = self.nkey;
                self.nkey += 1;
                let oath = self.oath();
                self.auth(w, h, s, a, 1, Act::RecKey { slot, acct: a, oath })
            }
            "add_auth_rule" => {
                let a = self.open_acct(s)?;
                let me = self.r.pick(&TRADERS) as u8;
                let rule = self.rule(me);
                if !Self::is_node(&rule) {
                    return None;
                }
                let level = self.r.pick(&[1, 1, 2, 2, 3, 3, 0, 4]);
                let oath = self.oath();
                self.auth(w, h, s, a, 1, Act::AddRule { acct: a, level, rule, oath })
            }
            "set_level_auth" => {
                let a = self.acct(s)?;
                let me = self.r.pick(&TRADERS) as u8;
                let rule = self.rule(me);
                let level = self.r.int(1, 3) as u8;
                if rule == Rule::Deny && level == 1 && self.r.p(800) {
                    return None;
                }
                let oath = self.oath();
                self.auth(w, h, s, a, 1, Act::SetRule { acct: a, level, rule, oath })
            }
            "add_collateral" => {
                let a = self.acct(s)?;
                let toks = self.deposit(s, w);
                let oath = self.oath();
                self.auth(w, h, s, a, 3, Act::AddColl { acct: a, toks, oath })
            }
            "remove_collateral_request" => {
                let a = self.acct(s)?;
                let x = self.removal(w, h, s, a);
                if self.r.p(650) {
                    self.plans.push_back(Plan::Newest { acct: a, back: 0 });
                }
                self.auth(w, h, s, a, 2, x)
            }
            "margin_order_request" => {
                let a = self.acct(s)?;
                let x = self.order(w, h, s, a);
                if self.r.p(600) {
                    self.plans.push_back(Plan::Newest { acct: a, back: 0 });
                }
                self.auth(w, h, s, a, 3, x)
            }
            "margin_order_tp_sl_request" => {
                let a = self.acct(s)?;
                let x = self.tp_sl(w, h, s, a);
                if self.r.p(600) {
                    self.plans.push_back(Plan::Newest { acct: a, back: self.r.clone().pick(&[0, 1, 2]) });
                }
                self.auth(w, h, s, a, 3, x)
            }
            "cancel_requests" => {
                let a = self.acct(s)?;
                let q = &s.accts[&a];
                let n = q.reqs.len() as u64;
                let live: Vec<u64> = q.reqs.iter().enumerate().filter(|r| r.1.live()).map(|r| r.0 as u64).collect();
                let mut idx = vec![];
                for _ in 0..self.r.pick(&[1, 1, 2, 3]) {
                    idx.push(if !live.is_empty() && self.r.p(850) { self.r.pick(&live) } else if n > 0 && self.r.p(700) { self.r.below(n) } else { n + self.r.below(2) });
                }
                let oath = self.oath();
                self.auth(w, h, s, a, 3, Act::Cancel { acct: a, idx, oath })
            }
            "process_request" => {
                let a = self.busy(s)?;
                let idx = self.due(s, a);
                let push = self.opt_push(s, now);
                let by = self.keeper();
                self.step(by, Act::Process { acct: a, idx, push })
            }
            "swap_debt" => {
                let v: Vec<u16> = s.accts.iter().filter(|(_, q)| q.vb.is_negative() && !q.coll.is_empty()).map(|x| *x.0).collect();
                let a = if v.is_empty() {
                    if self.r.p(700) {
                        return None;
                    }
                    self.acct(s)?
                } else {
                    self.r.pick(&v)
                };
                let x = self.swap(w, s, a);
                let by = self.keeper();
                self.step(by, x)
            }
            "liquidate" => {
                let a = if self.r.p(700) { self.weakest(w, h, s)? } else { self.acct(s)? };
                let x = self.liquidation(w, s, a);
                let by = self.keeper();
                self.step(by, x)
            }
            "auto_deleverage" => {
                let a = self.exposed(s)?;
                let pos: Vec<String> = s.accts[&a].pos.keys().cloned().collect();
                let pair = if pos.is_empty() || self.r.p(80) { self.configured(s) } else { self.r.pick(&pos) };
                let push = self.opt_push(s, now);
                let by = self.keeper();
                self.step(by, Act::Adl { acct: a, pair, push })
            }
            "update_pairs" => {
                let n = self.r.int(0, 3);
                let mut pairs: Vec<String> = (0..n).map(|_| self.configured(s)).collect();
                if self.r.p(900) {
                    pairs.retain(|p| p != "SOL/USD");
                }
                if self.r.p(300) {
                    pairs = s.pairs.iter().map(|p| p.pair_id.clone()).filter(|p| p != "SOL/USD").collect();
                }
                let push = self.opt_push(s, now);
                let by = self.keeper();
                self.step(by, Act::UpdatePairs { pairs, push })
            }
            "swap_protocol_fee" => {
                let more = self.surplus();
                let amount = self.r.pick(&[s.xc.protocol_burn_amount, s.xc.protocol_burn_amount, s.xc.protocol_burn_amount + more, s.xc.protocol_burn_amount - d("0.000001"), dec!(1)]);
                let res = if self.r.p(960) { R::Protocol } else { self.r.pick(&[R::Junk, R::Base]) };
                let by = self.r.int(1, N_SENDERS as i64 - 2) as usize;
                self.step(by, Act::SwapProtocol { res, amount })
            }
            "collect_treasury" => {
                let by = self.admin_or_not();
                self.step(by, Act::CollectTreasury)
            }
            "collect_fee_delegator" => {
                let by = self.admin_or_not();
                self.step(by, Act::CollectDelegator)
            }
            "mint_referral" => {
                if self.nref > 3 {
                    return None;
                }
                let slot = self.nref;
                self.nref += 1;
                let n = self.r.int(1, 3) as u64;
                let alloc = if self.r.p(400) {
                    let (t, c) = self.some_claims(n);
                    Some((t, c, n))
                } else {
                    None
                };
                let to = self.r.pick(&[REFERRER, LPS[1], TRADERS[0]]) as u8;
                let (fee_ref, rebate) = (self.r.pick(&[d("0"), d("0.05"), d("0.1"), d("0.1001"), d("-0.01")]), self.r.pick(&[d("0"), d("0.1"), d("0.02"), d("0.11")]));
                let max = self.r.pick(&[0, 1, 3, 20]);
                let by = self.admin_or_not();
                self.step(by, Act::MintRef { slot, to, fee_ref, rebate, max, alloc })
            }
            "update_referral" => {
                let slot = self.slot(h)?;
                let o = |g: &mut Gen, v: &[Dec]| if g.r.p(500) { Some(g.r.pick(v)) } else { None };
                let fee_ref = o(self, &[d("0"), d("0.1"), d("0.07"), d("0.2")]);
                let rebate = o(self, &[d("0"), d("0.1"), d("0.03"), d("-0.1")]);
                let max = if self.r.p(400) { Some(self.r.pick(&[0, 2, 10, 50])) } else { None };
                let by = self.admin_or_not();
                self.step(by, Act::UpdRef { slot, fee_ref, rebate, max })
            }
            "add_referral_allocation" => {
                let slot = self.slot(h)?;
                let count = self.r.int(1, 4) as u64;
                let (toks, claims) = self.some_claims(count);
                // The owner's own wallet holds no base tokens; borrow the right to act from the admin.
                let by = self.admin_or_not();
                self.step(by, Act::AddAlloc { slot, toks, claims, count })
            }
            "create_referral_codes" => {
                let slot = self.slot(h)?;
                let by = self.holder(h, slot);
                let n = self.r.int(1, 2);
                let mut toks: Toks = vec![];
                let mut codes = vec![];
                for _ in 0..n {
                    let multi = self.r.p(300);
                    let (t, c) = if multi && self.r.p(850) { (vec![], vec![]) } else { self.some_claims(1) };
                    toks.extend(t);
                    let code = if !self.codes.is_empty() && self.r.p(if self.refs { 160 } else { 80 }) {
                        let used: Vec<String> = self.codes.iter().filter(|c| s.codes.get(&keccak256_hash(c)).map_or(false, |c| c.count >= c.max)).cloned().collect();
                        { let any = used.is_empty() || self.r.p(500); if any { self.r.pick(&self.codes.clone()) } else { self.r.pick(&used) } }
                    } else {
                        self.ncode += 1;
                        let c = format!("c{}", self.ncode);
                        self.codes.push(c.clone());
                        c
                    };
                    if codes.iter().any(|(k, _, _): &(String, Toks, u64)| *k == code) {
                        continue;
                    }
                    codes.push((code, c, if multi { self.r.pick(&[2, 3, 0]) } else { 1 }));
                }
                self.step(by, Act::Codes { slot, toks, codes })
            }
            "create_referral_codes_from_allocation" => {
                let slot = self.slot(h)?;
                let n = s.refs.get(&slot).and_then(|r| s.allocs.get(&r.0)).map(|l| l.len()).unwrap_or(0) as u64;
                if n == 0 && self.r.p(800) {
                    return None;
                }
                let index = if self.r.p(900) { self.r.below(n) } else { n };
                let mut codes = vec![];
                // Now and then exactly what is left of it, or one more.
                let left = s
                    .refs
                    .get(&slot)
                    .and_then(|r| s.allocs.get(&r.0))
                    .and_then(|l| l.get(index as usize))
                    .map(|a| a.max.saturating_sub(a.count).min(8) as i64);
                let many = match left {
                    Some(l) if l > 0 && self.r.p(350) => l + if self.r.p(300) { 1 } else { 0 },
                    _ => self.r.int(1, 2),
                };
                for _ in 0..many {
                    if !self.codes.is_empty() && self.r.p(if self.refs { 350 } else { 120 }) {
                        // One that exists, preferably one that is used up.
                        let used: Vec<String> = self.codes.iter().filter(|c| s.codes.get(&keccak256_hash(c)).map_or(false, |c| c.count >= c.max)).cloned().collect();
                        codes.push({ let any = used.is_empty() || self.r.p(300); if any { self.r.pick(&self.codes.clone()) } else { self.r.pick(&used) } });
                    } else {
                        self.ncode += 1;
                        let c = format!("c{}", self.ncode);
                        self.codes.push(c.clone());
                        codes.push(c);
                    }
                }
                codes.dedup();
                let by = self.holder(h, slot);
                self.step(by, Act::CodesAlloc { slot, index, codes })
            }
            "collect_referral_rewards" => {
                let slot = self.slot(h)?;
                let by = self.holder(h, slot);
                self.step(by, Act::CollectRef { slot })
            }
            "update_exchange_config" => {
                let mut cfg = if self.r.p(500) { s.xc.clone() } else { self.x_cfg() };
                if self.r.p(450) {
                    self.bend_x(&mut cfg);
                }
                let by = self.admin_or_not();
                self.step(by, Act::SetX { cfg })
            }
            "update_pair_configs" => {
                let n = self.r.pick(&[1, 1, 1, 2]);
                let mut cfgs = vec![];
                for _ in 0..n {
                    let pair = self.r.pick(&PAIRS).to_string();
                    let mut c = match s.pair(&pair) {
                        Some(c) if self.r.p(500) => c.clone(),
                        _ => self.p_cfg(&pair),
                    };
                    if self.r.p(450) {
                        self.bend_p(&mut c);
                    }
                    cfgs.push(c);
                }
                let by = self.admin_or_not();
                self.step(by, Act::SetPairs { cfgs })
            }
            "update_collateral_configs" => {
                let n = self.r.pick(&[1, 1, 2]);
                let mut cfgs = vec![];
                for _ in 0..n {
                    let (r, p) = self.r.pick(&[(R::Btc, "BTC/USD"), (R::Eth, "ETH/USD"), (R::Usdb, "USDB/USD")]);
                    let mut c = self.c_cfg(p);
                    if self.r.p(400) {
                        self.bend_c(&mut c);
                    }
                    cfgs.push((r, c));
                }
                let by = self.admin_or_not();
                self.step(by, Act::SetColls { cfgs })
            }
            "remove_collateral_config" => {
                let r = self.r.pick(&[R::Btc, R::Eth, R::Usdb, R::Junk]);
                if self.r.p(800) {
                    let p = match r {
                        R::Btc => "BTC/USD",
                        R::Eth => "ETH/USD",
                        _ => "USDB/USD",
                    };
                    if r != R::Junk {
                        let c = self.c_cfg(p);
                        let st = self.step(ADMIN, Act::SetColls { cfgs: vec![(r, c)] });
                        let at = self.n + 3 + self.r.below(12);
                        self.queue.push((at, st));
                    }
                }
                let by = self.admin_or_not();
                self.step(by, Act::DelColl { res: r })
            }
            "withdraw_authority" => {
                let by = self.admin_or_not();
                self.step(by, Act::WithdrawAuth)
            }
            "deposit_authority" => {
                let res = if self.r.p(700) { R::Authority } else { R::Owner };
                let by = self.admin_or_not();
                self.step(by, Act::DepositAuth { res })
            }
            "signal_upgrade" => {
                let by = self.admin_or_not();
                self.step(by, Act::Signal)
            }
            "lock_fee" => {
                let by = self.r.int(0, N_SENDERS as i64 - 1) as usize;
                let (amount, burn) = (self.r.pick(&[dec!(1), dec!(10), dec!(50)]), self.r.p(500));
                self.step(by, Act::Lock { amount, burn })
            }
            "update_max_lock" => {
                let by = self.admin_or_not();
                let v = self.r.pick(&[dec!(0), d("0.3"), dec!(1), dec!(10), dec!(100), dec!(-1)]);
                self.step(by, Act::DelMax { v })
            }
            "update_price_multiplier" => {
                let by = self.admin_or_not();
                let v = self.r.pick(&[dec!(0), dec!(1), d("1.5"), dec!(3), dec!(-1)]);
                self.step(by, Act::DelMult { v })
            }
            "update_is_contingent" => {
                let by = self.admin_or_not();
                let v = self.r.p(500);
                self.step(by, Act::DelCont { v })
            }
            "delegator_deposit" => {
                let by = self.admin_or_not();
                self.step(by, Act::DelDeposit { amount: dec!(7) })
            }
            "delegator_withdraw" => {
                let by = self.admin_or_not();
                let amount = self.r.pick(&[dec!(3), dec!(100), s.del.xrd, s.del.xrd + dec!(1)]);
                if amount >= s.del.xrd {
                    let st = self.step(ADMIN, Act::DelDeposit { amount: dec!(500) });
                    self.plans.push_back(Plan::Do(st));
                }
                self.step(by, Act::DelWithdraw { amount })
            }
            "wrap" => {
                let res = self.r.pick(&[R::Usda, R::Usdb, R::Usdb, R::Junk]);
                let k = 100.0 * self.r.f();
                let mut amount = self.near(k);
                if res == R::Usda {
                    amount = floor_to(amount, 6);
                }
                let by = self.r.int(1, 9) as usize;
                if res == R::Usda && s.wallet.get(&(by as u8, w.usda)).is_none() {
                    let by = ADMIN;
                    return Some(self.step(by, Act::Wrap { res, amount }));
                }
                self.step(by, Act::Wrap { res, amount })
            }
            "unwrap" => {
                let child = self.r.pick(&[R::Usda, R::Usda, R::Usdb, R::Usdb, R::Junk]);
                let by = self.r.int(1, 9) as usize;
                let have = s.wrap.get(&child.addr(w)).map(|x| x.0).unwrap_or_default();
                let amount = match self.r.below(6) {
                    0 if have < dec!(1000000) => have,
                    1 if have < dec!(1000000) => have + d("0.000001"),
                    2 => d("1.000000999999999999"),
                    3 => d("0.0000005"),
                    _ => {
                        let k = 50.0 * self.r.f();
                        self.near(k)
                    }
                };
                let res = if self.r.p(850) { R::Base } else { self.r.pick(&[R::Junk, R::Usdb, R::Eth]) };
                self.step(by, Act::Unwrap { res, amount, child })
            }
            "flash_loan" => {
                let amount = self.r.pick(&[dec!(10), dec!(1000), dec!(1000000), d("250000000000.75"), dec!(0), dec!("0.5")]);
                let by = self.r.pick(&[LPS[0], EVIL, EVIL, TRADERS[1]]);
                let inner = match self.r.below(8) {
                    5 => {
                        let a = self.r.pick(&[dec!(10), amount]);
                        let repay = if self.r.p(700) { a } else { a * d("0.99") };
                        Some(Box::new(Act::Flash { amount: a, inner: None, repay_res: R::Base, repay, oath: self.r.p(900) }))
                    }
                    6 | 7 => {
                        let k = self.make_inner(w, h, s)?;
                        return Some(Step { act: Act::Flash { amount, inner: Some(Box::new(k.act.clone())), repay_res: R::Base, repay: amount, oath: true }, ..k });
                    }
                    0 => Some(Box::new(Act::AddLiq { res: R::Base, amount: amount.min(dec!(500)).max(dec!(1)) })),
                    1 => {
                        let full: Vec<(R, Dec)> = [R::Usda, R::Usdb, R::Eth].into_iter().filter_map(|r| s.wrap.get(&r.addr(w)).filter(|x| x.0.is_positive()).map(|x| (r, x.0))).collect();
                        let (child, have) = if full.is_empty() { (R::Usda, dec!(500)) } else { self.r.pick(&full) };
                        Some(Box::new(Act::Unwrap { res: R::Base, amount: amount.min(dec!(500)).min(have), child }))
                    }
                    2 => Some(Box::new(Act::Wrap { res: R::Usdb, amount: dec!(20) })),
                    _ => None,
                };
                let repay = match self.r.below(5) {
                    0 => amount - d("0.000000000000000001"),
                    1 => amount + self.surplus(),
                    2 => amount * d("0.5"),
                    _ => amount,
                };
                let repay = if repay.is_negative() { dec!(0) } else { repay };
                let repay_res = if self.r.p(850) { R::Base } else { R::Junk };
                let oath = self.r.p(850);
                self.step(by, Act::Flash { amount, inner, repay_res, repay, oath })
            }
            "add_input" => {
                let res = self.r.pick(&[R::Usda, R::Usdb, R::Eth, R::Usda]);
                let by = self.admin_or_not();
                self.step(by, Act::WrapAdd { res })
            }
            "update_wrappable" => {
                let res = self.r.pick(&[R::Usda, R::Usdb, R::Usdb, R::Btc]);
                let on = self.r.p(600);
                let by = self.admin_or_not();
                self.step(by, Act::WrapSet { res, on })
            }
            "burn" => {
                let res = self.r.pick(&[R::Base, R::Reward, R::Protocol, R::Lp]);
                let by = self.r.int(1, 9) as usize;
                self.step(by, Act::Burn { res, amount: dec!(1) })
            }
            "intrude" => {
                let what = self.r.below(N_INTRUDE as u64) as u8;
                let acct = self.acct(s).unwrap_or(0);
                let slot = self.slot(h).unwrap_or(0);
                let by = if self.r.p(600) { EVIL } else { self.r.int(1, N_SENDERS as i64 - 1) as usize };
                self.fault("intrusion");
                if [0, 1, 2, 3, 32, 47, 50, 53, 59, 60, 63].contains(&what) && s.accts.contains_key(&acct) && self.r.p(400) {
                    // By the account's own owner.
                    let level = self.r.int(1, 3) as usize;
                    return Some(self.auth(w, h, s, acct, level, Act::Intrude { what, acct, slot }));
                }
                self.step(by, Act::Intrude { what, acct, slot })
            }
            "forge" => {
                let what = self.r.below(N_FORGE as u64) as u8;
                let acct = self.acct(s).unwrap_or(0);
                let slot = self.r.below(2) as u16;
                self.fault("forgery");
                if (18..=20).contains(&what) && s.accts.contains_key(&acct) {
                    return Some(self.auth(w, h, s, acct, 3, Act::Forge { what, acct, slot }));
                }
                let by = if self.r.p(600) { EVIL } else { self.r.int(1, N_SENDERS as i64 - 1) as usize };
                self.step(by, Act::Forge { what, acct, slot })
            }
            "free_tokens" => {
                let by = self.r.int(0, N_SENDERS as i64 - 1) as usize;
                self.step(by, Act::FauFree)
            }
            "update_mint_amount" | "admin_mint_token" => {
                let res = if self.r.p(930) { self.r.pick(&FAUCET_TOKENS) } else { self.r.pick(&[R::Junk, R::Base, R::Xrd, R::Lp, R::Usda]) };
                let amount = match self.r.below(12) {
                    0 => dec!(0),
                    1 => dec!(-1),
                    2 => d("0.000000000000000001"),
                    3 => d("0.00000001"),
                    4 => d("0.000001"),
                    5 => d("0.0000001"),
                    6 => self.r.pick(&[d("1000000"), d("2000000.5"), d("75000000"), d("1234567890.123456"), d("1000000000000"), d("100000000000000000000")]),
                    _ => self.r.pick(&[dec!(1), d("0.001"), d("2.5"), d("99999"), d("0.2"), d("123.456789")]),
                };
                let by = self.admin_or_not();
                let badge = by != ADMIN || self.r.p(850);
                self.step(by, if kind == "admin_mint_token" { Act::FauMint { res, amount, badge } } else { Act::FauSet { res, amount, badge } })
            }
            "set_variables" => {
                let n = self.r.pick(&[0, 1, 1, 2, 3, 6]);
                let vars = (0..n).map(|_| (self.var(), self.r.pick(&["", "1", "https://surge.trade", "component_sim1", "\u{1F30A} surge", " ", "0"]).to_string())).collect();
                let by = self.admin_or_not();
                self.step(by, Act::EnvSet { vars })
            }
            "remove_variables" => {
                let n = self.r.pick(&[0, 1, 1, 2, 3]);
                let keys = (0..n).map(|_| self.var()).collect();
                let by = self.admin_or_not();
                self.step(by, Act::EnvDel { keys })
            }
            "get_variables" => {
                let n = self.r.pick(&[0, 1, 2, 4, 8]);
                let keys = (0..n).map(|_| self.var()).collect();
                let by = self.r.int(0, N_SENDERS as i64 - 1) as usize;
                self.step(by, Act::EnvGet { keys })
            }
            "batch" => {
                let n = self.r.int(2, 3);
                let mut first: Option<Step> = None;
                let mut acts = vec![];
                for _ in 0..n * 4 {
                    if acts.len() as i64 >= n {
                        break;
                    }
                    let k = self.make_inner(w, h, s);
                    let k = match k {
                        Some(k) => k,
                        None => continue,
                    };
                    match &first {
                        None => {
                            acts.push(k.act.clone());
                            first = Some(k);
                        }
                        Some(f) => {
                            // Everything is signed by one sender; only keep what that sender may do.
                            let open = matches!(k.act, Act::Process { .. } | Act::UpdatePairs { .. } | Act::PushOracle { .. } | Act::Adl { .. });
                            if open || k.by == f.by || self.r.p(150) {
                                acts.push(k.act);
                            }
                        }
                    }
                }
                let mut f = first?;
                if self.r.p(150) {
                    acts.push(acts[0].clone());
                }
                f.act = Act::Batch(acts);
                f
            }
            _ => return None,
        };
        Some(st)
    }

    /// An operation to put inside another one.
    fn make_inner(&mut self, w: &World, h: &Handles, s: &St) -> Option<Step> {
        let kind = self.r.pick(&["process_request", "update_pairs", "push_oracle", "add_collateral", "margin_order_request", "cancel_requests", "add_liquidity", "remove_liquidity", "liquidate", "auto_deleverage", "swap_debt", "remove_collateral_request", "collect_referral_rewards", "wrap", "unwrap", "free_tokens", "set_variables", "remove_variables", "get_variables", "flash_loan"]);
        let saved = self.plans.clone();
        let k = self.make(kind, w, h, s);
        self.plans = saved;
        k
    }
    fn bend_x(&mut self, c: &mut XCfg) {
        let r = &mut self.r;
        match r.below(16) {
            0 => c.positions_max = r.pick(&[0, 1]),
            1 => c.skew_ratio_cap = r.pick(&[d("-0.1"), d("0"), d("0.1239"), d("0.00001234")]),
            2 => c.adl_offset = r.pick(&[d("-0.1"), d("0"), d("0.1239")]),
            3 => c.adl_a = r.pick(&[d("-0.1"), d("0"), d("0.1239")]),
            4 => c.adl_b = r.pick(&[d("-0.1"), d("0"), d("0.1239")]),
            5 => c.fee_liquidity_add = r.pick(&[d("-0.001"), d("0"), d("0.0056789"), d("0.05")]),
            6 => c.fee_liquidity_remove = r.pick(&[d("-0.001"), d("0"), d("0.0056789")]),
            7 => c.fee_share_protocol = r.pick(&[d("-0.001"), d("0"), d("0.3"), d("0.301")]),
            8 => c.fee_share_treasury = r.pick(&[d("-0.001"), d("0"), d("0.15"), d("0.151")]),
            9 => c.fee_share_referral = r.pick(&[d("-0.001"), d("0"), d("1"), d("1.001"), d("0.2468")]),
            10 => c.fee_max = r.pick(&[d("-0.001"), d("0"), d("0.0043219")]),
            11 => c.protocol_burn_amount = r.pick(&[d("999"), d("1000"), d("999.999"), d("123456")]),
            12 => c.reward_keeper = r.pick(&[d("-1"), d("0"), d("1.2345"), d("7")]),
            13 => c.collaterals_max = r.pick(&[1, 2]),
            14 => c.active_requests_max = r.pick(&[1, 3, 6]),
            _ => c.positions_max = r.pick(&[1, 2]),
        }
    }
    fn bend_p(&mut self, c: &mut PCfg) {
        let r = &mut self.r;
        match r.below(18) {
            0 => c.price_age_max = r.pick(&[0, -1, 65535, 65536, 100000]),
            1 => c.oi_max = r.pick(&[d("-1"), d("0"), d("12.3456"), d("100")]),
            2 => c.trade_size_min = r.pick(&[d("-1"), d("0"), d("0.123456")]),
            3 => c.update_price_delta_ratio = r.pick(&[d("0"), d("-1"), d("0.0123456")]),
            4 => c.update_period_seconds = r.pick(&[0, -1, 65535, 65536, 86400]),
            5 => {
                c.margin_initial = r.pick(&[d("-0.1"), d("0"), d("1"), d("1"), d("1.1"), d("0.123456")]);
                if c.margin_initial.is_zero() || r.p(200) {
                    c.margin_maintenance = c.margin_initial;
                }
            }
            6 => c.margin_maintenance = r.pick(&[d("-0.1"), d("0"), d("1.1"), d("0.0123456")]),
            7 => {
                let (m, i) = r.pick(&[("0.2", "0.1"), ("0.1", "0.1"), ("1", "1"), ("0.01001", "0.01"), ("1.1", "1.1")]);
                c.margin_maintenance = d(m);
                c.margin_initial = d(i);
            }
            8 => c.funding_1 = r.pick(&[d("-0.1"), d("0"), d("2"), d("2.1")]),
            9 => c.funding_2 = r.pick(&[d("-0.1"), d("0"), d("4"), d("4.1")]),
            10 => c.funding_2_delta = r.pick(&[d("-0.1"), d("0"), d("10000"), d("10001")]),
            11 => c.funding_2_decay = r.pick(&[d("-0.1"), d("0"), d("5000"), d("12.3456")]),
            12 => c.funding_pool_0 = r.pick(&[d("-0.1"), d("0"), d("1"), d("1.1")]),
            13 => c.funding_pool_1 = r.pick(&[d("-0.1"), d("0"), d("2"), d("2.1")]),
            14 => c.funding_share = r.pick(&[d("-0.1"), d("0"), d("0.1"), d("0.101")]),
            15 => c.fee_0 = r.pick(&[d("-0.1"), d("0"), d("0.015"), d("0.0151"), d("0.00123456")]),
            16 => c.fee_1 = r.pick(&[d("-0.1"), d("0"), d("0.000001"), d("0.0000011")]),
            _ => c.price_age_max = r.pick(&[5, 30, 900]),
        }
    }
    fn bend_c(&mut self, c: &mut CCfg) {
        let r = &mut self.r;
        match r.below(4) {
            0 => c.price_age_max = r.pick(&[0, -1, 65535, 65536, 70000]),
            1 => c.discount = r.pick(&[d("0.79"), d("0.8"), d("1"), d("1.01"), d("0.8765")]),
            2 => c.margin = r.pick(&[d("-0.01"), d("0"), d("0.1"), d("0.11"), d("0.0123456")]),
            _ => c.price_age_max = r.pick(&[5, 600]),
        }
    }
}
