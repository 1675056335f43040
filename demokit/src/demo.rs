//! Helpers for the demonstrations: submit transactions to the deployed system and read what came of them.
pub use crate::act::*;
pub use crate::ledger::*;
pub use crate::st::*;
pub use crate::world::*;
pub use radix_common::prelude::*;
pub use radix_engine_interface::prelude::*;

pub const ALICE: usize = 3;
pub const BOB: usize = 4;
pub const CAROL: usize = 5;
pub const DAVE: usize = 6;
pub const KEEPER: usize = 7;
pub const LP: usize = 1;

pub struct D {
    pub w: World,
    pub h: Handles,
    pub s: St,
    pub px: Vec<(String, Decimal)>,
    pub out: Option<Out>,
    pub fees: bool,
}

pub fn xcfg() -> XCfg {
    XCfg {
        positions_max: 30,
        collaterals_max: 5,
        active_requests_max: 100,
        skew_ratio_cap: dec!("0.15"),
        adl_offset: dec!("0.2"),
        adl_a: dec!("0.07"),
        adl_b: dec!("0.07"),
        fee_liquidity_add: dec!("0.001"),
        fee_liquidity_remove: dec!("0.001"),
        fee_share_protocol: dec!("0.22"),
        fee_share_treasury: dec!("0.08"),
        fee_share_referral: dec!(1),
        fee_max: dec!("0.01"),
        protocol_burn_amount: dec!(10000),
        reward_keeper: dec!(1),
    }
}
pub fn pcfg(pair: &str) -> PCfg {
    PCfg {
        pair_id: pair.to_string(),
        price_age_max: 60,
        oi_max: dec!(1000000000),
        trade_size_min: dec!(0),
        update_price_delta_ratio: dec!("0.005"),
        update_period_seconds: 3600,
        margin_initial: dec!("0.01"),
        margin_maintenance: dec!("0.005"),
        funding_1: dec!(1),
        funding_2: dec!(1),
        funding_2_delta: dec!(100),
        funding_2_decay: dec!(100),
        funding_pool_0: dec!("0.02"),
        funding_pool_1: dec!("0.25"),
        funding_share: dec!("0.02"),
        fee_0: dec!("0.0005"),
        fee_1: dec!("0.0000000005"),
    }
}
/// A market without fees or funding.
pub fn plain(pair: &str) -> PCfg {
    let z = dec!(0);
    PCfg { funding_1: z, funding_2: z, funding_2_delta: z, funding_2_decay: z, funding_pool_0: z, funding_pool_1: z, funding_share: z, fee_0: z, fee_1: z, ..pcfg(pair) }
}
pub fn ccfg(pair: &str, discount: &str, margin: &str) -> CCfg {
    CCfg { pair_id: pair.to_string(), price_age_max: 60, discount: Decimal::try_from(discount).unwrap(), margin: Decimal::try_from(margin).unwrap() }
}

impl D {
    pub fn new(w: &World) -> D {
        let w = w.clone();
        let mut h = Handles::new();
        h.wallet = read_wallets(&w);
        let s = read(&w, &mut h);
        let px = [("BTC/USD", dec!(50000)), ("ETH/USD", dec!(2500)), ("XRP/USD", dec!("0.5")), ("USDB/USD", dec!(1))].into_iter().map(|(a, b)| (a.to_string(), b)).collect();
        D { w, h, s, px, out: None, fees: false }
    }
    pub fn wait(&mut self, dt: i64) {
        self.w.now += dt;
        let now = self.w.now;
        self.w.l.set_time(now);
        self.s.now = now;
    }
    pub fn price(&mut self, pair: &str, p: Decimal) {
        self.px.iter_mut().find(|x| x.0 == pair).unwrap().1 = p;
    }
    /// The current prices, signed by the registered key.
    pub fn push(&self) -> Push {
        Push { prices: self.px.iter().map(|(k, v)| (k.clone(), *v, self.w.now)).collect(), key_id: 0, signer: 0, tamper: 0 }
    }
    pub fn step(&mut self, st: Step) -> Result<(), String> {
        self.wait(st.dt);
        let m = manifest(&self.w, &self.h, &st);
        let opts = TxOpts { abort_at: st.abort_at, costing: st.costing || self.fees || st.act.needs_costing(), cost_limit: st.cost_limit };
        let out = self.w.l.exec(m, &signers(&self.w, &st), &opts);
        let r = match &out.result {
            Ok(_) => {
                let mut comps = out.new_components.iter().copied().filter(|c| !c.as_node_id().is_global_virtual());
                let (mut rf, mut key) = (None, None);
                for (_, r, ch) in &out.vaults {
                    if let radix_engine::transaction::BalanceChange::NonFungible { added, .. } = ch {
                        if let Some(x) = added.iter().next() {
                            if *r == self.w.referral {
                                rf = Some(x.clone());
                            } else if *r == self.w.recovery {
                                key = Some(x.clone());
                            }
                        }
                    }
                }
                for a in st.act.flat() {
                    match a {
                        Act::NewAcct { slot, .. } => {
                            if let Some(c) = comps.next() {
                                self.h.accts.insert(*slot, c);
                            }
                        }
                        Act::MintRef { slot, to, .. } => {
                            if let Some(i) = &rf {
                                self.h.refs.insert(*slot, i.clone());
                                self.h.ref_holder.insert(*slot, *to);
                            }
                        }
                        Act::RecKey { slot, .. } => {
                            if let Some(i) = &key {
                                self.h.keys.insert(*slot, (i.clone(), st.by));
                            }
                        }
                        _ => {}
                    }
                }
                apply_wallets(&self.w, &mut self.h, &out);
                Ok(())
            }
            Err(e) => Err(format!("{:?}", e)),
        };
        self.s = read(&self.w, &mut self.h);
        self.out = Some(out);
        r
    }
    pub fn tx(&mut self, by: usize, act: Act) -> Result<(), String> {
        self.step(Step { dt: 0, by: by as u8, cosign: vec![], keys: vec![], act, abort_at: 0, costing: false, cost_limit: None })
    }
    /// Must be accepted.
    pub fn ok(&mut self, by: usize, act: Act) {
        let k = act.kind();
        if let Err(e) = self.tx(by, act) {
            panic!("{} was refused: {}", k, e)
        }
    }
    /// Must be refused.
    pub fn no(&mut self, by: usize, act: Act, why: &str) {
        let k = act.kind();
        if self.tx(by, act).is_ok() {
            panic!("{} was accepted: {}", k, why)
        }
    }
    pub fn config(&mut self, x: XCfg, ps: Vec<PCfg>, cs: Vec<(R, CCfg)>) {
        self.ok(ADMIN, Act::SetX { cfg: x });
        self.ok(ADMIN, Act::SetPairs { cfgs: ps });
        if !cs.is_empty() {
            self.ok(ADMIN, Act::SetColls { cfgs: cs });
        }
        self.fresh();
    }
    /// Publish the current prices.
    pub fn fresh(&mut self) {
        self.wait(1);
        let push = self.push();
        self.ok(KEEPER, Act::PushOracle { push, want: vec![] });
    }
    pub fn account(&mut self, by: usize, slot: u16, toks: Toks) {
        self.ok(by, Act::NewAcct { slot, rule: Rule::B(by as u8), toks, code: None, oath: None, reserve: false });
    }
    pub fn order(acct: u16, pair: &str, amount: Decimal) -> Act {
        Act::ReqOrder { acct, pair: pair.into(), amount, ro: false, pl: PriceLimit::None, sl: SlipLimit::None, activate: vec![], cancel: vec![], status: ACTIVE, delay: 0, expiry: 100000, oath: None }
    }
    /// The newest request of an account.
    pub fn last(&self, acct: u16) -> u64 {
        self.s.accts[&acct].reqs.len() as u64 - 1
    }
    pub fn process(&mut self, acct: u16, idx: u64) -> Result<(), String> {
        self.wait(1);
        let push = Some(self.push());
        self.tx(KEEPER, Act::Process { acct, idx, push })
    }
    /// Submit an order and have it processed.
    pub fn trade(&mut self, by: usize, acct: u16, pair: &str, amount: Decimal) -> Result<(), String> {
        self.tx(by, D::order(acct, pair, amount))?;
        let i = self.last(acct);
        self.process(acct, i)
    }
    pub fn must_trade(&mut self, by: usize, acct: u16, pair: &str, amount: Decimal) {
        if let Err(e) = self.trade(by, acct, pair, amount) {
            panic!("order of {} {} was refused: {}", amount, pair, e)
        }
    }
    pub fn wallet(&self, by: usize, r: R) -> Decimal {
        self.s.wallet.get(&(by as u8, r.addr(&self.w))).copied().unwrap_or_default()
    }
    /// Provide liquidity.
    pub fn lp(&mut self, amount: Decimal) {
        self.ok(LP, Act::AddLiq { res: R::Base, amount });
    }
    pub fn collateral(&mut self, by: usize, acct: u16, r: R, amount: Decimal) {
        self.ok(by, Act::AddColl { acct, toks: vec![(r, amount)], oath: None });
    }
    /// A keeper buys the account's collateral and closes its positions.
    pub fn liquidate(&mut self, acct: u16, pay: Decimal) -> Result<(), String> {
        self.wait(1);
        let push = Some(self.push());
        self.tx(KEEPER, Act::Liquidate { acct, pay_res: R::Base, pay, push })
    }
    pub fn update(&mut self, pair: &str) {
        self.wait(1);
        let push = Some(self.push());
        self.ok(KEEPER, Act::UpdatePairs { pairs: vec![pair.into()], push });
    }
    /// All virtual balances together.
    pub fn claims(&self) -> Decimal {
        let mut t = self.s.pool.vb + self.s.protocol + self.s.treasury + self.s.del.vb;
        for a in self.s.accts.values() {
            t = t + a.vb;
        }
        for (_, (_, d)) in &self.s.refs {
            t = t + d.balance;
        }
        t
    }
    pub fn pos(&self, acct: u16, pair: &str) -> Decimal {
        self.s.accts[&acct].pos.get(pair).map(|p| p.amount).unwrap_or_default()
    }
}
/// What must hold, or the demonstration fails.
pub fn need(c: bool, what: impl Into<String>) {
    if !c {
        panic!("{}", what.into())
    }
}
