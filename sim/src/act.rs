//! The operations the simulator can submit, and how each becomes a transaction manifest.
use crate::ledger::*;
use crate::st::*;
use crate::world::*;
use radix_common::crypto::*;
use radix_common::prelude::*;
use radix_engine_interface::prelude::*;
use radix_engine_interface::*;
use radix_transactions::builder::*;
use radix_transactions::prelude::*;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, ScryptoSbor)]
pub enum R {
    Base,
    Usda,
    Usdb,
    Btc,
    Eth,
    Junk,
    Lp,
    Protocol,
    Xrd,
    Reward,
    Owner,
    Authority,
    /// The test faucet's tokens.
    Fbtc,
    Feth,
    Fusdc,
    Fusdt,
}
pub const FAUCET_TOKENS: [R; 4] = [R::Fbtc, R::Feth, R::Fusdc, R::Fusdt];
impl R {
    pub fn addr(self, w: &World) -> Res {
        match self {
            R::Base => w.base,
            R::Usda => w.usda,
            R::Usdb => w.usdb,
            R::Btc => w.btc,
            R::Eth => w.eth,
            R::Junk => w.junk,
            R::Lp => w.lp,
            R::Protocol => w.protocol,
            R::Xrd => XRD,
            R::Reward => w.reward,
            R::Owner => w.owner,
            R::Authority => w.authority,
            R::Fbtc => w.ftok[0],
            R::Feth => w.ftok[1],
            R::Fusdc => w.ftok[2],
            R::Fusdt => w.ftok[3],
        }
    }
}
pub fn divisibility(w: &World, r: Res) -> u8 {
    if r == w.usda || r == w.ftok[2] || r == w.ftok[3] { 6 } else if r == w.btc || r == w.ftok[0] { 8 } else if r == w.owner { 0 } else { 18 }
}

#[derive(Clone, Debug, PartialEq, ScryptoSbor)]
#[sbor(categorize_types = "")]
pub enum Rule {
    Allow,
    Deny,
    B(u8),
    AnyB(Vec<u8>),
    AllB(Vec<u8>),
    Two(Vec<u8>),
    Key(u16),
    Any(Vec<Rule>),
    All(Vec<Rule>),
}
impl Rule {
    pub fn node(&self, w: &World, h: &Handles) -> AccessRuleNode {
        let b = |i: &u8| ResourceOrNonFungible::NonFungible(w.actors[*i as usize].badge.clone());
        match self {
            Rule::Allow | Rule::Deny => panic!("not a node"),
            Rule::B(i) => AccessRuleNode::ProofRule(ProofRule::Require(b(i))),
            Rule::AnyB(v) => AccessRuleNode::ProofRule(ProofRule::AnyOf(v.iter().map(b).collect())),
            Rule::AllB(v) => AccessRuleNode::ProofRule(ProofRule::AllOf(v.iter().map(b).collect())),
            Rule::Two(v) => AccessRuleNode::ProofRule(ProofRule::CountOf(2, v.iter().map(b).collect())),
            Rule::Key(k) => {
                let id = h.keys.get(k).map(|k| k.0.clone()).unwrap_or(NonFungibleLocalId::ruid([0; 32]));
                AccessRuleNode::ProofRule(ProofRule::Require(ResourceOrNonFungible::NonFungible(NonFungibleGlobalId::new(w.recovery, id))))
            }
            Rule::Any(v) => AccessRuleNode::AnyOf(v.iter().map(|r| r.node(w, h)).collect()),
            Rule::All(v) => AccessRuleNode::AllOf(v.iter().map(|r| r.node(w, h)).collect()),
        }
    }
    pub fn rule(&self, w: &World, h: &Handles) -> AccessRule {
        match self {
            Rule::Allow => AccessRule::AllowAll,
            Rule::Deny => AccessRule::DenyAll,
            r => AccessRule::Protected(r.node(w, h)),
        }
    }
}

#[derive(Clone, Debug, PartialEq, ScryptoSbor)]
pub struct Push {
    pub prices: Vec<(String, Dec, i64)>,
    pub key_id: u64,
    /// Which private key signs.
    pub signer: u64,
    /// 0 honest; 1 data changed after signing; 2 data truncated; 3 signature of another message; 4 zero signature; 5 an honest message with a trailing byte.
    pub tamper: u8,
}
#[derive(ScryptoSbor)]
struct PriceMsg {
    pair: String,
    quote: Decimal,
    timestamp: Instant,
}
impl Push {
    pub fn wire(&self) -> (Vec<u8>, Bls12381G2Signature, u64) {
        let enc = |p: &Vec<(String, Dec, i64)>| {
            scrypto_encode(&p.iter().map(|(a, q, t)| PriceMsg { pair: a.clone(), quote: *q, timestamp: Instant::new(*t) }).collect::<Vec<_>>()).unwrap()
        };
        let mut data = enc(&self.prices);
        let signed = match self.tamper {
            3 => vec![1, 2, 3],
            _ => data.clone(),
        };
        let h = keccak256_hash(&signed);
        let sig = match self.tamper {
            4 => Bls12381G2Signature([0; 96]),
            _ => oracle_key(self.signer).sign_v1(&h.0),
        };
        match self.tamper {
            1 => {
                let mut p = self.prices.clone();
                if let Some(x) = p.first_mut() {
                    x.1 = x.1 + Dec::ONE;
                }
                data = enc(&p);
                if self.prices.is_empty() {
                    data = enc(&vec![("BTC/USD".to_string(), Dec::ONE, i64::MAX / 4)]);
                }
            }
            2 => {
                data.pop();
            }
            5 => data.push(0),
            _ => {}
        }
        (data, sig, self.key_id)
    }
    pub fn honest(&self) -> bool {
        self.tamper == 0
    }
}

#[derive(Clone, Copy, Debug, PartialEq, ScryptoSbor)]
pub enum Ref {
    Abs(u64),
    Rel(i64),
}
#[derive(ManifestSbor)]
enum RequestIndexRef {
    Index(u64),
    RelativeIndex(i64),
}
impl From<Ref> for RequestIndexRef {
    fn from(r: Ref) -> Self {
        match r {
            Ref::Abs(i) => RequestIndexRef::Index(i),
            Ref::Rel(i) => RequestIndexRef::RelativeIndex(i),
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, ScryptoSbor)]
pub enum Tgt {
    Actor(u8),
    Pool,
    Acct(u16),
    /// A component that imitates a ledger account.
    Rogue,
}

pub type Toks = Vec<(R, Dec)>;

#[derive(Clone, Debug, PartialEq, ScryptoSbor)]
#[sbor(categorize_types = "")]
pub enum Act {
    Idle,
    Batch(Vec<Act>),
    PushOracle { push: Push, want: Vec<String> },
    OracleGet { want: Vec<String> },
    OracleAdd { id: u64, key: u64 },
    OracleDel { id: u64 },
    OracleDelPrice { pair: String },
    AddLiq { res: R, amount: Dec },
    RemLiq { res: R, amount: Dec },
    NewAcct { slot: u16, rule: Rule, toks: Toks, code: Option<String>, oath: Option<Dec>, reserve: bool },
    RecKey { slot: u16, acct: u16, oath: Option<Dec> },
    AddRule { acct: u16, level: u8, rule: Rule, oath: Option<Dec> },
    SetRule { acct: u16, level: u8, rule: Rule, oath: Option<Dec> },
    AddColl { acct: u16, toks: Toks, oath: Option<Dec> },
    ReqRemove { acct: u16, target: Tgt, claims: Toks, expiry: u64, oath: Option<Dec> },
    ReqOrder { acct: u16, pair: String, amount: Dec, ro: bool, pl: PriceLimit, sl: SlipLimit, activate: Vec<Ref>, cancel: Vec<Ref>, status: u8, delay: u64, expiry: u64, oath: Option<Dec> },
    ReqTpSl { acct: u16, pair: String, amount: Dec, ro: bool, pl: PriceLimit, sl: SlipLimit, tp: Option<Dec>, stop: Option<Dec>, delay: u64, expiry: u64, oath: Option<Dec> },
    Cancel { acct: u16, idx: Vec<u64>, oath: Option<Dec> },
    Process { acct: u16, idx: u64, push: Option<Push> },
    SwapDebt { acct: u16, res: R, pay_res: R, pay: Dec, push: Option<Push> },
    Liquidate { acct: u16, pay_res: R, pay: Dec, push: Option<Push> },
    Adl { acct: u16, pair: String, push: Option<Push> },
    UpdatePairs { pairs: Vec<String>, push: Option<Push> },
    SwapProtocol { res: R, amount: Dec },
    CollectTreasury,
    CollectDelegator,
    MintRef { slot: u16, to: u8, fee_ref: Dec, rebate: Dec, max: u64, alloc: Option<(Toks, Toks, u64)> },
    UpdRef { slot: u16, fee_ref: Option<Dec>, rebate: Option<Dec>, max: Option<u64> },
    AddAlloc { slot: u16, toks: Toks, claims: Toks, count: u64 },
    Codes { slot: u16, toks: Toks, codes: Vec<(String, Toks, u64)> },
    CodesAlloc { slot: u16, index: u64, codes: Vec<String> },
    CollectRef { slot: u16 },
    SetX { cfg: XCfg },
    SetPairs { cfgs: Vec<PCfg> },
    SetColls { cfgs: Vec<(R, CCfg)> },
    DelColl { res: R },
    WithdrawAuth,
    DepositAuth { res: R },
    Signal,
    Lock { amount: Dec, burn: bool },
    DelMax { v: Dec },
    DelMult { v: Dec },
    DelCont { v: bool },
    DelDeposit { amount: Dec },
    DelWithdraw { amount: Dec },
    Wrap { res: R, amount: Dec },
    Unwrap { res: R, amount: Dec, child: R },
    Flash { amount: Dec, inner: Option<Box<Act>>, repay_res: R, repay: Dec, oath: bool },
    WrapAdd { res: R },
    WrapSet { res: R, on: bool },
    Burn { res: R, amount: Dec },
    Intrude { what: u8, acct: u16, slot: u16 },
    /// Present something that imitates what the exchange expects.
    Forge { what: u8, acct: u16, slot: u16 },
    FauFree,
    /// `badge`: the sender (if it holds it) shows the faucet's own badge.
    FauSet { res: R, amount: Dec, badge: bool },
    FauMint { res: R, amount: Dec, badge: bool },
    EnvSet { vars: Vec<(String, String)> },
    EnvDel { keys: Vec<String> },
    EnvGet { keys: Vec<String> },
    /// Ask every public read query (executed on a copy of the ledger).
    Look { acct: u16, slot: u16, n: u64, at: Option<u64>, names: Vec<String> },
}
pub const N_INTRUDE: u8 = 64;
pub const N_FORGE: u8 = 30;

impl Act {
    pub fn kind(&self) -> &'static str {
        match self {
            Act::Idle => "idle",
            Act::Batch(_) => "batch",
            Act::PushOracle { .. } => "push_oracle",
            Act::OracleGet { .. } => "oracle_get",
            Act::OracleAdd { .. } => "oracle_add_key",
            Act::OracleDel { .. } => "oracle_remove_key",
            Act::OracleDelPrice { .. } => "oracle_remove_price",
            Act::AddLiq { .. } => "add_liquidity",
            Act::RemLiq { .. } => "remove_liquidity",
            Act::NewAcct { .. } => "create_account",
            Act::RecKey { .. } => "create_recovery_key",
            Act::AddRule { .. } => "add_auth_rule",
            Act::SetRule { .. } => "set_level_auth",
            Act::AddColl { .. } => "add_collateral",
            Act::ReqRemove { .. } => "remove_collateral_request",
            Act::ReqOrder { .. } => "margin_order_request",
            Act::ReqTpSl { .. } => "margin_order_tp_sl_request",
            Act::Cancel { .. } => "cancel_requests",
            Act::Process { .. } => "process_request",
            Act::SwapDebt { .. } => "swap_debt",
            Act::Liquidate { .. } => "liquidate",
            Act::Adl { .. } => "auto_deleverage",
            Act::UpdatePairs { .. } => "update_pairs",
            Act::SwapProtocol { .. } => "swap_protocol_fee",
            Act::CollectTreasury => "collect_treasury",
            Act::CollectDelegator => "collect_fee_delegator",
            Act::MintRef { .. } => "mint_referral",
            Act::UpdRef { .. } => "update_referral",
            Act::AddAlloc { .. } => "add_referral_allocation",
            Act::Codes { .. } => "create_referral_codes",
            Act::CodesAlloc { .. } => "create_referral_codes_from_allocation",
            Act::CollectRef { .. } => "collect_referral_rewards",
            Act::SetX { .. } => "update_exchange_config",
            Act::SetPairs { .. } => "update_pair_configs",
            Act::SetColls { .. } => "update_collateral_configs",
            Act::DelColl { .. } => "remove_collateral_config",
            Act::WithdrawAuth => "withdraw_authority",
            Act::DepositAuth { .. } => "deposit_authority",
            Act::Signal => "signal_upgrade",
            Act::Lock { .. } => "lock_fee",
            Act::DelMax { .. } => "update_max_lock",
            Act::DelMult { .. } => "update_price_multiplier",
            Act::DelCont { .. } => "update_is_contingent",
            Act::DelDeposit { .. } => "delegator_deposit",
            Act::DelWithdraw { .. } => "delegator_withdraw",
            Act::Wrap { .. } => "wrap",
            Act::Unwrap { .. } => "unwrap",
            Act::Flash { .. } => "flash_loan",
            Act::WrapAdd { .. } => "add_input",
            Act::WrapSet { .. } => "update_wrappable",
            Act::Burn { .. } => "burn",
            Act::Intrude { .. } => "intrude",
            Act::Forge { .. } => "forge",
            Act::FauFree => "free_tokens",
            Act::FauSet { .. } => "update_mint_amount",
            Act::FauMint { .. } => "admin_mint_token",
            Act::EnvSet { .. } => "set_variables",
            Act::EnvDel { .. } => "remove_variables",
            Act::EnvGet { .. } => "get_variables",
            Act::Look { .. } => "look",
        }
    }
    pub fn oath(&self) -> Option<Dec> {
        match self {
            Act::NewAcct { oath, .. }
            | Act::RecKey { oath, .. }
            | Act::AddRule { oath, .. }
            | Act::SetRule { oath, .. }
            | Act::AddColl { oath, .. }
            | Act::ReqRemove { oath, .. }
            | Act::ReqOrder { oath, .. }
            | Act::ReqTpSl { oath, .. }
            | Act::Cancel { oath, .. } => *oath,
            _ => None,
        }
    }
    pub fn needs_costing(&self) -> bool {
        match self {
            Act::Batch(v) => v.iter().any(|a| a.needs_costing()),
            Act::Flash { inner: Some(i), .. } => i.needs_costing(),
            Act::Lock { .. } => true,
            Act::Forge { what: 15 | 16, .. } => true,
            a => a.oath().is_some(),
        }
    }
    /// The accounts this operation is about.
    pub fn accounts(&self) -> std::collections::BTreeSet<u16> {
        self.flat()
            .into_iter()
            .filter_map(|a| match a {
                Act::NewAcct { slot, .. } => Some(*slot),
                Act::RecKey { acct, .. }
                | Act::AddRule { acct, .. }
                | Act::SetRule { acct, .. }
                | Act::AddColl { acct, .. }
                | Act::ReqRemove { acct, .. }
                | Act::ReqOrder { acct, .. }
                | Act::ReqTpSl { acct, .. }
                | Act::Cancel { acct, .. }
                | Act::Process { acct, .. }
                | Act::SwapDebt { acct, .. }
                | Act::Liquidate { acct, .. }
                | Act::Adl { acct, .. } => Some(*acct),
                _ => None,
            })
            .collect()
    }
    /// Every act nested in this one, itself included.
    pub fn flat(&self) -> Vec<&Act> {
        match self {
            Act::Batch(v) => v.iter().flat_map(|a| a.flat()).collect(),
            Act::Flash { inner: Some(i), .. } => std::iter::once(self).chain(i.flat()).collect(),
            a => vec![a],
        }
    }
}

/// One simulated transaction: the passing of time, the operation, who sends it, what goes wrong.
#[derive(Clone, Debug, PartialEq, ScryptoSbor)]
pub struct Step {
    pub dt: i64,
    pub by: u8,
    pub cosign: Vec<u8>,
    /// Recovery keys whose proof the sender shows.
    pub keys: Vec<u16>,
    pub act: Act,
    /// Abort the transaction at this host call (0 = never).
    pub abort_at: u64,
    /// Charge real fees; with a limit, run out of them.
    pub costing: bool,
    pub cost_limit: Option<u32>,
}

// ---------------------------------------------------------------- manifests
pub struct Bld<'a> {
    pub w: &'a World,
    pub h: &'a Handles,
    mb: Option<ManifestBuilder>,
    n: usize,
    by: usize,
    admin: bool,
}

impl<'a> Bld<'a> {
    fn with(&mut self, f: impl FnOnce(ManifestBuilder) -> ManifestBuilder) {
        let m = self.mb.take().unwrap();
        self.mb = Some(f(m));
    }
    fn me(&self) -> ComponentAddress {
        self.w.actors[self.by].addr
    }
    /// Withdraw tokens of the sender into a fresh bucket.
    fn tok(&mut self, r: R, a: Dec) -> ManifestBucket {
        let res = r.addr(self.w);
        let me = self.me();
        self.with(|m| m.withdraw_from_account(me, res, a));
        self.take(res, a)
    }
    fn take(&mut self, res: Res, a: Dec) -> ManifestBucket {
        self.n += 1;
        let name = format!("b{}", self.n);
        self.with(|m| m.take_from_worktop(res, a, name.clone()));
        self.mb.as_ref().unwrap().bucket(name)
    }
    fn take_all(&mut self, res: Res) -> ManifestBucket {
        self.n += 1;
        let name = format!("b{}", self.n);
        self.with(|m| m.take_all_from_worktop(res, name.clone()));
        self.mb.as_ref().unwrap().bucket(name)
    }
    fn toks(&mut self, t: &Toks) -> Vec<ManifestBucket> {
        t.iter().map(|(r, a)| self.tok(*r, *a)).collect()
    }
    fn oath(&mut self, o: &Option<Dec>) -> Option<ManifestBucket> {
        let a = (*o)?;
        let fd = self.w.feedel;
        self.with(|m| m.call_method(fd, "lock_fee", manifest_args!(a)));
        Some(self.take_all(self.w.oath))
    }
    fn call(&mut self, c: ComponentAddress, name: &str, args: impl ResolvableArguments) {
        self.with(|m| m.call_method(c, name, args));
    }
    fn ex(&mut self, name: &str, args: impl ResolvableArguments) {
        self.call(self.w.exchange, name, args)
    }
    fn deposit_all(&mut self) {
        let me = self.me();
        self.with(|m| m.deposit_batch(me));
    }
    fn acct(&self, s: u16) -> ComponentAddress {
        self.h.accts[&s]
    }
    fn claims(&self, c: &Toks) -> Vec<(Res, Dec)> {
        c.iter().map(|(r, a)| (r.addr(self.w), *a)).collect()
    }
    fn push(p: &Option<Push>) -> Option<(Vec<u8>, Bls12381G2Signature, u64)> {
        p.as_ref().map(|p| p.wire())
    }
    fn proof(&mut self, slot: u16) -> ManifestProof {
        let id = self.h.refs[&slot].clone();
        let me = self.me();
        let r = self.w.referral;
        self.n += 1;
        let name = format!("p{}", self.n);
        self.with(|m| {
            m.call_method(me, radix_engine_interface::blueprints::account::ACCOUNT_CREATE_PROOF_OF_NON_FUNGIBLES_IDENT, manifest_args!(r, indexset!(id))).pop_from_auth_zone(name.clone())
        });
        self.mb.as_ref().unwrap().proof(name)
    }

    fn act(&mut self, a: &Act) {
        let w = self.w;
        match a {
            Act::Idle | Act::Look { .. } => {}
            Act::Batch(v) => {
                for x in v {
                    self.act(x)
                }
                return;
            }
            Act::PushOracle { push, want } => {
                let (d, s, k) = push.wire();
                self.call(w.oracle, "push_and_get_prices", manifest_args!(want.clone(), d, s, k))
            }
            Act::OracleGet { want } => self.call(w.oracle, "get_prices", manifest_args!(want.clone())),
            Act::OracleAdd { id, key } => self.call(w.oracle, "add_key", manifest_args!(*id, oracle_key(*key).public_key())),
            Act::OracleDel { id } => self.call(w.oracle, "remove_key", manifest_args!(*id)),
            Act::OracleDelPrice { pair } => self.call(w.oracle, "remove_price", manifest_args!(pair.clone())),
            Act::AddLiq { res, amount } => {
                let b = self.tok(*res, *amount);
                self.ex("add_liquidity", manifest_args!(b))
            }
            Act::RemLiq { res, amount } => {
                let b = self.tok(*res, *amount);
                self.ex("remove_liquidity", manifest_args!(b))
            }
            Act::NewAcct { rule, toks, code, oath, reserve, .. } => {
                let o = self.oath(oath);
                let t = self.toks(toks);
                let r = rule.rule(w, self.h);
                if *reserve {
                    self.n += 1;
                    let (rn, an) = (format!("r{}", self.n), format!("a{}", self.n));
                    let p = w.pkg["MarginAccount"];
                    self.with(|m| m.allocate_global_address(p, "MarginAccount", rn.clone(), an));
                    let res = self.mb.as_ref().unwrap().address_reservation(rn);
                    self.ex("create_account", manifest_args!(o, r, t, code.clone(), Some(res)))
                } else {
                    self.ex("create_account", manifest_args!(o, r, t, code.clone(), None::<ManifestAddressReservation>))
                }
            }
            Act::RecKey { acct, oath, .. } => {
                let o = self.oath(oath);
                let a = self.acct(*acct);
                self.ex("create_recovery_key", manifest_args!(o, a))
            }
            Act::AddRule { acct, level, rule, oath } => {
                let o = self.oath(oath);
                let a = self.acct(*acct);
                let r = rule.node(w, self.h);
                self.ex("add_auth_rule", manifest_args!(o, a, *level, r))
            }
            Act::SetRule { acct, level, rule, oath } => {
                let o = self.oath(oath);
                let a = self.acct(*acct);
                let r = rule.rule(w, self.h);
                self.ex(&format!("set_level_{}_auth", level), manifest_args!(o, a, r))
            }
            Act::AddColl { acct, toks, oath } => {
                let o = self.oath(oath);
                let t = self.toks(toks);
                let a = self.acct(*acct);
                self.ex("add_collateral", manifest_args!(o, a, t))
            }
            Act::ReqRemove { acct, target, claims, expiry, oath } => {
                let o = self.oath(oath);
                let a = self.acct(*acct);
                let t = tgt(w, self.h, *target);
                let c = self.claims(claims);
                self.ex("remove_collateral_request", manifest_args!(o, *expiry, a, t, c))
            }
            Act::ReqOrder { acct, pair, amount, ro, pl, sl, activate, cancel, status, delay, expiry, oath } => {
                let o = self.oath(oath);
                let a = self.acct(*acct);
                let f = |v: &Vec<Ref>| v.iter().map(|r| RequestIndexRef::from(*r)).collect::<Vec<_>>();
                self.ex("margin_order_request", manifest_args!(o, *delay, *expiry, a, pair.clone(), *amount, *ro, *pl, *sl, f(activate), f(cancel), *status))
            }
            Act::ReqTpSl { acct, pair, amount, ro, pl, sl, tp, stop, delay, expiry, oath } => {
                let o = self.oath(oath);
                let a = self.acct(*acct);
                self.ex("margin_order_tp_sl_request", manifest_args!(o, *delay, *expiry, a, pair.clone(), *amount, *ro, *pl, *sl, *tp, *stop))
            }
            Act::Cancel { acct, idx, oath } => {
                let o = self.oath(oath);
                let a = self.acct(*acct);
                self.ex("cancel_requests", manifest_args!(o, a, idx.clone()))
            }
            Act::Process { acct, idx, push } => {
                let a = self.acct(*acct);
                self.ex("process_request", manifest_args!(a, *idx, Self::push(push)))
            }
            Act::SwapDebt { acct, res, pay_res, pay, push } => {
                let a = self.acct(*acct);
                let b = self.tok(*pay_res, *pay);
                self.ex("swap_debt", manifest_args!(a, res.addr(w), b, Self::push(push)))
            }
            Act::Liquidate { acct, pay_res, pay, push } => {
                let a = self.acct(*acct);
                let b = self.tok(*pay_res, *pay);
                self.ex("liquidate", manifest_args!(a, b, Self::push(push)))
            }
            Act::Adl { acct, pair, push } => {
                let a = self.acct(*acct);
                self.ex("auto_deleverage", manifest_args!(a, pair.clone(), Self::push(push)))
            }
            Act::UpdatePairs { pairs, push } => self.ex("update_pairs", manifest_args!(pairs.clone(), Self::push(push))),
            Act::SwapProtocol { res, amount } => {
                let b = self.tok(*res, *amount);
                self.ex("swap_protocol_fee", manifest_args!(b))
            }
            Act::CollectTreasury => self.ex("collect_treasury", manifest_args!()),
            Act::CollectDelegator => self.ex("collect_fee_delegator", manifest_args!()),
            Act::MintRef { to, fee_ref, rebate, max, alloc, .. } => {
                let (n, d, u) = ("n".to_string(), "d".to_string(), UncheckedUrl::of("https://surge.trade"));
                match alloc {
                    None => self.ex("mint_referral", manifest_args!(n, d, u, *fee_ref, *rebate, *max)),
                    Some((t, c, k)) => {
                        let t = self.toks(t);
                        let c = self.claims(c);
                        self.ex("mint_referral_with_allocation", manifest_args!(n, d, u, *fee_ref, *rebate, *max, t, c, *k))
                    }
                }
                let b = self.take_all(w.referral);
                let to = w.actors[*to as usize].addr;
                self.with(|m| m.try_deposit_or_abort(to, None, b));
            }
            Act::UpdRef { slot, fee_ref, rebate, max } => {
                let id = self.h.refs[slot].clone();
                self.ex("update_referral", manifest_args!(id, *fee_ref, *rebate, *max))
            }
            Act::AddAlloc { slot, toks, claims, count } => {
                let id = self.h.refs[slot].clone();
                let t = self.toks(toks);
                let c = self.claims(claims);
                self.ex("add_referral_allocation", manifest_args!(id, t, c, *count))
            }
            Act::Codes { slot, toks, codes } => {
                let p = self.proof(*slot);
                let t = self.toks(toks);
                let m: std::collections::BTreeMap<Hash, (Vec<(Res, Dec)>, u64)> = codes.iter().map(|(c, cl, n)| (keccak256_hash(c.as_bytes()), (self.claims(cl), *n))).collect();
                self.ex("create_referral_codes", manifest_args!(p, t, m))
            }
            Act::CodesAlloc { slot, index, codes } => {
                let p = self.proof(*slot);
                let s: std::collections::BTreeSet<Hash> = codes.iter().map(|c| keccak256_hash(c.as_bytes())).collect();
                self.ex("create_referral_codes_from_allocation", manifest_args!(p, *index, s))
            }
            Act::CollectRef { slot } => {
                let p = self.proof(*slot);
                self.ex("collect_referral_rewards", manifest_args!(p))
            }
            Act::SetX { cfg } => self.ex("update_exchange_config", manifest_args!(cfg.clone())),
            Act::SetPairs { cfgs } => self.ex("update_pair_configs", manifest_args!(cfgs.clone())),
            Act::SetColls { cfgs } => {
                let v: Vec<(Res, CCfg)> = cfgs.iter().map(|(r, c)| (r.addr(w), c.clone())).collect();
                self.ex("update_collateral_configs", manifest_args!(v))
            }
            Act::DelColl { res } => self.ex("remove_collateral_config", manifest_args!(res.addr(w))),
            Act::WithdrawAuth => self.ex("withdraw_authority", manifest_args!()),
            Act::DepositAuth { res } => {
                let b = self.tok(*res, Dec::ONE);
                self.ex("deposit_authority", manifest_args!(b))
            }
            Act::Signal => self.ex("signal_upgrade", manifest_args!(w.oracle)),
            Act::Lock { amount, burn } => {
                self.call(w.feedel, "lock_fee", manifest_args!(*amount));
                if *burn {
                    let b = self.take_all(w.oath);
                    self.with(|m| m.burn_resource(b));
                }
            }
            Act::DelMax { v } => self.call(w.feedel, "update_max_lock", manifest_args!(*v)),
            Act::DelMult { v } => self.call(w.feedel, "update_price_multiplier", manifest_args!(*v)),
            Act::DelCont { v } => self.call(w.feedel, "update_is_contingent", manifest_args!(*v)),
            Act::DelDeposit { amount } => {
                let b = self.tok(R::Xrd, *amount);
                self.call(w.feedel, "deposit", manifest_args!(b))
            }
            Act::DelWithdraw { amount } => self.call(w.feedel, "withdraw", manifest_args!(*amount)),
            Act::Wrap { res, amount } => {
                let b = self.tok(*res, *amount);
                self.call(w.wrapper, "wrap", manifest_args!(b))
            }
            Act::Unwrap { res, amount, child } => {
                let b = self.tok(*res, *amount);
                self.call(w.wrapper, "unwrap", manifest_args!(b, child.addr(w)))
            }
            Act::Flash { amount, inner, repay_res, repay, oath } => {
                self.call(w.wrapper, "flash_loan", manifest_args!(*amount));
                // The oath stays in the transaction, the loan goes to the sender's wallet.
                let o = self.take_all(self.h_flash());
                self.deposit_all();
                if let Some(i) = inner {
                    self.act(i);
                }
                let b = self.tok(*repay_res, *repay);
                if *oath {
                    self.call(w.wrapper, "repay_flash_loan", manifest_args!(o, b))
                } else {
                    // Offer something else in place of the oath.
                    self.with(|m| m.return_to_worktop(o));
                    let o = self.take(w.base, Dec::ZERO);
                    self.call(w.wrapper, "repay_flash_loan", manifest_args!(o, b))
                }
            }
            Act::WrapAdd { res } => self.call(w.wrapper, "add_input", manifest_args!(res.addr(w))),
            Act::WrapSet { res, on } => self.call(w.wrapper, "update_wrappable", manifest_args!(res.addr(w), *on)),
            Act::Burn { res, amount } => {
                let b = self.tok(*res, *amount);
                self.with(|m| m.burn_resource(b));
            }
            Act::Intrude { what, acct, slot } => self.intrude(*what, *acct, *slot),
            Act::Forge { what, acct, slot } => self.forge(*what, *acct, *slot),
            Act::FauFree => self.call(w.faucet, "free_tokens", manifest_args!()),
            Act::FauSet { res, amount, badge } => {
                self.faucet_badge(*badge);
                self.call(w.faucet, "update_mint_amount", manifest_args!(res.addr(w), *amount))
            }
            Act::FauMint { res, amount, badge } => {
                self.faucet_badge(*badge);
                self.call(w.faucet, "admin_mint_token", manifest_args!(res.addr(w), *amount))
            }
            Act::EnvSet { vars } => self.call(w.env, "set_variables", manifest_args!(vars.clone())),
            Act::EnvDel { keys } => self.call(w.env, "remove_variables", manifest_args!(keys.clone())),
            Act::EnvGet { keys } => self.call(w.env, "get_variables", manifest_args!(keys.clone())),
        }
        self.deposit_all();
    }
    fn h_flash(&self) -> Res {
        let s: V = self.w.l.state(self.w.wrapper);
        to(fld(&s, 3))
    }

    fn faucet_badge(&mut self, show: bool) {
        if show && self.admin {
            let (me, o) = (self.me(), self.w.faucet_owner);
            self.with(|m| m.create_proof_from_account_of_amount(me, o, dec!(1)));
        }
    }
    /// Calls an outsider must never be able to make.
    fn intrude(&mut self, what: u8, acct: u16, slot: u16) {
        let w = self.w;
        let a = self.h.accts.get(&acct).copied().unwrap_or(w.pool);
        let rid = self.h.refs.get(&slot).cloned().unwrap_or(NonFungibleLocalId::ruid([1; 32]));
        let big = dec!(1000000);
        let none: Vec<(Res, Dec)> = vec![];
        match what {
            0 => self.call(a, "update", manifest_args!((BTreeMap::<String, (Dec, Dec, Dec)>::new(), big, 0u64, Vec::<()>::new(), BTreeMap::<u64, ()>::new(), Vec::<u64>::new(), Vec::<u64>::new()))),
            1 => self.call(a, "update_referral_id", manifest_args!(Some(rid))),
            2 => self.call(a, "withdraw_collateral_batch", manifest_args!(vec![(w.btc, dec!(1))], WithdrawStrategy::Exact)),
            3 => {
                let b = self.tok(R::Btc, dec!(1));
                self.call(a, "deposit_collateral_batch", manifest_args!(vec![b]))
            }
            4 => self.call(w.pool, "withdraw", manifest_args!(dec!(1), WithdrawStrategy::Exact)),
            5 => {
                let b = self.tok(R::Base, dec!(1));
                self.call(w.pool, "deposit", manifest_args!(b))
            }
            6 => self.call(w.pool, "update", manifest_args!((BTreeMap::<String, ()>::new(), big, Dec::ZERO, Dec::ZERO, Dec::ZERO))),
            7 => self.call(w.config, "remove_collateral_config", manifest_args!(w.btc)),
            8 => self.call(w.config, "update_pair_configs", manifest_args!(Vec::<PCfg>::new())),
            9 => self.call(w.config, "update_collateral_configs", manifest_args!(Vec::<(Res, CCfg)>::new())),
            10 => self.call(w.config, "update_exchange_config", manifest_args!(crate::gen::default_x())),
            11 => self.call(w.oracle, "get_prices_with_auth", manifest_args!(Vec::<String>::new())),
            12 => {
                let p = Push { prices: vec![("BTC/USD".into(), dec!(1), i64::MAX / 4)], key_id: 0, signer: 0, tamper: 0 };
                let (d, s, k) = p.wire();
                self.call(w.oracle, "push_and_get_prices_with_auth", manifest_args!(Vec::<String>::new(), d, s, k))
            }
            13 => self.call(w.oracle, "add_key", manifest_args!(77u64, oracle_key(77).public_key())),
            14 => self.call(w.oracle, "remove_key", manifest_args!(0u64)),
            15 => self.call(w.oracle, "remove_price", manifest_args!("BTC/USD".to_string())),
            16 => self.call(w.refgen, "claim_referral_code", manifest_args!(keccak256_hash("c0"))),
            17 => self.call(w.refgen, "add_allocation", manifest_args!(Vec::<ManifestBucket>::new(), rid, none, 5u64)),
            18 => self.call(w.refgen, "create_referral_codes", manifest_args!(Vec::<ManifestBucket>::new(), rid, btreemap!(keccak256_hash("evil") => (none, 1u64)))),
            19 => self.call(w.refgen, "create_referral_codes_from_allocation", manifest_args!(rid, 0u64, btreeset!(keccak256_hash("evil")))),
            20 => self.call(w.feedist, "update_protocol_virtual_balance", manifest_args!(Dec::ZERO)),
            21 => self.call(w.feedist, "update_treasury_virtual_balance", manifest_args!(Dec::ZERO)),
            22 => self.call(w.feedist, "distribute", manifest_args!(dec!(1), dec!(1))),
            23 => self.call(w.feedel, "update_virtual_balance", manifest_args!(Dec::ZERO)),
            24 => self.call(w.feedel, "withdraw", manifest_args!(dec!(1))),
            25 => self.call(w.feedel, "update_max_lock", manifest_args!(big)),
            26 => self.call(w.permreg, "set_permissions", manifest_args!(AccessRule::AllowAll, (Vec::<ComponentAddress>::new(), Vec::<ComponentAddress>::new(), Vec::<ComponentAddress>::new()))),
            27 => {
                let p = w.pkg["MarginAccount"];
                let r = AccessRule::AllowAll;
                let d: GlobalAddress = w.oracle.into();
                self.with(|m| m.call_function(p, "MarginAccount", "new", manifest_args!(r.clone(), r.clone(), r, None::<NonFungibleLocalId>, d, None::<ManifestAddressReservation>)))
            }
            28 => self.with(|m| m.mint_fungible(w.lp, dec!(5))),
            29 => self.with(|m| m.mint_fungible(w.reward, dec!(5))),
            30 => self.with(|m| m.mint_fungible(w.base, dec!(5))),
            31 => self.with(|m| m.mint_fungible(w.oath, dec!(5))),
            32 => self.with(|m| m.set_main_role(a, RoleKey::new("level_1"), AccessRule::AllowAll)),
            33 => self.with(|m| m.mint_fungible(w.ftok[2], dec!(5))),
            34 => self.with(|m| m.set_main_role(w.faucet, RoleKey::new("user"), AccessRule::DenyAll)),
            35 => self.call(w.wrapper, "withdraw_authority", manifest_args!()),
            36 => {
                // Borrow and destroy the obligation to pay back.
                self.call(w.wrapper, "flash_loan", manifest_args!(dec!(5)));
                let o = self.take_all(self.h_flash());
                self.with(|m| m.burn_resource(o))
            }
            37 => self.call(w.wrapper, "flash_loan", manifest_args!(dec!(5))),
            38 => self.call(w.feedel, "lock_fee", manifest_args!(dec!(1))),
            39 => {
                let f = self.h_flash();
                self.with(|m| m.mint_fungible(f, dec!(5)))
            }
            40 => self.role(w.exchange, "keeper_process", false),
            41 => self.role(w.exchange, "treasury_admin", true),
            42 => self.role(w.exchange, "user_admin", true),
            43 => self.role(w.pool, "authority", true),
            44 => self.role(w.feedel, "withdrawer", true),
            45 => self.role(w.wrapper, "flash_user", false),
            46 => self.role(w.oracle, "push_user", false),
            47 => self.role(a, "level_3", true),
            48 => self.with(|m| m.set_owner_role(w.exchange, rule!(allow_all))),
            49 => self.with(|m| m.set_metadata(w.exchange, "dapp_definition", GlobalAddress::from(w.oracle))),
            50 => self.with(|m| m.set_metadata(a, "dapp_definition", GlobalAddress::from(w.oracle))),
            51 => self.with(|m| m.set_component_royalty(w.oracle, "get_prices", RoyaltyAmount::Free)),
            52 => self.role(w.exchange, "margin_order_request_user", false),
            // Tokens taken back out of somebody's wallet.
            54 => {
                let mut l: Vec<NodeId> = self.h.vaults.iter().filter(|(_, o)| o.map_or(false, |o| w.ftok.contains(&o.1))).map(|x| *x.0).collect();
                l.sort();
                let v = if l.is_empty() { None } else { Some(l[(acct as usize + w.now as usize) % l.len()]) };
                match v {
                    Some(v) => self.with(|m| m.recall(InternalAddress::new_or_panic(v.0), dec!("0.000001"))),
                    None => self.call(w.wrapper, "withdraw_authority", manifest_args!()),
                }
            }
            55..=58 => {
                let (r, k) = match what {
                    55 => (w.ftok[acct as usize % 4], "minter"),
                    56 => (w.ftok[acct as usize % 4], "recaller"),
                    57 => (w.oath, "minter"),
                    _ => (self.h_flash(), "depositor"),
                };
                self.with(|m| m.set_main_role(r, RoleKey::new(k), AccessRule::AllowAll))
            }
            // Whose is this component, or this token?
            59 | 60 => {
                let mut l: Vec<GlobalAddress> = [w.exchange, w.pool, w.config, w.oracle, w.refgen, w.feedist, w.feedel, w.permreg, w.wrapper, w.faucet, a].map(|c| c.into()).to_vec();
                l.extend([w.ftok[0], w.ftok[1], w.ftok[2], w.ftok[3], w.oath, self.h_flash()].map(|r| GlobalAddress::from(r)));
                let g = l[(acct as usize * 3 + slot as usize * 5 + self.w.now as usize) % l.len()];
                if what == 59 {
                    self.with(|m| m.set_owner_role(g, rule!(allow_all)))
                } else {
                    self.with(|m| m.set_metadata(g, "name", "evil".to_string()))
                }
            }
            61 => self.with(|m| m.claim_component_royalties(w.oracle)),
            62 => {
                let o = w.oath;
                self.with(|m| m.set_main_role(o, RoleKey::new("burner"), AccessRule::AllowAll))
            }
            63 => self.role(a, "level_1", true),
            _ => self.role(a, "authority", true),
        }
    }
    /// Imitations of accounts, badges and receipts; each of these must be refused.
    fn forge(&mut self, what: u8, acct: u16, slot: u16) {
        let w = self.w;
        let me = self.me();
        let a = self.h.accts.get(&acct).copied().unwrap_or(w.rogue[0]);
        let (rich, poor, winner) = (w.rogue[0], w.rogue[1], w.rogue[2]);
        let no_oath = None::<ManifestBucket>;
        let no_push = None::<(Vec<u8>, Bls12381G2Signature, u64)>;
        let mine = AccessRule::Protected(AccessRuleNode::ProofRule(ProofRule::Require(ResourceOrNonFungible::NonFungible(w.actors[self.by].badge.clone()))));
        let node = AccessRuleNode::ProofRule(ProofRule::Require(ResourceOrNonFungible::NonFungible(w.actors[self.by].badge.clone())));
        let refs = Vec::<RequestIndexRef>::new;
        let x = dec!("0.01");
        match what {
            0 => self.ex("process_request", manifest_args!(rich, 0u64, no_push)),
            1 => self.ex("process_request", manifest_args!(rich, 2u64, no_push)),
            2 => self.ex("process_request", manifest_args!(rich, 1u64, no_push)),
            3 => {
                let b = self.tok(R::Base, dec!(1000));
                self.ex("liquidate", manifest_args!(poor, b, no_push))
            }
            4 => self.ex("auto_deleverage", manifest_args!(winner, "BTC/USD".to_string(), no_push)),
            5 => {
                let b = self.tok(R::Base, dec!(5));
                self.ex("swap_debt", manifest_args!(poor, w.btc, b, no_push))
            }
            6 => {
                let b = self.tok(R::Base, dec!(1));
                self.ex("add_collateral", manifest_args!(no_oath, rich, vec![b]))
            }
            7 => self.ex("remove_collateral_request", manifest_args!(no_oath, 1000u64, rich, me, vec![(w.base, dec!(5))])),
            8 => self.ex("margin_order_request", manifest_args!(no_oath, 0u64, 1000u64, rich, "BTC/USD".to_string(), x, false, PriceLimit::None, SlipLimit::None, refs(), refs(), 1u8)),
            9 => self.ex("margin_order_tp_sl_request", manifest_args!(no_oath, 0u64, 1000u64, rich, "BTC/USD".to_string(), x, false, PriceLimit::None, SlipLimit::None, Some(dec!(1)), Some(dec!(2)))),
            10 => self.ex("cancel_requests", manifest_args!(no_oath, rich, vec![0u64])),
            11 => self.ex("create_recovery_key", manifest_args!(no_oath, rich)),
            12 => self.ex("add_auth_rule", manifest_args!(no_oath, rich, 3u8, node)),
            13 => self.ex("set_level_1_auth", manifest_args!(no_oath, rich, mine)),
            14 => self.ex(if slot % 2 == 0 { "set_level_2_auth" } else { "set_level_3_auth" }, manifest_args!(no_oath, rich, mine)),
            // Let an imitation pay for a borrowed fee.
            15 => {
                let o = self.oath(&Some(dec!("0.1")));
                self.ex("cancel_requests", manifest_args!(o, rich, Vec::<u64>::new()))
            }
            16 => {
                let o = self.oath(&Some(dec!("0.1")));
                self.ex("add_collateral", manifest_args!(o, rich, Vec::<ManifestBucket>::new()))
            }
            17 => self.ex("get_account_details", manifest_args!(rich, 5u64, None::<u64>)),
            // Tokens in place of a fee receipt, on an account the sender may act for.
            18 => {
                let b = self.tok(R::Junk, dec!(1));
                self.ex("cancel_requests", manifest_args!(Some(b), a, Vec::<u64>::new()))
            }
            19 => {
                let b = self.take(w.junk, Dec::ZERO);
                self.ex("cancel_requests", manifest_args!(Some(b), a, Vec::<u64>::new()))
            }
            20 => {
                let b = self.tok(R::Base, dec!("0.1"));
                self.ex("add_collateral", manifest_args!(Some(b), a, Vec::<ManifestBucket>::new()))
            }
            // A loan receipt of one's own making.
            21 => {
                let o = self.tok(R::Junk, dec!(1));
                let b = self.tok(R::Base, dec!(1));
                self.call(w.wrapper, "repay_flash_loan", manifest_args!(o, b))
            }
            22 => {
                self.call(w.wrapper, "flash_loan", manifest_args!(dec!(5)));
                let o = self.tok(R::Junk, dec!(5));
                let b = self.take(w.base, dec!(5));
                self.call(w.wrapper, "repay_flash_loan", manifest_args!(o, b))
            }
            // A badge of another kind in place of the referral badge.
            23..=25 => {
                let (id, r) = (NonFungibleLocalId::integer(self.by as u64), w.badges);
                self.with(|m| m.create_proof_from_account_of_non_fungibles(me, r, [id]).pop_from_auth_zone("forged"));
                let p = self.mb.as_ref().unwrap().proof("forged");
                match what {
                    23 => self.ex("collect_referral_rewards", manifest_args!(p)),
                    24 => self.ex("create_referral_codes", manifest_args!(p, Vec::<ManifestBucket>::new(), btreemap!(keccak256_hash("forged") => (Vec::<(Res, Dec)>::new(), 1u64)))),
                    _ => self.ex("create_referral_codes_from_allocation", manifest_args!(p, 0u64, btreeset!(keccak256_hash("forged")))),
                }
            }
            // Another instance of the same blueprint, with other tokens in place of the authority.
            26 => {
                let b = self.tok(R::Junk, dec!(1));
                let p = w.pkg["Exchange"];
                self.with(|m| m.call_function(p, "Exchange", "new", manifest_args!(OwnerRole::None, b, None::<ManifestAddressReservation>)))
            }
            27 => {
                let b = self.tok(R::Junk, dec!(1));
                let p = w.pkg["TokenWrapper"];
                self.with(|m| m.call_function(p, "TokenWrapper", "new", manifest_args!(OwnerRole::None, b)))
            }
            // Other components of the exchange in place of an account.
            28 => self.ex("cancel_requests", manifest_args!(no_oath, w.pool, Vec::<u64>::new())),
            _ => self.ex("set_level_3_auth", manifest_args!(no_oath, me, mine)),
        }
    }
    fn role(&mut self, c: ComponentAddress, role: &str, open: bool) {
        let rule = if open { AccessRule::AllowAll } else { AccessRule::DenyAll };
        let key = RoleKey::new(role);
        self.with(|m| m.set_main_role(c, key, rule))
    }
}

pub fn tgt(w: &World, h: &Handles, t: Tgt) -> ComponentAddress {
    match t {
        Tgt::Actor(a) => w.actors[a as usize].addr,
        Tgt::Pool => w.pool,
        Tgt::Rogue => w.rogue[0],
        Tgt::Acct(s) => h.accts.get(&s).copied().unwrap_or(w.pool),
    }
}

/// Does every slot this act refers to exist (in this possibly minimised history)?
pub fn resolvable(h: &Handles, a: &Act) -> bool {
    a.flat().iter().all(|a| match a {
        Act::RecKey { acct, .. }
        | Act::AddRule { acct, .. }
        | Act::SetRule { acct, .. }
        | Act::AddColl { acct, .. }
        | Act::ReqRemove { acct, .. }
        | Act::ReqOrder { acct, .. }
        | Act::ReqTpSl { acct, .. }
        | Act::Cancel { acct, .. }
        | Act::Process { acct, .. }
        | Act::SwapDebt { acct, .. }
        | Act::Liquidate { acct, .. }
        | Act::Adl { acct, .. } => h.accts.contains_key(acct),
        Act::UpdRef { slot, .. } | Act::AddAlloc { slot, .. } | Act::Codes { slot, .. } | Act::CodesAlloc { slot, .. } | Act::CollectRef { slot } => h.refs.contains_key(slot),
        Act::NewAcct { slot, .. } => !h.accts.contains_key(slot),
        Act::MintRef { slot, .. } => !h.refs.contains_key(slot),
        _ => true,
    })
}

pub fn manifest(w: &World, h: &Handles, s: &Step) -> TransactionManifestV1 {
    let mut b = Bld { w, h, mb: Some(ManifestBuilder::new()), n: 0, by: s.by as usize, admin: s.by as usize == ADMIN };
    if s.costing || s.act.needs_costing() {
        b.with(|m| m.lock_fee(FAUCET, dec!(5000)));
    }
    if b.admin {
        let me = b.me();
        let o = w.owner;
        b.with(|m| m.create_proof_from_account_of_amount(me, o, dec!(1)));
    }
    for k in &s.keys {
        if let Some((id, holder)) = h.keys.get(k) {
            if *holder == s.by {
                let me = b.me();
                let r = w.recovery;
                let id = id.clone();
                b.with(|m| m.create_proof_from_account_of_non_fungibles(me, r, [id]));
            }
        }
    }
    b.act(&s.act);
    b.mb.take().unwrap().build()
}

pub fn signers(w: &World, s: &Step) -> Vec<NonFungibleGlobalId> {
    let mut v = vec![w.actors[s.by as usize].badge.clone()];
    v.extend(s.cosign.iter().map(|c| w.actors[*c as usize].badge.clone()));
    v
}

/// Indices of the instructions that are the operations themselves.
pub fn call_index(m: &TransactionManifestV1, method: &str) -> Option<usize> {
    m.instructions.iter().position(|i| matches!(i, InstructionV1::CallMethod { method_name, .. } if method_name == method))
}
