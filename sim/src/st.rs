//! The abstract state of the whole system, as read back from the ledger: what the reference model
//! predicts and what every invariant is stated over.
use crate::ledger::*;
use crate::mirror::*;
use crate::world::*;
use radix_common::prelude::*;
use radix_engine_interface::prelude::*;
use sbor::{Value, ValueKind};
use std::collections::{BTreeMap, BTreeSet};

pub type Dec = Decimal;
pub type Res = ResourceAddress;

// ---------------------------------------------------------------- lenient structural decoding
/// A decoded SBOR value addressed by field position. Trailing additional fields are ignored, so a
/// component that merely gains a field still reads.
pub type V = ScryptoValue;
pub fn fld(v: &V, i: usize) -> &V {
    match v {
        Value::Tuple { fields } | Value::Enum { fields, .. } => &fields[i],
        _ => panic!("not a struct"),
    }
}
pub fn variant(v: &V) -> u8 {
    match v {
        Value::Enum { discriminator, .. } => *discriminator,
        _ => panic!("not an enum"),
    }
}
pub fn elems(v: &V) -> Vec<V> {
    match v {
        Value::Array { elements, element_value_kind } => {
            let _ = element_value_kind;
            elements.clone()
        }
        _ => panic!("not an array"),
    }
}
pub fn entries(v: &V) -> Vec<(V, V)> {
    match v {
        Value::Map { entries, .. } => entries.clone(),
        _ => panic!("not a map"),
    }
}
pub fn to<T: ScryptoDecode>(v: &V) -> T {
    scrypto_decode(&scrypto_encode(v).unwrap()).expect("decode field")
}
pub fn dec(v: &V) -> Dec {
    to(v)
}
fn secs(v: &V) -> i64 {
    // Instant { seconds_since_unix_epoch }
    match v {
        Value::Tuple { fields } => to(&fields[0]),
        _ => to(v),
    }
}
pub fn own(v: &V) -> NodeId {
    let o: Own = to(v);
    o.0
}

// ---------------------------------------------------------------- abstract state
#[derive(Clone, Debug, PartialEq, ScryptoSbor, ManifestSbor)]
pub struct XCfg {
    pub positions_max: u16,
    pub collaterals_max: u16,
    pub active_requests_max: u16,
    pub skew_ratio_cap: Dec,
    pub adl_offset: Dec,
    pub adl_a: Dec,
    pub adl_b: Dec,
    pub fee_liquidity_add: Dec,
    pub fee_liquidity_remove: Dec,
    pub fee_share_protocol: Dec,
    pub fee_share_treasury: Dec,
    pub fee_share_referral: Dec,
    pub fee_max: Dec,
    pub protocol_burn_amount: Dec,
    pub reward_keeper: Dec,
}
#[derive(Clone, Debug, PartialEq, ScryptoSbor, ManifestSbor)]
pub struct PCfg {
    pub pair_id: String,
    pub price_age_max: i64,
    pub oi_max: Dec,
    pub trade_size_min: Dec,
    pub update_price_delta_ratio: Dec,
    pub update_period_seconds: i64,
    pub margin_initial: Dec,
    pub margin_maintenance: Dec,
    pub funding_1: Dec,
    pub funding_2: Dec,
    pub funding_2_delta: Dec,
    pub funding_2_decay: Dec,
    pub funding_pool_0: Dec,
    pub funding_pool_1: Dec,
    pub funding_share: Dec,
    pub fee_0: Dec,
    pub fee_1: Dec,
}
#[derive(Clone, Debug, PartialEq, ScryptoSbor, ManifestSbor)]
pub struct CCfg {
    pub pair_id: String,
    pub price_age_max: i64,
    pub discount: Dec,
    pub margin: Dec,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Pos {
    pub amount: Dec,
    pub cost: Dec,
    pub idx: Dec,
}
#[derive(Clone, Copy, Debug, PartialEq, ScryptoSbor, ManifestSbor)]
pub enum PriceLimit {
    None,
    Gte(Dec),
    Lte(Dec),
}
#[derive(Clone, Copy, Debug, PartialEq, ScryptoSbor, ManifestSbor)]
pub enum SlipLimit {
    None,
    Percent(Dec),
    Absolute(Dec),
}
#[derive(Clone, Debug, PartialEq, ScryptoSbor)]
pub struct Order {
    pub pair: String,
    pub amount: Dec,
    pub reduce_only: bool,
    pub price_limit: PriceLimit,
    pub slip: SlipLimit,
    pub activate: Vec<u64>,
    pub cancel: Vec<u64>,
}
#[derive(Clone, Debug, PartialEq, ScryptoSbor)]
pub struct Removal {
    pub target: ComponentAddress,
    pub claims: Vec<(Res, Dec)>,
}
#[derive(Clone, Debug, PartialEq, ScryptoSbor)]
pub enum Req {
    Remove(Removal),
    Order(Order),
}
pub const DORMANT: u8 = 0;
pub const ACTIVE: u8 = 1;
pub const EXECUTED: u8 = 2;
pub const CANCELLED: u8 = 3;
pub const EXPIRED: u8 = 4;
#[derive(Clone, Debug, PartialEq)]
pub struct KReq {
    pub req: Req,
    pub submission: i64,
    pub expiry: i64,
    pub status: u8,
    pub effected: Vec<ComponentAddress>,
}
impl KReq {
    pub fn live(&self) -> bool {
        self.status == ACTIVE || self.status == DORMANT
    }
}
#[derive(Clone, Debug, PartialEq)]
pub struct Acct {
    pub addr: ComponentAddress,
    pub pos: BTreeMap<String, Pos>,
    pub coll: BTreeMap<Res, Dec>,
    /// Tokens really in this account's vaults.
    pub held: BTreeMap<Res, Dec>,
    pub vb: Dec,
    pub reqs: Vec<KReq>,
    pub active: BTreeSet<u64>,
    pub valid_start: u64,
    pub referral: Option<NonFungibleLocalId>,
    pub rules: [AccessRule; 3],
}
#[derive(Clone, Debug, PartialEq)]
pub struct PPos {
    pub oi_long: Dec,
    pub oi_short: Dec,
    pub cost: Dec,
    pub skew: Dec,
    pub pnl: Dec,
    pub f2: Dec,
    pub idx_long: Dec,
    pub idx_short: Dec,
    pub last_update: i64,
    pub last_price: Dec,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Pool {
    pub base: Dec,
    pub vb: Dec,
    pub upf: Dec,
    pub skew: Dec,
    pub pnl: Dec,
    pub pos: BTreeMap<String, PPos>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Del {
    pub xrd: Dec,
    pub vb: Dec,
    pub max_lock: Dec,
    pub mult: Dec,
    pub contingent: bool,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Alloc {
    pub claims: Vec<(Res, Dec)>,
    pub count: u64,
    pub max: u64,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Code {
    pub referral: NonFungibleLocalId,
    pub claims: Vec<(Res, Dec)>,
    pub count: u64,
    pub max: u64,
}
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Perm(pub [BTreeSet<ComponentAddress>; 3]);

#[derive(Clone, Debug, PartialEq)]
pub struct St {
    pub now: i64,
    pub xc: XCfg,
    /// In listing order.
    pub pairs: Vec<PCfg>,
    pub colls: BTreeMap<Res, CCfg>,
    pub prices: BTreeMap<String, (Dec, i64)>,
    pub keys: BTreeMap<u64, Vec<u8>>,
    pub pool: Pool,
    pub accts: BTreeMap<u16, Acct>,
    pub protocol: Dec,
    pub treasury: Dec,
    pub del: Del,
    pub refs: BTreeMap<u16, (NonFungibleLocalId, ReferralData)>,
    pub allocs: BTreeMap<NonFungibleLocalId, Vec<Alloc>>,
    pub codes: BTreeMap<Hash, Code>,
    pub gen_held: BTreeMap<Res, Dec>,
    pub perms: BTreeMap<AccessRule, Perm>,
    pub wrap: BTreeMap<Res, (Dec, bool)>,
    pub wrap_list: Vec<Res>,
    pub supply_base: Dec,
    pub supply_lp: Dec,
    pub supply_reward: Dec,
    pub supply_protocol: Dec,
    pub supply_oath: Dec,
    pub authority: Dec,
    /// What each actor's wallet holds (XRD excluded: it pays network fees).
    /// What the test faucet hands out, how much of its tokens exists; the environment registry.
    pub fau: BTreeMap<Res, Dec>,
    pub fau_supply: BTreeMap<Res, Dec>,
    pub env: BTreeMap<String, String>,
    pub wallet: BTreeMap<(u8, Res), Dec>,
}

impl St {
    pub fn pair(&self, p: &str) -> Option<&PCfg> {
        self.pairs.iter().find(|c| c.pair_id == p)
    }
    pub fn ppos(&self, p: &str) -> PPos {
        self.pool.pos.get(p).cloned().unwrap_or(PPos {
            oi_long: Dec::ZERO,
            oi_short: Dec::ZERO,
            cost: Dec::ZERO,
            skew: Dec::ZERO,
            pnl: Dec::ZERO,
            f2: Dec::ZERO,
            idx_long: Dec::ZERO,
            idx_short: Dec::ZERO,
            last_update: self.now,
            last_price: Dec::ONE,
        })
    }
    pub fn ref_slot(&self, id: &NonFungibleLocalId) -> Option<u16> {
        self.refs.iter().find(|(_, (i, _))| i == id).map(|(s, _)| *s)
    }
    pub fn pool_value(&self) -> Dec {
        self.pool.base + self.pool.vb + self.pool.upf + self.pool.pnl
    }
    pub fn skew_ratio(&self) -> Dec {
        self.pool.skew / self.pool_value().max(Dec::ONE)
    }
}

/// Configuration as the public getters report it.
#[derive(Clone, Debug, PartialEq)]
pub struct Cfg {
    pub raw: Vec<u8>,
    pub xc: XCfg,
    pub pairs: Vec<PCfg>,
    pub colls: BTreeMap<Res, CCfg>,
    /// Why the exchange could not say what its configuration is.
    pub unreadable: Option<String>,
}

/// Everything needed to read a state: the addresses, and which components were created in this run.
#[derive(Clone)]
pub struct Handles {
    pub accts: BTreeMap<u16, ComponentAddress>,
    pub refs: BTreeMap<u16, NonFungibleLocalId>,
    /// Recovery keys created: slot -> (id, holder).
    pub keys: BTreeMap<u16, (NonFungibleLocalId, u8)>,
    pub ref_holder: BTreeMap<u16, u8>,
    pub cfg: Option<Cfg>,
    pub vaults: std::collections::HashMap<NodeId, Option<(u8, Res)>>,
    pub wallet: BTreeMap<(u8, Res), Dec>,
}
impl Handles {
    pub fn new() -> Self {
        Handles { accts: Default::default(), refs: Default::default(), keys: Default::default(), ref_holder: Default::default(), cfg: None, vaults: Default::default(), wallet: Default::default() }
    }
}

fn kvs(l: &Ledger, store: &NodeId) -> Vec<(V, V)> {
    l.kv_all::<V, V>(store)
}

pub fn read_cfg(w: &World, old: Option<&Cfg>) -> Cfg {
    let raw_state: V = w.l.state(w.config);
    let mut raw = scrypto_encode(&raw_state).unwrap();
    let hl = fld(&raw_state, 1);
    // HashList { list: List{pointer, kvs}, kvs }
    for (k, v) in kvs(&w.l, &own(fld(hl, 1))) {
        raw.extend(scrypto_encode(&k).unwrap());
        raw.extend(scrypto_encode(&v).unwrap());
    }
    for (k, v) in kvs(&w.l, &own(fld(fld(hl, 0), 1))) {
        raw.extend(scrypto_encode(&k).unwrap());
        raw.extend(scrypto_encode(&v).unwrap());
    }
    if let Some(o) = old {
        if o.raw == raw {
            return o.clone();
        }
    }
    use radix_transactions::builder::*;
    let mut l = w.l.clone();
    let m = ManifestBuilder::new()
        .call_method(w.exchange, "get_exchange_config", manifest_args!())
        .call_method(w.exchange, "get_pair_configs", manifest_args!(1000u64, None::<u64>))
        .call_method(w.exchange, "get_collateral_configs", manifest_args!())
        .build();
    let o = l.exec(m, &[], &TxOpts::default());
    if let Err(e) = &o.result {
        match old {
            Some(o) => return Cfg { raw, unreadable: Some(format!("{:?}", e)), ..o.clone() },
            None => panic!("config getters failed: {:?}", e),
        }
    }
    let x: V = o.output(0);
    let ps: V = o.output(1);
    let cs: V = o.output(2);
    Cfg {
        raw,
        xc: xcfg_of(&x),
        pairs: elems(&ps).iter().map(pcfg_of).collect(),
        colls: entries(&cs).iter().map(|(k, v)| (to(k), ccfg_of(v))).collect(),
        unreadable: None,
    }
}
pub fn xcfg_of(v: &V) -> XCfg {
    let n = |i| dec(fld(v, i));
    XCfg {
        positions_max: to(fld(v, 0)),
        collaterals_max: to(fld(v, 1)),
        active_requests_max: to(fld(v, 2)),
        skew_ratio_cap: n(3),
        adl_offset: n(4),
        adl_a: n(5),
        adl_b: n(6),
        fee_liquidity_add: n(7),
        fee_liquidity_remove: n(8),
        fee_share_protocol: n(9),
        fee_share_treasury: n(10),
        fee_share_referral: n(11),
        fee_max: n(12),
        protocol_burn_amount: n(13),
        reward_keeper: n(14),
    }
}
pub fn pcfg_of(v: &V) -> PCfg {
    let n = |i| dec(fld(v, i));
    PCfg {
        pair_id: to(fld(v, 0)),
        price_age_max: to(fld(v, 1)),
        oi_max: n(2),
        trade_size_min: n(3),
        update_price_delta_ratio: n(4),
        update_period_seconds: to(fld(v, 5)),
        margin_initial: n(6),
        margin_maintenance: n(7),
        funding_1: n(8),
        funding_2: n(9),
        funding_2_delta: n(10),
        funding_2_decay: n(11),
        funding_pool_0: n(12),
        funding_pool_1: n(13),
        funding_share: n(14),
        fee_0: n(15),
        fee_1: n(16),
    }
}
pub fn ccfg_of(v: &V) -> CCfg {
    CCfg { pair_id: to(fld(v, 0)), price_age_max: to(fld(v, 1)), discount: dec(fld(v, 2)), margin: dec(fld(v, 3)) }
}
pub fn ppos_of(v: &V) -> PPos {
    let n = |i| dec(fld(v, i));
    PPos {
        oi_long: n(0),
        oi_short: n(1),
        cost: n(2),
        skew: n(3),
        pnl: n(4),
        f2: n(5),
        idx_long: n(6),
        idx_short: n(7),
        last_update: secs(fld(v, 8)),
        last_price: n(9),
    }
}
pub fn req_of(v: &V) -> Req {
    let b = fld(v, 0);
    match variant(v) {
        0 => Req::Remove(Removal { target: to(fld(b, 0)), claims: to(fld(b, 1)) }),
        _ => Req::Order(Order {
            pair: to(fld(b, 0)),
            amount: dec(fld(b, 1)),
            reduce_only: to(fld(b, 2)),
            price_limit: to(fld(b, 3)),
            slip: to(fld(b, 4)),
            activate: to(fld(b, 5)),
            cancel: to(fld(b, 6)),
        }),
    }
}
pub fn kreq_of(v: &V) -> KReq {
    let bytes: Vec<u8> = to(fld(v, 0));
    let r: V = scrypto_decode(&bytes).expect("request bytes");
    KReq { req: req_of(&r), submission: secs(fld(v, 1)), expiry: secs(fld(v, 2)), status: to(fld(v, 3)), effected: to(fld(v, 4)) }
}

pub fn read_acct(w: &World, addr: ComponentAddress) -> Acct {
    let l = &w.l;
    let s: V = l.state(addr);
    let mut held = BTreeMap::new();
    // Vaults { vaults }
    for (k, v) in kvs(l, &own(fld(fld(&s, 0), 0))) {
        let a = l.vault_amount(&own(&v));
        if !a.is_zero() {
            held.insert(to(&k), a);
        }
    }
    let rq = fld(&s, 4);
    let n: u64 = to(fld(rq, 0));
    let mut reqs: Vec<(u64, KReq)> = kvs(l, &own(fld(rq, 1))).iter().map(|(k, v)| (to::<u64>(k), kreq_of(v))).collect();
    reqs.sort_by_key(|r| r.0);
    assert!(reqs.len() as u64 == n && reqs.iter().enumerate().all(|(i, r)| i as u64 == r.0), "request list has gaps");
    let rule = |k: &str| -> AccessRule {
        use radix_engine::object_modules::role_assignment::*;
        use radix_engine_interface::object_modules::role_assignment::*;
        l.reader()
            .read_object_collection_entry::<_, RoleAssignmentAccessRuleEntryPayload>(
                addr.as_node_id(),
                ModuleId::RoleAssignment,
                radix_engine::system::system_db_reader::ObjectCollectionKey::KeyValue(
                    RoleAssignmentCollection::AccessRuleKeyValue.collection_index(),
                    &ModuleRoleKey::new(ModuleId::Main, k),
                ),
            )
            .unwrap()
            .expect("role")
            .fully_update_and_into_latest_version()
    };
    Acct {
        addr,
        coll: entries(fld(&s, 1)).iter().map(|(k, v)| (to(k), dec(v))).collect(),
        held,
        pos: entries(fld(&s, 2)).iter().map(|(k, v)| (to(k), Pos { amount: dec(fld(v, 0)), cost: dec(fld(v, 1)), idx: dec(fld(v, 2)) })).collect(),
        vb: dec(fld(&s, 3)),
        reqs: reqs.into_iter().map(|r| r.1).collect(),
        active: to::<BTreeSet<u64>>(fld(&s, 5)),
        valid_start: to(fld(&s, 6)),
        referral: to(fld(&s, 7)),
        rules: [rule("level_1"), rule("level_2"), rule("level_3")],
    }
}

pub fn read_referral(w: &World, id: &NonFungibleLocalId) -> ReferralData {
    use radix_engine::blueprints::resource::*;
    let v = w
        .l
        .reader()
        .read_object_collection_entry::<_, NonFungibleResourceManagerDataEntryPayload>(
            w.referral.as_node_id(),
            ModuleId::Main,
            radix_engine::system::system_db_reader::ObjectCollectionKey::KeyValue(NonFungibleResourceManagerCollection::DataKeyValue.collection_index(), id),
        )
        .unwrap()
        .expect("referral data");
    scrypto_decode(&scrypto_encode(&v).unwrap()).expect("referral decode")
}

pub fn account_vault(w: &World, actor: usize, r: Res) -> Option<NodeId> {
    use radix_engine::blueprints::account::*;
    w.l.reader()
        .read_object_collection_entry::<_, AccountResourceVaultEntryPayload>(
            w.actors[actor].addr.as_node_id(),
            ModuleId::Main,
            radix_engine::system::system_db_reader::ObjectCollectionKey::KeyValue(AccountCollection::ResourceVaultKeyValue.collection_index(), &r),
        )
        .ok()?
        .map(|v| v.fully_update_and_into_latest_version().0.as_node_id().clone())
}

pub fn wallet_resources(w: &World) -> Vec<Res> {
    vec![w.base, w.lp, w.protocol, w.reward, w.usda, w.usdb, w.btc, w.eth, w.junk, w.owner, w.authority, w.faucet_owner, w.ftok[0], w.ftok[1], w.ftok[2], w.ftok[3]]
}

pub fn read_wallets(w: &World) -> BTreeMap<(u8, Res), Dec> {
    let mut m = BTreeMap::new();
    for a in 0..N_ACTORS {
        for r in wallet_resources(w) {
            if let Some(v) = account_vault(w, a, r) {
                let x = w.l.vault_amount(&v);
                if !x.is_zero() {
                    m.insert((a as u8, r), x);
                }
            }
        }
    }
    m
}

/// Apply a transaction's vault changes to the tracked wallets.
pub fn apply_wallets(w: &World, h: &mut Handles, out: &Out) {
    for (node, res, ch) in &out.vaults {
        let owner = match h.vaults.get(node) {
            Some(o) => *o,
            None => {
                let o = (0..N_ACTORS).find(|a| account_vault(w, *a, *res) == Some(*node)).map(|a| (a as u8, *res));
                h.vaults.insert(*node, o);
                o
            }
        };
        if let (Some(k), radix_engine::transaction::BalanceChange::Fungible(d)) = (owner, ch) {
            if *res == XRD {
                continue;
            }
            let e = h.wallet.entry(k).or_insert(Dec::ZERO);
            *e += *d;
            if e.is_zero() {
                h.wallet.remove(&k);
            }
        }
    }
}

pub fn read(w: &World, h: &mut Handles) -> St {
    let l = &w.l;
    let cfg = read_cfg(w, h.cfg.as_ref());
    h.cfg = Some(cfg.clone());
    let or: V = l.state(w.oracle);
    let pl: V = l.state(w.pool);
    let fd: V = l.state(w.feedist);
    let de: V = l.state(w.feedel);
    let rg: V = l.state(w.refgen);
    let pr: V = l.state(w.permreg);
    let tw: V = l.state(w.wrapper);
    let ex: V = l.state(w.exchange);
    let fa: V = l.state(w.faucet);
    let en: V = l.state(w.env);
    St {
        now: w.now,
        xc: cfg.xc,
        pairs: cfg.pairs,
        colls: cfg.colls,
        keys: entries(fld(&or, 0)).iter().map(|(k, v)| (to(k), to::<Bls12381G1PublicKey>(v).0.to_vec())).collect(),
        prices: entries(fld(&or, 1)).iter().map(|(k, v)| (to(k), (dec(fld(v, 0)), secs(fld(v, 1))))).collect(),
        pool: Pool {
            pos: kvs(l, &own(fld(&pl, 0))).iter().map(|(k, v)| (to(k), ppos_of(v))).collect(),
            base: l.vault_amount(&own(fld(&pl, 1))),
            vb: dec(fld(&pl, 2)),
            upf: dec(fld(&pl, 3)),
            skew: dec(fld(&pl, 4)),
            pnl: dec(fld(&pl, 5)),
        },
        accts: h.accts.iter().map(|(s, a)| (*s, read_acct(w, *a))).collect(),
        treasury: dec(fld(&fd, 0)),
        protocol: dec(fld(&fd, 1)),
        del: Del { xrd: l.vault_amount(&own(fld(&de, 1))), vb: dec(fld(&de, 2)), max_lock: dec(fld(&de, 3)), mult: dec(fld(&de, 4)), contingent: to(fld(&de, 5)) },
        refs: h.refs.iter().map(|(s, id)| (*s, (id.clone(), read_referral(w, id)))).collect(),
        gen_held: kvs(l, &own(fld(fld(&rg, 0), 0))).iter().map(|(k, v)| (to::<Res>(k), l.vault_amount(&own(v)))).filter(|x| !x.1.is_zero()).collect(),
        allocs: kvs(l, &own(fld(&rg, 1)))
            .iter()
            .map(|(k, v)| (to(k), elems(v).iter().map(|a| Alloc { claims: to(fld(a, 0)), count: to(fld(a, 1)), max: to(fld(a, 2)) }).collect()))
            .collect(),
        codes: kvs(l, &own(fld(&rg, 2)))
            .iter()
            .map(|(k, v)| (to(k), Code { referral: to(fld(v, 0)), claims: to(fld(v, 1)), count: to(fld(v, 2)), max: to(fld(v, 3)) }))
            .collect(),
        perms: kvs(l, &own(fld(&pr, 0)))
            .iter()
            .map(|(k, v)| {
                let s = |i| elems(fld(v, i)).iter().map(|c| to::<ComponentAddress>(c)).collect::<BTreeSet<_>>();
                (to(k), Perm([s(0), s(1), s(2)]))
            })
            .filter(|(_, p): &(_, Perm)| *p != Perm::default())
            .collect(),
        wrap: kvs(l, &own(fld(&tw, 2))).iter().map(|(k, v)| (to(k), (l.vault_amount(&own(fld(v, 0))), to(fld(v, 1))))).collect(),
        wrap_list: {
            let mut x: Vec<(u64, Res)> = kvs(l, &own(fld(fld(&tw, 1), 1))).iter().map(|(k, v)| (to(k), to(v))).collect();
            x.sort();
            x.into_iter().map(|e| e.1).collect()
        },
        supply_base: l.supply(w.base),
        supply_lp: l.supply(w.lp),
        supply_reward: l.supply(w.reward),
        supply_protocol: l.supply(w.protocol),
        supply_oath: l.supply(w.oath),
        authority: l.vault_amount(&own(fld(&ex, 0))),
        fau: entries(fld(&fa, 0)).iter().map(|(k, v)| (to(k), dec(v))).collect(),
        fau_supply: w.ftok.iter().map(|r| (*r, l.supply(*r))).collect(),
        env: kvs(l, &own(fld(&en, 0))).iter().map(|(k, v)| (to(k), to(v))).collect(),
        wallet: h.wallet.clone(),
    }
}
