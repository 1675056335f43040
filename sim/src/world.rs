//! Deployment of the whole system on a simulated ledger, with the roles of a real deployment.
use crate::ledger::*;
use crate::st::{Order, PriceLimit, Removal, Req, SlipLimit};
use crate::vm;
use radix_common::crypto::*;
use radix_common::prelude::*;
use radix_engine_interface::blueprints::package::*;
use radix_engine_interface::blueprints::account::*;
use radix_engine_interface::prelude::*;
use radix_engine_interface::*;
use radix_transactions::builder::*;
use radix_transactions::prelude::*;
use std::collections::BTreeMap as Map;

pub const T0: i64 = 1_700_000_000;

#[derive(Clone, Debug)]
pub struct Actor {
    pub name: String,
    pub addr: ComponentAddress,
    pub badge: NonFungibleGlobalId,
}

/// Actor indices.
pub const ADMIN: usize = 0;
pub const N_ACTORS: usize = 14;
/// The first so many send transactions; the others only receive.
pub const N_SENDERS: usize = 12;
pub const ACTOR_NAMES: [&str; N_ACTORS] = ["admin", "lp0", "lp1", "tr0", "tr1", "tr2", "tr3", "kp0", "kp1", "evil", "refuser", "ref0", "picky", "holder"];
pub const LPS: [usize; 2] = [1, 2];
pub const TRADERS: [usize; 4] = [3, 4, 5, 6];
pub const KEEPERS: [usize; 2] = [7, 8];
pub const EVIL: usize = 9;
/// An account whose owner refuses third-party deposits.
pub const REFUSER: usize = 10;
pub const REFERRER: usize = 11;
/// Refuses every deposit except those made with the exchange's authority.
pub const PICKY: usize = 12;
/// Accepts only tokens it already has a vault for: the base token and BTC.
pub const HOLDER: usize = 13;

#[derive(Clone)]
pub struct World {
    pub l: Ledger,
    pub actors: Vec<Actor>,
    pub owner: ResourceAddress,
    pub authority: ResourceAddress,
    pub base_authority: ResourceAddress,
    pub base: ResourceAddress,
    pub lp: ResourceAddress,
    pub protocol: ResourceAddress,
    pub referral: ResourceAddress,
    pub recovery: ResourceAddress,
    pub reward: ResourceAddress,
    pub oath: ResourceAddress,
    /// Children of the token wrapper, then collateral tokens, then an unlisted token.
    pub usda: ResourceAddress,
    pub usdb: ResourceAddress,
    pub btc: ResourceAddress,
    pub eth: ResourceAddress,
    pub junk: ResourceAddress,
    pub pkg: Map<&'static str, PackageAddress>,
    pub wrapper: ComponentAddress,
    pub oracle: ComponentAddress,
    pub config: ComponentAddress,
    pub pool: ComponentAddress,
    pub refgen: ComponentAddress,
    pub feedist: ComponentAddress,
    pub feedel: ComponentAddress,
    pub permreg: ComponentAddress,
    pub exchange: ComponentAddress,
    /// The token faucet of test deployments, its owner badge, its tokens; the environment registry.
    pub faucet: ComponentAddress,
    pub faucet_owner: ResourceAddress,
    pub ftok: [ResourceAddress; 4],
    pub env: ComponentAddress,
    /// Badges of an unrelated collection, one for each sender, that describe themselves as referrals.
    pub badges: ResourceAddress,
    /// Imitations of a margin account from an attacker's package: one that claims a fortune, one in debt, one with a winning position.
    pub rogue: [ComponentAddress; 3],
    pub now: i64,
}

pub fn oracle_key(i: u64) -> Bls12381G1PrivateKey {
    Bls12381G1PrivateKey::from_u64(1000 + i).unwrap()
}

fn def(code: &vm::Code) -> PackageDefinition {
    manifest_free_decode(&vm::schema_of(code), code.blueprint)
}
fn manifest_free_decode(b: &[u8], bp: &str) -> PackageDefinition {
    let d: BlueprintDefinitionInit = scrypto_decode(b).expect("schema decode");
    let mut m = index_map_new();
    m.insert(bp.to_string(), d);
    PackageDefinition { blueprints: m }
}

pub fn address_env(names: &[(&'static str, String)]) -> String {
    names.iter().map(|(k, v)| format!("export {}={}\n", k, v)).collect()
}

impl World {
    /// Deploy. `Err` carries the address environment when the compiled-in constants do not match.
    pub fn deploy() -> Result<World, String> {
        let mut l = Ledger::genesis();
        l.set_time(T0);
        let mut actors = vec![];
        for i in 0..N_ACTORS {
            let k = Secp256k1PrivateKey::from_u64(7000 + i as u64).unwrap().public_key();
            actors.push(Actor {
                name: ACTOR_NAMES[i].to_string(),
                addr: ComponentAddress::virtual_account_from_public_key(&k),
                badge: NonFungibleGlobalId::from_public_key(&k),
            });
        }
        let admin = actors[ADMIN].clone();
        let go = |l: &mut Ledger, m: TransactionManifestV1, s: &[NonFungibleGlobalId]| -> Out {
            let o = l.exec(m, s, &TxOpts::default());
            if let Err(e) = &o.result {
                panic!("deploy step failed: {:?}", e)
            }
            o
        };
        let fungible = |l: &mut Ledger, owner: OwnerRole, div: u8, roles: FungibleResourceRoles, supply: Option<Decimal>| -> ResourceAddress {
            let m = ManifestBuilder::new().create_fungible_resource(owner, true, div, roles, metadata!(), supply).try_deposit_entire_worktop_or_abort(admin.addr, None).build();
            go(l, m, &[]).new_resources[0]
        };
        let owner = fungible(&mut l, OwnerRole::None, 0, Default::default(), Some(dec!(9)));
        let role = OwnerRole::Updatable(rule!(require_amount(dec!(1), owner)));
        let authority = fungible(&mut l, role.clone(), 18, Default::default(), Some(dec!(1)));
        let base_authority = fungible(&mut l, role.clone(), 18, Default::default(), Some(dec!(1)));
        let roles = |mint: AccessRule, burn: AccessRule| FungibleResourceRoles {
            mint_roles: mint_roles! { minter => mint; minter_updater => rule!(deny_all); },
            burn_roles: burn_roles! { burner => burn; burner_updater => rule!(deny_all); },
            ..Default::default()
        };
        let base = fungible(&mut l, role.clone(), 18, roles(rule!(require(base_authority)), rule!(allow_all)), None);
        let lp = fungible(&mut l, role.clone(), 18, roles(rule!(require(authority)), rule!(require(authority))), None);
        let protocol = fungible(&mut l, role.clone(), 18, FungibleResourceRoles { burn_roles: burn_roles! { burner => rule!(allow_all); burner_updater => rule!(deny_all); }, ..Default::default() }, Some(dec!(100000000)));
        let m = ManifestBuilder::new()
            .create_non_fungible_resource::<Vec<(NonFungibleLocalId, crate::mirror::ReferralData)>, crate::mirror::ReferralData>(
                role.clone(),
                NonFungibleIdType::RUID,
                true,
                NonFungibleResourceRoles {
                    mint_roles: mint_roles! { minter => rule!(require(authority)); minter_updater => rule!(deny_all); },
                    burn_roles: burn_roles! { burner => rule!(deny_all); burner_updater => OWNER; },
                    freeze_roles: freeze_roles! { freezer => rule!(deny_all); freezer_updater => OWNER; },
                    recall_roles: recall_roles! { recaller => rule!(deny_all); recaller_updater => OWNER; },
                    withdraw_roles: withdraw_roles! { withdrawer => rule!(deny_all); withdrawer_updater => OWNER; },
                    deposit_roles: None,
                    non_fungible_data_update_roles: non_fungible_data_update_roles! { non_fungible_data_updater => rule!(require(authority)); non_fungible_data_updater_updater => rule!(deny_all); },
                },
                metadata!(),
                None,
            )
            .build();
        let referral = go(&mut l, m, &[]).new_resources[0];
        let m = ManifestBuilder::new()
            .create_non_fungible_resource::<Vec<(NonFungibleLocalId, crate::mirror::RecoveryKeyData)>, crate::mirror::RecoveryKeyData>(
                role.clone(),
                NonFungibleIdType::RUID,
                true,
                NonFungibleResourceRoles {
                    mint_roles: mint_roles! { minter => rule!(require(authority)); minter_updater => rule!(deny_all); },
                    non_fungible_data_update_roles: non_fungible_data_update_roles! { non_fungible_data_updater => rule!(require(authority)); non_fungible_data_updater_updater => rule!(deny_all); },
                    ..Default::default()
                },
                metadata!(),
                None,
            )
            .build();
        let recovery = go(&mut l, m, &[]).new_resources[0];
        let reward = fungible(&mut l, role.clone(), 18, roles(rule!(require(authority)), rule!(allow_all)), None);
        // Outside tokens.
        let free = || roles(rule!(require(owner)), rule!(allow_all));
        let usda = fungible(&mut l, OwnerRole::None, 6, free(), Some(dec!(1000000000000)));
        let usdb = fungible(&mut l, OwnerRole::None, 18, free(), Some(dec!(1000000000000)));
        let btc = fungible(&mut l, OwnerRole::None, 8, free(), Some(dec!(1000000000)));
        let eth = fungible(&mut l, OwnerRole::None, 18, free(), Some(dec!(1000000000)));
        let junk = fungible(&mut l, OwnerRole::None, 18, free(), Some(dec!(1000000000)));

        let mut pkg = Map::new();
        let codes = vm::codes();
        let code = |n: &str| codes.iter().find(|c| c.blueprint == n).unwrap();
        let publish = |l: &mut Ledger, pkg: &mut Map<&'static str, PackageAddress>, n: &str| -> PackageAddress {
            let c = code(n);
            let p = l.publish_native(c.id, def(c));
            pkg.insert(c.blueprint, p);
            p
        };
        let p = publish(&mut l, &mut pkg, "TokenWrapper");
        let mut names: Vec<(&'static str, String)> = vec![];
        let enc = AddressBech32Encoder::for_simulator();
        macro_rules! nm {
            ($k:expr, $a:expr) => {
                names.push(($k, enc.encode(&$a.as_node_id().0).unwrap()))
            };
        }
        nm!("AUTHORITY_RESOURCE", authority);
        nm!("BASE_AUTHORITY_RESOURCE", base_authority);
        nm!("BASE_RESOURCE", base);
        nm!("LP_RESOURCE", lp);
        nm!("REFERRAL_RESOURCE", referral);
        nm!("RECOVERY_KEY_RESOURCE", recovery);
        nm!("PROTOCOL_RESOURCE", protocol);
        nm!("KEEPER_REWARD_RESOURCE", reward);
        let new = |l: &mut Ledger, p: PackageAddress, bp: &str| -> Out {
            go(l, ManifestBuilder::new().call_function(p, bp, "new", manifest_args!(role.clone())).build(), &[])
        };
        let p_or = publish(&mut l, &mut pkg, "Oracle");
        let m = ManifestBuilder::new().call_function(p_or, "Oracle", "new", manifest_args!(role.clone(), hashmap!(0u64 => oracle_key(0).public_key()))).build();
        let oracle = go(&mut l, m, &[]).new_components[0];
        let p_cfg = publish(&mut l, &mut pkg, "Config");
        let config = new(&mut l, p_cfg, "Config").new_components[0];
        let p_acc = publish(&mut l, &mut pkg, "MarginAccount");
        let p_pool = publish(&mut l, &mut pkg, "MarginPool");
        let pool = new(&mut l, p_pool, "MarginPool").new_components[0];
        let p_ref = publish(&mut l, &mut pkg, "ReferralGenerator");
        let refgen = new(&mut l, p_ref, "ReferralGenerator").new_components[0];
        let p_fd = publish(&mut l, &mut pkg, "FeeDistributor");
        let feedist = new(&mut l, p_fd, "FeeDistributor").new_components[0];
        let p_del = publish(&mut l, &mut pkg, "FeeDelegator");
        let o = new(&mut l, p_del, "FeeDelegator");
        let (feedel, oath) = (o.new_components[0], o.new_resources[0]);
        let p_perm = publish(&mut l, &mut pkg, "PermissionRegistry");
        let permreg = new(&mut l, p_perm, "PermissionRegistry").new_components[0];
        nm!("FEE_OATH_RESOURCE", oath);
        nm!("ORACLE_PACKAGE", p_or);
        nm!("CONFIG_PACKAGE", p_cfg);
        nm!("ACCOUNT_PACKAGE", p_acc);
        nm!("POOL_PACKAGE", p_pool);
        nm!("REFERRAL_GENERATOR_PACKAGE", p_ref);
        nm!("FEE_DISTRIBUTOR_PACKAGE", p_fd);
        nm!("FEE_DELEGATOR_PACKAGE", p_del);
        nm!("PERMISSION_REGISTRY_PACKAGE", p_perm);
        nm!("ORACLE_COMPONENT", oracle);
        nm!("CONFIG_COMPONENT", config);
        nm!("POOL_COMPONENT", pool);
        nm!("REFERRAL_GENERATOR_COMPONENT", refgen);
        nm!("FEE_DISTRIBUTOR_COMPONENT", feedist);
        nm!("FEE_DELEGATOR_COMPONENT", feedel);
        nm!("PERMISSION_REGISTRY_COMPONENT", permreg);
        use common::*;
        let same = _AUTHORITY_RESOURCE == authority
            && _BASE_AUTHORITY_RESOURCE == base_authority
            && _BASE_RESOURCE == base
            && _LP_RESOURCE == lp
            && _REFERRAL_RESOURCE == referral
            && _RECOVERY_KEY_RESOURCE == recovery
            && _PROTOCOL_RESOURCE == protocol
            && _KEEPER_REWARD_RESOURCE == reward
            && _FEE_OATH_RESOURCE == oath
            && ORACLE_PACKAGE == p_or
            && CONFIG_PACKAGE == p_cfg
            && MARGIN_ACCOUNT_PACKAGE == p_acc
            && MARGIN_POOL_PACKAGE == p_pool
            && REFERRAL_GENERATOR_PACKAGE == p_ref
            && FEE_DISTRIBUTOR_PACKAGE == p_fd
            && FEE_DELEGATOR_PACKAGE == p_del
            && PERMISSION_REGISTRY_PACKAGE == p_perm
            && _ORACLE_COMPONENT == oracle
            && _CONFIG_COMPONENT == config
            && _POOL_COMPONENT == pool
            && _REFERRAL_GENERATOR_COMPONENT == refgen
            && _FEE_DISTRIBUTOR_COMPONENT == feedist
            && _FEE_DELEGATOR_COMPONENT == feedel
            && _PERMISSION_REGISTRY_COMPONENT == permreg;
        if !same {
            return Err(address_env(&names));
        }
        let m = ManifestBuilder::new()
            .withdraw_from_account(admin.addr, base_authority, dec!(1))
            .take_all_from_worktop(base_authority, "a")
            .with_bucket("a", |m, b| m.call_function(p, "TokenWrapper", "new", manifest_args!(role.clone(), b)))
            .build();
        let wrapper = go(&mut l, m, &[admin.badge.clone()]).new_components[0];
        let p_ex = publish(&mut l, &mut pkg, "Exchange");
        let m = ManifestBuilder::new()
            .withdraw_from_account(admin.addr, authority, dec!(1))
            .take_all_from_worktop(authority, "a")
            .with_bucket("a", |m, b| m.call_function(p_ex, "Exchange", "new", manifest_args!(role.clone(), b, None::<ManifestAddressReservation>)))
            .build();
        let exchange = go(&mut l, m, &[admin.badge.clone()]).new_components[0];
        let m = ManifestBuilder::new()
            .create_proof_from_account_of_amount(admin.addr, owner, dec!(1))
            .set_metadata(exchange, "dapp_definition", MetadataValue::GlobalAddress(admin.addr.into()))
            .call_method(wrapper, "add_input", manifest_args!(usda))
            .call_method(wrapper, "add_input", manifest_args!(usdb))
            .build();
        go(&mut l, m, &[admin.badge.clone()]);
        // Starting balances.
        let mut mb = ManifestBuilder::new()
            .withdraw_from_account(admin.addr, usda, dec!(500000000000))
            .withdraw_from_account(admin.addr, usdb, dec!(500000000000))
            .withdraw_from_account(admin.addr, btc, dec!(100000000))
            .withdraw_from_account(admin.addr, eth, dec!(100000000))
            .withdraw_from_account(admin.addr, junk, dec!(100000000))
            .withdraw_from_account(admin.addr, protocol, dec!(50000000));
        for (i, a) in actors.iter().enumerate().take(N_SENDERS).skip(1) {
            let n = |s: &str| format!("{}{}", s, i);
            mb = mb
                .take_from_worktop(usda, dec!(11000000000), n("a"))
                .take_from_worktop(usdb, dec!(11000000000), n("b"))
                .take_from_worktop(btc, dec!(2000000), n("c"))
                .take_from_worktop(eth, dec!(2000000), n("d"))
                .take_from_worktop(junk, dec!(2000000), n("e"))
                .take_from_worktop(protocol, dec!(1000000), n("f"))
                .with_bucket(n("a"), |m, c| m.call_method(wrapper, "wrap", manifest_args!(c)))
                .take_all_from_worktop(base, n("g"))
                .try_deposit_or_abort(a.addr, None, n("g"))
                .try_deposit_or_abort(a.addr, None, n("b"))
                .try_deposit_or_abort(a.addr, None, n("c"))
                .try_deposit_or_abort(a.addr, None, n("d"))
                .try_deposit_or_abort(a.addr, None, n("e"))
                .try_deposit_or_abort(a.addr, None, n("f"));
        }
        let m = mb.try_deposit_entire_worktop_or_abort(admin.addr, None).build();
        go(&mut l, m, &[admin.badge.clone()]);
        // XRD for everyone, and some for the fee delegator.
        for a in actors.iter().take(N_SENDERS) {
            let m = ManifestBuilder::new().get_free_xrd_from_faucet().try_deposit_entire_worktop_or_abort(a.addr, None).build();
            go(&mut l, m, &[]);
        }
        let m = ManifestBuilder::new()
            .create_proof_from_account_of_amount(admin.addr, owner, dec!(1))
            .get_free_xrd_from_faucet()
            .take_all_from_worktop(XRD, "x")
            .with_bucket("x", |m, b| m.call_method(feedel, "deposit", manifest_args!(b)))
            .build();
        go(&mut l, m, &[admin.badge.clone()]);
        let r = actors[REFUSER].clone();
        let m = ManifestBuilder::new().call_method(r.addr, ACCOUNT_SET_DEFAULT_DEPOSIT_RULE_IDENT, AccountSetDefaultDepositRuleInput { default: DefaultDepositRule::Reject }).build();
        go(&mut l, m, &[r.badge.clone()]);
        let p_fau = publish(&mut l, &mut pkg, "Faucet");
        let m = ManifestBuilder::new().call_function(p_fau, "Faucet", "new", manifest_args!()).try_deposit_entire_worktop_or_abort(admin.addr, None).build();
        let o = go(&mut l, m, &[]);
        let faucet = o.new_components[0];
        let symbol = |l: &Ledger, r: ResourceAddress| -> String {
            let m = ManifestBuilder::new().call_metadata_method(r, "get", manifest_args!("symbol")).build();
            match l.clone().exec(m, &[], &TxOpts::default()).output::<Option<MetadataValue>>(0) {
                Some(MetadataValue::String(s)) => s,
                _ => String::new(),
            }
        };
        let named: Vec<(String, ResourceAddress)> = o.new_resources.iter().map(|r| (symbol(&l, *r), *r)).collect();
        let find = |s: &str| named.iter().find(|x| x.0 == s).unwrap_or_else(|| panic!("faucet token {} not created", s)).1;
        let faucet_owner = find("FOT");
        let ftok = [find("xwBTC"), find("xETH"), find("xUSDC"), find("xUSDT")];
        let p_env = publish(&mut l, &mut pkg, "EnvRegistry");
        let env = new(&mut l, p_env, "EnvRegistry").new_components[0];
        let data = |i: usize| crate::mirror::ReferralData { name: "x".into(), description: "x".into(), key_image_url: UncheckedUrl::of("https://x.y"), fee_referral: dec!("0.1"), fee_rebate: dec!("0.1"), referrals: 0, max_referrals: 1000, balance: Decimal::from(i as u64), total_rewarded: dec!(0) };
        let mut mb = ManifestBuilder::new().create_non_fungible_resource(
            OwnerRole::None,
            NonFungibleIdType::Integer,
            true,
            Default::default(),
            metadata!(),
            Some((1..N_SENDERS).map(|i| (NonFungibleLocalId::integer(i as u64), data(i))).collect::<Vec<_>>()),
        );
        // (The address of a new resource is not known inside the transaction that makes it.)
        mb = mb.try_deposit_entire_worktop_or_abort(admin.addr, None);
        let badges = go(&mut l, mb.build(), &[]).new_resources[0];
        let mut mb = ManifestBuilder::new().withdraw_non_fungibles_from_account(admin.addr, badges, (1..N_SENDERS).map(|i| NonFungibleLocalId::integer(i as u64)));
        for (i, a) in actors.iter().enumerate().take(N_SENDERS).skip(1) {
            let n = format!("n{}", i);
            // One of the accounts refuses deposits by strangers, so its owner signs too.
            mb = mb.take_non_fungibles_from_worktop(badges, [NonFungibleLocalId::integer(i as u64)], n.clone()).with_bucket(n, |m, b| m.deposit(a.addr, b));
        }
        let signers: Vec<NonFungibleGlobalId> = actors.iter().map(|a| a.badge.clone()).collect();
        go(&mut l, mb.build(), &signers);
        let p_rog = publish(&mut l, &mut pkg, "Rogue");
        let evil = actors[EVIL].addr;
        let wants: Vec<Vec<u8>> = vec![
            Req::Remove(Removal { target: evil, claims: vec![(base, dec!(100))] }),
            Req::Order(Order { pair: "BTC/USD".into(), amount: dec!("0.001"), reduce_only: false, price_limit: PriceLimit::None, slip: SlipLimit::None, activate: vec![], cancel: vec![] }),
            Req::Remove(Removal { target: evil, claims: vec![(base, dec!("0.5"))] }),
        ]
        .iter()
        .map(|r| scrypto_encode(r).unwrap())
        .collect();
        let mut imitate = |balance: Decimal, pos: BTreeMap<String, (Decimal, Decimal)>, coll: BTreeMap<ResourceAddress, Decimal>, status_from: i64| -> ComponentAddress {
            let m = ManifestBuilder::new().call_function(p_rog, "Rogue", "new", manifest_args!(balance, pos, coll, wants.clone(), Instant::new(status_from), Instant::new(i64::MAX / 4))).build();
            go(&mut l, m, &[]).new_components[0]
        };
        let rogue = [
            imitate(dec!(1000000), BTreeMap::new(), BTreeMap::new(), 0),
            imitate(dec!(-10), BTreeMap::new(), btreemap!(btc => dec!("0.001")), 0),
            imitate(dec!(1000), btreemap!("BTC/USD".to_string() => (dec!(1), dec!(-1))), BTreeMap::new(), 0),
        ];
        // Accounts that only receive.
        let (pk, ho) = (actors[PICKY].clone(), actors[HOLDER].clone());
        let m = ManifestBuilder::new()
            .call_method(pk.addr, ACCOUNT_SET_DEFAULT_DEPOSIT_RULE_IDENT, AccountSetDefaultDepositRuleInput { default: DefaultDepositRule::Reject })
            .call_method(pk.addr, ACCOUNT_ADD_AUTHORIZED_DEPOSITOR, AccountAddAuthorizedDepositorInput { badge: ResourceOrNonFungible::Resource(authority) })
            .build();
        go(&mut l, m, &[pk.badge.clone()]);
        let m = ManifestBuilder::new()
            .withdraw_from_account(admin.addr, usda, dec!(1))
            .withdraw_from_account(admin.addr, btc, dec!(1))
            .take_all_from_worktop(usda, "a")
            .with_bucket("a", |m, c| m.call_method(wrapper, "wrap", manifest_args!(c)))
            .try_deposit_entire_worktop_or_abort(ho.addr, None)
            .call_method(ho.addr, ACCOUNT_SET_DEFAULT_DEPOSIT_RULE_IDENT, AccountSetDefaultDepositRuleInput { default: DefaultDepositRule::AllowExisting })
            .build();
        go(&mut l, m, &[admin.badge.clone(), ho.badge.clone()]);
        l.freeze();
        Ok(World {
            l,
            actors,
            owner,
            authority,
            base_authority,
            base,
            lp,
            protocol,
            referral,
            recovery,
            reward,
            oath,
            usda,
            usdb,
            btc,
            eth,
            junk,
            pkg,
            wrapper,
            oracle,
            config,
            pool,
            refgen,
            feedist,
            feedel,
            permreg,
            exchange,
            faucet,
            faucet_owner,
            ftok,
            env,
            badges,
            rogue,
            now: T0,
        })
    }
}
