//! The simulated ledger: a real Radix Engine over an in-memory substate store, a clock the simulator
//! owns, and the native package VM. One `Ledger` is one process-local universe; it is `Clone`.
use crate::vm::{Ext, ABORT_AT, HOST_CALLS, INJECTED};
use radix_common::prelude::*;
use radix_engine::blueprints::consensus_manager::*;
use radix_engine::errors::{ApplicationError, RuntimeError, SystemModuleError};
use radix_engine::system::bootstrap::Bootstrapper;
use radix_engine::system::system_db_reader::{SystemDatabaseReader, SystemDatabaseWriter};
use radix_engine::system::system_substates::FieldSubstate;
use radix_engine::transaction::*;
use radix_engine::updates::ProtocolBuilder;
use radix_engine::vm::wasm::{DefaultWasmEngine, WasmValidatorConfigV1};
use radix_engine::vm::{ScryptoVm, Vm, VmInit};
use radix_engine_interface::api::ModuleId;
use radix_engine_interface::blueprints::package::*;
use radix_engine_interface::prelude::*;
use radix_substate_store_impls::memory_db::InMemorySubstateDatabase;
use radix_substate_store_interface::db_key_mapper::{MappedSubstateDatabase, SpreadPrefixKeyMapper};
use radix_substate_store_interface::interface::{CommittableSubstateDatabase, SubstateDatabase, DbPartitionKey, DbSortKey, DbSubstateValue, PartitionEntry, DatabaseUpdates, NodeDatabaseUpdates, PartitionDatabaseUpdates, DatabaseUpdate};
use radix_transactions::model::*;
use radix_transactions::prelude::*;
use radix_engine_interface::blueprints::transaction_processor::InstructionOutput;
use std::collections::BTreeSet;
use std::sync::Arc;

/// Copy-on-write store: an immutable shared base plus this run's own writes.
#[derive(Clone)]
pub struct Db {
    base: Arc<InMemorySubstateDatabase>,
    over: BTreeMap<DbPartitionKey, (bool, BTreeMap<DbSortKey, Option<DbSubstateValue>>)>,
}
impl Db {
    fn new(base: InMemorySubstateDatabase) -> Self {
        Db { base: Arc::new(base), over: BTreeMap::new() }
    }
}
impl SubstateDatabase for Db {
    fn get_substate(&self, p: &DbPartitionKey, s: &DbSortKey) -> Option<DbSubstateValue> {
        if let Some((reset, m)) = self.over.get(p) {
            if let Some(v) = m.get(s) {
                return v.clone();
            }
            if *reset {
                return None;
            }
        }
        self.base.get_substate(p, s)
    }
    fn list_entries_from(&self, p: &DbPartitionKey, from: Option<&DbSortKey>) -> Box<dyn Iterator<Item = PartitionEntry> + '_> {
        let mut all: BTreeMap<DbSortKey, DbSubstateValue> = BTreeMap::new();
        let o = self.over.get(p);
        if !o.map(|o| o.0).unwrap_or(false) {
            all.extend(self.base.list_entries_from(p, from));
        }
        if let Some((_, m)) = o {
            for (k, v) in m {
                if from.map(|f| k < f).unwrap_or(false) {
                    continue;
                }
                match v {
                    Some(v) => { all.insert(k.clone(), v.clone()); }
                    None => { all.remove(k); }
                }
            }
        }
        Box::new(all.into_iter())
    }
}
impl CommittableSubstateDatabase for Db {
    fn commit(&mut self, u: &DatabaseUpdates) {
        for (node_key, NodeDatabaseUpdates { partition_updates }) in &u.node_updates {
            for (num, pu) in partition_updates {
                let k = DbPartitionKey { node_key: node_key.clone(), partition_num: *num };
                let e = self.over.entry(k).or_default();
                match pu {
                    PartitionDatabaseUpdates::Delta { substate_updates } => {
                        for (s, up) in substate_updates {
                            e.1.insert(s.clone(), match up { DatabaseUpdate::Set(v) => Some(v.clone()), DatabaseUpdate::Delete => None });
                        }
                    }
                    PartitionDatabaseUpdates::Reset { new_substate_values } => {
                        e.0 = true;
                        e.1 = new_substate_values.iter().map(|(s, v)| (s.clone(), Some(v.clone()))).collect();
                    }
                }
            }
        }
    }
}

#[derive(Debug, Clone, PartialEq)]
pub enum Fail {
    /// Rejected before commit (fees could not be paid).
    Rejected(String),
    /// Aborted by the blueprint code (panic/assert), with its message.
    App(String),
    /// The engine refused: authorisation.
    Auth(String),
    /// Out of execution/finalisation budget.
    Cost(String),
    /// Injected by the simulator.
    Injected,
    /// Any other engine refusal.
    Engine(String),
}
impl Fail {
    pub fn kind(&self) -> &'static str {
        match self {
            Fail::Rejected(_) => "rejected",
            Fail::App(_) => "app",
            Fail::Auth(_) => "auth",
            Fail::Cost(_) => "cost",
            Fail::Injected => "injected",
            Fail::Engine(_) => "engine",
        }
    }
}

pub struct Out {
    pub result: Result<Vec<Option<Vec<u8>>>, Fail>,
    pub events: Vec<(NodeId, String, Vec<u8>)>,
    pub host_calls: u64,
    pub new_components: Vec<ComponentAddress>,
    pub new_resources: Vec<ResourceAddress>,
    pub new_packages: Vec<PackageAddress>,
    pub fee: Decimal,
    /// Net change of every vault the transaction touched (after a failure: fees only).
    pub vaults: Vec<(NodeId, ResourceAddress, BalanceChange)>,
    /// Every node with a committed substate change.
    pub touched: Vec<NodeId>,
}
impl Out {
    pub fn ok(&self) -> bool {
        self.result.is_ok()
    }
    pub fn output<T: ScryptoDecode>(&self, i: usize) -> T {
        let o = self.result.as_ref().expect("tx ok")[i].as_ref().expect("call return");
        scrypto_decode(o).expect("decode output")
    }
    pub fn try_output<T: ScryptoDecode>(&self, i: usize) -> Option<T> {
        scrypto_decode(self.result.as_ref().ok()?.get(i)?.as_ref()?).ok()
    }
}

#[derive(Clone, Debug, Default)]
pub struct TxOpts {
    /// Abort at this blueprint host call (0 = never).
    pub abort_at: u64,
    /// Real fee accounting (the transaction must lock a fee itself).
    pub costing: bool,
    /// Execution cost unit limit under real costing.
    pub cost_limit: Option<u32>,
}

#[derive(Clone)]
pub struct Ledger {
    pub db: Db,
    pub nonce: u32,
    /// Rolling hash of every committed state update: two runs with equal trails are the same execution.
    pub trail: Hash,
    pub txs: u64,
}

fn scrypto_vm() -> &'static ScryptoVm<DefaultWasmEngine> {
    use std::sync::OnceLock;
    static V: OnceLock<ScryptoVm<DefaultWasmEngine>> = OnceLock::new();
    V.get_or_init(|| ScryptoVm { wasm_engine: DefaultWasmEngine::default(), wasm_validator_config: WasmValidatorConfigV1::new() })
}

impl Ledger {
    pub fn genesis() -> Self {
        let mut db = InMemorySubstateDatabase::standard();
        let vm_init = VmInit { scrypto_vm: scrypto_vm(), native_vm_extension: Ext };
        Bootstrapper::new(NetworkDefinition::simulator(), &mut db, vm_init, false).bootstrap_test_default().unwrap();
        ProtocolBuilder::for_network(&NetworkDefinition::simulator()).until_latest_protocol_version().commit_each_protocol_update(&mut db);
        Ledger { db: Db::new(db), nonce: 100, trail: Hash([0; 32]), txs: 0 }
    }

    /// Fold this ledger's own writes into a new shared base.
    pub fn freeze(&mut self) {
        let mut b = (*self.db.base).clone();
        let mut u = DatabaseUpdates::default();
        for (k, (reset, m)) in std::mem::take(&mut self.db.over) {
            let n = u.node_updates.entry(k.node_key).or_default();
            let pu = if reset {
                PartitionDatabaseUpdates::Reset { new_substate_values: m.into_iter().filter_map(|(k, v)| v.map(|v| (k, v))).collect() }
            } else {
                PartitionDatabaseUpdates::Delta { substate_updates: m.into_iter().map(|(k, v)| (k, match v { Some(v) => DatabaseUpdate::Set(v), None => DatabaseUpdate::Delete })).collect() }
            };
            n.partition_updates.insert(k.partition_num, pu);
        }
        b.commit(&u);
        self.db.base = Arc::new(b);
    }

    fn run(&mut self, exe: &Executable, cfg: &ExecutionConfig, abort_at: u64) -> Out {
        HOST_CALLS.with(|c| c.set(0));
        ABORT_AT.with(|a| a.set(abort_at));
        let vm_init = VmInit { scrypto_vm: scrypto_vm(), native_vm_extension: Ext };
        let r = execute_transaction_with_configuration::<_, Vm<'_, DefaultWasmEngine, Ext>>(&self.db, vm_init, cfg, exe);
        ABORT_AT.with(|a| a.set(0));
        self.txs += 1;
        let mut out = Out {
            result: Err(Fail::Rejected(String::new())),
            events: vec![],
            host_calls: HOST_CALLS.with(|c| c.get()),
            new_components: vec![],
            new_resources: vec![],
            new_packages: vec![],
            fee: r.fee_summary.total_cost(),
            vaults: vec![],
            touched: vec![],
        };
        match r.result {
            TransactionResult::Commit(c) => {
                let u = c.state_updates.create_database_updates::<SpreadPrefixKeyMapper>();
                self.db.commit(&u);
                let mut h = self.trail.0.to_vec();
                h.extend(scrypto_encode(&u).unwrap());
                self.trail = hash(h);
                out.new_components = c.new_component_addresses().iter().copied().collect();
                out.new_resources = c.new_resource_addresses().iter().copied().collect();
                out.vaults = c.state_update_summary.vault_balance_changes.iter().map(|(n, (r, b))| (*n, *r, b.clone())).collect();
                out.touched = c.state_updates.by_node.keys().copied().collect();
                out.new_packages = c.new_package_addresses().iter().copied().collect();
                for (EventTypeIdentifier(em, name), d) in c.application_events.iter() {
                    let n = match em {
                        Emitter::Method(n, _) => *n,
                        Emitter::Function(b) => b.package_address.into_node_id(),
                    };
                    out.events.push((n, name.clone(), d.clone()));
                }
                out.result = match c.outcome {
                    TransactionOutcome::Success(v) => Ok(v.into_iter().map(|o| match o { InstructionOutput::CallReturn(b) => Some(b), InstructionOutput::None => None }).collect()),
                    TransactionOutcome::Failure(e) => Err(classify(e)),
                };
            }
            TransactionResult::Reject(e) => out.result = Err(Fail::Rejected(format!("{:?}", e.reason))),
            TransactionResult::Abort(e) => out.result = Err(Fail::Rejected(format!("{:?}", e.reason))),
        }
        out
    }

    pub fn system(&mut self, instructions: Vec<InstructionV1>, proofs: BTreeSet<NonFungibleGlobalId>) -> Out {
        self.nonce += 1;
        let p = SystemTransactionV1 {
            instructions: InstructionsV1(instructions),
            blobs: BlobsV1 { blobs: vec![] },
            hash_for_execution: hash(format!("Sim system txn: {}", self.nonce)),
            pre_allocated_addresses: vec![],
        }
        .prepare()
        .unwrap();
        self.run(&p.get_executable(proofs), &ExecutionConfig::for_system_transaction(NetworkDefinition::simulator()), 0)
    }

    pub fn publish_native(&mut self, code_id: u64, definition: PackageDefinition) -> PackageAddress {
        let r = self.system(
            vec![InstructionV1::CallFunction {
                package_address: DynamicPackageAddress::Static(PACKAGE_PACKAGE),
                blueprint_name: PACKAGE_BLUEPRINT.to_string(),
                function_name: PACKAGE_PUBLISH_NATIVE_IDENT.to_string(),
                args: to_manifest_value_and_unwrap!(&PackagePublishNativeManifestInput {
                    definition,
                    native_package_code_id: code_id,
                    metadata: MetadataInit::default(),
                    package_address: None,
                }),
            }],
            btreeset!(AuthAddresses::system_role()),
        );
        if let Err(e) = &r.result {
            panic!("publish: {:?}", e)
        }
        r.output(0)
    }

    pub fn exec(&mut self, manifest: TransactionManifestV1, signers: &[NonFungibleGlobalId], opts: &TxOpts) -> Out {
        self.nonce += 1;
        let p = TestTransaction::new_from_nonce(manifest, self.nonce).prepare().expect("prepare");
        let exe = p.get_executable(signers.iter().cloned().collect());
        let mut ov = SystemOverrides::with_network(NetworkDefinition::simulator());
        ov.disable_costing = !opts.costing;
        if let Some(l) = opts.cost_limit {
            let mut cp = CostingParameters::babylon_genesis();
            cp.execution_cost_unit_limit = l;
            ov.costing_parameters = Some(cp);
        }
        let cfg = ExecutionConfig { system_overrides: Some(ov), ..ExecutionConfig::default() };
        self.run(&exe, &cfg, opts.abort_at)
    }

    pub fn set_time(&mut self, secs: i64) {
        let milli = secs * 1000;
        let mut w = SystemDatabaseWriter::new(&mut self.db);
        w.write_typed_object_field(
            CONSENSUS_MANAGER.as_node_id(),
            ModuleId::Main,
            ConsensusManagerField::ProposerMilliTimestamp.field_index(),
            ConsensusManagerProposerMilliTimestampFieldPayload::from_latest_version(ProposerMilliTimestampSubstate { epoch_milli: milli }),
        )
        .unwrap();
        w.write_typed_object_field(
            CONSENSUS_MANAGER.as_node_id(),
            ModuleId::Main,
            ConsensusManagerField::ProposerMinuteTimestamp.field_index(),
            ConsensusManagerProposerMinuteTimestampFieldPayload::from_latest_version(ProposerMinuteTimestampSubstate { epoch_minute: secs.div_euclid(60) as i32 }),
        )
        .unwrap();
    }

    pub fn state<T: ScryptoDecode>(&self, c: ComponentAddress) -> T {
        self.db
            .get_mapped::<SpreadPrefixKeyMapper, FieldSubstate<T>>(c.as_node_id(), MAIN_BASE_PARTITION, &radix_engine_interface::types::SubstateKey::Field(ComponentField::State0.into()))
            .expect("component state")
            .into_payload()
    }

    pub fn reader(&self) -> SystemDatabaseReader<'_, Db> {
        SystemDatabaseReader::new(&self.db)
    }

    pub fn kv<K: ScryptoEncode, V: ScryptoDecode>(&self, store: &NodeId, k: &K) -> Option<V> {
        let key = MapKey::from(scrypto_encode(k).unwrap());
        let mk = radix_engine_interface::types::SubstateKey::Map(key);
        self.db
            .get_mapped::<SpreadPrefixKeyMapper, radix_engine::system::system_substates::KeyValueEntrySubstate<V>>(store, MAIN_BASE_PARTITION, &mk)
            .and_then(|e| e.into_value())
    }

    pub fn kv_all<K: ScryptoDecode, V: ScryptoDecode>(&self, store: &NodeId) -> Vec<(K, V)> {
        use radix_substate_store_interface::db_key_mapper::DatabaseKeyMapper;
        let pk = SpreadPrefixKeyMapper::to_db_partition_key(store, MAIN_BASE_PARTITION);
        self.db
            .list_entries_from(&pk, None)
            .filter_map(|(sk, v)| {
                let k = SpreadPrefixKeyMapper::map_from_db_sort_key(&sk);
                let e: radix_engine::system::system_substates::KeyValueEntrySubstate<V> = scrypto_decode(&v).ok()?;
                Some((scrypto_decode(&k).ok()?, e.into_value()?))
            })
            .collect()
    }

    /// Balance of a fungible vault.
    pub fn vault_amount(&self, vault: &NodeId) -> Decimal {
        use radix_engine::blueprints::resource::*;
        self.reader()
            .read_typed_object_field::<FungibleVaultBalanceFieldPayload>(vault, ModuleId::Main, FungibleVaultField::Balance.into())
            .map(|p| p.fully_update_and_into_latest_version().amount())
            .unwrap_or(Decimal::ZERO)
    }

    pub fn supply(&self, r: ResourceAddress) -> Decimal {
        use radix_engine::blueprints::resource::*;
        self.reader()
            .read_typed_object_field::<FungibleResourceManagerTotalSupplyFieldPayload>(r.as_node_id(), ModuleId::Main, FungibleResourceManagerField::TotalSupply.into())
            .unwrap()
            .fully_update_and_into_latest_version()
    }
}

fn classify(e: RuntimeError) -> Fail {
    match e {
        RuntimeError::ApplicationError(ApplicationError::PanicMessage(m)) => {
            if m == INJECTED { Fail::Injected } else { Fail::App(m) }
        }
        RuntimeError::SystemModuleError(SystemModuleError::AuthError(a)) => Fail::Auth(format!("{:?}", a)),
        RuntimeError::SystemModuleError(SystemModuleError::CostingError(c)) => Fail::Cost(format!("{:?}", c)),
        e => Fail::Engine(format!("{:?}", e)),
    }
}

pub fn dec_string(d: Decimal) -> String {
    d.to_string()
}
