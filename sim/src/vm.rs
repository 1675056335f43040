//! Native execution of the Scrypto blueprints inside the real Radix Engine.
//!
//! The blueprint crates of /repo are compiled for the host (no wasm). Each of the calls a blueprint
//! makes into the engine goes through the engine's own `ScryptoRuntime` (the very object that serves
//! a wasm instance), so auth, locking, object ownership, vault arithmetic, events and rollback are
//! those of the real engine.
use radix_engine::errors::*;
use radix_common::prelude::*;
use radix_engine_interface::prelude::*;
use radix_engine::kernel::kernel_api::{KernelNodeApi, KernelSubstateApi};
use radix_engine::system::system_callback::SystemLockData;
use radix_engine::vm::wasm::{WasmRuntime, WasmRuntimeError};
use radix_engine::vm::wasm_runtime::ScryptoRuntime;
use radix_engine::vm::{NativeVmExtension, VmApi, VmInvoke};
use radix_engine_interface::api::actor_api::EventFlags;
use radix_engine_interface::api::ClientApi;
use scrypto::engine::wasm_api::native::{self, Export, NativeHost};
use scrypto::engine::wasm_api::{Buffer as SBuffer, Slice};
use std::cell::{Cell, RefCell};
use std::collections::HashMap as StdHashMap;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::OnceLock;

/// A blueprint package: code id, blueprint name, export table and schema function.
pub struct Code {
    pub id: u64,
    pub blueprint: &'static str,
    pub exports: fn() -> Vec<(&'static str, Export)>,
    pub schema: fn() -> Slice,
}

macro_rules! codes {
    ($($n:expr => $bp:ident $exp:ident $sch:ident),* $(,)?) => {
        extern "Rust" { $(fn $exp() -> Vec<(&'static str, Export)>;)* }
        extern "C-unwind" { $(fn $sch() -> Slice;)* }
        pub fn codes() -> Vec<Code> {
            vec![$(Code {
                id: 0x5347_0000 + $n,
                blueprint: stringify!($bp),
                exports: || unsafe { $exp() },
                schema: || unsafe { $sch() },
            }),*]
        }
    };
}
codes! {
    0 => Exchange Exchange_native_exports Exchange_schema,
    1 => MarginAccount MarginAccount_native_exports MarginAccount_schema,
    2 => MarginPool MarginPool_native_exports MarginPool_schema,
    3 => Config Config_native_exports Config_schema,
    4 => Oracle Oracle_native_exports Oracle_schema,
    5 => ReferralGenerator ReferralGenerator_native_exports ReferralGenerator_schema,
    6 => PermissionRegistry PermissionRegistry_native_exports PermissionRegistry_schema,
    7 => FeeDelegator FeeDelegator_native_exports FeeDelegator_schema,
    8 => FeeDistributor FeeDistributor_native_exports FeeDistributor_schema,
    9 => TokenWrapper TokenWrapper_native_exports TokenWrapper_schema,
    10 => EnvRegistry EnvRegistry_native_exports EnvRegistry_schema,
    11 => Faucet Faucet_native_exports Faucet_schema,
    12 => Rogue Rogue_native_exports Rogue_schema,
}
extern crate account as _;
extern crate config as _;
extern crate env_registry as _;
extern crate exchange as _;
extern crate faucet as _;
extern crate fee_delegator as _;
extern crate fee_distributor as _;
extern crate oracle as _;
extern crate permission_registry as _;
extern crate pool as _;
extern crate referral_generator as _;
extern crate token_wrapper as _;

pub fn schema_of(code: &Code) -> Vec<u8> {
    (code.schema)();
    native::RETURN.with(|r| r.borrow_mut().take()).expect("schema")
}

fn table() -> &'static StdHashMap<u64, StdHashMap<&'static str, Export>> {
    static T: OnceLock<StdHashMap<u64, StdHashMap<&'static str, Export>>> = OnceLock::new();
    T.get_or_init(|| {
        codes()
            .iter()
            .map(|c| (c.id, (c.exports)().into_iter().collect()))
            .collect()
    })
}

const MAX_HOST_CALLS: u64 = 300_000;

thread_local! {
    static PENDING: RefCell<Option<RuntimeError>> = RefCell::new(None);
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
    static QUIET: Cell<bool> = Cell::new(false);
    /// Number of host calls made by blueprint code in the current transaction.
    pub static HOST_CALLS: Cell<u64> = Cell::new(0);
    /// Abort the transaction at this host call (fault injection); 0 = off.
    pub static ABORT_AT: Cell<u64> = Cell::new(0);
    /// Edge coverage: (blueprint fn) seen.
    pub static CALLED: RefCell<std::collections::BTreeMap<String, u64>> = RefCell::new(Default::default());
}

/// Payload of an unwinding caused by the engine refusing a host call.
struct HostAbort;

pub const INJECTED: &str = "SIM-INJECTED-ABORT";

pub fn install_panic_hook() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        let mut m = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "Panic".to_string()
        };
        if let Some(l) = info.location() {
            m.push_str(&format!(" @ {}:{}:{}", l.file(), l.line(), l.column()));
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = m);
        if !QUIET.with(|q| q.get()) {
            default(info);
        }
    }));
}

struct Host<'a> {
    rt: Box<dyn WasmRuntime + 'a>,
}

impl<'a> Host<'a> {
    fn tick(&mut self) {
        let n = HOST_CALLS.with(|c| {
            let n = c.get() + 1;
            c.set(n);
            n
        });
        if ABORT_AT.with(|a| a.get()) == n {
            let r = self.rt.sys_panic(INJECTED.as_bytes().to_vec());
            self.out(r)
        }
        // On the ledger an endless loop runs out of cost units.
        if n > MAX_HOST_CALLS {
            let r = self.rt.sys_panic(b"simulator: more host calls than any transaction can pay for".to_vec());
            self.out(r)
        }
    }
    fn out<T>(&mut self, r: Result<T, InvokeError<WasmRuntimeError>>) -> T {
        match r {
            Ok(v) => v,
            Err(e) => {
                let e: RuntimeError = e.into();
                PENDING.with(|p| *p.borrow_mut() = Some(e));
                resume_unwind(Box::new(HostAbort))
            }
        }
    }
}

macro_rules! fwd {
    ($(fn $name:ident($($a:ident: $t:ty),*) -> Buffer = $to:ident;)*) => {
        $(fn $name(&mut self, $($a: $t),*) -> SBuffer {
            self.tick();
            let r = self.rt.$to($($a),*);
            SBuffer(self.out(r).0)
        })*
    };
}
macro_rules! fwdv {
    ($(fn $name:ident($($a:ident: $t:ty),*) -> $r:ty = $to:ident;)*) => {
        $(fn $name(&mut self, $($a: $t),*) -> $r {
            self.tick();
            let r = self.rt.$to($($a),*);
            self.out(r)
        })*
    };
}
type B = Vec<u8>;
impl<'a> NativeHost for Host<'a> {
    fwd! {
        fn blueprint_call(p: B, b: B, i: B, a: B) -> Buffer = blueprint_call;
        fn address_allocate(p: B, b: B) -> Buffer = address_allocate;
        fn address_get_reservation_address(a: B) -> Buffer = address_get_reservation_address;
        fn object_new(b: B, f: B) -> Buffer = object_new;
        fn object_globalize(o: B, m: B, a: B) -> Buffer = globalize_object;
        fn object_get_blueprint_id(o: B) -> Buffer = blueprint_id;
        fn object_get_outer_object(o: B) -> Buffer = get_outer_object;
        fn object_call(o: B, i: B, a: B) -> Buffer = object_call;
        fn object_call_direct(o: B, i: B, a: B) -> Buffer = object_call_direct;
        fn object_call_module(o: B, m: u32, i: B, a: B) -> Buffer = object_call_module;
        fn actor_get_package_address() -> Buffer = actor_get_package_address;
        fn actor_get_blueprint_name() -> Buffer = actor_get_blueprint_name;
        fn actor_get_object_id(h: u32) -> Buffer = actor_get_node_id;
        fn kv_store_new(s: B) -> Buffer = key_value_store_new;
        fn kv_store_remove_entry(n: B, k: B) -> Buffer = key_value_store_remove_entry;
        fn kv_entry_read(h: u32) -> Buffer = key_value_entry_get;
        fn kv_entry_remove(h: u32) -> Buffer = key_value_entry_remove;
        fn field_entry_read(h: u32) -> Buffer = field_entry_read;
        fn costing_get_execution_cost_unit_price() -> Buffer = costing_get_execution_cost_unit_price;
        fn costing_get_finalization_cost_unit_price() -> Buffer = costing_get_finalization_cost_unit_price;
        fn costing_get_usd_price() -> Buffer = costing_get_usd_price;
        fn costing_get_fee_balance() -> Buffer = costing_get_fee_balance;
        fn sys_bech32_encode_address(a: B) -> Buffer = sys_bech32_encode_address;
        fn sys_get_transaction_hash() -> Buffer = sys_get_transaction_hash;
        fn sys_generate_ruid() -> Buffer = sys_generate_ruid;
        fn crypto_utils_bls12381_g2_signature_aggregate(s: B) -> Buffer = crypto_utils_bls12381_g2_signature_aggregate;
        fn crypto_utils_keccak256_hash(m: B) -> Buffer = crypto_utils_keccak256_hash;
    }
    fwdv! {
        fn object_instance_of(o: B, p: B, b: B) -> u32 = instance_of;
        fn kv_store_open_entry(n: B, k: B, f: u32) -> u32 = key_value_store_open_entry;
        fn kv_entry_write(h: u32, d: B) -> () = key_value_entry_set;
        fn kv_entry_close(h: u32) -> () = key_value_entry_close;
        fn field_entry_write(h: u32, d: B) -> () = field_entry_write;
        fn field_entry_close(h: u32) -> () = field_entry_close;
        fn costing_get_execution_cost_unit_limit() -> u32 = costing_get_execution_cost_unit_limit;
        fn costing_get_finalization_cost_unit_limit() -> u32 = costing_get_finalization_cost_unit_limit;
        fn costing_get_tip_percentage() -> u32 = costing_get_tip_percentage;
        fn sys_log(l: B, m: B) -> () = sys_log;
        fn sys_panic(m: B) -> () = sys_panic;
        fn crypto_utils_bls12381_v1_verify(m: B, k: B, s: B) -> u32 = crypto_utils_bls12381_v1_verify;
        fn crypto_utils_bls12381_v1_aggregate_verify(k: B, s: B) -> u32 = crypto_utils_bls12381_v1_aggregate_verify;
        fn crypto_utils_bls12381_v1_fast_aggregate_verify(m: B, k: B, s: B) -> u32 = crypto_utils_bls12381_v1_fast_aggregate_verify;
    }
    fn actor_open_field(&mut self, h: u32, f: u32, flags: u32) -> u32 {
        self.tick();
        let r = self.rt.actor_open_field(h, f as u8, flags);
        self.out(r)
    }
    fn actor_emit_event(&mut self, n: B, d: B, flags: u32) {
        self.tick();
        let r = self.rt.actor_emit_event(n, d, EventFlags::from_bits(flags).expect("event flags"));
        self.out(r)
    }
    fn buffer_consume(&mut self, id: u32) -> Vec<u8> {
        let r = self.rt.buffer_consume(id);
        self.out(r)
    }
}

#[derive(Clone)]
pub struct Ext;
#[derive(Clone)]
pub struct Instance(u64);

impl NativeVmExtension for Ext {
    type Instance = Instance;
    fn try_create_instance(&self, code: &[u8]) -> Option<Instance> {
        let code: [u8; 8] = code.try_into().ok()?;
        let id = u64::from_be_bytes(code);
        table().contains_key(&id).then_some(Instance(id))
    }
}

impl VmInvoke for Instance {
    fn invoke<Y, V>(
        &mut self,
        export_name: &str,
        input: &IndexedScryptoValue,
        api: &mut Y,
        _vm_api: &V,
    ) -> Result<IndexedScryptoValue, RuntimeError>
    where
        Y: ClientApi<RuntimeError> + KernelNodeApi + KernelSubstateApi<SystemLockData>,
        V: VmApi,
    {
        let f = *table()[&self.0].get(export_name).ok_or_else(|| {
            RuntimeError::SystemUpstreamError(SystemUpstreamError::SystemFunctionCallNotAllowed)
        })?;
        CALLED.with(|c| *c.borrow_mut().entry(export_name.to_string()).or_default() += 1);
        // The package address is only used by the engine to price wasm execution units.
        let mut rt: Box<dyn WasmRuntime> = Box::new(ScryptoRuntime::new(
            api,
            PACKAGE_PACKAGE,
            export_name.to_string(),
        ));
        let buf = rt.allocate_buffer(input.as_slice().to_vec()).expect("buffer");
        let mut host = Host { rt };
        let ptr: *mut (dyn NativeHost + '_) = &mut host;
        // SAFETY: the host outlives the call; the previous host is restored right after it.
        let prev = native::swap_host(Some(unsafe {
            std::mem::transmute::<*mut (dyn NativeHost + '_), *mut (dyn NativeHost + 'static)>(ptr)
        }));
        let quiet = QUIET.with(|q| q.replace(true));
        let r = catch_unwind(AssertUnwindSafe(|| f(SBuffer(buf.0))));
        QUIET.with(|q| q.set(quiet));
        native::swap_host(prev);
        match r {
            Ok(_) => {
                let ret = native::RETURN.with(|r| r.borrow_mut().take()).expect("return value");
                IndexedScryptoValue::from_vec(ret).map_err(|e| {
                    RuntimeError::SystemUpstreamError(SystemUpstreamError::OutputDecodeError(e))
                })
            }
            Err(p) if p.is::<HostAbort>() => {
                Err(PENDING.with(|p| p.borrow_mut().take()).expect("pending error"))
            }
            Err(_) => {
                // An application panic: on wasm the panic hook reports it through `sys_panic`.
                let m = LAST_PANIC.with(|p| p.borrow().clone());
                match host.rt.sys_panic(m.into_bytes()) {
                    Err(e) => Err(e.into()),
                    Ok(()) => unreachable!(),
                }
            }
        }
    }
}

/// Set whether panics are silent on this thread; returns the previous setting.
pub fn quiet(on: bool) -> bool {
    QUIET.with(|q| q.replace(on))
}
pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}
