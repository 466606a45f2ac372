//! The engine API of a natively compiled blueprint, answered by the real Radix Engine.
//!
//! The method bodies follow radix-engine 1.2.0 `vm/wasm_runtime/scrypto_runtime.rs`, with buffers
//! passed by value and errors raised as unwind payloads.

use radix_engine::errors::*;
use radix_common::prelude::*;
use radix_engine_interface::prelude::*;
use radix_engine::kernel::kernel_api::{KernelNodeApi, KernelSubstateApi};
use radix_engine::system::system_callback::SystemLockData;
use radix_engine::vm::wasm::WasmRuntimeError;
use radix_engine::vm::{NativeVmExtension, VmApi, VmInvoke};
use radix_engine_interface::api::actor_api::EventFlags;
use radix_engine_interface::api::field_api::LockFlags;
use radix_engine_interface::api::key_value_store_api::KeyValueStoreDataSchema;
use radix_engine_interface::api::{ActorRefHandle, AttachedModuleId, ClientApi, FieldValue};
use radix_engine_interface::types::Level;
use scrypto::engine::native::{with_native_engine, EngineAbort, NativeEngine};
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Once};

/// One blueprint: its encoded definition and its exports.
#[derive(Clone, Copy)]
pub struct NativeBlueprint {
    pub name: &'static str,
    pub schema: fn() -> Vec<u8>,
    pub dispatch: fn(&str, &[u8]) -> Option<Vec<u8>>,
}

/// Addresses that blueprint code has baked in at compile time and which the deployment therefore
/// has to give to the things it creates.
#[derive(Default)]
pub struct Pinned {
    pub enabled: AtomicBool,
    pub components: Vec<(&'static str, ComponentAddress)>,
    pub resources: Vec<(&'static str, ResourceAddress)>,
}

impl Pinned {
    fn component(&self, blueprint: &str) -> Option<GlobalAddress> {
        if !self.enabled.load(Ordering::Relaxed) {
            return None;
        }
        self.components.iter().find(|(n, _)| *n == blueprint).map(|(_, a)| (*a).into())
    }
    fn resource(&self, blueprint: &str) -> Option<GlobalAddress> {
        if !self.enabled.load(Ordering::Relaxed) {
            return None;
        }
        self.resources.iter().find(|(n, _)| *n == blueprint).map(|(_, a)| (*a).into())
    }
}

pub const CODE_ID_BASE: u64 = 0x5300_0000;

#[derive(Clone)]
pub struct NativeExt {
    pub blueprints: Arc<Vec<NativeBlueprint>>,
    pub pinned: Arc<Pinned>,
    pub invocations: Arc<AtomicU64>,
    pub engine_calls: Arc<AtomicU64>,
}

impl NativeExt {
    pub fn new(blueprints: Vec<NativeBlueprint>, pinned: Pinned) -> Self {
        static HOOK: Once = Once::new();
        HOOK.call_once(|| {
            let default = std::panic::take_hook();
            std::panic::set_hook(Box::new(move |info| {
                if IN_BLUEPRINT.with(|d| *d.borrow() == 0) {
                    return default(info);
                }
                let mut message = if let Some(s) = info.payload().downcast_ref::<&str>() {
                    s.to_string()
                } else if let Some(s) = info.payload().downcast_ref::<String>() {
                    s.clone()
                } else {
                    "Panic".to_string()
                };
                if let Some(l) = info.location() {
                    message.push_str(&format!(" @ {}:{}:{}", l.file(), l.line(), l.column()));
                }
                PANIC.with(|p| *p.borrow_mut() = Some(message));
            }));
        });
        Self {
            blueprints: Arc::new(blueprints),
            pinned: Arc::new(pinned),
            invocations: Default::default(),
            engine_calls: Default::default(),
        }
    }
}

thread_local! {
    static IN_BLUEPRINT: RefCell<u32> = const { RefCell::new(0) };
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

#[derive(Clone)]
pub struct NativeInstance {
    blueprint: NativeBlueprint,
    pinned: Arc<Pinned>,
    invocations: Arc<AtomicU64>,
}

impl NativeVmExtension for NativeExt {
    type Instance = NativeInstance;

    fn try_create_instance(&self, code: &[u8]) -> Option<NativeInstance> {
        let code: [u8; 8] = code.try_into().ok()?;
        let i = u64::from_be_bytes(code).checked_sub(CODE_ID_BASE)? as usize;
        Some(NativeInstance {
            blueprint: *self.blueprints.get(i)?,
            pinned: self.pinned.clone(),
            invocations: self.invocations.clone(),
        })
    }
}

impl VmInvoke for NativeInstance {
    fn invoke<Y, V>(
        &mut self,
        export_name: &str,
        input: &IndexedScryptoValue,
        api: &mut Y,
        _vm_api: &V,
    ) -> Result<IndexedScryptoValue, RuntimeError>
    where
        Y: ClientApi<RuntimeError> + KernelNodeApi + KernelSubstateApi<SystemLockData>,
        V: VmApi,
    {
        self.invocations.fetch_add(1, Ordering::Relaxed);
        let mut engine = Engine { api, pinned: self.pinned.clone() };
        let args = input.as_slice();
        let dispatch = self.blueprint.dispatch;
        IN_BLUEPRINT.with(|d| *d.borrow_mut() += 1);
        let result = catch_unwind(AssertUnwindSafe(|| {
            with_native_engine(&mut engine, || dispatch(export_name, args))
        }));
        IN_BLUEPRINT.with(|d| *d.borrow_mut() -= 1);
        match result {
            Ok(Some(rtn)) => IndexedScryptoValue::from_vec(rtn).map_err(|e| {
                RuntimeError::SystemUpstreamError(SystemUpstreamError::OutputDecodeError(e))
            }),
            Ok(None) => panic!("export {export_name} not found"),
            Err(payload) => match payload.downcast::<RuntimeError>() {
                Ok(e) => Err(*e),
                Err(_) => {
                    let message = PANIC
                        .with(|p| p.borrow_mut().take())
                        .unwrap_or_else(|| "Panic".to_string());
                    Err(RuntimeError::ApplicationError(ApplicationError::PanicMessage(message)))
                }
            },
        }
    }
}

struct Engine<'y, Y: ClientApi<RuntimeError>> {
    api: &'y mut Y,
    pinned: Arc<Pinned>,
}

fn abort(e: RuntimeError) -> EngineAbort {
    Box::new(e)
}

fn wasm_err(e: WasmRuntimeError) -> EngineAbort {
    Box::new(RuntimeError::VmError(VmError::Wasm(e)))
}

fn ok(data: Vec<u8>) -> Result<Vec<u8>, EngineAbort> {
    Ok(data)
}

fn parse_blueprint_id(
    package_address: Vec<u8>,
    blueprint_name: Vec<u8>,
) -> Result<(PackageAddress, String), EngineAbort> {
    let package_address = PackageAddress::try_from(package_address.as_slice())
        .map_err(|_| wasm_err(WasmRuntimeError::InvalidPackageAddress))?;
    let blueprint_name =
        String::from_utf8(blueprint_name).map_err(|_| wasm_err(WasmRuntimeError::InvalidString))?;
    Ok((package_address, blueprint_name))
}

impl<'y, Y: ClientApi<RuntimeError>> Engine<'y, Y> {
    fn reserve(
        &mut self,
        blueprint_id: BlueprintId,
        address: GlobalAddress,
    ) -> Result<GlobalAddressReservation, EngineAbort> {
        self.api.allocate_virtual_global_address(blueprint_id, address).map_err(abort)
    }
}

impl<'y, Y: ClientApi<RuntimeError>> NativeEngine for Engine<'y, Y> {
    fn object_call(
        &mut self,
        receiver: Vec<u8>,
        ident: Vec<u8>,
        args: Vec<u8>,
    ) -> Result<Vec<u8>, EngineAbort> {
        let receiver = NodeId(
            TryInto::<[u8; NodeId::LENGTH]>::try_into(receiver.as_ref())
                .map_err(|_| wasm_err(WasmRuntimeError::InvalidNodeId))?,
        );
        let ident = String::from_utf8(ident).map_err(|_| wasm_err(WasmRuntimeError::InvalidString))?;
        let return_data = self.api.call_method(&receiver, ident.as_str(), args).map_err(abort)?;

        ok(return_data)
    }

    fn object_call_module(
        &mut self,
        receiver: Vec<u8>,
        module_id: u32,
        ident: Vec<u8>,
        args: Vec<u8>,
    ) -> Result<Vec<u8>, EngineAbort> {
        let receiver = NodeId(
            TryInto::<[u8; NodeId::LENGTH]>::try_into(receiver.as_ref())
                .map_err(|_| wasm_err(WasmRuntimeError::InvalidNodeId))?,
        );
        let ident = String::from_utf8(ident).map_err(|_| wasm_err(WasmRuntimeError::InvalidString))?;
        let module_id = u8::try_from(module_id)
            .ok()
            .and_then(|x| AttachedModuleId::from_repr(x))
            .ok_or_else(|| wasm_err(WasmRuntimeError::InvalidAttachedModuleId(module_id)))?;

        let return_data =
            self.api
                .call_module_method(&receiver, module_id, ident.as_str(), args).map_err(abort)?;

        ok(return_data)
    }

    fn object_call_direct(
        &mut self,
        receiver: Vec<u8>,
        ident: Vec<u8>,
        args: Vec<u8>,
    ) -> Result<Vec<u8>, EngineAbort> {
        let receiver = NodeId(
            TryInto::<[u8; NodeId::LENGTH]>::try_into(receiver.as_ref())
                .map_err(|_| wasm_err(WasmRuntimeError::InvalidNodeId))?,
        );
        let ident = String::from_utf8(ident).map_err(|_| wasm_err(WasmRuntimeError::InvalidString))?;
        let return_data = self
            .api
            .call_direct_access_method(&receiver, ident.as_str(), args).map_err(abort)?;

        ok(return_data)
    }

    fn blueprint_call(
        &mut self,
        package_address: Vec<u8>,
        blueprint_name: Vec<u8>,
        function_ident: Vec<u8>,
        args: Vec<u8>,
    ) -> Result<Vec<u8>, EngineAbort> {
        let (package_address, blueprint_name) =
            parse_blueprint_id(package_address, blueprint_name)?;
        let function_ident =
            String::from_utf8(function_ident).map_err(|_| wasm_err(WasmRuntimeError::InvalidString))?;

        let mut args = args;
        if package_address == RESOURCE_PACKAGE
            && function_ident == FUNGIBLE_RESOURCE_MANAGER_CREATE_IDENT
        {
            let caller = self.api.actor_get_blueprint_id().map_err(abort)?;
            if let Some(address) = self.pinned.resource(&caller.blueprint_name) {
                let mut input: FungibleResourceManagerCreateInput = scrypto_decode(&args).unwrap();
                if input.address_reservation.is_none() {
                    let blueprint_id = BlueprintId::new(&package_address, blueprint_name.as_str());
                    input.address_reservation = Some(self.reserve(blueprint_id, address)?);
                    args = scrypto_encode(&input).unwrap();
                }
            }
        }

        let return_data = self.api.call_function(
            package_address,
            blueprint_name.as_str(),
            &function_ident,
            args,
        ).map_err(abort)?;

        ok(return_data)
    }

    fn object_new(
        &mut self,
        blueprint_name: Vec<u8>,
        object_states: Vec<u8>,
    ) -> Result<Vec<u8>, EngineAbort> {
        let blueprint_name =
            String::from_utf8(blueprint_name).map_err(|_| wasm_err(WasmRuntimeError::InvalidString))?;
        let object_states = scrypto_decode::<IndexMap<u8, FieldValue>>(&object_states)
            .map_err(|e| wasm_err(WasmRuntimeError::InvalidObjectStates(e)))?;

        let component_id = self
            .api
            .new_simple_object(blueprint_name.as_ref(), object_states).map_err(abort)?;

        ok(component_id.to_vec())
    }

    fn address_allocate(
        &mut self,
        package_address: Vec<u8>,
        blueprint_name: Vec<u8>,
    ) -> Result<Vec<u8>, EngineAbort> {
        let (package_address, blueprint_name) =
            parse_blueprint_id(package_address, blueprint_name)?;

        let blueprint_id = BlueprintId {
            package_address,
            blueprint_name,
        };
        let address_reservation_and_address =
            match self.pinned.component(&blueprint_id.blueprint_name) {
                Some(address) => (self.reserve(blueprint_id, address)?, address),
                None => self.api.allocate_global_address(blueprint_id).map_err(abort)?,
            };
        let encoded = scrypto_encode(&address_reservation_and_address)
            .expect("Failed to encode object address");

        ok(encoded)
    }

    fn address_get_reservation_address(
        &mut self,
        node_id: Vec<u8>,
    ) -> Result<Vec<u8>, EngineAbort> {
        let node_id = NodeId(
            TryInto::<[u8; NodeId::LENGTH]>::try_into(node_id.as_ref())
                .map_err(|_| wasm_err(WasmRuntimeError::InvalidNodeId))?,
        );

        let address = self.api.get_reservation_address(&node_id).map_err(abort)?;
        let address_encoded = scrypto_encode(&address).expect("Failed to encode address");

        ok(address_encoded)
    }

    fn object_globalize(
        &mut self,
        node_id: Vec<u8>,
        modules: Vec<u8>,
        address_reservation: Vec<u8>,
    ) -> Result<Vec<u8>, EngineAbort> {
        let node_id = NodeId(
            TryInto::<[u8; NodeId::LENGTH]>::try_into(node_id.as_ref())
                .map_err(|_| wasm_err(WasmRuntimeError::InvalidNodeId))?,
        );
        let modules = scrypto_decode::<IndexMap<AttachedModuleId, NodeId>>(&modules)
            .map_err(|e| wasm_err(WasmRuntimeError::InvalidModules(e)))?;
        let address_reservation =
            scrypto_decode::<Option<GlobalAddressReservation>>(&address_reservation)
                .map_err(|_| wasm_err(WasmRuntimeError::InvalidGlobalAddressReservation))?;

        let mut address_reservation = address_reservation;
        if address_reservation.is_none() {
            let blueprint_id = self.api.get_blueprint_id(&node_id).map_err(abort)?;
            if let Some(address) = self.pinned.component(&blueprint_id.blueprint_name) {
                address_reservation = Some(self.reserve(blueprint_id, address)?);
            }
        }
        let address = self.api.globalize(node_id, modules, address_reservation).map_err(abort)?;

        ok(address.to_vec())
    }

    fn kv_store_new(
        &mut self,
        schema: Vec<u8>,
    ) -> Result<Vec<u8>, EngineAbort> {
        let schema = scrypto_decode::<KeyValueStoreDataSchema>(&schema)
            .map_err(|e| wasm_err(WasmRuntimeError::InvalidKeyValueStoreSchema(e)))?;

        let key_value_store_id = self.api.key_value_store_new(schema).map_err(abort)?;

        ok(key_value_store_id.to_vec())
    }

    fn kv_store_open_entry(
        &mut self,
        node_id: Vec<u8>,
        key: Vec<u8>,
        flags: u32,
    ) -> Result<u32, EngineAbort> {
        let node_id = NodeId(
            TryInto::<[u8; NodeId::LENGTH]>::try_into(node_id.as_ref())
                .map_err(|_| wasm_err(WasmRuntimeError::InvalidNodeId))?,
        );

        let flags = LockFlags::from_bits(flags).ok_or_else(|| wasm_err(WasmRuntimeError::InvalidLockFlags))?;
        let handle = self.api.key_value_store_open_entry(&node_id, &key, flags).map_err(abort)?;

        Ok(handle)
    }

    fn kv_entry_read(
        &mut self,
        handle: u32,
    ) -> Result<Vec<u8>, EngineAbort> {
        let value = self.api.key_value_entry_get(handle).map_err(abort)?;
        ok(value)
    }

    fn kv_entry_write(
        &mut self,
        handle: u32,
        data: Vec<u8>,
    ) -> Result<(), EngineAbort> {
        self.api.key_value_entry_set(handle, data).map_err(abort)?;
        Ok(())
    }

    fn kv_entry_remove(
        &mut self,
        handle: u32,
    ) -> Result<Vec<u8>, EngineAbort> {
        let value = self.api.key_value_entry_remove(handle).map_err(abort)?;
        ok(value)
    }

    fn kv_entry_close(&mut self, handle: u32) -> Result<(), EngineAbort> {
        self.api.key_value_entry_close(handle).map_err(abort)?;
        Ok(())
    }

    fn kv_store_remove_entry(
        &mut self,
        node_id: Vec<u8>,
        key: Vec<u8>,
    ) -> Result<Vec<u8>, EngineAbort> {
        let node_id = NodeId(
            TryInto::<[u8; NodeId::LENGTH]>::try_into(node_id.as_ref())
                .map_err(|_| wasm_err(WasmRuntimeError::InvalidNodeId))?,
        );
        let rtn = self.api.key_value_store_remove_entry(&node_id, &key).map_err(abort)?;
        ok(rtn)
    }

    fn actor_open_field(
        &mut self,
        object_handle: u32,
        field: u32,
        flags: u32,
    ) -> Result<u32, EngineAbort> {
        let flags = LockFlags::from_bits(flags).ok_or_else(|| wasm_err(WasmRuntimeError::InvalidLockFlags))?;
        let handle = self.api.actor_open_field(object_handle, field as u8, flags).map_err(abort)?;

        Ok(handle)
    }

    fn field_entry_read(
        &mut self,
        handle: SubstateHandle,
    ) -> Result<Vec<u8>, EngineAbort> {
        let substate = self.api.field_read(handle).map_err(abort)?;

        ok(substate)
    }

    fn field_entry_write(
        &mut self,
        handle: SubstateHandle,
        data: Vec<u8>,
    ) -> Result<(), EngineAbort> {
        self.api.field_write(handle, data).map_err(abort)?;

        Ok(())
    }

    fn field_entry_close(
        &mut self,
        handle: SubstateHandle,
    ) -> Result<(), EngineAbort> {
        self.api.field_close(handle).map_err(abort)?;

        Ok(())
    }

    fn actor_get_object_id(
        &mut self,
        actor_ref_handle: ActorRefHandle,
    ) -> Result<Vec<u8>, EngineAbort> {
        let node_id = self.api.actor_get_node_id(actor_ref_handle).map_err(abort)?;

        ok(node_id.0.to_vec())
    }

    fn actor_get_package_address(&mut self) -> Result<Vec<u8>, EngineAbort> {
        let blueprint_id = self.api.actor_get_blueprint_id().map_err(abort)?;

        ok(blueprint_id.package_address.to_vec())
    }

    fn actor_get_blueprint_name(&mut self) -> Result<Vec<u8>, EngineAbort> {
        let blueprint_id = self.api.actor_get_blueprint_id().map_err(abort)?;

        ok(blueprint_id.blueprint_name.into_bytes())
    }

    fn object_instance_of(
        &mut self,
        object_id: Vec<u8>,
        package_address: Vec<u8>,
        blueprint_name: Vec<u8>,
    ) -> Result<u32, EngineAbort> {
        let object_id = NodeId(
            TryInto::<[u8; NodeId::LENGTH]>::try_into(object_id.as_ref())
                .map_err(|_| wasm_err(WasmRuntimeError::InvalidNodeId))?,
        );
        let (package_address, blueprint_name) =
            parse_blueprint_id(package_address, blueprint_name)?;
        let blueprint_id = self.api.get_blueprint_id(&object_id).map_err(abort)?;

        if blueprint_id.package_address.eq(&package_address)
            && blueprint_id.blueprint_name.eq(&blueprint_name)
        {
            Ok(1)
        } else {
            Ok(0)
        }
    }

    fn object_get_blueprint_id(
        &mut self,
        object_id: Vec<u8>,
    ) -> Result<Vec<u8>, EngineAbort> {
        let object_id = NodeId(
            TryInto::<[u8; NodeId::LENGTH]>::try_into(object_id.as_ref())
                .map_err(|_| wasm_err(WasmRuntimeError::InvalidNodeId))?,
        );
        let blueprint_id = self.api.get_blueprint_id(&object_id).map_err(abort)?;

        let mut buf = Vec::new();
        buf.extend(blueprint_id.package_address.as_bytes());
        buf.extend(blueprint_id.blueprint_name.as_bytes());

        ok(buf)
    }

    fn object_get_outer_object(
        &mut self,
        node_id: Vec<u8>,
    ) -> Result<Vec<u8>, EngineAbort> {
        let node_id = NodeId(
            TryInto::<[u8; NodeId::LENGTH]>::try_into(node_id.as_ref())
                .map_err(|_| wasm_err(WasmRuntimeError::InvalidNodeId))?,
        );
        let address = self.api.get_outer_object(&node_id).map_err(abort)?;

        ok(address.to_vec())
    }

    fn actor_emit_event(
        &mut self,
        event_name: Vec<u8>,
        event_payload: Vec<u8>,
        event_flags: u32,
    ) -> Result<(), EngineAbort> {
        self.api.actor_emit_event(
            String::from_utf8(event_name).map_err(|_| wasm_err(WasmRuntimeError::InvalidString))?,
            event_payload,
            EventFlags::from_bits(event_flags)
                .ok_or_else(|| wasm_err(WasmRuntimeError::InvalidEventFlags(event_flags)))?,
        ).map_err(abort)?;
        Ok(())
    }

    fn sys_log(
        &mut self,
        level: Vec<u8>,
        message: Vec<u8>,
    ) -> Result<(), EngineAbort> {
        self.api.emit_log(
            scrypto_decode::<Level>(&level).map_err(|e| wasm_err(WasmRuntimeError::InvalidLogLevel(e)))?,
            String::from_utf8(message).map_err(|_| wasm_err(WasmRuntimeError::InvalidString))?,
        ).map_err(abort)?;
        Ok(())
    }

    fn sys_bech32_encode_address(
        &mut self,
        address: Vec<u8>,
    ) -> Result<Vec<u8>, EngineAbort> {
        let address =
            scrypto_decode::<GlobalAddress>(&address).map_err(|e| wasm_err(WasmRuntimeError::InvalidAddress(e)))?;
        let encoded = self.api.bech32_encode_address(address).map_err(abort)?;
        ok(encoded.into_bytes())
    }

    fn sys_panic(&mut self, message: Vec<u8>) -> Result<(), EngineAbort> {
        self.api
            .panic(String::from_utf8(message).map_err(|_| wasm_err(WasmRuntimeError::InvalidString))?).map_err(abort)?;
        Ok(())
    }

    fn sys_get_transaction_hash(&mut self) -> Result<Vec<u8>, EngineAbort> {
        let hash = self.api.get_transaction_hash().map_err(abort)?;

        ok(hash.to_vec())
    }

    fn sys_generate_ruid(&mut self) -> Result<Vec<u8>, EngineAbort> {
        let ruid = self.api.generate_ruid().map_err(abort)?;

        ok(ruid.to_vec())
    }

    fn costing_get_execution_cost_unit_limit(
        &mut self,
    ) -> Result<u32, EngineAbort> {
        let execution_cost_unit_limit = self.api.execution_cost_unit_limit().map_err(abort)?;

        Ok(execution_cost_unit_limit)
    }

    fn costing_get_execution_cost_unit_price(
        &mut self,
    ) -> Result<Vec<u8>, EngineAbort> {
        let execution_cost_unit_price = self.api.execution_cost_unit_price().map_err(abort)?;

        ok(
            scrypto_encode(&execution_cost_unit_price)
                .expect("Failed to encode execution_cost_unit_price"),
        )
    }

    fn costing_get_finalization_cost_unit_limit(
        &mut self,
    ) -> Result<u32, EngineAbort> {
        let finalization_cost_unit_limit = self.api.finalization_cost_unit_limit().map_err(abort)?;

        Ok(finalization_cost_unit_limit)
    }

    fn costing_get_finalization_cost_unit_price(
        &mut self,
    ) -> Result<Vec<u8>, EngineAbort> {
        let finalization_cost_unit_price = self.api.finalization_cost_unit_price().map_err(abort)?;

        ok(
            scrypto_encode(&finalization_cost_unit_price)
                .expect("Failed to encode finalization_cost_unit_price"),
        )
    }

    fn costing_get_usd_price(&mut self) -> Result<Vec<u8>, EngineAbort> {
        let usd_price = self.api.usd_price().map_err(abort)?;
        ok(
            scrypto_encode(&usd_price).expect("Failed to encode finalization_cost_unit_price"),
        )
    }

    fn costing_get_tip_percentage(&mut self) -> Result<u32, EngineAbort> {
        let tip_percentage = self.api.tip_percentage().map_err(abort)?;

        Ok(tip_percentage.into())
    }

    fn costing_get_fee_balance(&mut self) -> Result<Vec<u8>, EngineAbort> {
        let fee_balance = self.api.fee_balance().map_err(abort)?;

        ok(scrypto_encode(&fee_balance).expect("Failed to encode fee_balance"))
    }

    fn crypto_utils_bls12381_v1_verify(
        &mut self,
        message: Vec<u8>,
        public_key: Vec<u8>,
        signature: Vec<u8>,
    ) -> Result<u32, EngineAbort> {
        let public_key: Bls12381G1PublicKey =
            scrypto_decode(&public_key).map_err(|e| wasm_err(WasmRuntimeError::InvalidBlsPublicKey(e)))?;
        let signature: Bls12381G2Signature =
            scrypto_decode(&signature).map_err(|e| wasm_err(WasmRuntimeError::InvalidBlsSignature(e)))?;
        let result = self
            .api
            .bls12381_v1_verify(&message, &public_key, &signature).map_err(abort)?;
        Ok(result)
    }

    fn crypto_utils_bls12381_v1_aggregate_verify(
        &mut self,
        pub_keys_and_msgs: Vec<u8>,
        signature: Vec<u8>,
    ) -> Result<u32, EngineAbort> {
        let signature: Bls12381G2Signature =
            scrypto_decode(&signature).map_err(|e| wasm_err(WasmRuntimeError::InvalidBlsSignature(e)))?;
        let pub_keys_and_msgs: Vec<(Bls12381G1PublicKey, Vec<u8>)> =
            scrypto_decode(&pub_keys_and_msgs)
                .map_err(|e| wasm_err(WasmRuntimeError::InvalidBlsPublicKeyOrMessage(e)))?;

        let result = self
            .api
            .bls12381_v1_aggregate_verify(&pub_keys_and_msgs, &signature).map_err(abort)?;
        Ok(result)
    }

    fn crypto_utils_bls12381_v1_fast_aggregate_verify(
        &mut self,
        message: Vec<u8>,
        public_keys: Vec<u8>,
        signature: Vec<u8>,
    ) -> Result<u32, EngineAbort> {
        let public_keys: Vec<Bls12381G1PublicKey> =
            scrypto_decode(&public_keys).map_err(|e| wasm_err(WasmRuntimeError::InvalidBlsPublicKey(e)))?;
        let signature: Bls12381G2Signature =
            scrypto_decode(&signature).map_err(|e| wasm_err(WasmRuntimeError::InvalidBlsSignature(e)))?;

        let result =
            self.api
                .bls12381_v1_fast_aggregate_verify(&message, &public_keys, &signature).map_err(abort)?;
        Ok(result)
    }

    fn crypto_utils_bls12381_g2_signature_aggregate(
        &mut self,
        signatures: Vec<u8>,
    ) -> Result<Vec<u8>, EngineAbort> {
        let signatures: Vec<Bls12381G2Signature> =
            scrypto_decode(&signatures).map_err(|e| wasm_err(WasmRuntimeError::InvalidBlsSignature(e)))?;

        let agg_sig = self.api.bls12381_g2_signature_aggregate(&signatures).map_err(abort)?;

        ok(
            scrypto_encode(&agg_sig).expect("Failed to encode Bls12381G2Signature"),
        )
    }

    fn crypto_utils_keccak256_hash(
        &mut self,
        data: Vec<u8>,
    ) -> Result<Vec<u8>, EngineAbort> {
        let hash = self.api.keccak256_hash(&data).map_err(abort)?;

        ok(hash.to_vec())
    }
}
