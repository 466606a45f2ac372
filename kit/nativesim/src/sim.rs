//! A small in-memory ledger: genesis, protocol updates, transactions, clock, state reads.

use crate::engine::*;
use radix_common::prelude::*;
use radix_engine::blueprints::consensus_manager::*;
use radix_engine::blueprints::models::*;
use radix_engine::blueprints::resource::*;
use radix_engine::errors::*;
use radix_engine::system::bootstrap::Bootstrapper;
use radix_engine::system::system_db_reader::{
    ObjectCollectionKey, SystemDatabaseReader, SystemDatabaseWriter,
};
use radix_engine::system::system_substates::FieldSubstate;
use radix_engine::transaction::*;
use radix_engine::updates::ProtocolBuilder;
use radix_engine::vm::wasm::{DefaultWasmEngine, WasmValidatorConfigV1};
use radix_engine::vm::{ScryptoVm, Vm, VmInit};
use radix_engine_interface::api::ModuleId;
use radix_engine_interface::blueprints::package::*;
use radix_engine_interface::prelude::*;
use radix_substate_store_impls::memory_db::InMemorySubstateDatabase;
use radix_substate_store_interface::db_key_mapper::{MappedSubstateDatabase, SpreadPrefixKeyMapper};
use radix_substate_store_interface::interface::CommittableSubstateDatabase;
use radix_substate_store_queries::query::*;
use radix_transactions::model::*;

pub struct Sim {
    pub db: InMemorySubstateDatabase,
    pub ext: NativeExt,
    pub nonce: u32,
    pub transactions: u64,
    pub commits: u64,
    scrypto_vm: ScryptoVm<DefaultWasmEngine>,
}

/// What a transaction did, as far as an outside observer can tell.
pub struct TxResult {
    pub receipt: TransactionReceipt,
}

impl TxResult {
    pub fn ok(&self) -> bool {
        match &self.receipt.result {
            TransactionResult::Commit(c) => matches!(c.outcome, TransactionOutcome::Success(_)),
            _ => false,
        }
    }
    pub fn commit(&self) -> &CommitResult {
        match &self.receipt.result {
            TransactionResult::Commit(c) => c,
            other => panic!("not committed: {:?}", other),
        }
    }
    /// The error text; empty when the transaction succeeded.
    pub fn error(&self) -> String {
        match &self.receipt.result {
            TransactionResult::Commit(c) => match &c.outcome {
                TransactionOutcome::Success(_) => String::new(),
                TransactionOutcome::Failure(e) => error_text(e),
            },
            TransactionResult::Reject(r) => format!("REJECT {:?}", r.reason),
            TransactionResult::Abort(a) => format!("ABORT {:?}", a.reason),
        }
    }
    pub fn is_auth_error(&self) -> bool {
        match &self.receipt.result {
            TransactionResult::Commit(c) => matches!(
                &c.outcome,
                TransactionOutcome::Failure(RuntimeError::SystemModuleError(
                    SystemModuleError::AuthError(_)
                ))
            ),
            _ => false,
        }
    }
    pub fn output<T: ScryptoDecode>(&self, i: usize) -> T {
        self.commit().output(i)
    }
    pub fn events_named(&self, name: &str) -> Vec<Vec<u8>> {
        self.commit()
            .application_events
            .iter()
            .filter(|(id, _)| id.1 == name)
            .map(|(_, d)| d.clone())
            .collect()
    }
    pub fn events<T: ScryptoDecode>(&self, name: &str) -> Vec<T> {
        self.events_named(name).iter().map(|d| scrypto_decode(d).unwrap()).collect()
    }
    pub fn expect(self, what: &str) -> Self {
        if !self.ok() {
            panic!("{what}: {}", self.error());
        }
        self
    }
}

pub fn error_text(e: &RuntimeError) -> String {
    match e {
        RuntimeError::ApplicationError(ApplicationError::PanicMessage(m)) => m.clone(),
        other => format!("{:?}", other),
    }
}

pub fn package_definition(bp: &NativeBlueprint) -> PackageDefinition {
    let init: BlueprintDefinitionInit = scrypto_decode(&(bp.schema)()).unwrap();
    let mut blueprints = index_map_new();
    blueprints.insert(bp.name.to_string(), init);
    PackageDefinition { blueprints }
}

impl Sim {
    pub fn new(ext: NativeExt) -> Self {
        let scrypto_vm = ScryptoVm {
            wasm_engine: DefaultWasmEngine::default(),
            wasm_validator_config: WasmValidatorConfigV1::new(),
        };
        let network = NetworkDefinition::simulator();
        let mut db = InMemorySubstateDatabase::standard();
        let vm_init = VmInit::new(&scrypto_vm, ext.clone());
        Bootstrapper::new(network.clone(), &mut db, vm_init, false)
            .bootstrap_test_default()
            .unwrap();
        ProtocolBuilder::for_network(&network)
            .until_latest_protocol_version()
            .commit_each_protocol_update(&mut db);
        Sim { db, ext, nonce: 100, transactions: 0, commits: 0, scrypto_vm }
    }

    /// An independent copy of the ledger.
    pub fn fork(&self) -> Self {
        Sim {
            db: self.db.clone(),
            ext: self.ext.clone(),
            nonce: self.nonce,
            transactions: 0,
            commits: 0,
            scrypto_vm: ScryptoVm {
                wasm_engine: DefaultWasmEngine::default(),
                wasm_validator_config: WasmValidatorConfigV1::new(),
            },
        }
    }

    pub fn next_nonce(&mut self) -> u32 {
        self.nonce += 1;
        self.nonce
    }

    fn run(&mut self, executable: Executable, config: ExecutionConfig, commit: bool) -> TxResult {
        let config = config.with_kernel_trace(false);
        let vm_init = VmInit { scrypto_vm: &self.scrypto_vm, native_vm_extension: self.ext.clone() };
        let receipt = execute_transaction_with_configuration::<
            _,
            Vm<'_, DefaultWasmEngine, NativeExt>,
        >(&mut self.db, vm_init, &config, &executable);
        self.transactions += 1;
        if commit {
            if let TransactionResult::Commit(c) = &receipt.result {
                let updates = c.state_updates.create_database_updates::<SpreadPrefixKeyMapper>();
                self.db.commit(&updates);
                self.commits += 1;
            }
        }
        TxResult { receipt }
    }

    pub fn execute(
        &mut self,
        manifest: TransactionManifestV1,
        proofs: impl IntoIterator<Item = NonFungibleGlobalId>,
    ) -> TxResult {
        let nonce = self.next_nonce();
        let tx = TestTransaction::new_from_nonce(manifest, nonce).prepare().expect("preparable");
        let executable = tx.get_executable(proofs.into_iter().collect());
        self.run(executable, ExecutionConfig::for_test_transaction(), true)
    }

    /// Runs without committing.
    pub fn preview(
        &mut self,
        manifest: TransactionManifestV1,
        proofs: impl IntoIterator<Item = NonFungibleGlobalId>,
    ) -> TxResult {
        let nonce = self.next_nonce();
        let tx = TestTransaction::new_from_nonce(manifest, nonce).prepare().expect("preparable");
        let executable = tx.get_executable(proofs.into_iter().collect());
        self.run(executable, ExecutionConfig::for_test_transaction(), false)
    }

    pub fn execute_system(
        &mut self,
        instructions: Vec<InstructionV1>,
        pre_allocated_addresses: Vec<PreAllocatedAddress>,
    ) -> TxResult {
        let nonce = self.next_nonce();
        let tx = SystemTransactionV1 {
            instructions: InstructionsV1(instructions),
            blobs: BlobsV1 { blobs: vec![] },
            hash_for_execution: hash(format!("system {nonce}")),
            pre_allocated_addresses,
        }
        .prepare()
        .expect("preparable");
        let executable = tx.get_executable(btreeset!(AuthAddresses::system_role()));
        self.run(executable, ExecutionConfig::for_system_transaction(NetworkDefinition::simulator()), true)
    }

    /// Runs instructions without fees, limits or effects.
    pub fn query_system(&mut self, instructions: Vec<InstructionV1>) -> TxResult {
        let nonce = self.next_nonce();
        let tx = SystemTransactionV1 {
            instructions: InstructionsV1(instructions),
            blobs: BlobsV1 { blobs: vec![] },
            hash_for_execution: hash(format!("query {nonce}")),
            pre_allocated_addresses: vec![],
        }
        .prepare()
        .expect("preparable");
        let executable = tx.get_executable(btreeset!());
        self.run(executable, ExecutionConfig::for_system_transaction(NetworkDefinition::simulator()), false)
    }

    /// Publishes blueprint number `i` of the extension, at `address` when one is given.
    pub fn publish_native(&mut self, i: usize, address: Option<PackageAddress>) -> PackageAddress {
        let definition = package_definition(&self.ext.blueprints[i]);
        let (package_address, pre) = match address {
            Some(a) => (
                Some(ManifestAddressReservation(0)),
                vec![PreAllocatedAddress {
                    blueprint_id: BlueprintId::new(&PACKAGE_PACKAGE, PACKAGE_BLUEPRINT),
                    address: a.into(),
                }],
            ),
            None => (None, vec![]),
        };
        let r = self.execute_system(
            vec![InstructionV1::CallFunction {
                package_address: DynamicPackageAddress::Static(PACKAGE_PACKAGE),
                blueprint_name: PACKAGE_BLUEPRINT.to_string(),
                function_name: PACKAGE_PUBLISH_NATIVE_IDENT.to_string(),
                args: to_manifest_value_and_unwrap!(&PackagePublishNativeManifestInput {
                    definition,
                    native_package_code_id: CODE_ID_BASE + i as u64,
                    metadata: MetadataInit::default(),
                    package_address,
                }),
            }],
            pre,
        );
        r.expect("publish").output(0)
    }

    pub fn now_ms(&self) -> i64 {
        SystemDatabaseReader::new(&self.db)
            .read_typed_object_field::<ConsensusManagerProposerMilliTimestampFieldPayload>(
                CONSENSUS_MANAGER.as_node_id(),
                ModuleId::Main,
                ConsensusManagerField::ProposerMilliTimestamp.field_index(),
            )
            .unwrap()
            .fully_update_and_into_latest_version()
            .epoch_milli
    }

    pub fn now(&self) -> i64 {
        self.now_ms() / 1000
    }

    pub fn set_now(&mut self, seconds: i64) {
        let mut w = SystemDatabaseWriter::new(&mut self.db);
        w.write_typed_object_field(
            CONSENSUS_MANAGER.as_node_id(),
            ModuleId::Main,
            ConsensusManagerField::ProposerMilliTimestamp.field_index(),
            ConsensusManagerProposerMilliTimestampFieldPayload::from_content_source(
                ProposerMilliTimestampSubstate { epoch_milli: seconds * 1000 },
            ),
        )
        .unwrap();
        w.write_typed_object_field(
            CONSENSUS_MANAGER.as_node_id(),
            ModuleId::Main,
            ConsensusManagerField::ProposerMinuteTimestamp.field_index(),
            ConsensusManagerProposerMinuteTimestampFieldPayload::from_content_source(
                ProposerMinuteTimestampSubstate { epoch_minute: (seconds / 60) as i32 },
            ),
        )
        .unwrap();
    }

    /// Accounts have an address before anything has been stored for them.
    pub fn exists(&self, component: ComponentAddress) -> bool {
        SystemDatabaseReader::new(&self.db).get_object_info(component).is_ok()
    }

    pub fn vaults(&self, component: ComponentAddress, resource: ResourceAddress) -> Vec<NodeId> {
        let mut finder = VaultFinder::new();
        StateTreeTraverser::new(&self.db, &mut finder, 100).traverse_subtree(None, *component.as_node_id());
        finder.to_vaults().get(&resource).cloned().unwrap_or_default()
    }

    /// All fungible and non-fungible amounts anywhere below a component.
    pub fn balances(&self, component: ComponentAddress) -> BTreeMap<ResourceAddress, Decimal> {
        let mut accounter = ResourceAccounter::new(&self.db);
        accounter.traverse(*component.as_node_id());
        accounter.close().balances.into_iter().collect()
    }

    pub fn balance(&self, component: ComponentAddress, resource: ResourceAddress) -> Decimal {
        self.balances(component).get(&resource).copied().unwrap_or_default()
    }

    pub fn vault_balance(&self, vault: NodeId) -> Decimal {
        SystemDatabaseReader::new(&self.db)
            .read_typed_object_field::<FungibleVaultBalanceFieldPayload>(
                &vault,
                ModuleId::Main,
                FungibleVaultField::Balance.into(),
            )
            .unwrap()
            .fully_update_and_into_latest_version()
            .amount()
    }

    pub fn non_fungible_ids(&self, vault: NodeId) -> Vec<NonFungibleLocalId> {
        SystemDatabaseReader::new(&self.db)
            .collection_iter(
                &vault,
                ModuleId::Main,
                NonFungibleVaultCollection::NonFungibleIndex.collection_index(),
            )
            .unwrap()
            .map(|(key, _)| scrypto_decode(&key.into_map()).unwrap())
            .collect()
    }

    pub fn non_fungible_data<T: ScryptoDecode>(
        &self,
        resource: ResourceAddress,
        id: &NonFungibleLocalId,
    ) -> Option<T> {
        let payload = SystemDatabaseReader::new(&self.db)
            .read_object_collection_entry::<_, NonFungibleResourceManagerDataEntryPayload>(
                resource.as_node_id(),
                ModuleId::Main,
                ObjectCollectionKey::KeyValue(
                    NonFungibleResourceManagerCollection::DataKeyValue.collection_index(),
                    id,
                ),
            )
            .ok()??;
        Some(scrypto_decode(&scrypto_encode(&payload).unwrap()).unwrap())
    }

    /// The rule a component's role is assigned, as stored.
    pub fn role(&self, component: ComponentAddress, role: &str) -> Option<AccessRule> {
        use radix_engine::object_modules::role_assignment::*;
        let payload = SystemDatabaseReader::new(&self.db)
            .read_object_collection_entry::<_, RoleAssignmentAccessRuleEntryPayload>(
                component.as_node_id(),
                ModuleId::RoleAssignment,
                ObjectCollectionKey::KeyValue(
                    RoleAssignmentCollection::AccessRuleKeyValue.collection_index(),
                    &ModuleRoleKey::new(ModuleId::Main, role),
                ),
            )
            .ok()??;
        Some(payload.fully_update_and_into_latest_version())
    }

    pub fn divisibility(&self, resource: ResourceAddress) -> u8 {
        SystemDatabaseReader::new(&self.db)
            .read_typed_object_field::<FungibleResourceManagerDivisibilityFieldPayload>(
                resource.as_node_id(),
                ModuleId::Main,
                FungibleResourceManagerField::Divisibility.into(),
            )
            .unwrap()
            .fully_update_and_into_latest_version()
    }

    pub fn total_supply(&self, resource: ResourceAddress) -> Decimal {
        if resource.as_node_id().entity_type() == Some(EntityType::GlobalNonFungibleResourceManager) {
            return SystemDatabaseReader::new(&self.db)
                .read_typed_object_field::<NonFungibleResourceManagerTotalSupplyFieldPayload>(
                    resource.as_node_id(),
                    ModuleId::Main,
                    NonFungibleResourceManagerField::TotalSupply.into(),
                )
                .unwrap()
                .fully_update_and_into_latest_version();
        }
        SystemDatabaseReader::new(&self.db)
            .read_typed_object_field::<FungibleResourceManagerTotalSupplyFieldPayload>(
                resource.as_node_id(),
                ModuleId::Main,
                FungibleResourceManagerField::TotalSupply.into(),
            )
            .unwrap()
            .fully_update_and_into_latest_version()
    }

    pub fn component_state<T: ScryptoDecode>(&self, component: ComponentAddress) -> T {
        self.db
            .get_mapped::<SpreadPrefixKeyMapper, FieldSubstate<T>>(
                component.as_node_id(),
                MAIN_BASE_PARTITION,
                &ComponentField::State0.into(),
            )
            .expect("component state")
            .into_payload()
    }

    pub fn kv_entry<K: ScryptoEncode, V: ScryptoEncode + ScryptoDecode>(
        &self,
        store: &NodeId,
        key: &K,
    ) -> Option<V> {
        SystemDatabaseReader::new(&self.db).read_typed_kv_entry(store, key)
    }
}
