//! A complete deployment of the exchange on an in-memory ledger, with the blueprints compiled
//! natively from /repo's working tree.

pub use nativesim::*;
pub use radix_common::prelude::*;
pub use radix_engine_interface::prelude::*;
pub use radix_transactions::builder::*;
pub use radix_transactions::model::*;

use ::common::consts::*;



use std::collections::BTreeMap as Map;

extern crate account as _;
extern crate config as _;
extern crate env_registry as _;
extern crate exchange as _;
extern crate faucet as _;
extern crate fee_delegator as _;
extern crate fee_distributor as _;
extern crate oracle as _;
extern crate permission_registry as _;
extern crate pool as _;
extern crate referral_generator as _;
extern crate token_wrapper as _;

macro_rules! blueprints {
    ($($name:ident: $schema:ident, $dispatch:ident;)*) => {
        extern "Rust" {
            $(fn $schema() -> Vec<u8>; fn $dispatch(export: &str, args: &[u8]) -> Option<Vec<u8>>;)*
        }
        fn native_blueprints() -> Vec<NativeBlueprint> {
            $(fn $name() -> NativeBlueprint {
                fn s() -> Vec<u8> { unsafe { $schema() } }
                fn d(e: &str, a: &[u8]) -> Option<Vec<u8>> { unsafe { $dispatch(e, a) } }
                NativeBlueprint { name: stringify!($name), schema: s, dispatch: d }
            })*
            vec![$($name()),*]
        }
        pub const BLUEPRINTS: &[&str] = &[$(stringify!($name)),*];
    };
}

#[allow(non_snake_case)]
mod bp {
    use super::*;
    blueprints! {
        TokenWrapper: TokenWrapper_schema, TokenWrapper_native_dispatch;
        Oracle: Oracle_schema, Oracle_native_dispatch;
        Config: Config_schema, Config_native_dispatch;
        MarginAccount: MarginAccount_schema, MarginAccount_native_dispatch;
        MarginPool: MarginPool_schema, MarginPool_native_dispatch;
        ReferralGenerator: ReferralGenerator_schema, ReferralGenerator_native_dispatch;
        FeeDistributor: FeeDistributor_schema, FeeDistributor_native_dispatch;
        FeeDelegator: FeeDelegator_schema, FeeDelegator_native_dispatch;
        PermissionRegistry: PermissionRegistry_schema, PermissionRegistry_native_dispatch;
        EnvRegistry: EnvRegistry_schema, EnvRegistry_native_dispatch;
        Exchange: Exchange_schema, Exchange_native_dispatch;
        Faucet: Faucet_schema, Faucet_native_dispatch;
    }
    pub fn all() -> Vec<NativeBlueprint> {
        native_blueprints()
    }
}
pub use bp::BLUEPRINTS;
mod calls;
pub use calls::*;

pub type Signed = (Vec<u8>, Bls12381G2Signature, u64);

/// Someone who signs transactions.
#[derive(Clone, Debug)]
pub struct Actor {
    pub account: ComponentAddress,
    pub badge: NonFungibleGlobalId,
    pub key: Secp256k1PublicKey,
}

impl Actor {
    pub fn new(n: u64) -> Self {
        let key = Secp256k1PrivateKey::from_u64(n).unwrap().public_key();
        Actor {
            account: ComponentAddress::virtual_account_from_public_key(&key),
            badge: NonFungibleGlobalId::from_public_key(&key),
            key,
        }
    }
    pub fn rule(&self) -> AccessRule {
        rule!(require(self.badge.clone()))
    }
}

/// Addresses of everything that was deployed.
#[derive(Clone, Debug)]
pub struct Addresses {
    pub packages: Map<String, PackageAddress>,
    pub owner_badge: ResourceAddress,
    pub authority: ResourceAddress,
    pub base_authority: ResourceAddress,
    pub base: ResourceAddress,
    pub lp: ResourceAddress,
    pub protocol: ResourceAddress,
    pub referral: ResourceAddress,
    pub recovery_key: ResourceAddress,
    pub keeper_reward: ResourceAddress,
    pub fee_oath: ResourceAddress,
    pub token_wrapper: ComponentAddress,
    pub oracle: ComponentAddress,
    pub config: ComponentAddress,
    pub pool: ComponentAddress,
    pub referral_generator: ComponentAddress,
    pub fee_distributor: ComponentAddress,
    pub fee_delegator: ComponentAddress,
    pub permission_registry: ComponentAddress,
    pub env_registry: ComponentAddress,
    pub exchange: ComponentAddress,
    pub faucet: ComponentAddress,
    pub faucet_owner_badge: ResourceAddress,
    /// What the faucet hands out.
    pub faucet_tokens: Vec<ResourceAddress>,
    pub flash_oath: ResourceAddress,
    /// Freely mintable and burnable test tokens, with divisibility 8, 18 and 6.
    pub tokens: [ResourceAddress; 3],
    /// A freely mintable token that is never configured as anything.
    pub junk: ResourceAddress,
}

pub const ORACLE_KEY: u64 = 1;

pub struct World {
    pub sim: Sim,
    pub a: Addresses,
    pub owner: Actor,
    /// Pays for everything and receives what transactions return.
    pub bank: Actor,
    owners: Map<NodeId, ComponentAddress>,
    pub watched: Vec<ComponentAddress>,
}

pub const GENESIS: i64 = 1_700_000_000;

fn res_node(r: ResourceAddress, fungible: bool) -> PreAllocatedAddress {
    PreAllocatedAddress {
        blueprint_id: BlueprintId::new(
            &RESOURCE_PACKAGE,
            if fungible { FUNGIBLE_RESOURCE_MANAGER_BLUEPRINT } else { NON_FUNGIBLE_RESOURCE_MANAGER_BLUEPRINT },
        ),
        address: r.into(),
    }
}

fn needs(r: ResourceAddress) -> AccessRule {
    rule!(require(r))
}

impl World {
    pub fn fork(&self) -> World {
        World {
            sim: self.sim.fork(),
            a: self.a.clone(),
            owner: self.owner.clone(),
            bank: self.bank.clone(),
            owners: self.owners.clone(),
            watched: self.watched.clone(),
        }
    }

    pub fn new() -> World {
        let pinned = Pinned {
            enabled: false.into(),
            components: vec![
                ("Oracle", _ORACLE_COMPONENT),
                ("Config", _CONFIG_COMPONENT),
                ("MarginPool", _POOL_COMPONENT),
                ("ReferralGenerator", _REFERRAL_GENERATOR_COMPONENT),
                ("FeeDistributor", _FEE_DISTRIBUTOR_COMPONENT),
                ("FeeDelegator", _FEE_DELEGATOR_COMPONENT),
                ("PermissionRegistry", _PERMISSION_REGISTRY_COMPONENT),
            ],
            resources: vec![("FeeDelegator", _FEE_OATH_RESOURCE)],
        };
        let mut sim = Sim::new(NativeExt::new(bp::all(), pinned));
        sim.set_now(GENESIS);
        let owner = Actor::new(11);
        let bank = Actor::new(12);

        // Resources.
        let fungible = |sim: &mut Sim,
                        at: Option<ResourceAddress>,
                        divisibility: u8,
                        supply: Decimal,
                        minter: AccessRule,
                        burner: AccessRule,
                        to: &Actor|
         -> ResourceAddress {
            let roles = FungibleResourceRoles {
                mint_roles: mint_roles! { minter => minter; minter_updater => rule!(deny_all); },
                burn_roles: burn_roles! { burner => burner; burner_updater => rule!(deny_all); },
                ..Default::default()
            };
            let (reservation, pre) = match at {
                Some(a) => (Some(ManifestAddressReservation(0)), vec![res_node(a, true)]),
                None => (None, vec![]),
            };
            let call = if supply.is_zero() {
                InstructionV1::CallFunction {
                    package_address: RESOURCE_PACKAGE.into(),
                    blueprint_name: FUNGIBLE_RESOURCE_MANAGER_BLUEPRINT.to_string(),
                    function_name: FUNGIBLE_RESOURCE_MANAGER_CREATE_IDENT.to_string(),
                    args: to_manifest_value_and_unwrap!(&FungibleResourceManagerCreateManifestInput {
                        owner_role: OwnerRole::None,
                        track_total_supply: true,
                        divisibility,
                        resource_roles: roles,
                        metadata: Default::default(),
                        address_reservation: reservation,
                    }),
                }
            } else {
                InstructionV1::CallFunction {
                    package_address: RESOURCE_PACKAGE.into(),
                    blueprint_name: FUNGIBLE_RESOURCE_MANAGER_BLUEPRINT.to_string(),
                    function_name: FUNGIBLE_RESOURCE_MANAGER_CREATE_WITH_INITIAL_SUPPLY_IDENT.to_string(),
                    args: to_manifest_value_and_unwrap!(
                        &FungibleResourceManagerCreateWithInitialSupplyManifestInput {
                            owner_role: OwnerRole::None,
                            track_total_supply: true,
                            divisibility,
                            initial_supply: supply,
                            resource_roles: roles,
                            metadata: Default::default(),
                            address_reservation: reservation,
                        }
                    ),
                }
            };
            let mut instructions = vec![call];
            if !supply.is_zero() {
                instructions.push(InstructionV1::CallMethod {
                    address: to.account.into(),
                    method_name: "try_deposit_batch_or_abort".to_string(),
                    args: manifest_args!(ManifestExpression::EntireWorktop, None::<ResourceOrNonFungible>).into(),
                });
            }
            let r = sim.execute_system(instructions, pre).expect("create resource");
            if supply.is_zero() {
                r.output(0)
            } else {
                r.output::<(ResourceAddress, NoDecode)>(0).0
            }
        };
        let allow = || rule!(allow_all);
        let deny = || rule!(deny_all);
        let owner_badge = fungible(&mut sim, None, 0, dec!(9), deny(), deny(), &owner);
        fungible(&mut sim, Some(_AUTHORITY_RESOURCE), 18, dec!(3), deny(), deny(), &owner);
        fungible(&mut sim, Some(_BASE_AUTHORITY_RESOURCE), 18, dec!(2), deny(), deny(), &owner);
        let big = dec!(1000000000000);
        fungible(&mut sim, Some(_BASE_RESOURCE), 18, big, needs(_BASE_AUTHORITY_RESOURCE), allow(), &bank);
        fungible(&mut sim, Some(_LP_RESOURCE), 18, dec!(0), needs(_AUTHORITY_RESOURCE), needs(_AUTHORITY_RESOURCE), &bank);
        fungible(&mut sim, Some(_PROTOCOL_RESOURCE), 18, dec!(100000000), deny(), allow(), &bank);
        fungible(&mut sim, Some(_KEEPER_REWARD_RESOURCE), 18, dec!(0), needs(_AUTHORITY_RESOURCE), allow(), &bank);
        let tokens = [
            fungible(&mut sim, None, 8, big, allow(), allow(), &bank),
            fungible(&mut sim, None, 18, big, allow(), allow(), &bank),
            fungible(&mut sim, None, 6, big, allow(), allow(), &bank),
        ];
        let junk = fungible(&mut sim, None, 18, big, allow(), allow(), &bank);
        let non_fungible = |sim: &mut Sim, at: ResourceAddress, schema: NonFungibleDataSchema, soulbound: bool| {
            let roles = NonFungibleResourceRoles {
                mint_roles: mint_roles! { minter => needs(_AUTHORITY_RESOURCE); minter_updater => rule!(deny_all); },
                withdraw_roles: if soulbound {
                    withdraw_roles! { withdrawer => rule!(deny_all); withdrawer_updater => rule!(deny_all); }
                } else {
                    withdraw_roles! { withdrawer => rule!(allow_all); withdrawer_updater => rule!(deny_all); }
                },
                non_fungible_data_update_roles: non_fungible_data_update_roles! {
                    non_fungible_data_updater => needs(_AUTHORITY_RESOURCE);
                    non_fungible_data_updater_updater => rule!(deny_all);
                },
                ..Default::default()
            };
            sim.execute_system(
                vec![InstructionV1::CallFunction {
                    package_address: RESOURCE_PACKAGE.into(),
                    blueprint_name: NON_FUNGIBLE_RESOURCE_MANAGER_BLUEPRINT.to_string(),
                    function_name: NON_FUNGIBLE_RESOURCE_MANAGER_CREATE_IDENT.to_string(),
                    args: to_manifest_value_and_unwrap!(&NonFungibleResourceManagerCreateManifestInput {
                        owner_role: OwnerRole::None,
                        id_type: NonFungibleIdType::RUID,
                        track_total_supply: true,
                        non_fungible_schema: schema,
                        resource_roles: roles,
                        metadata: Default::default(),
                        address_reservation: Some(ManifestAddressReservation(0)),
                    }),
                }],
                vec![res_node(at, false)],
            )
            .expect("create non-fungible resource");
        };
        non_fungible(
            &mut sim,
            _REFERRAL_RESOURCE,
            NonFungibleDataSchema::new_local_without_self_package_replacement::<::referral_generator::ReferralData>(),
            true,
        );
        non_fungible(
            &mut sim,
            _RECOVERY_KEY_RESOURCE,
            NonFungibleDataSchema::new_local_without_self_package_replacement::<::exchange::RecoveryKeyData>(),
            false,
        );

        // Packages.
        let fixed: Map<&str, PackageAddress> = [
            ("Oracle", ORACLE_PACKAGE),
            ("Config", CONFIG_PACKAGE),
            ("MarginAccount", MARGIN_ACCOUNT_PACKAGE),
            ("MarginPool", MARGIN_POOL_PACKAGE),
            ("ReferralGenerator", REFERRAL_GENERATOR_PACKAGE),
            ("FeeDistributor", FEE_DISTRIBUTOR_PACKAGE),
            ("FeeDelegator", FEE_DELEGATOR_PACKAGE),
            ("PermissionRegistry", PERMISSION_REGISTRY_PACKAGE),
        ]
        .into_iter()
        .collect();

        // Components.
        let packages = Map::new();
        sim.ext.pinned.enabled.store(true, std::sync::atomic::Ordering::Relaxed);
        let owner_role = OwnerRole::Fixed(needs(owner_badge));
        let a = Addresses {
            packages,
            owner_badge,
            authority: _AUTHORITY_RESOURCE,
            base_authority: _BASE_AUTHORITY_RESOURCE,
            base: _BASE_RESOURCE,
            lp: _LP_RESOURCE,
            protocol: _PROTOCOL_RESOURCE,
            referral: _REFERRAL_RESOURCE,
            recovery_key: _RECOVERY_KEY_RESOURCE,
            keeper_reward: _KEEPER_REWARD_RESOURCE,
            fee_oath: _FEE_OATH_RESOURCE,
            token_wrapper: FAUCET,
            oracle: _ORACLE_COMPONENT,
            config: _CONFIG_COMPONENT,
            pool: _POOL_COMPONENT,
            referral_generator: _REFERRAL_GENERATOR_COMPONENT,
            fee_distributor: _FEE_DISTRIBUTOR_COMPONENT,
            fee_delegator: _FEE_DELEGATOR_COMPONENT,
            permission_registry: _PERMISSION_REGISTRY_COMPONENT,
            env_registry: FAUCET,
            exchange: FAUCET,
            faucet: FAUCET,
            faucet_owner_badge: owner_badge,
            faucet_tokens: vec![],
            flash_oath: owner_badge,
            tokens,
            junk,
        };
        let mut w = World { sim, a, owner, bank, owners: Map::new(), watched: vec![] };
        // A package may only refer to what exists already, so each is published when it is needed.
        let pkg = |w: &mut World, n: &str| {
            let i = BLUEPRINTS.iter().position(|b| *b == n).unwrap();
            let p = w.sim.publish_native(i, fixed.get(n).copied());
            w.a.packages.insert(n.to_string(), p);
            p
        };
        for name in ["Config", "MarginPool", "ReferralGenerator", "FeeDistributor", "FeeDelegator", "PermissionRegistry"] {
            let p = pkg(&mut w, name);
            let m = w.b().call_function(p, name, "new", manifest_args!(owner_role.clone())).build();
            w.sim.execute(m, []).expect(name);
        }
        {
            let keys: HashMap<u64, Bls12381G1PublicKey> = [(0u64, oracle_key(ORACLE_KEY))].into_iter().collect();
            let p = pkg(&mut w, "Oracle");
            let m = w.b().call_function(p, "Oracle", "new", manifest_args!(owner_role.clone(), keys)).build();
            w.sim.execute(m, []).expect("Oracle");
        }
        {
            let p = pkg(&mut w, "EnvRegistry");
            let m = w.b().call_function(p, "EnvRegistry", "new", manifest_args!(owner_role.clone())).build();
            let r = w.sim.execute(m, []).expect("EnvRegistry");
            w.a.env_registry = r.commit().new_component_addresses()[0];
        }
        {
            let p = pkg(&mut w, "Faucet");
            let b = w.b().call_function(p, "Faucet", "new", manifest_args!());
            let m = b.try_deposit_entire_worktop_or_abort(w.owner.account, None).build();
            let r = w.sim.execute(m, []).expect("Faucet");
            w.a.faucet = *r
                .commit()
                .new_component_addresses()
                .iter()
                .find(|c| c.as_node_id().entity_type() == Some(EntityType::GlobalGenericComponent))
                .unwrap();
            let held = w.sim.balances(w.owner.account);
            w.a.faucet_owner_badge = *r
                .commit()
                .new_resource_addresses()
                .iter()
                .find(|x| held.contains_key(*x))
                .expect("faucet owner badge");
            w.a.faucet_tokens =
                r.commit().new_resource_addresses().iter().filter(|x| **x != w.a.faucet_owner_badge).copied().collect();
        }
        pkg(&mut w, "MarginAccount");
        for (name, token) in [("TokenWrapper", _BASE_AUTHORITY_RESOURCE), ("Exchange", _AUTHORITY_RESOURCE)] {
            let p = pkg(&mut w, name);
            let b = w.b().withdraw_from_account(w.owner.account, token, dec!(1)).take_all_from_worktop(token, "t");
            let bucket = b.name_lookup().bucket("t");
            let b = if name == "Exchange" {
                b.call_function(p, name, "new", manifest_args!(owner_role.clone(), bucket, None::<ManifestAddressReservation>))
            } else {
                b.call_function(p, name, "new", manifest_args!(owner_role.clone(), bucket))
            };
            let r = w.sim.execute(b.build(), [w.owner.badge.clone()]).expect(name);
            let c = r.commit().new_component_addresses()[0];
            if name == "Exchange" {
                w.a.exchange = c;
            } else {
                w.a.token_wrapper = c;
                w.a.flash_oath = r.commit().new_resource_addresses()[0];
            }
        }
        let m = w.as_owner(w.b()).set_metadata(
            w.a.exchange,
            "dapp_definition",
            MetadataValue::GlobalAddress(w.owner.account.into()),
        );
        w.sim.execute(m.build(), [w.owner.badge.clone()]).expect("dapp definition");

        w.watched = vec![
            w.a.token_wrapper,
            w.a.oracle,
            w.a.config,
            w.a.pool,
            w.a.referral_generator,
            w.a.fee_distributor,
            w.a.fee_delegator,
            w.a.permission_registry,
            w.a.env_registry,
            w.a.exchange,
            w.a.faucet,
            w.owner.account,
            w.bank.account,
        ];
        w
    }

    /// A manifest that has its fee paid.
    pub fn b(&self) -> ManifestBuilder {
        ManifestBuilder::new().lock_fee_from_faucet()
    }
    /// With the owner badge in the auth zone (needs the owner's signature).
    pub fn as_owner(&self, b: ManifestBuilder) -> ManifestBuilder {
        b.create_proof_from_account_of_amount(self.owner.account, self.a.owner_badge, dec!(1))
    }
    /// With the exchange's authority in the auth zone (needs the owner's signature).
    pub fn as_authority(&self, b: ManifestBuilder) -> ManifestBuilder {
        b.create_proof_from_account_of_amount(self.owner.account, self.a.authority, dec!(1))
    }

    /// Takes tokens out of an account into a bucket.
    pub fn pay(
        &self,
        b: ManifestBuilder,
        from: &Actor,
        resource: ResourceAddress,
        amount: Decimal,
    ) -> (ManifestBuilder, ManifestBucket) {
        let name = b.generate_bucket_name("pay");
        let b = b.withdraw_from_account(from.account, resource, amount).take_from_worktop(resource, amount, name.clone());
        let bucket = b.name_lookup().bucket(name);
        (b, bucket)
    }

    /// What is left over goes to the bank; signed by the owner, the bank and `extra`.
    pub fn run(&mut self, b: ManifestBuilder, extra: &[NonFungibleGlobalId]) -> TxResult {
        let m = b.try_deposit_entire_worktop_or_abort(self.bank.account, None).build();
        let mut proofs = vec![self.bank.badge.clone(), self.owner.badge.clone()];
        proofs.extend_from_slice(extra);
        self.sim.execute(m, proofs)
    }

    /// Read-only calls, answered together, without fees and without effects.
    pub fn query(&mut self, calls: Vec<(ComponentAddress, &str, ManifestValue)>) -> TxResult {
        let instructions = calls
            .into_iter()
            .map(|(c, m, args)| InstructionV1::CallMethod { address: c.into(), method_name: m.to_string(), args })
            .collect();
        self.sim.query_system(instructions)
    }

    /// What each watched component, or account, gained and lost in a transaction, network fees
    /// and royalties aside.
    pub fn flows(&mut self, r: &TxResult) -> Map<(ComponentAddress, ResourceAddress), Decimal> {
        let mut out = Map::new();
        let mut unknown = vec![];

        let changes: Vec<(NodeId, ResourceAddress, Decimal)> = r
            .commit()
            .vault_balance_changes()
            .iter()
            .map(|(v, (res, change))| {
                let d = match change {
                    radix_engine::transaction::BalanceChange::Fungible(d) => *d,
                    radix_engine::transaction::BalanceChange::NonFungible { added, removed } => {
                        Decimal::from(added.len()) - Decimal::from(removed.len())
                    }
                };
                (*v, *res, d)
            })
            .collect();
        for (v, res, _) in &changes {
            if !self.owners.contains_key(v) && !unknown.contains(res) {
                unknown.push(*res);
            }
        }
        for res in unknown {
            for c in self.watched.clone() {
                if !self.sim.exists(c) {
                    continue;
                }
                for v in self.sim.vaults(c, res) {
                    self.owners.insert(v, c);
                }
            }
        }
        let paid = &r.commit().fee_source.paying_vaults;
        for (recipient, d) in &r.commit().fee_destination.to_royalty_recipients {
            if let radix_engine::system::system_modules::costing::RoyaltyRecipient::Component(c, _) = recipient {
                *out.entry((*c, XRD)).or_insert(Decimal::ZERO) -= *d;
            }
        }
        for (v, res, d) in changes {
            let d = d + paid.get(&v).copied().unwrap_or_default();
            if let Some(c) = self.owners.get(&v) {
                *out.entry((*c, res)).or_insert(Decimal::ZERO) += d;
            }
        }
        out.retain(|_, d| !d.is_zero());
        out
    }

    pub fn watch(&mut self, c: ComponentAddress) {
        if !self.watched.contains(&c) {
            self.watched.push(c);
        }
    }
}

impl Default for World {
    fn default() -> Self {
        Self::new()
    }
}

/// Stands for an output that is not looked at.
pub struct NoDecode;
impl<D: sbor::Decoder<ScryptoCustomValueKind>> sbor::Decode<ScryptoCustomValueKind, D> for NoDecode {
    fn decode_body_with_value_kind(
        decoder: &mut D,
        value_kind: sbor::ValueKind<ScryptoCustomValueKind>,
    ) -> Result<Self, sbor::DecodeError> {
        let _: sbor::Value<ScryptoCustomValueKind, ScryptoCustomValue> =
            decoder.decode_deeper_body_with_value_kind(value_kind)?;
        Ok(NoDecode)
    }
}

pub fn oracle_key(seed: u64) -> Bls12381G1PublicKey {
    Bls12381G1PrivateKey::from_u64(seed).unwrap().public_key()
}

/// A signed oracle message.
pub fn sign_prices(seed: u64, key_id: u64, prices: &[(String, Decimal, i64)]) -> Signed {
    let data: Vec<::oracle::Price> = prices
        .iter()
        .map(|(pair, quote, t)| ::oracle::Price { pair: pair.clone(), quote: *quote, timestamp: Instant::new(*t) })
        .collect();
    sign_data(seed, key_id, scrypto_encode(&data).unwrap())
}

pub fn sign_data(seed: u64, key_id: u64, data: Vec<u8>) -> Signed {
    let h = keccak256_hash(&data).to_vec();
    let signature = Bls12381G1PrivateKey::from_u64(seed).unwrap().sign_v1(&h);
    (data, signature, key_id)
}

