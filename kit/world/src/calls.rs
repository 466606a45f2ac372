//! One function per transaction that somebody may send.

use crate::*;
use ::config::{CollateralConfig, ExchangeConfig, PairConfig};
use ::exchange::{PriceLimit, RequestIndexRef, SlippageLimit};

pub type Signers<'a> = &'a [NonFungibleGlobalId];

/// A margin order as its sender describes it.
#[derive(Clone, Debug)]
pub struct Order {
    pub delay: u64,
    pub expiry: u64,
    pub pair: String,
    pub amount: Decimal,
    pub reduce_only: bool,
    pub price_limit: PriceLimit,
    pub slippage_limit: SlippageLimit,
    pub activate: Vec<RequestIndexRef>,
    pub cancel: Vec<RequestIndexRef>,
    pub status: u8,
}

impl Order {
    pub fn market(pair: &str, amount: Decimal) -> Self {
        Order {
            delay: 0,
            expiry: 1_000_000_000,
            pair: pair.to_string(),
            amount,
            reduce_only: false,
            price_limit: PriceLimit::None,
            slippage_limit: SlippageLimit::None,
            activate: vec![],
            cancel: vec![],
            status: 1,
        }
    }
}

pub fn pair_config(pair: &str) -> PairConfig {
    PairConfig {
        pair_id: pair.to_string(),
        price_age_max: 5,
        oi_max: dec!(1000000000),
        trade_size_min: dec!(0),
        update_price_delta_ratio: dec!(0.005),
        update_period_seconds: 3600,
        margin_initial: dec!(0.01),
        margin_maintenance: dec!(0.005),
        funding_1: dec!(1),
        funding_2: dec!(1),
        funding_2_delta: dec!(100),
        funding_2_decay: dec!(100),
        funding_pool_0: dec!(0.02),
        funding_pool_1: dec!(0.25),
        funding_share: dec!(0.02),
        fee_0: dec!(0.0005),
        fee_1: dec!(0.0000000005),
    }
}

/// The exchange's account creation, spelled out.
#[derive(Clone, Debug, Default)]
pub struct NewAccount {
    pub tokens: Vec<(ResourceAddress, Decimal)>,
    pub code: Option<String>,
    pub oath: Option<Decimal>,
    /// At an address reserved beforehand.
    pub reserve: bool,
}

impl World {
    pub fn exchange_call(&mut self, method: &str, args: ManifestValue, signers: Signers) -> TxResult {
        let b = self.b().call_method(self.a.exchange, method, Raw(args));
        self.run(b, signers)
    }
    pub fn owner_call(&mut self, c: ComponentAddress, method: &str, args: ManifestValue) -> TxResult {
        let b = self.as_owner(self.b()).call_method(c, method, Raw(args));
        self.run(b, &[])
    }
    pub fn authority_call(&mut self, c: ComponentAddress, method: &str, args: ManifestValue) -> TxResult {
        let b = self.as_authority(self.b()).call_method(c, method, Raw(args));
        self.run(b, &[])
    }
    /// Pays a number of tokens into a method taking `build(buckets)`.
    pub fn paying(
        &mut self,
        c: ComponentAddress,
        method: &str,
        tokens: &[(ResourceAddress, Decimal)],
        build: impl FnOnce(Vec<ManifestBucket>) -> ManifestValue,
        signers: Signers,
    ) -> TxResult {
        let (b, buckets) = self.pay_all(self.b(), tokens);
        let b = b.call_method(c, method, Raw(build(buckets)));
        self.run(b, signers)
    }
    pub fn pay_all(
        &self,
        mut b: ManifestBuilder,
        tokens: &[(ResourceAddress, Decimal)],
    ) -> (ManifestBuilder, Vec<ManifestBucket>) {
        let mut buckets = vec![];
        for (r, amount) in tokens {
            let (nb, bucket) = self.pay(b, &self.bank.clone(), *r, *amount);
            b = nb;
            buckets.push(bucket);
        }
        (b, buckets)
    }
    /// Locks a transaction fee with the fee delegator when `amount` is given.
    pub fn oath(&self, b: ManifestBuilder, amount: Option<Decimal>) -> (ManifestBuilder, Option<ManifestBucket>) {
        match amount {
            None => (b, None),
            Some(amount) => {
                let name = b.generate_bucket_name("oath");
                let b = b
                    .call_method(self.a.fee_delegator, "lock_fee", manifest_args!(amount))
                    .take_all_from_worktop(self.a.fee_oath, name.clone());
                let bucket = b.name_lookup().bucket(name);
                (b, Some(bucket))
            }
        }
    }

    // Configuration.
    pub fn set_exchange_config(&mut self, c: &ExchangeConfig) -> TxResult {
        self.owner_call(self.a.exchange, "update_exchange_config", to_manifest_value_and_unwrap!(&(c.clone(),)))
    }
    pub fn set_pair_configs(&mut self, c: &[PairConfig]) -> TxResult {
        self.owner_call(self.a.exchange, "update_pair_configs", to_manifest_value_and_unwrap!(&(c.to_vec(),)))
    }
    pub fn set_collateral_configs(&mut self, c: &[(ResourceAddress, CollateralConfig)]) -> TxResult {
        self.owner_call(self.a.exchange, "update_collateral_configs", to_manifest_value_and_unwrap!(&(c.to_vec(),)))
    }
    pub fn remove_collateral_config(&mut self, r: ResourceAddress) -> TxResult {
        self.owner_call(self.a.exchange, "remove_collateral_config", to_manifest_value_and_unwrap!(&(r,)))
    }

    // Oracle.
    pub fn push_prices(&mut self, prices: &Signed) -> TxResult {
        let none: Vec<String> = vec![];
        let b = self.b().call_method(
            self.a.oracle,
            "push_and_get_prices",
            manifest_args!(none, prices.0.clone(), prices.1, prices.2),
        );
        self.run(b, &[])
    }

    // Liquidity.
    pub fn add_liquidity(&mut self, token: ResourceAddress, amount: Decimal) -> TxResult {
        let e = self.a.exchange;
        self.paying(e, "add_liquidity", &[(token, amount)], |b| to_manifest_value_and_unwrap!(&(b[0],)), &[])
    }
    pub fn remove_liquidity(&mut self, token: ResourceAddress, amount: Decimal) -> TxResult {
        let e = self.a.exchange;
        self.paying(e, "remove_liquidity", &[(token, amount)], |b| to_manifest_value_and_unwrap!(&(b[0],)), &[])
    }
    pub fn swap_protocol_fee(&mut self, token: ResourceAddress, amount: Decimal) -> TxResult {
        let e = self.a.exchange;
        self.paying(e, "swap_protocol_fee", &[(token, amount)], |b| to_manifest_value_and_unwrap!(&(b[0],)), &[])
    }

    // Accounts.
    pub fn create_account(&mut self, rule: AccessRule, n: &NewAccount) -> (TxResult, Option<ComponentAddress>) {
        let (b, oath) = self.oath(self.b(), n.oath);
        let (b, buckets) = self.pay_all(b, &n.tokens);
        let b = if n.reserve {
            let b = b.allocate_global_address(self.a.packages["MarginAccount"], "MarginAccount", "place", "address");
            let (place, address) = (b.name_lookup().address_reservation("place"), b.name_lookup().named_address("address"));
            // Usable at once, and there.
            b.call_method(self.a.exchange, "create_account", manifest_args!(oath, rule, buckets, n.code.clone(), Some(place)))
                .call_method(address, "get_info", manifest_args!())
        } else {
            b.call_method(
                self.a.exchange,
                "create_account",
                manifest_args!(oath, rule, buckets, n.code.clone(), None::<ManifestAddressReservation>),
            )
        };
        let r = self.run(b, &[]);
        let account = if r.ok() {
            r.commit()
                .new_component_addresses()
                .iter()
                .copied()
                .find(|c| c.as_node_id().entity_type() == Some(EntityType::GlobalGenericComponent))
        } else {
            None
        };
        if let Some(c) = account {
            self.watch(c);
        }
        (r, account)
    }
    pub fn add_collateral(
        &mut self,
        account: ComponentAddress,
        tokens: &[(ResourceAddress, Decimal)],
        oath: Option<Decimal>,
        signers: Signers,
    ) -> TxResult {
        let (b, oath) = self.oath(self.b(), oath);
        let (b, buckets) = self.pay_all(b, tokens);
        let b = b.call_method(self.a.exchange, "add_collateral", manifest_args!(oath, account, buckets));
        self.run(b, signers)
    }
    pub fn remove_collateral_request(
        &mut self,
        expiry: u64,
        account: ComponentAddress,
        target: ComponentAddress,
        claims: &[(ResourceAddress, Decimal)],
        oath: Option<Decimal>,
        signers: Signers,
    ) -> TxResult {
        let (b, oath) = self.oath(self.b(), oath);
        let b = b.call_method(
            self.a.exchange,
            "remove_collateral_request",
            manifest_args!(oath, expiry, account, target, claims.to_vec()),
        );
        self.run(b, signers)
    }
    pub fn order(&mut self, account: ComponentAddress, o: &Order, oath: Option<Decimal>, signers: Signers) -> TxResult {
        let (b, oath) = self.oath(self.b(), oath);
        let b = b.call_method(
            self.a.exchange,
            "margin_order_request",
            manifest_args!(
                oath,
                o.delay,
                o.expiry,
                account,
                o.pair.clone(),
                o.amount,
                o.reduce_only,
                o.price_limit,
                o.slippage_limit,
                o.activate.clone(),
                o.cancel.clone(),
                o.status
            ),
        );
        self.run(b, signers)
    }
    pub fn order_tp_sl(
        &mut self,
        account: ComponentAddress,
        o: &Order,
        tp: Option<Decimal>,
        sl: Option<Decimal>,
        oath: Option<Decimal>,
        signers: Signers,
    ) -> TxResult {
        let (b, oath) = self.oath(self.b(), oath);
        let b = b.call_method(
            self.a.exchange,
            "margin_order_tp_sl_request",
            manifest_args!(
                oath,
                o.delay,
                o.expiry,
                account,
                o.pair.clone(),
                o.amount,
                o.reduce_only,
                o.price_limit,
                o.slippage_limit,
                tp,
                sl
            ),
        );
        self.run(b, signers)
    }
    pub fn cancel_requests(
        &mut self,
        account: ComponentAddress,
        indexes: &[u64],
        oath: Option<Decimal>,
        signers: Signers,
    ) -> TxResult {
        let (b, oath) = self.oath(self.b(), oath);
        let b =
            b.call_method(self.a.exchange, "cancel_requests", manifest_args!(oath, account, indexes.to_vec()));
        self.run(b, signers)
    }

    // Keepers.
    pub fn process(&mut self, account: ComponentAddress, index: u64, prices: Option<Signed>) -> TxResult {
        let b = self.b().call_method(self.a.exchange, "process_request", manifest_args!(account, index, prices));
        self.run(b, &[])
    }
    pub fn swap_debt(
        &mut self,
        account: ComponentAddress,
        resource: ResourceAddress,
        payment: (ResourceAddress, Decimal),
        prices: Option<Signed>,
    ) -> TxResult {
        let e = self.a.exchange;
        self.paying(
            e,
            "swap_debt",
            &[payment],
            |b| to_manifest_value_and_unwrap!(&(account, resource, b[0], prices)),
            &[],
        )
    }
    pub fn liquidate(
        &mut self,
        account: ComponentAddress,
        payment: (ResourceAddress, Decimal),
        prices: Option<Signed>,
    ) -> TxResult {
        let e = self.a.exchange;
        self.paying(e, "liquidate", &[payment], |b| to_manifest_value_and_unwrap!(&(account, b[0], prices)), &[])
    }
    pub fn auto_deleverage(&mut self, account: ComponentAddress, pair: &str, prices: Option<Signed>) -> TxResult {
        let b = self.b().call_method(
            self.a.exchange,
            "auto_deleverage",
            manifest_args!(account, pair.to_string(), prices),
        );
        self.run(b, &[])
    }
    pub fn update_pairs(&mut self, pairs: &[String], prices: Option<Signed>) -> TxResult {
        let b = self.b().call_method(self.a.exchange, "update_pairs", manifest_args!(pairs.to_vec(), prices));
        self.run(b, &[])
    }
}

/// Arguments that are already a manifest value.
pub struct Raw(pub ManifestValue);
impl ResolvableArguments for Raw {
    fn resolve(self) -> ManifestValue {
        self.0
    }
}
