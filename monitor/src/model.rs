//! An independent reference model of the exchange: given a state and an operation it says whether
//! the operation has to succeed, and what the state, the payments and the events have to be then.
//!
//! Where a decision hinges on a difference too small to call, `near` is set and nobody judges.

use std::collections::{BTreeMap as Map, BTreeSet as Set};
use world::*;

pub use ::config::{CollateralConfig, ExchangeConfig, PairConfig};
pub use ::exchange::{PriceLimit, RequestIndexRef, SlippageLimit};

pub type Id = String;
pub type D = Decimal;
pub const ATTO: D = Decimal(I192::ONE);
pub const YEAR: i64 = 31_536_000;

pub const DORMANT: u8 = 0;
pub const ACTIVE: u8 = 1;
pub const EXECUTED: u8 = 2;
pub const CANCELLED: u8 = 3;
pub const EXPIRED: u8 = 4;

#[derive(Clone, Debug, PartialEq)]
pub struct Pos {
    pub amount: D,
    pub cost: D,
    pub index: D,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Rq {
    Remove { target: ComponentAddress, claims: Vec<(ResourceAddress, D)> },
    Order {
        pair: Id,
        amount: D,
        reduce_only: bool,
        price_limit: PriceLimit,
        slippage_limit: SlippageLimit,
        activate: Vec<u64>,
        cancel: Vec<u64>,
    },
}

#[derive(Clone, Debug, PartialEq)]
pub struct Req {
    pub rq: Rq,
    pub submission: i64,
    pub expiry: i64,
    pub status: u8,
    pub effected: Vec<ComponentAddress>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Acc {
    pub positions: Map<Id, Pos>,
    pub coll: Map<ResourceAddress, D>,
    pub vb: D,
    pub reqs: Vec<Req>,
    pub active: Set<u64>,
    pub start: u64,
    pub referral: Option<NonFungibleLocalId>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Pair {
    pub oi_long: D,
    pub oi_short: D,
    pub cost: D,
    pub skew_abs: D,
    pub pnl: D,
    pub rate: D,
    pub long_index: D,
    pub short_index: D,
    pub last_update: i64,
    pub last_price: D,
}

impl Pair {
    pub fn fresh(now: i64) -> Self {
        let z = D::ZERO;
        Pair {
            oi_long: z,
            oi_short: z,
            cost: z,
            skew_abs: z,
            pnl: z,
            rate: z,
            long_index: z,
            short_index: z,
            last_update: now,
            last_price: D::ONE,
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Referral {
    pub share: D,
    pub rebate: D,
    pub referrals: u64,
    pub max: u64,
    pub balance: D,
    pub total: D,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Code {
    pub referral: NonFungibleLocalId,
    pub claims: Vec<(ResourceAddress, D)>,
    pub count: u64,
    pub max: u64,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Allocation {
    pub claims: Vec<(ResourceAddress, D)>,
    pub count: u64,
    pub max: u64,
}

#[derive(Clone, Debug)]
pub struct State {
    pub now: i64,
    pub oracle: Map<Id, (D, i64)>,
    pub ex: ExchangeConfig,
    pub pair_cfg: Map<Id, PairConfig>,
    pub coll_cfg: Map<ResourceAddress, CollateralConfig>,
    pub base_tokens: D,
    pub pool_vb: D,
    pub unrealized: D,
    pub skew_abs: D,
    pub pnl: D,
    pub pairs: Map<Id, Pair>,
    pub accounts: Map<ComponentAddress, Acc>,
    pub protocol: D,
    pub treasury: D,
    pub delegator_vb: D,
    pub max_lock: D,
    pub multiplier: D,
    pub oath_supply: D,
    pub lp_supply: D,
    pub referrals: Map<NonFungibleLocalId, Referral>,
    pub codes: Map<String, Code>,
    pub allocations: Map<NonFungibleLocalId, Vec<Allocation>>,
    pub divisibility: Map<ResourceAddress, u8>,
    pub base: ResourceAddress,
    pub lp: ResourceAddress,
    pub protocol_res: ResourceAddress,
    /// Accounts that accept any deposit.
    pub depositable: Set<ComponentAddress>,
}

#[derive(Clone, Debug)]
pub struct PriceMsg {
    pub prices: Vec<(Id, D, i64)>,
    pub authentic: bool,
}

#[derive(Clone, Debug)]
pub enum Op {
    Push(PriceMsg),
    Create { owner: usize, tokens: Vec<(ResourceAddress, D)>, code: Option<String>, oath: Option<D> },
    Add { acc: ComponentAddress, tokens: Vec<(ResourceAddress, D)>, oath: Option<D> },
    Remove {
        acc: ComponentAddress,
        expiry: u64,
        target: ComponentAddress,
        claims: Vec<(ResourceAddress, D)>,
        oath: Option<D>,
    },
    Order { acc: ComponentAddress, order: Order, oath: Option<D> },
    TpSl { acc: ComponentAddress, order: Order, tp: Option<D>, sl: Option<D>, oath: Option<D> },
    Cancel { acc: ComponentAddress, indexes: Vec<u64>, oath: Option<D> },
    Process { acc: ComponentAddress, index: u64, prices: Option<PriceMsg> },
    SwapDebt { acc: ComponentAddress, res: ResourceAddress, pay: (ResourceAddress, D), prices: Option<PriceMsg> },
    Liquidate { acc: ComponentAddress, pay: (ResourceAddress, D), prices: Option<PriceMsg> },
    Adl { acc: ComponentAddress, pair: Id, prices: Option<PriceMsg> },
    Update { pairs: Vec<Id>, prices: Option<PriceMsg> },
    AddLiq { pay: (ResourceAddress, D) },
    RemLiq { pay: (ResourceAddress, D) },
    SwapProtocol { pay: (ResourceAddress, D) },
    CollectTreasury,
    CollectDelegator,
    CollectReferral { referral: usize },
    SetExchange(ExchangeConfig),
    SetPairs(Vec<PairConfig>),
    SetCollateral(Vec<(ResourceAddress, CollateralConfig)>),
    DropCollateral(ResourceAddress),
    UpdateReferral { referral: usize, share: Option<D>, rebate: Option<D>, max: Option<u64> },
    MintReferral { share: D, rebate: D, max: u64, allocation: Option<Funding> },
    CreateCodes { referral: usize, tokens: Vec<(ResourceAddress, D)>, codes: Vec<(String, Vec<(ResourceAddress, D)>, u64)> },
    AddAllocation { referral: usize, tokens: Vec<(ResourceAddress, D)>, claims: Vec<(ResourceAddress, D)>, count: u64 },
    CodesFromAllocation { referral: usize, index: u64, codes: Vec<String> },
}

/// What a new allocation is paid with, what each of its codes gives, and how many there are.
#[derive(Clone, Debug, PartialEq)]
pub struct Funding {
    pub tokens: Vec<(ResourceAddress, D)>,
    pub claims: Vec<(ResourceAddress, D)>,
    pub count: u64,
}

/// Stands for a badge that is yet to be minted.
pub fn unborn() -> NonFungibleLocalId {
    NonFungibleLocalId::integer(u64::MAX)
}

impl Op {
    pub fn name(&self) -> &'static str {
        match self {
            Op::Push(_) => "push_prices",
            Op::Create { .. } => "create_account",
            Op::Add { .. } => "add_collateral",
            Op::Remove { .. } => "remove_collateral_request",
            Op::Order { .. } => "margin_order_request",
            Op::TpSl { .. } => "margin_order_tp_sl_request",
            Op::Cancel { .. } => "cancel_requests",
            Op::Process { .. } => "process_request",
            Op::SwapDebt { .. } => "swap_debt",
            Op::Liquidate { .. } => "liquidate",
            Op::Adl { .. } => "auto_deleverage",
            Op::Update { .. } => "update_pairs",
            Op::AddLiq { .. } => "add_liquidity",
            Op::RemLiq { .. } => "remove_liquidity",
            Op::SwapProtocol { .. } => "swap_protocol_fee",
            Op::CollectTreasury => "collect_treasury",
            Op::CollectDelegator => "collect_fee_delegator",
            Op::CollectReferral { .. } => "collect_referral_rewards",
            Op::SetExchange(_) => "update_exchange_config",
            Op::SetPairs(_) => "update_pair_configs",
            Op::SetCollateral(_) => "update_collateral_configs",
            Op::DropCollateral(_) => "remove_collateral_config",
            Op::UpdateReferral { .. } => "update_referral",
            Op::MintReferral { allocation: None, .. } => "mint_referral",
            Op::MintReferral { .. } => "mint_referral_with_allocation",
            Op::CreateCodes { .. } => "create_referral_codes",
            Op::AddAllocation { .. } => "add_referral_allocation",
            Op::CodesFromAllocation { .. } => "create_referral_codes_from_allocation",
        }
    }
    pub fn account(&self) -> Option<ComponentAddress> {
        match self {
            Op::Add { acc, .. }
            | Op::Remove { acc, .. }
            | Op::Order { acc, .. }
            | Op::TpSl { acc, .. }
            | Op::Cancel { acc, .. }
            | Op::Process { acc, .. }
            | Op::SwapDebt { acc, .. }
            | Op::Liquidate { acc, .. }
            | Op::Adl { acc, .. } => Some(*acc),
            _ => None,
        }
    }
}

/// Why an operation must not succeed.
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Rej {
    BadSignature,
    MissingPrice,
    StalePrice,
    BadPrice,
    MissingPairConfig,
    MissingRequest,
    BeforeValidStart,
    NotActive,
    BeforeSubmission,
    NotCancellable,
    BadStatus,
    PriceLimit,
    Slippage,
    OiMax,
    Skew,
    Positions,
    Collaterals,
    ActiveRequests,
    TradeSize,
    Claims,
    Effected,
    Margin,
    Balance,
    PoolTokens,
    Amount,
    InvalidCollateral,
    Sufficient,
    Payment,
    WrongToken,
    AdlSkew,
    AdlPosition,
    AdlPnl,
    AdlNotReduced,
    NoDebt,
    ReferralLimit,
    ReferralData,
    CodeExists,
    CodeMissing,
    CodeUsed,
    Allocation,
    Tokens,
    Config,
    OathLimit,
    Time,
}

#[derive(Clone, Debug)]
pub enum Ev {
    PairUpdates(Map<Id, Pair>),
    Requests(ComponentAddress, Map<u64, Req>),
    ValidStart(ComponentAddress, u64),
    Creation(Option<NonFungibleLocalId>),
    Liquidity { price: D, lp: D, amount: D, pool: D, protocol: D, treasury: D },
    AddCollateral(Option<ComponentAddress>, Vec<(ResourceAddress, D)>),
    RemoveCollateral(ComponentAddress, ComponentAddress, Vec<(ResourceAddress, D)>),
    Order {
        acc: ComponentAddress,
        pair: Id,
        price: D,
        limit: PriceLimit,
        close: D,
        open: D,
        pnl: D,
        funding: D,
        fees: [D; 4],
        activated: Set<u64>,
        cancelled: Set<u64>,
    },
    SwapDebt { acc: ComponentAddress, res: ResourceAddress, amount: D, price: D },
    Liquidate {
        acc: ComponentAddress,
        prices: Map<Id, D>,
        coll_prices: Map<ResourceAddress, D>,
        value: D,
        margin: D,
        vb: D,
        amounts: Map<Id, D>,
        pnl: D,
        coll: Map<ResourceAddress, D>,
        coll_value: D,
        coll_discounted: D,
        funding: D,
        fees: [D; 4],
        loss: D,
    },
    Adl {
        acc: ComponentAddress,
        pair: Id,
        price: D,
        close: D,
        pnl: D,
        funding: D,
        fees: [D; 4],
        percent: D,
        threshold: D,
    },
    ExchangeConfig(ExchangeConfig),
    PairConfigs(Vec<PairConfig>),
    CollateralConfigs(Vec<(ResourceAddress, CollateralConfig)>),
    CollateralRemoval(ResourceAddress),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Who {
    Bank,
    Pool,
    Delegator,
    Referrals,
    /// The account the operation creates.
    New,
    At(ComponentAddress),
}

#[derive(Clone, Debug, Default)]
pub struct Out {
    pub flows: Map<(Who, ResourceAddress), D>,
    pub reward: D,
    pub events: Vec<Ev>,
    pub rewarded: Vec<bool>,
    pub indexes: Vec<u64>,
    /// The account that is created.
    pub created: Option<Acc>,
    /// The pairs that are brought up to date.
    pub pairs: Set<Id>,
    /// What happened, for coverage.
    pub notes: Vec<&'static str>,
}

impl Out {
    pub fn flow(&mut self, who: Who, res: ResourceAddress, d: D) {
        *self.flows.entry((who, res)).or_insert(D::ZERO) += d;
        self.flows.retain(|_, d| !d.is_zero());
    }
}

pub struct Model<'a> {
    pub s: &'a mut State,
    pub near: bool,
    pub out: Out,
    price_at: Map<Id, D>,
    pair_touched: Set<Id>,
    req_touched: Map<u64, Req>,
}

type R<T> = Result<T, Rej>;

pub fn abs(d: D) -> D {
    if d.is_negative() {
        -d
    } else {
        d
    }
}

pub fn floor_to(d: D, divisibility: u8) -> D {
    d.checked_round(divisibility, RoundingMode::ToZero).unwrap()
}
pub fn ceil_to(d: D, divisibility: u8) -> D {
    d.checked_round(divisibility, RoundingMode::ToPositiveInfinity).unwrap()
}

/// The difference below which two results of different but equivalent arithmetic may lie.
pub fn tolerance(a: D, b: D) -> D {
    dec!("0.000000001") + (abs(a).min(dec!("1000000000000000000")) + abs(b).min(dec!("1000000000000000000"))) * dec!("0.0000000000001")
}
pub fn close(a: D, b: D) -> bool {
    abs(a - b) <= tolerance(a, b)
}

/// Whether a figure has so few digits that any way of computing it gives the same.
pub fn short(d: D) -> bool {
    floor_to(d, 12) == d
}

fn clamp(v: D, lo: D, hi: D) -> D {
    if v < lo {
        lo
    } else if v > hi {
        hi
    } else {
        v
    }
}

impl<'a> Model<'a> {
    pub fn new(s: &'a mut State) -> Self {
        Model {
            s,
            near: false,
            out: Out::default(),
            price_at: Map::new(),
            pair_touched: Set::new(),
            req_touched: Map::new(),
        }
    }

    fn cmp_note(&mut self, a: D, b: D) {
        if close(a, b) {
            self.near = true;
        }
    }
    fn note(&mut self, n: &'static str) {
        self.out.notes.push(n);
    }

    fn acc(&mut self, a: ComponentAddress) -> R<&mut Acc> {
        self.s.accounts.get_mut(&a).ok_or(Rej::InvalidCollateral)
    }
    fn div(&self, r: ResourceAddress) -> u8 {
        *self.s.divisibility.get(&r).unwrap_or(&18)
    }

    // Oracle.
    fn push(&mut self, m: &PriceMsg) -> R<()> {
        if !m.authentic {
            return Err(Rej::BadSignature);
        }
        for (pair, quote, t) in &m.prices {
            match self.s.oracle.get(pair) {
                Some((_, t0)) if *t <= *t0 => {}
                _ => {
                    self.s.oracle.insert(pair.clone(), (*quote, *t));
                }
            }
        }
        Ok(())
    }

    /// Fixes the prices an operation uses.
    fn oracle(&mut self, pairs: &Set<Id>, pair_age: bool, msg: &Option<PriceMsg>) -> R<()> {
        let mut ages: Map<Id, Option<i64>> = Map::new();
        for p in pairs {
            let age = if pair_age { Some(self.cfg(p)?.price_age_max) } else { None };
            ages.insert(p.clone(), age);
        }
        for c in self.s.coll_cfg.values() {
            let e = ages.entry(c.pair_id.clone()).or_insert(None);
            *e = Some(e.map_or(c.price_age_max, |a| a.min(c.price_age_max)));
        }
        if let Some(m) = msg {
            self.push(m)?;
        }
        for (p, age) in ages {
            let (price, t) = *self.s.oracle.get(&p).ok_or(Rej::MissingPrice)?;
            if let Some(age) = age {
                if t <= self.s.now - age {
                    return Err(Rej::StalePrice);
                }
            }
            if price <= D::ZERO {
                return Err(Rej::BadPrice);
            }
            self.price_at.insert(p, price);
            self.note("prices used");
        }
        Ok(())
    }
    fn price(&self, p: &str) -> R<D> {
        self.price_at.get(p).copied().ok_or(Rej::MissingPrice)
    }
    fn cfg(&self, p: &str) -> R<PairConfig> {
        self.s.pair_cfg.get(p).cloned().ok_or(Rej::MissingPairConfig)
    }
    fn pair(&mut self, p: &str) -> &mut Pair {
        let now = self.s.now;
        self.s.pairs.entry(p.to_string()).or_insert_with(|| Pair::fresh(now))
    }

    fn pool_value(&self) -> D {
        self.s.base_tokens + self.s.pool_vb + self.s.unrealized + self.s.pnl
    }
    pub fn skew_ratio(&self) -> D {
        let v = self.pool_value();
        self.s.skew_abs / if v > D::ONE { v } else { D::ONE }
    }

    fn snap(&mut self, p: &str) -> R<()> {
        let price = self.price(p)?;
        let q = self.pair(p);
        let net = (q.oi_long - q.oi_short) * price;
        let (s0, n0) = (q.skew_abs, q.pnl);
        q.skew_abs = abs(net);
        q.pnl = q.cost - net;
        let (s1, n1) = (q.skew_abs, q.pnl);
        self.s.skew_abs += s1 - s0;
        self.s.pnl += n1 - n0;
        self.pair_touched.insert(p.to_string());
        self.out.pairs.insert(p.to_string());
        Ok(())
    }

    /// Funding and figures of a pair at the current price; tells whether refreshing it is rewarded.
    fn update_pair(&mut self, p: &str) -> R<bool> {
        let c = self.cfg(p)?;
        let price = self.price(p)?;
        let now = self.s.now;
        self.snap(p)?;
        let q = self.pair(p);
        let dt = now - q.last_update;
        let moved = abs(price - q.last_price) / q.last_price;
        q.last_update = now;
        q.last_price = price;
        let mut gain = D::ZERO;
        if dt != 0 {
            let period = D::from(dt) / D::from(YEAR);
            let hi = q.oi_long * price;
            let lo = -(q.oi_short * price);
            let net = hi + lo;
            let step = net * c.funding_2_delta * period;
            let melt = {
                let m = c.funding_2_decay * period;
                if m > D::ONE {
                    D::ONE
                } else {
                    m
                }
            };
            if q.rate > hi {
                q.rate -= (q.rate - hi) * melt;
                if step < D::ZERO {
                    q.rate = if q.rate + step < lo { lo } else { q.rate + step };
                }
            } else if q.rate < lo {
                q.rate -= (q.rate - lo) * melt;
                if step > D::ZERO {
                    q.rate = if q.rate + step > hi { hi } else { q.rate + step };
                }
            } else {
                q.rate = clamp(q.rate + step, lo, hi);
            }
            if q.oi_long > D::ZERO && q.oi_short > D::ZERO {
                let rate = net * c.funding_1 + clamp(q.rate, lo, hi) * c.funding_2;
                let paid = abs(rate) * period;
                let share = paid * c.funding_share;
                let (payer, payee) = if rate > D::ZERO { (q.oi_long, q.oi_short) } else { (q.oi_short, q.oi_long) };
                let (out, inn) = (paid / payer, -((paid - share) / payee));
                let total = q.oi_long + q.oi_short;
                let to_pool = (total * price * c.funding_pool_0 + abs(net) * c.funding_pool_1) * period;
                let each = to_pool / total;
                let (l, s) = if rate > D::ZERO { (out, inn) } else { (inn, out) };
                q.long_index += l + each;
                q.short_index += s + each;
                gain = to_pool + share;
            }
        }
        self.s.unrealized += gain;
        if !gain.is_zero() {
            self.note("funding accrued");
        }
        if dt < c.update_period_seconds && !self.near {
            self.cmp_note_exactish(moved, c.update_price_delta_ratio);
        }
        Ok(dt >= c.update_period_seconds || moved >= c.update_price_delta_ratio)
    }
    fn cmp_note_exactish(&mut self, a: D, b: D) {
        if a != b && abs(a - b) < dec!("0.0000000000001") {
            self.near = true;
        }
    }

    fn owed(&self, pos: &Pos, q: &Pair) -> D {
        if pos.amount > D::ZERO {
            pos.amount * (q.long_index - pos.index)
        } else {
            -pos.amount * (q.short_index - pos.index)
        }
    }

    fn settle(&mut self, a: ComponentAddress, d: D) -> R<()> {
        self.s.pool_vb -= d;
        self.acc(a)?.vb += d;
        Ok(())
    }

    fn settle_funding(&mut self, a: ComponentAddress, p: &str) -> R<D> {
        let q = self.pair(p).clone();
        let Some(pos) = self.acc(a)?.positions.get(p).cloned() else { return Ok(D::ZERO) };
        let owed = self.owed(&pos, &q);
        self.acc(a)?.positions.get_mut(p).unwrap().index =
            if pos.amount > D::ZERO { q.long_index } else { q.short_index };
        self.s.unrealized -= owed;
        self.settle(a, -owed)?;
        if !owed.is_zero() {
            self.note(if owed > D::ZERO { "funding paid" } else { "funding received" });
        }
        Ok(-owed)
    }

    fn rebate(&self, a: ComponentAddress) -> D {
        let r = &self.s.accounts[&a].referral;
        r.as_ref().and_then(|r| self.s.referrals.get(r)).map_or(D::ONE, |r| D::ONE - r.rebate)
    }

    fn fee(&self, a: ComponentAddress, c: &PairConfig, q: &Pair, price: D, value: D) -> D {
        let net = (q.oi_long - q.oi_short) * price;
        let size = abs(value);
        let raw = size * c.fee_0 + value * (net + net + value) * c.fee_1;
        clamp(raw * self.rebate(a), D::ZERO, size * self.s.ex.fee_max)
    }

    /// Account value and margin requirement.
    fn valuation(&mut self, a: ComponentAddress) -> R<(D, D)> {
        let acc = self.acc(a)?.clone();
        let (mut value, mut margin) = (acc.vb, D::ZERO);
        for (p, pos) in &acc.positions {
            let c = self.cfg(p)?;
            let price = self.price(p)?;
            let q = self.pair(p).clone();
            let close = -(pos.amount * price);
            let fee = self.fee(a, &c, &q, price, close);
            value += -close - pos.cost - fee - self.owed(pos, &q);
            margin += abs(close) * c.margin_initial;
        }
        for (r, amount) in &acc.coll {
            if let Some(c) = self.s.coll_cfg.get(r) {
                let v = *amount * self.price(&c.pair_id)?;
                value += v * c.discount;
                margin += v * c.margin;
            }
        }
        Ok((value, margin))
    }
    fn integrity(&mut self, a: ComponentAddress) -> R<()> {
        let (v, m) = self.valuation(a)?;
        let acc = &self.s.accounts[&a];
        if !(acc.positions.is_empty() && acc.coll.is_empty()) {
            self.cmp_note(v, m);
            self.note("margin checked");
        }
        if v < m {
            return Err(Rej::Margin);
        }
        Ok(())
    }

    fn split(&mut self, a: ComponentAddress, fee: D) -> [D; 4] {
        let x = self.s.ex.clone();
        let r = self.s.accounts[&a].referral.clone();
        let protocol = fee * x.fee_share_protocol;
        let treasury = fee * x.fee_share_treasury;
        let mut referral = D::ZERO;
        if let Some(r) = r.as_ref().and_then(|r| self.s.referrals.get_mut(r)) {
            referral = fee * x.fee_share_referral * r.share;
            r.balance += referral;
            r.total += referral;
        }
        self.s.protocol += protocol;
        self.s.treasury += treasury;
        self.s.pool_vb -= protocol + treasury + referral;
        if !fee.is_zero() {
            self.note("fee charged");
        }
        if !referral.is_zero() {
            self.note("referral share");
        }
        [-(fee - protocol - treasury - referral), -protocol, -treasury, -referral]
    }

    fn close(&mut self, a: ComponentAddress, p: &str, amount: D) -> R<(D, D)> {
        let c = self.cfg(p)?;
        let price = self.price(p)?;
        let q = self.pair(p).clone();
        let value = amount * price;
        let fee = self.fee(a, &c, &q, price, value);
        let pos = self.acc(a)?.positions.get_mut(p).unwrap();
        let cost = -amount / pos.amount * pos.cost;
        let pnl = -value - cost - fee;
        pos.amount += amount;
        pos.cost -= cost;
        let q = self.pair(p);
        if amount < D::ZERO {
            q.oi_long += amount;
        } else {
            q.oi_short -= amount;
        }
        q.cost -= cost;
        self.settle(a, pnl)?;
        self.snap(p)?;
        Ok((pnl, fee))
    }

    fn open(&mut self, a: ComponentAddress, p: &str, amount: D) -> R<D> {
        let c = self.cfg(p)?;
        let price = self.price(p)?;
        let q = self.pair(p).clone();
        let value = amount * price;
        let fee = self.fee(a, &c, &q, price, value);
        let cost = value + fee;
        let q = self.pair(p);
        let (side, index) = if amount > D::ZERO {
            q.oi_long += amount;
            (q.oi_long, q.long_index)
        } else {
            q.oi_short -= amount;
            (q.oi_short, q.short_index)
        };
        q.cost += cost;
        if side > c.oi_max {
            return Err(Rej::OiMax);
        }
        let pos = self.acc(a)?.positions.entry(p.to_string()).or_insert(Pos {
            amount: D::ZERO,
            cost: D::ZERO,
            index: D::ZERO,
        });
        pos.amount += amount;
        pos.cost += cost;
        pos.index = index;
        self.snap(p)?;
        if self.acc(a)?.positions.len() > self.s.ex.positions_max as usize {
            return Err(Rej::Positions);
        }
        self.integrity(a)?;
        Ok(fee)
    }

    // Requests.
    fn push_request(&mut self, a: ComponentAddress, rq: Rq, delay: u64, expiry: u64, status: u8, effected: Vec<ComponentAddress>) -> R<u64> {
        if status > ACTIVE {
            return Err(Rej::BadStatus);
        }
        let now = self.s.now;
        let submission = i64::try_from(delay).ok().and_then(|d| now.checked_add(d)).ok_or(Rej::Time)?;
        let expiry = i64::try_from(expiry).ok().and_then(|d| submission.checked_add(d)).ok_or(Rej::Time)?;
        let acc = self.acc(a)?;
        let i = acc.reqs.len() as u64;
        let r = Req { rq, submission, expiry, status, effected };
        acc.reqs.push(r.clone());
        acc.active.insert(i);
        self.req_touched.insert(i, r);
        self.out.indexes.push(i);
        Ok(i)
    }
    fn set_status(&mut self, a: ComponentAddress, i: u64, status: u8) -> R<()> {
        let acc = self.acc(a)?;
        acc.reqs[i as usize].status = status;
        if status > ACTIVE {
            acc.active.remove(&i);
        }
        let r = acc.reqs[i as usize].clone();
        self.req_touched.insert(i, r);
        Ok(())
    }
    fn try_status(&mut self, a: ComponentAddress, indexes: &[u64], from: &[u8], to: u8) -> R<Set<u64>> {
        let n = self.acc(a)?.reqs.len() as u64;
        if indexes.iter().any(|i| *i >= n) {
            return Err(Rej::MissingRequest);
        }
        let mut done = Set::new();
        for i in indexes.iter().copied().collect::<Set<u64>>() {
            if from.contains(&self.acc(a)?.reqs[i as usize].status) {
                self.set_status(a, i, to)?;
                done.insert(i);
            }
        }
        Ok(done)
    }
    fn request_limit(&mut self, a: ComponentAddress) -> R<()> {
        if self.acc(a)?.active.len() > self.s.ex.active_requests_max as usize {
            return Err(Rej::ActiveRequests);
        }
        Ok(())
    }

    fn positions(&mut self, a: ComponentAddress) -> R<Set<Id>> {
        Ok(self.acc(a)?.positions.keys().cloned().collect())
    }
    fn cfgs(&self, pairs: &Set<Id>) -> R<()> {
        for p in pairs {
            self.cfg(p)?;
        }
        Ok(())
    }

    // The delegated fee.
    fn lock(&mut self, oath: Option<D>) -> R<()> {
        if let Some(amount) = oath {
            let value = D::try_from(world::USD_PRICE_IN_XRD).unwrap() * self.s.multiplier * amount;
            self.s.delegator_vb += value;
            self.s.oath_supply += value;
            if self.s.oath_supply > self.s.max_lock {
                return Err(Rej::OathLimit);
            }
        }
        Ok(())
    }
    fn charge(&mut self, a: ComponentAddress) -> R<()> {
        let v = self.s.oath_supply;
        self.s.oath_supply = D::ZERO;
        self.acc(a)?.vb -= v;
        self.note("delegated fee charged");
        self.integrity(a)
    }
    fn charge_with(&mut self, a: ComponentAddress, oath: Option<D>, extra: Option<&Id>) -> R<()> {
        if oath.is_some() {
            let mut pairs = self.positions(a)?;
            pairs.extend(extra.cloned());
            self.cfgs(&pairs)?;
            self.oracle(&pairs, false, &None)?;
            self.charge(a)?;
        }
        Ok(())
    }

    fn deposit(&mut self, a: ComponentAddress, tokens: &[(ResourceAddress, D)], who: Who) -> R<()> {
        for (r, amount) in tokens {
            self.out.flow(Who::Bank, *r, -*amount);
            if *r == self.s.base {
                self.s.base_tokens += *amount;
                self.settle(a, *amount)?;
                self.out.flow(Who::Pool, *r, *amount);
            } else {
                if !self.s.coll_cfg.contains_key(r) {
                    return Err(Rej::InvalidCollateral);
                }
                *self.acc(a)?.coll.entry(*r).or_insert(D::ZERO) += *amount;
                self.out.flow(who, *r, *amount);
            }
        }
        if self.acc(a)?.coll.len() > self.s.ex.collaterals_max as usize {
            return Err(Rej::Collaterals);
        }
        self.out.events.push(Ev::AddCollateral(
            if who == Who::New { None } else { Some(a) },
            tokens.to_vec(),
        ));
        Ok(())
    }

    fn withdraw(&mut self, a: ComponentAddress, target: ComponentAddress, claims: &[(ResourceAddress, D)]) -> R<()> {
        let mut total: Map<ResourceAddress, D> = Map::new();
        for (r, d) in claims {
            *total.entry(*r).or_insert(D::ZERO) += *d;
        }
        let mut amounts = vec![];
        for (r, d) in total {
            if d < D::ZERO {
                return Err(Rej::Amount);
            }
            let d0 = d;
            let d = floor_to(d, self.div(r));
            if r == self.s.base {
                if d0 > self.acc(a)?.vb {
                    return Err(Rej::Balance);
                }
                if d0 > self.s.base_tokens {
                    return Err(Rej::PoolTokens);
                }
                self.s.base_tokens -= d;
                self.settle(a, -d)?;
                self.out.flow(Who::Pool, r, -d);
            } else {
                let acc = self.acc(a)?;
                let have = acc.coll.get(&r).copied();
                if d0 > have.unwrap_or(D::ZERO) {
                    return Err(Rej::Balance);
                }
                let Some(have) = have else {
                    // Claiming nothing of a token the account does not hold.
                    self.near = true;
                    return Err(Rej::Amount);
                };
                if have == d {
                    acc.coll.remove(&r);
                } else {
                    acc.coll.insert(r, have - d);
                }
                self.out.flow(Who::At(a), r, -d);
            }
            self.out.flow(Who::At(target), r, d);
            amounts.push((r, d));
        }
        if !amounts.is_empty() && !self.s.depositable.contains(&target) {
            return Err(Rej::Amount);
        }
        self.integrity(a)?;
        self.out.events.push(Ev::RemoveCollateral(a, target, amounts));
        self.note("withdrawal");
        Ok(())
    }

    fn order(&mut self, a: ComponentAddress, rq: &Rq) -> R<()> {
        let Rq::Order { pair, amount, reduce_only, price_limit, slippage_limit, activate, cancel } = rq else {
            unreachable!()
        };
        let (p, amount) = (pair.as_str(), *amount);
        let price = self.price(p)?;
        let met = match price_limit {
            PriceLimit::None => true,
            PriceLimit::Gte(l) => price >= *l,
            PriceLimit::Lte(l) => price <= *l,
        };
        if !met {
            return Err(Rej::PriceLimit);
        }
        self.update_pair(p)?;
        let funding = self.settle_funding(a, p)?;
        let held = self.acc(a)?.positions.get(p).map_or(D::ZERO, |x| x.amount);
        let mut closing = D::ZERO;
        if held > D::ZERO && amount < D::ZERO {
            closing = if amount > -held { amount } else { -held };
        }
        if held < D::ZERO && amount > D::ZERO {
            closing = if amount < -held { amount } else { -held };
        }
        let opening = if *reduce_only { D::ZERO } else { amount - closing };
        let skew_0 = self.s.skew_abs;
        let (mut pnl, mut fee) = (D::ZERO, D::ZERO);
        if !closing.is_zero() {
            let (x, f) = self.close(a, p, closing)?;
            pnl += x;
            fee += f;
            if self.acc(a)?.positions[p].amount.is_zero() && opening.is_zero() {
                self.acc(a)?.positions.remove(p);
            }
        }
        if !opening.is_zero() {
            fee += self.open(a, p, opening)?;
        }
        let (allowed, value) = {
            let v = price * abs(opening + closing);
            let l = match slippage_limit {
                SlippageLimit::None => None,
                SlippageLimit::Percent(x) => Some(v * *x / dec!(100)),
                SlippageLimit::Absolute(x) => Some(*x),
            };
            (l, v)
        };
        if let Some(l) = allowed {
            if !value.is_zero() {
                self.cmp_note(fee, l);
            }
            if fee > l {
                return Err(Rej::Slippage);
            }
        }
        let fees = self.split(a, fee);
        let activated = self.try_status(a, activate, &[DORMANT], ACTIVE)?;
        let cancelled = self.try_status(a, cancel, &[DORMANT, ACTIVE], CANCELLED)?;
        let (ratio, cap) = (self.skew_ratio(), self.s.ex.skew_ratio_cap);
        let traded = !(closing.is_zero() && opening.is_zero());
        let reduced = traded && self.s.skew_abs < skew_0;
        if ratio != cap && abs(ratio - cap) < dec!("0.000000000001") {
            self.near = true;
        }
        if ratio >= cap {
            if traded {
                self.cmp_note(self.s.skew_abs, skew_0);
            }
            if !reduced {
                return Err(Rej::Skew);
            }
            self.note("order above skew cap");
        }
        let still = self.acc(a)?.positions.contains_key(p);
        self.note(match (closing.is_zero(), opening.is_zero()) {
            (true, true) => "order without effect",
            (true, false) => {
                if held.is_zero() {
                    "order opens"
                } else {
                    "order increases"
                }
            }
            (false, true) => {
                if still {
                    "order reduces"
                } else {
                    "order closes"
                }
            }
            (false, false) => "order flips",
        });
        if !activated.is_empty() {
            self.note("activates");
        }
        if !cancelled.is_empty() {
            self.note("cancels");
        }
        self.out.events.push(Ev::Order {
            acc: a,
            pair: p.to_string(),
            price,
            limit: *price_limit,
            close: closing,
            open: opening,
            pnl: pnl + funding,
            funding,
            fees,
            activated,
            cancelled,
        });
        Ok(())
    }

    fn requests_event(&mut self, a: ComponentAddress) {
        if !self.req_touched.is_empty() {
            let m = std::mem::take(&mut self.req_touched);
            self.out.events.push(Ev::Requests(a, m));
        }
    }
    fn pairs_event(&mut self) {
        if !self.pair_touched.is_empty() {
            let m = self.pair_touched.iter().map(|p| (p.clone(), self.s.pairs[p].clone())).collect();
            self.out.events.push(Ev::PairUpdates(m));
        }
    }

    fn is(&self, r: ResourceAddress, wanted: ResourceAddress) -> R<()> {
        if r == wanted {
            Ok(())
        } else {
            Err(Rej::WrongToken)
        }
    }

    fn basic_split(&mut self, fee: D) -> [D; 3] {
        let protocol = fee * self.s.ex.fee_share_protocol;
        let treasury = fee * self.s.ex.fee_share_treasury;
        self.s.protocol += protocol;
        self.s.treasury += treasury;
        self.s.pool_vb -= protocol + treasury;
        [-(fee - protocol - treasury), -protocol, -treasury]
    }

    /// What must happen.
    pub fn apply(&mut self, op: &Op, badges: &[NonFungibleLocalId]) -> R<()> {
        match op {
            Op::Push(m) => self.push(m),
            Op::Create { tokens, code, oath, .. } => {
                self.lock(*oath)?;
                // A stand-in address nobody else has.
                let a = FAUCET;
                self.s.accounts.insert(
                    a,
                    Acc {
                        positions: Map::new(),
                        coll: Map::new(),
                        vb: D::ZERO,
                        reqs: vec![],
                        active: Set::new(),
                        start: 0,
                        referral: None,
                    },
                );
                let r = (|| {
                    let mut gifts = vec![];
                    let mut id = None;
                    if let Some(code) = code {
                        let c = self.s.codes.get_mut(code).ok_or(Rej::CodeMissing)?;
                        if c.count >= c.max {
                            return Err(Rej::CodeUsed);
                        }
                        c.count += 1;
                        id = Some(c.referral.clone());
                        let claims = c.claims.clone();
                        for (r, d) in claims {
                            let d = floor_to(d, self.div(r));
                            self.out.flow(Who::Referrals, r, -d);
                            gifts.push((r, d));
                        }
                        self.note("referral code used");
                    }
                    self.acc(a)?.referral = id.clone();
                    let all: Vec<_> = tokens.iter().cloned().chain(gifts.iter().cloned()).collect();
                    self.deposit(a, &all, Who::New)?;
                    for (r, d) in gifts {
                        self.out.flow(Who::Bank, r, d);
                    }
                    if oath.is_some() {
                        self.oracle(&Set::new(), false, &None)?;
                        self.charge(a)?;
                    }
                    self.out.events.push(Ev::Creation(id));
                    Ok(())
                })();
                let acc = self.s.accounts.remove(&a);
                r?;
                self.out.created = acc;
                Ok(())
            }
            Op::Add { acc, tokens, oath } => {
                self.lock(*oath)?;
                if oath.is_some() {
                    let pairs = self.positions(*acc)?;
                    self.oracle(&pairs, false, &None)?;
                }
                self.deposit(*acc, tokens, Who::At(*acc))?;
                if oath.is_some() {
                    self.charge(*acc)?;
                }
                Ok(())
            }
            Op::Remove { acc, expiry, target, claims, oath } => {
                self.lock(*oath)?;
                self.charge_with(*acc, *oath, None)?;
                if claims.len() > 10 {
                    return Err(Rej::Claims);
                }
                let rq = Rq::Remove { target: *target, claims: claims.clone() };
                self.push_request(*acc, rq, 0, *expiry, ACTIVE, vec![*target])?;
                self.request_limit(*acc)?;
                self.requests_event(*acc);
                Ok(())
            }
            Op::Order { acc, order: o, oath } => {
                self.lock(*oath)?;
                self.charge_with(*acc, *oath, Some(&o.pair))?;
                if abs(o.amount) < self.cfg(&o.pair)?.trade_size_min {
                    return Err(Rej::TradeSize);
                }
                if o.activate.len() > 2 || o.cancel.len() > 2 {
                    return Err(Rej::Effected);
                }
                let i = self.acc(*acc)?.reqs.len() as u64;
                let at = |r: &RequestIndexRef| match r {
                    RequestIndexRef::Index(i) => *i,
                    RequestIndexRef::RelativeIndex(d) => (i as i64).wrapping_add(*d) as u64,
                };
                let rq = Rq::Order {
                    pair: o.pair.clone(),
                    amount: o.amount,
                    reduce_only: o.reduce_only,
                    price_limit: o.price_limit,
                    slippage_limit: o.slippage_limit,
                    activate: o.activate.iter().map(at).collect(),
                    cancel: o.cancel.iter().map(at).collect(),
                };
                self.push_request(*acc, rq, o.delay, o.expiry, o.status, vec![])?;
                self.request_limit(*acc)?;
                self.requests_event(*acc);
                Ok(())
            }
            Op::TpSl { acc, order: o, tp, sl, oath } => {
                self.lock(*oath)?;
                self.charge_with(*acc, *oath, Some(&o.pair))?;
                if abs(o.amount) < self.cfg(&o.pair)?.trade_size_min {
                    return Err(Rej::TradeSize);
                }
                let first = self.acc(*acc)?.reqs.len() as u64;
                let itp = tp.map(|_| first + 1);
                let isl = sl.map(|_| first + 1 + tp.is_some() as u64);
                let long = o.amount > D::ZERO;
                let mk = |amount: D, ro: bool, pl: PriceLimit, activate: Vec<u64>, cancel: Vec<u64>| Rq::Order {
                    pair: o.pair.clone(),
                    amount,
                    reduce_only: ro,
                    price_limit: pl,
                    slippage_limit: o.slippage_limit,
                    activate,
                    cancel,
                };
                let entry = mk(o.amount, o.reduce_only, o.price_limit, itp.into_iter().chain(isl).collect(), vec![]);
                self.push_request(*acc, entry, o.delay, o.expiry, ACTIVE, vec![])?;
                if let Some(x) = tp {
                    let pl = if long { PriceLimit::Gte(*x) } else { PriceLimit::Lte(*x) };
                    let r = mk(-o.amount, true, pl, vec![], isl.into_iter().collect());
                    self.push_request(*acc, r, o.delay, o.expiry, DORMANT, vec![])?;
                }
                if let Some(x) = sl {
                    let pl = if long { PriceLimit::Lte(*x) } else { PriceLimit::Gte(*x) };
                    let r = mk(-o.amount, true, pl, vec![], itp.into_iter().collect());
                    self.push_request(*acc, r, o.delay, o.expiry, DORMANT, vec![])?;
                }
                self.request_limit(*acc)?;
                self.requests_event(*acc);
                Ok(())
            }
            Op::Cancel { acc, indexes, oath } => {
                self.lock(*oath)?;
                self.charge_with(*acc, *oath, None)?;
                let n = self.acc(*acc)?.reqs.len() as u64;
                if indexes.iter().any(|i| *i >= n) {
                    return Err(Rej::MissingRequest);
                }
                let start = self.acc(*acc)?.start;
                for i in indexes.iter().copied().collect::<Set<u64>>() {
                    if self.acc(*acc)?.reqs[i as usize].status > ACTIVE {
                        return Err(Rej::NotCancellable);
                    }
                    if i < start {
                        // What the last liquidation invalidated: nothing hangs on it any more.
                        self.note("cancels an invalidated request");
                    }
                    self.set_status(*acc, i, CANCELLED)?;
                }
                self.requests_event(*acc);
                Ok(())
            }
            Op::Process { acc, index, prices } => {
                let a = *acc;
                if *index < self.acc(a)?.start {
                    return Err(Rej::BeforeValidStart);
                }
                let now = self.s.now;
                let r = self.acc(a)?.reqs.get(*index as usize).cloned().ok_or(Rej::MissingRequest)?;
                let expired = now >= r.expiry;
                if !(r.status == ACTIVE || (expired && r.status == DORMANT)) {
                    return Err(Rej::NotActive);
                }
                if now <= r.submission {
                    return Err(Rej::BeforeSubmission);
                }
                self.set_status(a, *index, if expired { EXPIRED } else { EXECUTED })?;
                let mut pairs = self.positions(a)?;
                if let Rq::Order { pair, .. } = &r.rq {
                    pairs.insert(pair.clone());
                }
                self.cfgs(&pairs)?;
                if expired {
                    self.note("request expired");
                } else {
                    self.oracle(&pairs, true, prices)?;
                    match &r.rq {
                        Rq::Remove { target, claims } => self.withdraw(a, *target, claims)?,
                        rq => self.order(a, rq)?,
                    }
                    self.pairs_event();
                }
                self.requests_event(a);
                self.out.reward = self.s.ex.reward_keeper;
                Ok(())
            }
            Op::SwapDebt { acc, res, pay, prices } => {
                let a = *acc;
                self.oracle(&Set::new(), true, prices)?;
                self.is(pay.0, self.s.base)?;
                let c = self.s.coll_cfg.get(res).cloned().ok_or(Rej::InvalidCollateral)?;
                let debt = -self.acc(a)?.vb;
                if debt <= D::ZERO {
                    return Err(Rej::NoDebt);
                }
                let price = self.price(&c.pair_id)? * (c.discount * dec!("0.1") + dec!("0.9"));
                let mut value = if pay.1 < debt { pay.1 } else { debt };
                let mut amount = value / price;
                let have = self.acc(a)?.coll.get(res).copied();
                let Some(have) = have else {
                    // Nothing to swap: whether that fails or does nothing is not fixed.
                    self.near = true;
                    return Err(Rej::Balance);
                };
                if amount > have {
                    amount = have;
                    value = have * price;
                    self.note("debt swap limited by collateral");
                }
                let amount = floor_to(amount, self.div(*res));
                self.s.base_tokens += value;
                self.settle(a, value)?;
                let acc = self.acc(a)?;
                if amount == have {
                    acc.coll.remove(res);
                } else {
                    acc.coll.insert(*res, have - amount);
                }
                self.out.flow(Who::Pool, pay.0, value);
                self.out.flow(Who::Bank, pay.0, -value);
                self.out.flow(Who::At(a), *res, -amount);
                self.out.flow(Who::Bank, *res, amount);
                self.out.events.push(Ev::SwapDebt { acc: a, res: *res, amount, price });
                self.note("debt swapped");
                Ok(())
            }
            Op::Liquidate { acc, pay, prices } => self.liquidate(*acc, *pay, prices),
            Op::Adl { acc, pair, prices } => self.adl(*acc, pair, prices),
            Op::Update { pairs, prices } => {
                let set: Set<Id> = pairs.iter().cloned().collect();
                self.cfgs(&set)?;
                self.oracle(&set, true, prices)?;
                for p in &set {
                    let r = self.update_pair(p)?;
                    self.out.rewarded.push(r);
                }
                self.pairs_event();
                self.out.reward = D::from(self.out.rewarded.iter().filter(|x| **x).count() as u64);
                if !self.out.reward.is_zero() {
                    self.note("update rewarded");
                }
                Ok(())
            }
            Op::AddLiq { pay } => {
                self.is(pay.0, self.s.base)?;
                let fee = pay.1 * self.s.ex.fee_liquidity_add;
                let v = self.pool_value();
                let v = if v > D::ONE { v } else { D::ONE };
                let price = if self.s.lp_supply.is_zero() { D::ONE } else { v / self.s.lp_supply };
                let lp = (pay.1 - fee) / price;
                self.s.base_tokens += pay.1;
                self.s.lp_supply += lp;
                let f = self.basic_split(fee);
                self.out.flow(Who::Pool, pay.0, pay.1);
                self.out.flow(Who::Bank, pay.0, -pay.1);
                self.out.flow(Who::Bank, self.s.lp, lp);
                self.out.events.push(Ev::Liquidity {
                    price,
                    lp,
                    amount: pay.1,
                    pool: f[0],
                    protocol: f[1],
                    treasury: f[2],
                });
                Ok(())
            }
            Op::RemLiq { pay } => {
                self.is(pay.0, self.s.lp)?;
                let v = self.pool_value();
                let v = if v > D::ZERO { v } else { D::ZERO };
                if self.s.lp_supply.is_zero() {
                    return Err(Rej::Amount);
                }
                let price = v / self.s.lp_supply;
                let value = pay.1 * price;
                let fee = value * self.s.ex.fee_liquidity_remove;
                let amount = value - fee;
                if amount < D::ZERO {
                    return Err(Rej::Amount);
                }
                self.cmp_note(amount, self.s.base_tokens);
                if amount > self.s.base_tokens {
                    return Err(Rej::PoolTokens);
                }
                self.s.base_tokens -= amount;
                self.s.lp_supply -= pay.1;
                let f = self.basic_split(fee);
                let (ratio, cap) = (self.skew_ratio(), self.s.ex.skew_ratio_cap);
                if ratio != cap && abs(ratio - cap) < dec!("0.000000000001") {
                    self.near = true;
                }
                if ratio >= cap {
                    return Err(Rej::Skew);
                }
                self.out.flow(Who::Pool, self.s.base, -amount);
                self.out.flow(Who::Bank, self.s.base, amount);
                self.out.flow(Who::Bank, self.s.lp, -pay.1);
                self.out.events.push(Ev::Liquidity {
                    price,
                    lp: -pay.1,
                    amount: -amount,
                    pool: f[0],
                    protocol: f[1],
                    treasury: f[2],
                });
                Ok(())
            }
            Op::SwapProtocol { pay } => {
                self.is(pay.0, self.s.protocol_res)?;
                let burn = self.s.ex.protocol_burn_amount;
                if pay.1 < burn {
                    return Err(Rej::Payment);
                }
                let v = self.s.protocol;
                if v > self.s.base_tokens {
                    return Err(Rej::PoolTokens);
                }
                self.s.protocol = D::ZERO;
                self.s.pool_vb += v;
                self.s.base_tokens -= v;
                self.s.pool_vb -= D::ZERO;
                self.out.flow(Who::Bank, pay.0, -burn);
                self.out.flow(Who::Bank, self.s.base, v);
                self.out.flow(Who::Pool, self.s.base, -v);
                Ok(())
            }
            Op::CollectTreasury => {
                let v = self.s.treasury;
                if v > self.s.base_tokens {
                    return Err(Rej::PoolTokens);
                }
                self.s.treasury = D::ZERO;
                self.s.base_tokens -= v;
                self.s.pool_vb += v;
                self.out.flow(Who::Bank, self.s.base, v);
                self.out.flow(Who::Pool, self.s.base, -v);
                Ok(())
            }
            Op::CollectDelegator => {
                let v = self.s.delegator_vb;
                if v > self.s.base_tokens {
                    return Err(Rej::PoolTokens);
                }
                self.s.delegator_vb = D::ZERO;
                self.s.base_tokens -= v;
                self.s.pool_vb += v;
                self.out.flow(Who::Bank, self.s.base, v);
                self.out.flow(Who::Pool, self.s.base, -v);
                Ok(())
            }
            Op::CollectReferral { referral } => {
                let r = self.s.referrals.get_mut(&badges[*referral]).unwrap();
                let v = r.balance;
                r.balance = D::ZERO;
                if v > self.s.base_tokens {
                    return Err(Rej::PoolTokens);
                }
                self.s.base_tokens -= v;
                self.s.pool_vb += v;
                self.out.flow(Who::Bank, self.s.base, v);
                self.out.flow(Who::Pool, self.s.base, -v);
                if !v.is_zero() {
                    self.note("referral rewards collected");
                }
                Ok(())
            }
            Op::SetExchange(c) => {
                if !exchange_config_ok(c) {
                    return Err(Rej::Config);
                }
                self.s.ex = c.clone();
                self.out.events.push(Ev::ExchangeConfig(c.clone()));
                Ok(())
            }
            Op::SetPairs(cs) => {
                for c in cs {
                    if !pair_config_ok(c) {
                        return Err(Rej::Config);
                    }
                }
                for c in cs {
                    self.s.pair_cfg.insert(c.pair_id.clone(), c.clone());
                }
                self.out.events.push(Ev::PairConfigs(cs.clone()));
                Ok(())
            }
            Op::SetCollateral(cs) => {
                for (_, c) in cs {
                    if !collateral_config_ok(c) {
                        return Err(Rej::Config);
                    }
                }
                for (r, c) in cs {
                    self.s.coll_cfg.insert(*r, c.clone());
                }
                self.out.events.push(Ev::CollateralConfigs(cs.clone()));
                Ok(())
            }
            Op::DropCollateral(r) => {
                self.s.coll_cfg.remove(r);
                self.out.events.push(Ev::CollateralRemoval(*r));
                Ok(())
            }
            Op::UpdateReferral { referral, share, rebate, max } => {
                let r = self.s.referrals.get_mut(&badges[*referral]).unwrap();
                let ok = |x: &Option<D>| x.map_or(true, |x| x >= D::ZERO && x <= dec!("0.1"));
                if !ok(share) || !ok(rebate) {
                    return Err(Rej::ReferralData);
                }
                if let Some(x) = share {
                    r.share = *x;
                }
                if let Some(x) = rebate {
                    r.rebate = *x;
                }
                if let Some(x) = max {
                    r.max = *x;
                }
                Ok(())
            }
            Op::CreateCodes { referral, tokens, codes } => {
                let id = badges[*referral].clone();
                let claims: Vec<_> = codes.iter().flat_map(|c| c.1.iter().cloned()).collect();
                for (_, cl, n) in codes {
                    if *n != 1 && !cl.is_empty() {
                        return Err(Rej::Allocation);
                    }
                }
                self.fund(tokens, &claims, 1)?;
                self.count(&id, codes.iter().map(|c| c.2).sum())?;
                for (h, claims, n) in codes {
                    let c = Code { referral: id.clone(), claims: claims.clone(), count: 0, max: *n };
                    if self.s.codes.insert(h.clone(), c).is_some() {
                        return Err(Rej::CodeExists);
                    }
                }
                Ok(())
            }
            Op::AddAllocation { referral, tokens, claims, count } => {
                self.allocate(badges[*referral].clone(), tokens, claims, *count)
            }
            Op::MintReferral { share, rebate, max, allocation } => {
                let bound = |d: &D| *d >= D::ZERO && *d <= dec!("0.1");
                if !bound(share) || !bound(rebate) {
                    return Err(Rej::ReferralData);
                }
                let new = Referral {
                    share: *share,
                    rebate: *rebate,
                    referrals: 0,
                    max: *max,
                    balance: D::ZERO,
                    total: D::ZERO,
                };
                self.s.referrals.insert(unborn(), new);
                match allocation {
                    Some(f) => self.allocate(unborn(), &f.tokens, &f.claims, f.count),
                    None => Ok(()),
                }
            }
            Op::CodesFromAllocation { referral, index, codes } => {
                let id = badges[*referral].clone();
                let l = self.s.allocations.get_mut(&id).ok_or(Rej::Allocation)?;
                let al = l.get_mut(*index as usize).ok_or(Rej::Allocation)?;
                let set: Set<String> = codes.iter().cloned().collect();
                al.count += set.len() as u64;
                if al.count > al.max {
                    return Err(Rej::Allocation);
                }
                let claims = al.claims.clone();
                for h in set {
                    let c = Code { referral: id.clone(), claims: claims.clone(), count: 0, max: 1 };
                    if self.s.codes.insert(h, c).is_some() {
                        return Err(Rej::CodeExists);
                    }
                }
                Ok(())
            }
        }
    }

    fn allocate(
        &mut self,
        id: NonFungibleLocalId,
        tokens: &[(ResourceAddress, D)],
        claims: &[(ResourceAddress, D)],
        count: u64,
    ) -> R<()> {
        self.fund(tokens, claims, count)?;
        self.count(&id, count)?;
        let l = self.s.allocations.entry(id).or_default();
        self.out.indexes.push(l.len() as u64);
        l.push(Allocation { claims: claims.to_vec(), count: 0, max: count });
        Ok(())
    }

    fn count(&mut self, id: &NonFungibleLocalId, n: u64) -> R<()> {
        let r = self.s.referrals.get_mut(id).ok_or(Rej::ReferralData)?;
        r.referrals += n;
        if r.referrals > r.max {
            return Err(Rej::ReferralLimit);
        }
        Ok(())
    }

    /// Tokens taken to back `n` uses of the claims.
    fn fund(&mut self, tokens: &[(ResourceAddress, D)], claims: &[(ResourceAddress, D)], n: u64) -> R<()> {
        for (r, _) in tokens {
            if *r != self.s.base && !self.s.coll_cfg.contains_key(r) {
                return Err(Rej::InvalidCollateral);
            }
        }
        let mut have: Map<ResourceAddress, D> = Map::new();
        for (r, d) in tokens {
            *have.entry(*r).or_insert(D::ZERO) += *d;
        }
        let mut need: Map<ResourceAddress, D> = Map::new();
        for (r, d) in claims {
            if *d <= D::ZERO {
                return Err(Rej::Amount);
            }
            *need.entry(*r).or_insert(D::ZERO) += *d * D::from(n);
        }
        for (r, d) in need {
            if d.is_zero() {
                continue;
            }
            if d > have.get(&r).copied().unwrap_or(D::ZERO) {
                return Err(Rej::Tokens);
            }
            let d = ceil_to(d, self.div(r));
            self.out.flow(Who::Bank, r, -d);
            self.out.flow(Who::Referrals, r, d);
        }
        Ok(())
    }

    fn liquidate(&mut self, a: ComponentAddress, pay: (ResourceAddress, D), prices: &Option<PriceMsg>) -> R<()> {
        let pairs = self.positions(a)?;
        self.cfgs(&pairs)?;
        self.oracle(&pairs, true, prices)?;
        self.is(pay.0, self.s.base)?;
        for p in &pairs {
            self.update_pair(p)?;
        }
        let acc = self.acc(a)?.clone();
        let (mut pnl, mut margin, mut funding, mut fee) = (D::ZERO, D::ZERO, D::ZERO, D::ZERO);
        let (mut at, mut amounts) = (Map::new(), Map::new());
        for (p, pos) in &acc.positions {
            let c = self.cfg(p)?;
            let price = self.price(p)?;
            let q = self.pair(p).clone();
            let value = -(pos.amount * price);
            let f = self.fee(a, &c, &q, price, value);
            let owed = self.owed(pos, &q);
            pnl += -value - pos.cost - f - owed;
            margin += abs(value) * c.margin_maintenance;
            fee += f;
            funding += owed;
            let q = self.pair(p);
            if pos.amount > D::ZERO {
                q.oi_long -= pos.amount;
            } else {
                q.oi_short += pos.amount;
            }
            q.cost -= pos.cost;
            self.snap(p)?;
            at.insert(p.clone(), price);
            amounts.insert(p.clone(), pos.amount);
        }
        self.s.unrealized -= funding;
        let (mut coll, mut coll_prices) = (Map::new(), Map::new());
        let (mut worth, mut discounted) = (D::ZERO, D::ZERO);
        for (r, d) in &acc.coll {
            if let Some(c) = self.s.coll_cfg.get(r).cloned() {
                let price = self.price(&c.pair_id)?;
                let v = *d * price;
                worth += v;
                discounted += v * c.discount;
                margin += v * c.margin;
                coll.insert(*r, *d);
                coll_prices.insert(*r, price);
            }
        }
        let value = pnl + discounted + acc.vb;
        if !(acc.positions.is_empty() && coll.is_empty()) {
            self.cmp_note(value, margin);
        }
        if value >= margin {
            return Err(Rej::Sufficient);
        }
        if !short(discounted) && close(pay.1, discounted) {
            self.near = true;
        }
        if pay.1 < discounted {
            return Err(Rej::Payment);
        }
        self.s.base_tokens += discounted;
        self.out.flow(Who::Pool, pay.0, discounted);
        self.out.flow(Who::Bank, pay.0, -discounted);
        for (r, d) in &coll {
            self.out.flow(Who::At(a), *r, -*d);
            self.out.flow(Who::Bank, *r, *d);
        }
        self.settle(a, pnl + discounted)?;
        let mut loss = D::ZERO;
        let vb = self.acc(a)?.vb;
        if vb < D::ZERO {
            loss = vb;
            self.settle(a, -vb)?;
            self.note("liquidation with loss");
        } else {
            self.note("liquidation without loss");
        }
        let fees = self.split(a, fee);
        let acc_m = self.acc(a)?;
        acc_m.positions.clear();
        acc_m.coll.retain(|r, _| !coll.contains_key(r));
        let start = acc_m.reqs.len() as u64;
        acc_m.start = start;
        acc_m.active.clear();
        self.out.events.push(Ev::ValidStart(a, start));
        self.out.events.push(Ev::Liquidate {
            acc: a,
            prices: at,
            coll_prices,
            value,
            margin,
            vb: acc.vb,
            amounts,
            pnl,
            coll,
            coll_value: worth,
            coll_discounted: discounted,
            funding: -funding,
            fees,
            loss,
        });
        self.pairs_event();
        self.out.reward = self.s.ex.reward_keeper;
        Ok(())
    }

    fn adl(&mut self, a: ComponentAddress, p: &str, prices: &Option<PriceMsg>) -> R<()> {
        let mut pairs = self.positions(a)?;
        pairs.insert(p.to_string());
        self.cfgs(&pairs)?;
        self.oracle(&pairs, true, prices)?;
        self.update_pair(p)?;
        let funding = self.settle_funding(a, p)?;
        let x = self.s.ex.clone();
        let r0 = self.skew_ratio();
        if r0 != x.skew_ratio_cap && abs(r0 - x.skew_ratio_cap) < dec!("0.000000000001") {
            self.near = true;
        }
        if r0 <= x.skew_ratio_cap {
            return Err(Rej::AdlSkew);
        }
        let Some(pos) = self.acc(a)?.positions.get(p).cloned() else { return Err(Rej::AdlPosition) };
        let price = self.price(p)?;
        let percent = (pos.amount * price - pos.cost) / abs(pos.cost);
        let u = r0 / x.adl_a - x.adl_offset / x.adl_a;
        let threshold = -(u * u * u) - x.adl_b * u;
        if abs(percent - threshold) < dec!("0.000000001") * (D::ONE + abs(threshold)) {
            self.near = true;
        }
        if percent <= threshold {
            return Err(Rej::AdlPnl);
        }
        let (pnl, fee) = self.close(a, p, -pos.amount)?;
        self.acc(a)?.positions.remove(p);
        let fees = self.split(a, fee);
        let r1 = self.skew_ratio();
        if r0 != r1 && abs(r0 - r1) < dec!("0.000000000001") {
            self.near = true;
        }
        if r1 >= r0 {
            return Err(Rej::AdlNotReduced);
        }
        self.note(if pos.amount > D::ZERO { "long deleveraged" } else { "short deleveraged" });
        self.out.events.push(Ev::Adl {
            acc: a,
            pair: p.to_string(),
            price,
            close: -pos.amount,
            pnl: pnl + funding,
            funding,
            fees,
            percent,
            threshold,
        });
        self.pairs_event();
        self.out.reward = x.reward_keeper;
        Ok(())
    }
}

pub fn exchange_config_ok(c: &ExchangeConfig) -> bool {
    let z = D::ZERO;
    c.positions_max > 0
        && [c.skew_ratio_cap, c.adl_offset, c.adl_a, c.adl_b, c.fee_liquidity_add, c.fee_liquidity_remove]
            .iter()
            .all(|x| *x >= z)
        && c.fee_share_protocol >= z
        && c.fee_share_protocol <= dec!("0.3")
        && c.fee_share_treasury >= z
        && c.fee_share_treasury <= dec!("0.15")
        && c.fee_share_referral >= z
        && c.fee_share_referral <= D::ONE
        && c.fee_max >= z
        && c.protocol_burn_amount >= dec!(1000)
        && c.reward_keeper >= z
}

pub fn pair_config_ok(c: &PairConfig) -> bool {
    let z = D::ZERO;
    let within = |x: D, lo: D, hi: D| x >= lo && x <= hi;
    (1..=65535).contains(&c.price_age_max)
        && c.oi_max >= z
        && c.trade_size_min >= z
        && c.update_price_delta_ratio > z
        && (1..=65535).contains(&c.update_period_seconds)
        && within(c.margin_initial, z, D::ONE)
        && within(c.margin_maintenance, z, D::ONE)
        && c.margin_maintenance <= c.margin_initial
        && within(c.funding_1, z, dec!(2))
        && within(c.funding_2, z, dec!(4))
        && within(c.funding_2_delta, z, dec!(10000))
        && c.funding_2_decay >= z
        && within(c.funding_pool_0, z, D::ONE)
        && within(c.funding_pool_1, z, dec!(2))
        && within(c.funding_share, z, dec!("0.1"))
        && within(c.fee_0, z, dec!("0.015"))
        && within(c.fee_1, z, dec!("0.000001"))
}

pub fn collateral_config_ok(c: &CollateralConfig) -> bool {
    (1..=65535).contains(&c.price_age_max)
        && c.discount >= dec!("0.8")
        && c.discount <= D::ONE
        && c.margin >= D::ZERO
        && c.margin <= dec!("0.1")
}
