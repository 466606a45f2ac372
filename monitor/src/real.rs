//! The real exchange: sends the operations of the model to it and reads its state back.

use crate::model::*;
use std::collections::{BTreeMap as Map, BTreeSet as Set};
use world::*;

use ::account::{KeeperRequest, MarginAccountInfo};
use ::exchange::*;
use ::pool::{MarginPoolInfo, PoolPosition};
use ::referral_generator::{ReferralAllocation, ReferralCode, ReferralData};

/// Prices are signed by this key, which the oracle does not know.
pub const FORGED_KEY: u64 = 77;

pub fn args<T: ManifestEncode>(x: &T) -> ManifestValue {
    to_manifest_value_and_unwrap!(x)
}

pub struct Rig {
    pub w: World,
    pub owners: Vec<Actor>,
    /// Accounts and who owns them.
    pub accounts: Vec<(ComponentAddress, usize)>,
    pub badges: Vec<NonFungibleLocalId>,
    pub feeds: Vec<Id>,
    pub priced: Set<Id>,
    pub codes: Set<String>,
    pub targets: Vec<ComponentAddress>,
    pub depositable: Set<ComponentAddress>,
}

/// What a transaction did.
pub struct Done {
    pub error: Option<String>,
    pub auth: bool,
    pub flows: Map<(Who, ResourceAddress), D>,
    pub reward: D,
    pub events: Vec<Ev>,
    pub indexes: Option<Vec<u64>>,
    pub rewarded: Option<Vec<bool>>,
    pub created: Option<ComponentAddress>,
    /// The badge the operation minted.
    pub minted: Option<NonFungibleLocalId>,
}

pub fn code_hash(code: &str) -> Hash {
    keccak256_hash(code.as_bytes())
}

impl Rig {
    pub fn new(w: World, owners: usize) -> Self {
        let owners: Vec<Actor> = (0..owners as u64).map(|i| Actor::new(100 + i)).collect();
        let mut rig = Rig {
            w,
            owners,
            accounts: vec![],
            badges: vec![],
            feeds: vec![],
            priced: Set::new(),
            codes: Set::new(),
            targets: vec![],
            depositable: Set::new(),
        };
        for i in 0..3 {
            let t = Actor::new(900 + i);
            rig.w.watch(t.account);
            rig.targets.push(t.account);
            if i < 2 {
                rig.depositable.insert(t.account);
            } else {
                // This one accepts no deposits from anybody else.
                let b = rig.w.b().call_method(
                    t.account,
                    "set_default_deposit_rule",
                    manifest_args!(radix_engine_interface::blueprints::account::DefaultDepositRule::Reject),
                );
                rig.w.run(b, &[t.badge.clone()]).expect("closed account");
            }
        }
        for o in rig.owners.clone() {
            rig.w.watch(o.account);
            rig.targets.push(o.account);
            rig.depositable.insert(o.account);
        }
        rig
    }

    pub fn referral(&mut self, share: D, rebate: D, max: u64) -> NonFungibleLocalId {
        let e = self.w.a.exchange;
        let url = UncheckedUrl::of("https://x.org/k.png");
        let before: Set<_> = self.held_badges();
        self.w
            .owner_call(e, "mint_referral", args(&("n".to_string(), "d".to_string(), url, share, rebate, max)))
            .expect("mint referral");
        let id = self.held_badges().into_iter().find(|x| !before.contains(x)).unwrap();
        self.badges.push(id.clone());
        id
    }
    pub fn held_badges(&mut self) -> Set<NonFungibleLocalId> {
        let mut s = Set::new();
        for v in self.w.sim.vaults(self.w.bank.account, self.w.a.referral) {
            s.extend(self.w.sim.non_fungible_ids(v));
        }
        s
    }

    pub fn sign(&self, m: &PriceMsg) -> Signed {
        sign_prices(if m.authentic { ORACLE_KEY } else { FORGED_KEY }, 0, &m.prices)
    }

    fn who(&self, c: ComponentAddress, created: Option<ComponentAddress>) -> Who {
        if c == self.w.bank.account {
            Who::Bank
        } else if c == self.w.a.pool {
            Who::Pool
        } else if c == self.w.a.fee_delegator {
            Who::Delegator
        } else if c == self.w.a.referral_generator {
            Who::Referrals
        } else if Some(c) == created {
            Who::New
        } else {
            Who::At(c)
        }
    }

    /// Adds a proof of a referral badge and gives it a name.
    pub fn badge_proof(&self, b: ManifestBuilder, badge: &NonFungibleLocalId) -> (ManifestBuilder, ManifestProof) {
        let b = b
            .create_proof_from_account_of_non_fungibles(
                self.w.bank.account,
                self.w.a.referral,
                [badge.clone()].into_iter().collect::<indexmap::IndexSet<_>>(),
            )
            .create_proof_from_auth_zone_of_non_fungibles(
                self.w.a.referral,
                [badge.clone()].into_iter().collect::<indexmap::IndexSet<_>>(),
                "badge",
            );
        let p = b.name_lookup().proof("badge");
        (b, p)
    }

    /// The transaction of an operation, and the position of the interesting result.
    pub fn send(&mut self, op: &Op) -> (TxResult, Option<ComponentAddress>) {
        let e = self.w.a.exchange;
        let signer = |rig: &Rig, a: &ComponentAddress| -> Vec<NonFungibleGlobalId> {
            rig.accounts
                .iter()
                .find(|x| x.0 == *a)
                .map(|x| vec![rig.owners[x.1].badge.clone()])
                .unwrap_or_default()
        };
        let sign = |rig: &Rig, m: &Option<PriceMsg>| m.as_ref().map(|m| rig.sign(m));
        let r = match op {
            Op::Push(m) => {
                let s = self.sign(m);
                self.w.push_prices(&s)
            }
            Op::Create { owner, tokens, code, oath } => {
                let rule = self.owners[*owner].rule();
                let n = NewAccount { tokens: tokens.clone(), code: code.clone(), oath: *oath, reserve: tokens.len() == 2 };
                let (r, a) = self.w.create_account(rule, &n);
                if let Some(a) = a {
                    self.accounts.push((a, *owner));
                }
                return (r, a);
            }
            Op::Add { acc, tokens, oath } => {
                let s = signer(self, acc);
                self.w.add_collateral(*acc, tokens, *oath, &s)
            }
            Op::Remove { acc, expiry, target, claims, oath } => {
                let s = signer(self, acc);
                self.w.remove_collateral_request(*expiry, *acc, *target, claims, *oath, &s)
            }
            Op::Order { acc, order, oath } => {
                let s = signer(self, acc);
                self.w.order(*acc, order, *oath, &s)
            }
            Op::TpSl { acc, order, tp, sl, oath } => {
                let s = signer(self, acc);
                self.w.order_tp_sl(*acc, order, *tp, *sl, *oath, &s)
            }
            Op::Cancel { acc, indexes, oath } => {
                let s = signer(self, acc);
                self.w.cancel_requests(*acc, indexes, *oath, &s)
            }
            Op::Process { acc, index, prices } => {
                let p = sign(self, prices);
                self.w.process(*acc, *index, p)
            }
            Op::SwapDebt { acc, res, pay, prices } => {
                let p = sign(self, prices);
                self.w.swap_debt(*acc, *res, *pay, p)
            }
            Op::Liquidate { acc, pay, prices } => {
                let p = sign(self, prices);
                self.w.liquidate(*acc, *pay, p)
            }
            Op::Adl { acc, pair, prices } => {
                let p = sign(self, prices);
                self.w.auto_deleverage(*acc, pair, p)
            }
            Op::Update { pairs, prices } => {
                let p = sign(self, prices);
                self.w.update_pairs(pairs, p)
            }
            Op::AddLiq { pay } => self.w.add_liquidity(pay.0, pay.1),
            Op::RemLiq { pay } => self.w.remove_liquidity(pay.0, pay.1),
            Op::SwapProtocol { pay } => self.w.swap_protocol_fee(pay.0, pay.1),
            Op::CollectTreasury => self.w.owner_call(e, "collect_treasury", args(&())),
            Op::CollectDelegator => self.w.owner_call(e, "collect_fee_delegator", args(&())),
            Op::CollectReferral { referral } => {
                let (b, p) = self.badge_proof(self.w.b(), &self.badges[*referral]);
                let b = b.call_method(e, "collect_referral_rewards", manifest_args!(p));
                self.w.run(b, &[])
            }
            Op::SetExchange(c) => self.w.set_exchange_config(c),
            Op::SetPairs(c) => self.w.set_pair_configs(c),
            Op::SetCollateral(c) => self.w.set_collateral_configs(c),
            Op::DropCollateral(r) => self.w.remove_collateral_config(*r),
            Op::UpdateReferral { referral, share, rebate, max } => {
                let id = self.badges[*referral].clone();
                self.w.owner_call(e, "update_referral", args(&(id, *share, *rebate, *max)))
            }
            Op::MintReferral { share, rebate, max, allocation } => {
                let url = UncheckedUrl::of("https://x.org/k.png");
                let (n, d) = ("n".to_string(), "d".to_string());
                match allocation {
                    None => self.w.owner_call(e, "mint_referral", args(&(n, d, url, *share, *rebate, *max))),
                    Some(f) => {
                        let b = self.w.as_owner(self.w.b());
                        let (b, buckets) = self.w.pay_all(b, &f.tokens);
                        let claims = f.claims.clone();
                        let b = b.call_method(
                            e,
                            "mint_referral_with_allocation",
                            manifest_args!(n, d, url, *share, *rebate, *max, buckets, claims, f.count),
                        );
                        self.w.run(b, &[])
                    }
                }
            }
            Op::CreateCodes { referral, tokens, codes } => {
                let (b, p) = self.badge_proof(self.w.b(), &self.badges[*referral]);
                let (b, buckets) = self.w.pay_all(b, tokens);
                let hashes: Map<Hash, (Vec<(ResourceAddress, D)>, u64)> =
                    codes.iter().map(|(c, claims, n)| (code_hash(c), (claims.clone(), *n))).collect();
                let b = b.call_method(e, "create_referral_codes", manifest_args!(p, buckets, hashes));
                let r = self.w.run(b, &[]);
                if r.ok() {
                    self.codes.extend(codes.iter().map(|c| c.0.clone()));
                }
                r
            }
            Op::AddAllocation { referral, tokens, claims, count } => {
                let id = self.badges[*referral].clone();
                let b = self.w.as_owner(self.w.b());
                let (b, buckets) = self.w.pay_all(b, tokens);
                let b = b.call_method(
                    e,
                    "add_referral_allocation",
                    manifest_args!(id, buckets, claims.clone(), *count),
                );
                self.w.run(b, &[])
            }
            Op::CodesFromAllocation { referral, index, codes } => {
                let (b, p) = self.badge_proof(self.w.b(), &self.badges[*referral]);
                let hashes: Set<Hash> = codes.iter().map(|c| code_hash(c)).collect();
                let b = b.call_method(
                    e,
                    "create_referral_codes_from_allocation",
                    manifest_args!(p, *index, hashes),
                );
                let r = self.w.run(b, &[]);
                if r.ok() {
                    self.codes.extend(codes.iter().cloned());
                }
                r
            }
        };
        (r, None)
    }

    pub fn execute(&mut self, op: &Op) -> Done {
        let (r, created) = self.send(op);
        let mut done = Done {
            error: None,
            auth: false,
            flows: Map::new(),
            reward: D::ZERO,
            events: vec![],
            indexes: None,
            rewarded: None,
            created,
            minted: None,
        };
        if !r.ok() {
            done.error = Some(r.error());
            done.auth = r.is_auth_error();
            return done;
        }
        if matches!(op, Op::MintReferral { .. }) {
            let new: Vec<_> = self.held_badges().into_iter().filter(|x| !self.badges.contains(x)).collect();
            if let [id] = &new[..] {
                self.badges.push(id.clone());
                done.minted = Some(id.clone());
            }
        }
        let reward = self.w.a.keeper_reward;
        for ((c, res), d) in self.w.flows(&r) {
            let who = self.who(c, created);
            if res == reward && who == Who::Bank {
                done.reward += d;
            } else {
                *done.flows.entry((who, res)).or_insert(D::ZERO) += d;
            }
        }
        if done.minted.is_some() {
            // The new badge itself.
            *done.flows.entry((Who::Bank, self.w.a.referral)).or_default() -= D::ONE;
        }
        done.flows.retain(|_, d| !d.is_zero());
        done.events = self.events(&r, created);
        // The call is followed by the deposit of what is left over only.
        let n = r.commit().outcome.expect_success().len();
        let result = n - 2;
        match op {
            Op::Remove { .. } | Op::Order { .. } => done.indexes = Some(vec![r.output::<u64>(result)]),
            Op::TpSl { .. } => {
                let (a, b, c) = r.output::<(u64, Option<u64>, Option<u64>)>(result);
                done.indexes = Some([Some(a), b, c].into_iter().flatten().collect());
            }
            Op::Update { .. } => done.rewarded = Some(r.output::<(NoDecode, Vec<bool>)>(result).1),
            Op::MintReferral { allocation: Some(_), .. } => {
                done.indexes = Some(vec![r.output::<(NoDecode, NoDecode, u64)>(result).2])
            }
            Op::AddAllocation { .. } => done.indexes = Some(vec![r.output::<(NoDecode, u64)>(result).1]),
            _ => {}
        }
        done
    }

    fn events(&self, r: &TxResult, created: Option<ComponentAddress>) -> Vec<Ev> {
        let mut out = vec![];
        for e in r.events::<EventExchangeConfigUpdate>("EventExchangeConfigUpdate") {
            out.push(Ev::ExchangeConfig(e.config));
        }
        for e in r.events::<EventPairConfigUpdates>("EventPairConfigUpdates") {
            out.push(Ev::PairConfigs(e.configs));
        }
        for e in r.events::<EventCollateralConfigUpdates>("EventCollateralConfigUpdates") {
            out.push(Ev::CollateralConfigs(e.configs));
        }
        for e in r.events::<EventCollateralConfigRemoval>("EventCollateralConfigRemoval") {
            out.push(Ev::CollateralRemoval(e.resource));
        }
        for e in r.events::<EventPairUpdates>("EventPairUpdates") {
            out.push(Ev::PairUpdates(e.updates.iter().map(|(p, x)| (p.clone(), pair(x))).collect()));
        }
        for e in r.events::<EventAccountCreation>("EventAccountCreation") {
            if Some(e.account) == created {
                out.push(Ev::Creation(e.referral_id));
            }
        }
        for e in r.events::<EventRequests>("EventRequests") {
            out.push(Ev::Requests(e.account, e.requests.iter().map(|(i, x)| (*i, request(x))).collect()));
        }
        for e in r.events::<EventValidRequestsStart>("EventValidRequestsStart") {
            out.push(Ev::ValidStart(e.account, e.valid_requests_start));
        }
        for e in r.events::<EventLiquidityChange>("EventLiquidityChange") {
            out.push(Ev::Liquidity {
                price: e.lp_price,
                lp: e.lp_amount,
                amount: e.amount,
                pool: e.fee_pool,
                protocol: e.fee_protocol,
                treasury: e.fee_treasury,
            });
        }
        for e in r.events::<EventAddCollateral>("EventAddCollateral") {
            let a = if Some(e.account) == created { None } else { Some(e.account) };
            out.push(Ev::AddCollateral(a, e.amounts));
        }
        for e in r.events::<EventRemoveCollateral>("EventRemoveCollateral") {
            out.push(Ev::RemoveCollateral(e.account, e.target_account, e.amounts));
        }
        for e in r.events::<EventMarginOrder>("EventMarginOrder") {
            out.push(Ev::Order {
                acc: e.account,
                pair: e.pair_id,
                price: e.price,
                limit: e.price_limit,
                close: e.amount_close,
                open: e.amount_open,
                pnl: e.pnl,
                funding: e.funding,
                fees: [e.fee_pool, e.fee_protocol, e.fee_treasury, e.fee_referral],
                activated: e.activated_requests.into_iter().collect(),
                cancelled: e.cancelled_requests.into_iter().collect(),
            });
        }
        for e in r.events::<EventSwapDebt>("EventSwapDebt") {
            out.push(Ev::SwapDebt { acc: e.account, res: e.resource, amount: e.amount, price: e.price });
        }
        for e in r.events::<EventLiquidate>("EventLiquidate") {
            out.push(Ev::Liquidate {
                acc: e.account,
                prices: e.position_prices.into_iter().collect(),
                coll_prices: e.collateral_prices.into_iter().collect(),
                value: e.account_value,
                margin: e.margin,
                vb: e.virtual_balance,
                amounts: e.position_amounts.into_iter().collect(),
                pnl: e.positions_pnl,
                coll: e.collateral_amounts.into_iter().collect(),
                coll_value: e.collateral_value,
                coll_discounted: e.collateral_value_discounted,
                funding: e.funding,
                fees: [e.fee_pool, e.fee_protocol, e.fee_treasury, e.fee_referral],
                loss: e.pool_loss,
            });
        }
        for e in r.events::<EventAutoDeleverage>("EventAutoDeleverage") {
            out.push(Ev::Adl {
                acc: e.account,
                pair: e.pair_id,
                price: e.price,
                close: e.amount_close,
                pnl: e.pnl,
                funding: e.funding,
                fees: [e.fee_pool, e.fee_protocol, e.fee_treasury, e.fee_referral],
                percent: e.pnl_percent,
                threshold: e.threshold,
            });
        }
        out
    }

    /// Everything the components report.
    /// The feeds that have a price: asking for any other fails.
    fn present(&mut self) -> Set<Id> {
        for f in self.feeds.clone() {
            if !self.priced.contains(&f) {
                let one: Set<Id> = [f.clone()].into();
                if self.w.query(vec![(self.w.a.oracle, "get_prices", args(&(one,)))]).ok() {
                    self.priced.insert(f);
                }
            }
        }
        self.priced.clone()
    }

    pub fn read(&mut self) -> State {
        let a = self.w.a.clone();
        let mut calls = vec![
            (a.exchange, "get_exchange_config", args(&())),
            (a.exchange, "get_pair_configs", args(&(1000u64, None::<u64>))),
            (a.exchange, "get_collateral_configs", args(&())),
            (a.fee_distributor, "get_protocol_virtual_balance", args(&())),
            (a.fee_distributor, "get_treasury_virtual_balance", args(&())),
            (a.fee_delegator, "get_info", args(&())),
            (a.pool, "get_info", args(&(self.feeds.iter().cloned().collect::<Set<_>>(),))),
            (a.oracle, "get_prices", args(&(self.present(),))),
        ];
        let first = calls.len();
        for (acc, _) in &self.accounts {
            calls.push((*acc, "get_info", args(&())));
            calls.push((*acc, "get_requests", args(&(100_000u64, None::<u64>))));
            calls.push((*acc, "get_active_requests", args(&())));
        }
        let codes: Vec<String> = self.codes.iter().cloned().collect();
        let code_first = calls.len();
        for c in &codes {
            calls.push((a.referral_generator, "get_referral_code", args(&(code_hash(c),))));
        }
        let alloc_first = calls.len();
        for b in &self.badges {
            calls.push((a.referral_generator, "get_allocations", args(&(b.clone(),))));
        }
        let q = self.w.query(calls).expect("reading the state");

        let pool: MarginPoolInfo = q.output(6);
        let delegator: (D, D, D, D, bool) = q.output(5);
        let oracle: HashMap<String, (D, Instant)> = q.output(7);
        let mut accounts = Map::new();
        for (i, (acc, _)) in self.accounts.clone().iter().enumerate() {
            let info: MarginAccountInfo = q.output(first + 3 * i);
            let reqs: Vec<(u64, KeeperRequest)> = q.output(first + 3 * i + 1);
            let active: HashMap<u64, KeeperRequest> = q.output(first + 3 * i + 2);
            let mut out = Acc {
                positions: info
                    .positions
                    .iter()
                    .map(|(p, x)| (p.clone(), Pos { amount: x.amount, cost: x.cost, index: x.funding_index }))
                    .collect(),
                coll: info.collateral_balances.iter().map(|(r, d)| (*r, *d)).collect(),
                vb: info.virtual_balance,
                reqs: reqs.iter().map(|(_, r)| request(r)).collect(),
                active: active.keys().copied().collect(),
                start: info.valid_requests_start,
                referral: info.referral_id.clone(),
            };
            // A mark that never matches, should the lists disagree.
            let listed = reqs.iter().enumerate().all(|(k, (j, _))| k as u64 == *j)
                && info.requests_len == reqs.len() as u64
                && active.iter().all(|(i, r)| reqs.get(*i as usize).map(|x| request(&x.1)) == Some(request(r)));
            if !listed {
                out.active.insert(u64::MAX);
            }
            accounts.insert(*acc, out);
        }
        let mut referrals = Map::new();
        for b in self.badges.clone() {
            let d: ReferralData = self.w.sim.non_fungible_data(a.referral, &b).unwrap();
            referrals.insert(
                b,
                Referral {
                    share: d.fee_referral,
                    rebate: d.fee_rebate,
                    referrals: d.referrals,
                    max: d.max_referrals,
                    balance: d.balance,
                    total: d.total_rewarded,
                },
            );
        }
        let mut divisibility = Map::new();
        for (i, d) in [8u8, 18, 6].into_iter().enumerate() {
            divisibility.insert(a.tokens[i], d);
        }
        State {
            now: self.w.sim.now(),
            oracle: oracle.iter().map(|(p, (d, t))| (p.clone(), (*d, t.seconds_since_unix_epoch))).collect(),
            ex: q.output(0),
            pair_cfg: q.output::<Vec<PairConfig>>(1).into_iter().map(|c| (c.pair_id.clone(), c)).collect(),
            coll_cfg: q.output::<HashMap<ResourceAddress, CollateralConfig>>(2).into_iter().collect(),
            base_tokens: pool.base_tokens_amount,
            pool_vb: pool.virtual_balance,
            unrealized: pool.unrealized_pool_funding,
            skew_abs: pool.skew_abs_snap,
            pnl: pool.pnl_snap,
            pairs: pool.positions.iter().map(|(p, x)| (p.clone(), pair(x))).collect(),
            accounts,
            protocol: q.output(3),
            treasury: q.output(4),
            delegator_vb: delegator.1,
            max_lock: delegator.2,
            multiplier: delegator.3,
            oath_supply: self.w.sim.total_supply(a.fee_oath),
            lp_supply: self.w.sim.total_supply(a.lp),
            referrals,
            codes: codes
                .iter()
                .enumerate()
                .filter_map(|(i, c)| {
                    let x: Option<ReferralCode> = q.output(code_first + i);
                    x.map(|x| {
                        (
                            c.clone(),
                            Code { referral: x.referral_id, claims: x.claims, count: x.count, max: x.max_count },
                        )
                    })
                })
                .collect(),
            allocations: self
                .badges
                .iter()
                .enumerate()
                .map(|(i, b)| {
                    let x: Vec<ReferralAllocation> = q.output(alloc_first + i);
                    (
                        b.clone(),
                        x.into_iter()
                            .map(|x| Allocation { claims: x.claims, count: x.count, max: x.max_count })
                            .collect::<Vec<_>>(),
                    )
                })
                .filter(|x| !x.1.is_empty())
                .collect(),
            divisibility,
            base: a.base,
            lp: a.lp,
            protocol_res: a.protocol,
            depositable: self.depositable.clone(),
        }
    }
}

pub fn pair(x: &PoolPosition) -> Pair {
    Pair {
        oi_long: x.oi_long,
        oi_short: x.oi_short,
        cost: x.cost,
        skew_abs: x.skew_abs_snap,
        pnl: x.pnl_snap,
        rate: x.funding_2_rate,
        long_index: x.funding_long_index,
        short_index: x.funding_short_index,
        last_update: x.last_update.seconds_since_unix_epoch,
        last_price: x.last_price,
    }
}

pub fn request(x: &KeeperRequest) -> Req {
    Req {
        rq: match Request::decode(&x.request) {
            Request::RemoveCollateral(r) => Rq::Remove { target: r.target_account, claims: r.claims },
            Request::MarginOrder(r) => Rq::Order {
                pair: r.pair_id,
                amount: r.amount,
                reduce_only: r.reduce_only,
                price_limit: r.price_limit,
                slippage_limit: r.slippage_limit,
                activate: r.activate_requests,
                cancel: r.cancel_requests,
            },
        },
        submission: x.submission.seconds_since_unix_epoch,
        expiry: x.expiry.seconds_since_unix_epoch,
        status: x.status,
        effected: x.effected_components.clone(),
    }
}
