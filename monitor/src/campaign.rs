//! Random and boundary-seeking histories of the whole exchange, every step of which is judged
//! against the reference model.

use crate::judge::*;
use crate::model::*;
use crate::real::*;
use crate::report::*;
use crate::rng::*;
use std::collections::{BTreeMap as Map, BTreeSet as Set};
use std::panic::{catch_unwind, AssertUnwindSafe};
use world::*;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    Trade,
    OrderOnly,
    ProcessAny,
    Bracket,
    Linked,
    Cancel,
    Withdraw,
    Deposit,
    Create,
    Liquidate,
    LiquidateEdge,
    Deleverage,
    DeleverageEdge,
    SwapDebt,
    AddLiquidity,
    RemoveLiquidity,
    LiquidityCycle,
    UpdatePairs,
    Push,
    SwapProtocol,
    Collect,
    CollectReferral,
    ConfigExchange,
    ConfigPair,
    ConfigCollateral,
    DropCollateral,
    Referral,
    Codes,
    MoveMarket,
    Wait,
    OrderEdge,
    WithdrawEdge,
    SlippageEdge,
    LimitEdge,
    CapEdge,
    AgeEdge,
    ExpiryEdge,
    Ruin,
}
use Kind::*;

pub const BASE_WEIGHTS: &[(Kind, u32)] = &[
    (Trade, 22),
    (OrderOnly, 5),
    (ProcessAny, 6),
    (Bracket, 3),
    (Linked, 2),
    (Cancel, 3),
    (Withdraw, 4),
    (Deposit, 4),
    (Create, 2),
    (Liquidate, 2),
    (LiquidateEdge, 3),
    (Deleverage, 2),
    (DeleverageEdge, 1),
    (SwapDebt, 3),
    (AddLiquidity, 2),
    (RemoveLiquidity, 2),
    (LiquidityCycle, 1),
    (UpdatePairs, 4),
    (Push, 2),
    (SwapProtocol, 1),
    (Collect, 1),
    (CollectReferral, 1),
    (ConfigExchange, 1),
    (ConfigPair, 1),
    (ConfigCollateral, 1),
    (DropCollateral, 1),
    (Referral, 1),
    (Codes, 2),
    (MoveMarket, 6),
    (Wait, 5),
    (OrderEdge, 3),
    (WithdrawEdge, 2),
    (SlippageEdge, 2),
    (LimitEdge, 1),
    (CapEdge, 1),
    (AgeEdge, 2),
    (ExpiryEdge, 2),
    (Ruin, 1),
];

/// What a property's own histories dwell on.
pub fn boosts(prop: &str) -> &'static [(Kind, u32)] {
    match prop {
        "P01" => &[(Collect, 4), (SwapProtocol, 3), (CollectReferral, 4), (Liquidate, 4), (AddLiquidity, 4), (RemoveLiquidity, 4), (Ruin, 1)],
        "P02" => &[(Trade, 20), (LiquidateEdge, 4), (DeleverageEdge, 5)],
        "P03" => &[(Trade, 20), (Wait, 20), (UpdatePairs, 15)],
        "P04" => &[(AddLiquidity, 25), (RemoveLiquidity, 25), (LiquidityCycle, 10), (MoveMarket, 6), (Ruin, 1)],
        "P05" => &[(Trade, 40), (LiquidateEdge, 4), (Codes, 4), (Create, 3), (DeleverageEdge, 4), (ConfigExchange, 2)],
        "P06" => &[(Trade, 40), (SlippageEdge, 20), (LimitEdge, 8)],
        "P07" => &[(OrderEdge, 25), (WithdrawEdge, 20), (Withdraw, 8), (Deposit, 4), (DropCollateral, 2), (Ruin, 2)],
        "P08" => &[(LiquidateEdge, 50), (Liquidate, 10), (Deposit, 10), (Trade, 10), (Create, 3), (OrderOnly, 5), (ProcessAny, 8)],
        "P09" => &[(DeleverageEdge, 40), (Deleverage, 20), (Trade, 15)],
        "P10" => &[(OrderEdge, 40), (CapEdge, 12), (LimitEdge, 5), (MoveMarket, 5), (Ruin, 1), (RemoveLiquidity, 4)],
        "P11" => &[(OrderOnly, 25), (ProcessAny, 25), (Cancel, 15), (ExpiryEdge, 20), (Liquidate, 4), (LiquidateEdge, 9)],
        "P12" => &[(Bracket, 30), (Linked, 30), (ProcessAny, 25), (Cancel, 5)],
        "P13" => &[(Push, 60)],
        "P14" => &[(AgeEdge, 40), (Deposit, 3), (DeleverageEdge, 6), (Deleverage, 3), (Withdraw, 8), (LiquidateEdge, 4), (SwapDebt, 3)],
        "P18" => &[(Deposit, 20), (Withdraw, 20), (WithdrawEdge, 15), (SwapDebt, 6), (Create, 4)],
        "P19" => &[(SwapDebt, 70), (Deposit, 10), (Trade, 10)],
        "P20" => &[(Collect, 25), (SwapProtocol, 25), (Trade, 15), (AddLiquidity, 4), (Ruin, 10)],
        "P21" => &[(Codes, 70), (Create, 25), (Referral, 6)],
        "P22" => &[(Codes, 30), (Create, 25), (Referral, 15), (CollectReferral, 20), (Trade, 20), (Ruin, 10)],
        "P23" => &[(UpdatePairs, 50), (Wait, 10), (ProcessAny, 8), (MoveMarket, 10)],
        "P27" => &[(ConfigExchange, 25), (ConfigPair, 25), (ConfigCollateral, 25), (DropCollateral, 6)],
        "P33" => &[(LimitEdge, 60), (Deposit, 10), (Trade, 10)],
        _ => &[],
    }
}

pub struct Ep<'a> {
    pub rig: Rig,
    pub state: State,
    pub rng: Rng,
    pub price: Map<Id, D>,
    pub pairs: Vec<Id>,
    pub mon: &'a mut Monitor,
    pub prop: String,
    pub log: Vec<String>,
    pub episode: u64,
    pub steps: usize,
    pub broken: Set<Prop>,
    ruined: bool,
}

const DAY: i64 = 86_400;

impl<'a> Ep<'a> {
    pub fn new(world: &World, prop: &str, seed: u64, episode: u64, mon: &'a mut Monitor) -> Self {
        let tag: u64 = prop.bytes().fold(0, |h, b| h * 131 + b as u64);
        let rng = Rng::new(&[seed, tag, episode]);
        let mut rig = Rig::new(world.fork(), 5);
        rig.feeds =
            ["BTC/USD", "ETH/USD", "XRD/USD", "WBTC/USD", "WETH/USD", "USDC/USD"].iter().map(|x| x.to_string()).collect();
        let state = rig.read();
        let mut ep = Ep {
            rig,
            state,
            rng,
            price: Map::new(),
            pairs: vec![],
            mon,
            prop: prop.to_string(),
            log: vec![],
            episode,
            steps: 0,
            broken: Set::new(),
            ruined: false,
        };
        ep.setup();
        ep
    }

    // The stage.

    fn setup(&mut self) {
        let r = &mut self.rng;
        for (p, x) in [
            ("BTC/USD", 60000.0),
            ("ETH/USD", 3000.0),
            ("XRD/USD", 0.05),
            ("WBTC/USD", 59000.0),
            ("WETH/USD", 2900.0),
            ("USDC/USD", 1.25),
        ] {
            let scale = if r.percent(8) { 1000.0 } else { 1.0 };
            let d = r.dec(x * 0.5, x * 1.5) * from_f64(scale);
            self.price.insert(p.to_string(), d);
        }
        self.pairs = if r.percent(8) {
            ["BTC/USD", "ETH/USD", "WBTC/USD", "WETH/USD", "XRD/USD"].map(|p| p.to_string()).to_vec()
        } else if r.percent(25) {
            vec!["BTC/USD".to_string()]
        } else if r.percent(50) {
            vec!["BTC/USD".to_string(), "XRD/USD".to_string()]
        } else {
            vec!["BTC/USD".to_string(), "ETH/USD".to_string(), "XRD/USD".to_string()]
        };
        // The delegator pays network fees from its own funds.
        self.fund_delegator();
        self.state = self.rig.read();
        let ex = self.exchange_config();
        self.step(Op::SetExchange(ex));
        let cs: Vec<PairConfig> = self.pairs.clone().iter().map(|p| self.pair_config(p)).collect();
        self.step(Op::SetPairs(cs));
        let cs: Vec<_> = (0..3).map(|i| (self.rig.w.a.tokens[i], self.collateral_config(i))).collect();
        self.step(Op::SetCollateral(cs));
        let m = self.fresh();
        self.step(Op::Push(m));
        for _ in 0..2 {
            let (a, b) = (self.rng.dec(0.0, 0.1), self.rng.dec(0.0, 0.1));
            let max = if self.rng.percent(70) { 1000 } else { self.rng.int(0, 6) as u64 };
            self.rig.referral(a, b, max);
        }
        self.state = self.rig.read();
        // Usually a pool to trade against, now and then hardly any.
        let tiny = self.rng.percent(if matches!(self.prop.as_str(), "P04" | "P29") { 12 } else { 3 });
        let amount = if tiny { self.rng.log(0.2, 6.0) } else { self.rng.log(10_000.0, 3_000_000.0) };
        let base = self.rig.w.a.base;
        self.step(Op::AddLiq { pay: (base, amount) });
        self.codes();
        for _ in 0..self.rng.int(2, 4) {
            self.create();
        }
    }

    fn fund_delegator(&mut self) {
        let d = self.rig.w.a.fee_delegator;
        let b = self.rig.w.b();
        let b = b.call_method(FAUCET, "free", manifest_args!()).take_all_from_worktop(XRD, "xrd");
        let bucket = b.name_lookup().bucket("xrd");
        let b = self.rig.w.as_owner(b).call_method(d, "deposit", manifest_args!(bucket));
        self.rig.w.run(b, &[]).expect("fund the delegator");
    }

    fn exchange_config(&mut self) -> ExchangeConfig {
        let limits = self.prop == "P33" || self.rng.percent(15);
        some_exchange(&mut self.rng, limits)
    }

    fn pair_config(&mut self, p: &str) -> PairConfig {
        // An adaptive rate that reaches its bounds.
        let hasty = self.prop == "P03";
        let price = to_f64(self.price[p]);
        some_pair(&mut self.rng, p, price, hasty)
    }

    pub fn some_pair_config(&mut self, p: &str) -> PairConfig {
        self.pair_config(p)
    }
    fn collateral_config(&mut self, i: usize) -> CollateralConfig {
        // Several collaterals may share a feed, each with an age of its own.
        let alike = if self.prop == "P14" { 40 } else { 12 };
        let r = &mut self.rng;
        let shared = r.percent(40);
        let feed = match (i, shared) {
            (0, true) => "BTC/USD",
            (0, false) => "WBTC/USD",
            (1, true) => "ETH/USD",
            (1, false) => "WETH/USD",
            _ => "USDC/USD",
        };
        let feed = if r.percent(alike) { r.pick(&["USDC/USD", "BTC/USD", "USDC/USD"]) } else { feed };
        CollateralConfig {
            pair_id: feed.to_string(),
            price_age_max: if r.percent(88) { r.int(1, 90) } else { long_seconds(r) },
            discount: significant(r.dec(0.8, 1.0), 3),
            margin: if r.percent(20) { D::ZERO } else { significant(r.dec(0.0, 0.1), 3) },
        }
    }

    // Time and prices.

    pub fn wait(&mut self, seconds: i64) {
        if seconds > 0 {
            let now = self.rig.w.sim.now() + seconds;
            self.rig.w.sim.set_now(now);
            self.state.now = now;
            let feeds = self.rig.feeds.clone();
            for p in &feeds {
                let q = self.state.pairs.entry(p.clone()).or_insert_with(|| Pair::fresh(now));
                let fresh = Pair::fresh(q.last_update);
                if *q == fresh {
                    q.last_update = now;
                }
            }
        }
    }

    pub fn msg_at(&self, t: i64) -> PriceMsg {
        PriceMsg { prices: self.price.iter().map(|(p, d)| (p.clone(), *d, t)).collect(), authentic: true }
    }
    pub fn fresh(&self) -> PriceMsg {
        self.msg_at(self.state.now)
    }

    fn move_price(&mut self, p: &str, by: f64) {
        let d = self.price[p] * from_f64(1.0 + by);
        let mut d = if self.rng.percent(50) { significant(d, 6) } else { d };
        if d == D::ONE {
            d = dec!("1.0001");
        }
        self.price.insert(p.to_string(), d);
    }

    fn drift(&mut self) {
        for p in self.rig.feeds.clone() {
            if self.rng.percent(60) {
                let x = (self.rng.unit() - 0.5) * 0.01;
                self.move_price(&p, x);
            }
        }
    }

    /// The prices a keeper sends along: mostly good ones.
    fn supply(&mut self) -> Option<PriceMsg> {
        let lag = self.rng.weighted(&[(0i64, 6), (1, 2), (2, 1)]);
        let mut m = self.msg_at(self.state.now - lag);
        match self.rng.below(40) {
            0 => {
                m.authentic = false;
                Some(m)
            }
            1 => {
                let i = self.rng.below(m.prices.len());
                m.prices.remove(i);
                Some(m)
            }
            2 => {
                let i = self.rng.below(m.prices.len());
                m.prices[i].1 = if self.rng.percent(50) { D::ZERO } else { -m.prices[i].1 };
                Some(m)
            }
            3 | 4 => None,
            5..=9 => {
                let m = self.fresh();
                self.step(Op::Push(m));
                None
            }
            _ => Some(m),
        }
    }

    // Judging.

    pub fn predict(&self, s: &mut State, op: &Op) -> Option<(Result<(), Rej>, bool, Out)> {
        catch_unwind(AssertUnwindSafe(|| {
            let mut m = Model::new(s);
            let r = m.apply(op, &self.rig.badges);
            (r, m.near, m.out)
        }))
        .ok()
    }

    fn blame(&mut self, props: Vec<Prop>, text: String) {
        let fresh: Vec<Prop> = props.into_iter().collect::<Set<_>>().into_iter().collect();
        self.mon.violation(&fresh, &text, self.episode, &self.log);
    }

    /// Now and then the pairs are brought up to date at the price known so far, and the operation
    /// brings a newer one in the same second.
    fn at_the_older_price(&mut self, op: &Op) {
        let acc = match op {
            Op::Process { acc, prices: Some(_), .. }
            | Op::Liquidate { acc, prices: Some(_), .. }
            | Op::Adl { acc, prices: Some(_), .. } => *acc,
            _ => return,
        };
        let often = matches!(self.prop.as_str(), "P03" | "P08" | "P09" | "P23");
        if !self.rng.percent(if often { 8 } else { 2 }) {
            return;
        }
        let Some(x) = self.state.accounts.get(&acc) else { return };
        let mut pairs: Vec<Id> = x.positions.keys().cloned().collect();
        if let Op::Process { index, .. } = op {
            if let Some(Rq::Order { pair, .. }) = x.reqs.get(*index as usize).map(|r| &r.rq) {
                if !pairs.contains(pair) {
                    pairs.push(pair.clone());
                }
            }
        }
        // Known so far, or heard of a second before.
        let prices = match (self.rng.below(4), op) {
            (
                1..,
                Op::Process { prices: Some(m), .. } | Op::Liquidate { prices: Some(m), .. } | Op::Adl { prices: Some(m), .. },
            ) => {
                let by = from_f64(self.rng.pick(&[0.995, 0.9999, 1.0003, 1.004]));
                let prices = m.prices.iter().map(|(p, d, t)| (p.clone(), if pairs.contains(p) { *d * by } else { *d }, t - 1));
                Some(PriceMsg { prices: prices.collect(), authentic: true })
            }
            _ => None,
        };
        self.step(Op::Update { pairs, prices });
    }

    /// An operation that would succeed is tried first with one of the prices it goes by
    /// exactly, or almost, too old and the others fresh.
    fn at_an_aged_price(&mut self, mut op: Op) -> Op {
        let Some(m) = prices_of(&mut op).cloned() else { return op };
        if !self.rng.percent(if self.prop == "P14" { 30 } else { 1 }) || !m.authentic {
            return op;
        }
        let (named, acc): (Vec<Id>, _) = match &op {
            Op::Process { acc, index, .. } => {
                let rq = self.state.accounts.get(acc).and_then(|x| x.reqs.get(*index as usize)).map(|r| &r.rq);
                (if let Some(Rq::Order { pair, .. }) = rq { vec![pair.clone()] } else { vec![] }, Some(*acc))
            }
            Op::Liquidate { acc, .. } => (vec![], Some(*acc)),
            Op::Adl { acc, pair, .. } => (vec![pair.clone()], Some(*acc)),
            Op::Update { pairs, .. } => (pairs.clone(), None),
            _ => (vec![], None),
        };
        let mut pairs = named;
        if let Some(x) = acc.and_then(|a| self.state.accounts.get(&a)) {
            pairs.extend(x.positions.keys().cloned());
        }
        let mut limits: Vec<(Id, i64)> = vec![];
        for p in &pairs {
            limits.extend(self.state.pair_cfg.get(p).map(|c| (p.clone(), c.price_age_max)));
        }
        // Twice the weight of what is traded over what is held.
        limits.extend(limits.clone());
        limits.extend(self.state.coll_cfg.values().map(|c| (c.pair_id.clone(), c.price_age_max)));
        limits.retain(|(p, _)| m.prices.iter().any(|x| x.0 == *p));
        limits.sort();
        if limits.is_empty() || !matches!(self.probe(&[(0, op.clone())]), Some((Ok(()), _))) {
            return op;
        }
        let (p, limit) = self.rng.pick(&limits);
        let said = m.prices.iter().find(|x| x.0 == p).unwrap().2;
        let passed = limit + self.rng.pick(&[-1, 0, 0, 0, 1, 7]) - (self.state.now - said);
        if passed <= 0 || passed > 100_000 {
            return op;
        }
        self.step(Op::Push(m.clone()));
        self.wait(passed);
        let mut later = m;
        later.prices.iter_mut().for_each(|x| x.2 += passed);
        *prices_of(&mut op).unwrap() = later.clone();
        let mut aged = op.clone();
        later.prices.retain(|x| x.0 != p);
        *prices_of(&mut aged).unwrap() = later;
        self.step(aged);
        op
    }

    /// Sends an operation and judges what it did.
    pub fn step(&mut self, op: Op) -> bool {
        self.at_the_older_price(&op);
        let op = self.at_an_aged_price(op);
        self.steps += 1;
        let pre = self.state.clone();
        let mut pred = pre.clone();
        let forecast = self.predict(&mut pred, &op);
        let done = self.rig.execute(&op);
        self.log.push(format!(
            "t={} {:?} -> {}",
            pre.now,
            op,
            done.error.as_ref().map_or("ok".to_string(), |e| format!("refused: {}", e.chars().take(300).collect::<String>()))
        ));
        let accepted = done.error.is_none();
        if accepted || self.rng.percent(12) {
            match catch_unwind(AssertUnwindSafe(|| self.rig.read())) {
                Ok(s) => self.state = s,
                Err(e) => {
                    let mut props = vec!["P29"];
                    if let Some((verdict, _, out)) = &forecast {
                        props.extend(subjects(&op, &pre, verdict, out));
                    }
                    self.blame(props, format!("after {} the state cannot be read", op.name()));
                    std::panic::resume_unwind(e);
                }
            }
        }
        if !accepted {
            let d = differences(&flatten(&pre), &flatten(&self.state), &|_| true);
            if let Some((_, text)) = d.first() {
                self.blame(vec!["P34", "P01"], format!("a failed {} changed the state: {text}", op.name()));
            }
        }
        let Some((verdict, near, mut out)) = forecast else {
            self.mon.stats.unjudged += 1;
            return accepted;
        };
        self.mon.count(&op, &pre, &verdict, near, &out, accepted);
        if near {
            self.mon.stats.unjudged += 1;
            if accepted {
                self.check_invariants();
            }
            return accepted;
        }
        match (&verdict, &done.error) {
            (Err(_), Some(_)) => return false,
            (Err(r), None) => {
                let mut props = accepted_props(*r, &op, &pre);
                props.sort();
                self.blame(props, format!("{} was accepted, but has to be refused: {r:?}", op.name()));
                self.check_invariants();
                return true;
            }
            (Ok(()), Some(e)) => {
                let props = refused_props(e, done.auth, &op, &pre);
                let e: String = e.chars().take(400).collect();
                self.blame(props, format!("{} was refused, but has to succeed: {e}", op.name()));
                return false;
            }
            (Ok(()), None) => {}
        }
        // Both agree that it succeeds: now for what it did.
        if let (Some(c), Some(a)) = (done.created, out.created.take()) {
            pred.accounts.insert(c, a);
        }
        if matches!(op, Op::MintReferral { .. }) {
            match &done.minted {
                Some(id) => {
                    let r = pred.referrals.remove(&unborn()).unwrap();
                    pred.referrals.insert(id.clone(), r);
                    if let Some(l) = pred.allocations.remove(&unborn()) {
                        pred.allocations.insert(id.clone(), l);
                    }
                }
                None => self.blame(vec!["P22"], "minting a referral badge did not mint one".to_string()),
            }
        }
        self.compare_config(&op, &mut pred);
        pred.now = self.state.now;
        let untouched: Set<Part> = {
            let mut s = Set::new();
            for p in pre.pairs.keys() {
                if !out.pairs.contains(p) {
                    s.insert(Part::Pair(p.clone()));
                }
            }
            for a in pre.accounts.keys() {
                if op.account() != Some(*a) {
                    s.insert(Part::Acc(*a));
                }
            }
            s
        };
        let (want, have) = (flatten(&pred), flatten(&self.state));
        let mut d = differences(&want, &have, &|p| untouched.contains(p));
        d.retain(|(k, _)| !blurred(&pre, k, want.get(k), have.get(k)));
        let mut clean = true;
        for (k, text) in &d {
            let props = field_props(&k.0, &k.1, &op, &pre, &out, &d);
            clean = false;
            self.blame(props, format!("after {}: {text}", op.name()));
        }
        for ((who, res), text) in flow_differences(&op, &out.flows, &done) {
            clean = false;
            let props = flow_props(&who, res, &op, &pre);
            self.blame(props, format!("{}: {text}", op.name()));
        }
        if !close(done.reward, out.reward) {
            clean = false;
            self.blame(
                vec!["P23"],
                format!("{} pays the keeper {} instead of {}", op.name(), done.reward, out.reward),
            );
        }
        if let Op::SwapDebt { acc, .. } = &op {
            let vb = self.state.accounts[acc].vb;
            if vb > D::ZERO {
                clean = false;
                self.blame(vec!["P19"], format!("a debt swap leaves a balance of {vb}"));
            }
        }
        if let Some(l) = &done.rewarded {
            let n = |l: &[bool]| l.iter().filter(|x| **x).count();
            if l.len() != out.rewarded.len() || n(l) != n(&out.rewarded) {
                clean = false;
                self.blame(vec!["P23"], format!("rewards {:?} instead of {:?}", l, out.rewarded));
            }
        }
        if let Some(l) = &done.indexes {
            if *l != out.indexes {
                let p = if matches!(op, Op::AddAllocation { .. } | Op::MintReferral { .. }) { "P21" } else { "P11" };
                let mut props = vec![p];
                if matches!(op, Op::TpSl { .. }) {
                    props.push("P12");
                }
                clean = false;
                self.blame(props, format!("{} returns indexes {:?} instead of {:?}", op.name(), l, out.indexes));
            }
        }
        if clean {
            self.mon.stats.events_compared += done.events.len() as u64;
            for text in event_differences(&out.events, &done.events) {
                self.blame(vec!["P30"], format!("event of {}: {text}", op.name()));
            }
        }
        self.check_invariants();
        true
    }

    fn check_invariants(&mut self) {
        self.mon.stats.states += 1;
        for (p, text) in invariants(&self.state) {
            // Once out of step, always out of step.
            if self.broken.insert(p) {
                self.blame(vec![p], text);
            }
        }
    }

    /// Configuration is kept to three digits only.
    fn compare_config(&mut self, op: &Op, pred: &mut State) {
        let mut bad = vec![];
        match op {
            Op::SetExchange(c) => {
                let real = self.state.ex.clone();
                bad.extend(exchange_config_differences(c, &real));
                pred.ex = real;
            }
            Op::SetPairs(cs) => {
                for c in cs {
                    // A later entry for the same pair counts.
                    let last = cs.iter().rev().find(|x| x.pair_id == c.pair_id).unwrap();
                    match self.state.pair_cfg.get(&c.pair_id).cloned() {
                        Some(real) => {
                            bad.extend(pair_config_differences(last, &real));
                            pred.pair_cfg.insert(c.pair_id.clone(), real);
                        }
                        None => bad.push(format!("{} is missing", c.pair_id)),
                    }
                }
            }
            Op::SetCollateral(cs) => {
                for (r, _) in cs {
                    let last = &cs.iter().rev().find(|x| x.0 == *r).unwrap().1;
                    match self.state.coll_cfg.get(r).cloned() {
                        Some(real) => {
                            bad.extend(collateral_config_differences(last, &real));
                            pred.coll_cfg.insert(*r, real);
                        }
                        None => bad.push(format!("{r:?} is missing")),
                    }
                }
            }
            _ => {}
        }
        for text in bad {
            self.blame(vec!["P27"], format!("configuration read back: {text}"));
        }
    }

    // Looking ahead.

    /// Whether a series of operations would go through, by the model.
    pub fn probe(&self, ops: &[(i64, Op)]) -> Option<(Result<(), Rej>, Out)> {
        let mut s = self.state.clone();
        let mut last = Out::default();
        for (dt, op) in ops {
            s.now += dt;
            for q in s.pairs.values_mut() {
                if *q == Pair::fresh(q.last_update) {
                    q.last_update = s.now;
                }
            }
            let (r, _, out) = self.predict(&mut s, op)?;
            if let Err(e) = r {
                return Some((Err(e), out));
            }
            last = out;
        }
        Some((Ok(()), last))
    }

    fn accs(&self) -> Vec<ComponentAddress> {
        self.rig.accounts.iter().map(|x| x.0).collect()
    }
    fn some_acc(&mut self) -> ComponentAddress {
        let l = self.accs();
        self.rng.pick(&l)
    }
    fn holder(&mut self) -> Option<(ComponentAddress, Id)> {
        let l: Vec<_> = self
            .state
            .accounts
            .iter()
            .flat_map(|(a, x)| x.positions.keys().map(|p| (*a, p.clone())).collect::<Vec<_>>())
            .collect();
        if l.is_empty() {
            None
        } else {
            Some(self.rng.pick(&l))
        }
    }
    fn equity(&self, a: ComponentAddress) -> f64 {
        let acc = &self.state.accounts[&a];
        let mut x = to_f64(acc.vb);
        for (r, d) in &acc.coll {
            if let Some(c) = self.state.coll_cfg.get(r) {
                x += to_f64(*d) * to_f64(self.price[&c.pair_id]);
            }
        }
        for (p, pos) in &acc.positions {
            x += to_f64(pos.amount) * to_f64(self.price[p]) - to_f64(pos.cost);
        }
        x
    }
    fn oath(&mut self) -> Option<D> {
        let p = if self.prop == "P24" { 60 } else { 8 };
        if self.rng.percent(p) {
            let hi = if self.rng.percent(20) { 0.13 } else { 0.05 };
            Some(self.rng.dec(0.0001, hi))
        } else {
            None
        }
    }

    fn an_order(&mut self, a: ComponentAddress) -> Order {
        let mut pair = self.rng.pick(&self.pairs.clone());
        let held: Vec<Id> = self.state.accounts[&a].positions.keys().cloned().collect();
        if !held.is_empty() && self.rng.percent(50) {
            pair = self.rng.pick(&held);
        }
        if self.rng.percent(1) {
            pair = "NONE/USD".to_string();
        }
        let price = self.price.get(&pair).map_or(1.0, |d| to_f64(*d));
        let pos = self.state.accounts[&a].positions.get(&pair).map(|p| p.amount);
        let equity = self.equity(a).max(10.0);
        let margin = self.state.pair_cfg.get(&pair).map_or(0.1, |c| to_f64(c.margin_initial)).max(0.001);
        let lev = if self.rng.percent(80) { (1.0 / margin) * self.rng.unit() * 0.6 } else { 1.3 / margin };
        let size = equity * lev.min(40.0) / price;
        let mut amount = self.rng.dec(size * 0.05, size);
        if self.rng.percent(50) {
            amount = -amount;
        }
        if let Some(h) = pos {
            match self.rng.below(10) {
                0 | 1 => amount = -h,
                2 | 3 => amount = -(h * self.rng.dec(0.05, 0.95)),
                4 => amount = -(h * self.rng.dec(1.01, 2.5)),
                5 => amount = -(h + h * dec!("0.000000001")),
                6 if self.rng.percent(40) => {
                    // All but a trace.
                    let left = self.rng.pick(&[ATTO, dec!("0.0000000001"), dec!("0.0000003"), dec!("0.00001")]);
                    if abs(h) > left {
                        amount = if h > D::ZERO { left - h } else { -left - h };
                    }
                }
                _ => {}
            }
        }
        // Both sides of the pair made equal.
        if self.rng.percent(if self.prop == "P03" { 15 } else { 4 }) {
            if let Some(q) = self.state.pairs.get(&pair) {
                let skew = q.oi_long - q.oi_short;
                if skew != D::ZERO && q.oi_long.max(q.oi_short) > abs(skew) {
                    amount = -skew;
                }
            }
        }
        let mut o = Order::market(&pair, amount);
        o.reduce_only = self.rng.percent(if pos.is_some() { 25 } else { 6 });
        if self.rng.percent(25) {
            let p = self.price.get(&pair).copied().unwrap_or(D::ONE);
            let l = match self.rng.below(5) {
                0 | 1 => p,
                2 => p * dec!("1.0005"),
                3 => p * dec!("0.9995"),
                _ => p * self.rng.dec(0.8, 1.2),
            };
            o.price_limit = if self.rng.percent(50) { PriceLimit::Gte(l) } else { PriceLimit::Lte(l) };
        }
        if self.rng.percent(20) {
            o.slippage_limit = if self.rng.percent(50) {
                SlippageLimit::Percent(self.rng.dec(0.0, 1.5))
            } else {
                SlippageLimit::Absolute(self.rng.dec(0.0, size * price * 0.01))
            };
        }
        o
    }

    fn an_order_with_links(&mut self, a: ComponentAddress) -> Order {
        let mut o = self.an_order(a);
        let n = self.state.accounts[&a].reqs.len() as i64;
        let more = if self.prop == "P33" || self.rng.percent(4) { 3 } else { 2 };
        for list in 0..2 {
            for _ in 0..self.rng.int(0, more) {
                let r = match self.rng.below(8) {
                    0 => RequestIndexRef::Index(self.rng.int(0, n + 2) as u64),
                    1 => RequestIndexRef::RelativeIndex(self.rng.int(-3, 3)),
                    2 | 3 | 4 => RequestIndexRef::RelativeIndex(-self.rng.int(1, n.clamp(1, 5))),
                    _ => RequestIndexRef::Index(self.rng.int(0, (n - 1).max(0)) as u64),
                };
                if list == 0 {
                    o.activate.push(r)
                } else {
                    o.cancel.push(r)
                }
            }
        }
        // A request named by both lists.
        if self.rng.percent(if matches!(self.prop.as_str(), "P11" | "P12") { 8 } else { 2 }) && o.cancel.len() < 2 {
            if let Some(r) = o.activate.first().cloned() {
                o.cancel.push(r);
            }
        }
        // An order that names itself.
        if self.rng.percent(if matches!(self.prop.as_str(), "P10" | "P11" | "P12") { 8 } else { 2 }) {
            let r = if self.rng.percent(50) { RequestIndexRef::RelativeIndex(0) } else { RequestIndexRef::Index(n as u64) };
            let list = if self.rng.percent(25) { &mut o.activate } else { &mut o.cancel };
            if list.len() < 2 {
                list.push(r);
            }
        }
        o
    }

    fn window(&mut self, o: &mut Order) {
        if self.rng.percent(30) {
            o.delay = self.rng.int(0, 20) as u64;
        } else if self.rng.percent(4) {
            o.delay = self.rng.pick(&[61, 120, 301, 3_601, 90_000]);
        }
        if self.rng.percent(3) {
            o.expiry = self.rng.pick(&[61, 3_601, 86_401, 700_000, 40_000_000]);
        }
        if self.rng.percent(35) {
            o.expiry = self.rng.int(0, 40) as u64;
        }
        if self.rng.percent(1) {
            o.delay = self.rng.pick(&[u64::MAX, 1 << 63, (1 << 63) - 1, i64::MAX as u64 - 10]);
        }
        if self.rng.percent(1) {
            o.expiry = self.rng.pick(&[u64::MAX, 1 << 63, (1 << 63) - 1, i64::MAX as u64 - 10]);
        }
        if self.rng.percent(25) {
            o.status = self.rng.weighted(&[(0u8, 8), (2, 1), (3, 1), (4, 1), (5, 1), (255, 1)]);
        }
    }

    fn process_last(&mut self, a: ComponentAddress) -> bool {
        let n = self.state.accounts[&a].reqs.len() as u64;
        self.process_at(a, n - 1)
    }
    fn process_at(&mut self, a: ComponentAddress, index: u64) -> bool {
        let prices = self.supply();
        self.step(Op::Process { acc: a, index, prices })
    }

    fn create(&mut self) -> bool {
        let most = if matches!(self.prop.as_str(), "P21" | "P22") { 9 } else { 6 };
        if self.rig.accounts.len() >= most {
            return false;
        }
        let owner = self.rng.below(self.rig.owners.len());
        let a = self.rig.w.a.clone();
        let mut tokens = vec![];
        if self.rng.percent(85) {
            tokens.push((a.base, self.rng.log(100.0, 60_000.0)));
        }
        for i in 0..3 {
            if self.rng.percent(25) {
                tokens.push(self.some_tokens(i));
            }
        }
        if self.rng.percent(3) {
            tokens.push((a.junk, dec!(5)));
        }
        let codes: Vec<String> = self.rig.codes.iter().cloned().collect();
        let code = if !codes.is_empty() && self.rng.percent(60) {
            let code = self.rng.pick(&codes);
            // Now and then not quite as it was given out.
            Some(match self.rng.below(25) {
                0 => code.trim().to_lowercase(),
                1 => format!("{code} "),
                _ => code,
            })
        } else if self.rng.percent(3) {
            Some("unknown".to_string())
        } else {
            None
        };
        let oath = self.oath();
        self.step(Op::Create { owner, tokens, code, oath })
    }

    fn some_tokens(&mut self, i: usize) -> (ResourceAddress, D) {
        let r = self.rig.w.a.tokens[i];
        let feed = self.state.coll_cfg.get(&r).map(|c| c.pair_id.clone()).unwrap_or("USDC/USD".into());
        let price = to_f64(self.price[&feed]);
        let d = self.rng.dec(20.0 / price, 20_000.0 / price);
        let d = if self.rng.percent(30) { significant(d, 2) } else { d };
        let d = floor_to(d, [8, 18, 6][i]);
        (r, if d.is_zero() { dec!(1) } else { d })
    }

    fn claims(&mut self, k: usize, base_only: bool) -> Vec<(ResourceAddress, D)> {
        let a = self.rig.w.a.clone();
        let mut v = vec![];
        if self.rng.percent(70) {
            v.push((a.base, self.rng.dec(1.0, 100.0)));
        }
        if !base_only && self.rng.percent(60) {
            let (r, d) = self.some_tokens(k);
            // Claims may be finer than the token.
            let d = if self.rng.percent(40) { d + dec!("0.000000000000000123") } else { d };
            v.push((r, d));
        }
        // The same token may be claimed twice; nothing may be claimed of nothing.
        if !v.is_empty() && self.rng.percent(15) {
            let again = (self.rng.pick(&v).0, self.rng.dec(0.01, 10.0));
            v.insert(0, again);
        }
        if !v.is_empty() && self.rng.percent(3) {
            let i = self.rng.below(v.len());
            v[i].1 = self.rng.pick(&[D::ZERO, -ATTO, dec!(-1)]);
        }
        v
    }
    fn payment(&mut self, claims: &[(ResourceAddress, D)], n: u64) -> Vec<(ResourceAddress, D)> {
        let a = self.rig.w.a.clone();
        let mut need: Map<ResourceAddress, D> = Map::new();
        for (r, d) in claims {
            *need.entry(*r).or_insert(D::ZERO) += *d * D::from(n);
        }
        let extra = self.rng.below(4);
        let mut v = vec![];
        for (r, d) in need {
            let div = self.state.divisibility.get(&r).copied().unwrap_or(18);
            let d = ceil_to(d, div);
            let d = match extra {
                0 => d + dec!(1),
                1 if self.rng.percent(40) => floor_to(d * dec!("0.9"), div),
                _ => d,
            };
            if d > D::ZERO {
                let part = floor_to(d * dec!("0.4"), div);
                if part > D::ZERO && self.rng.percent(12) {
                    v.push((r, part));
                    v.push((r, d - part));
                } else {
                    v.push((r, d));
                }
            }
        }
        if self.rng.percent(10) {
            v.push((if self.rng.percent(30) { a.junk } else { a.tokens[self.rng.below(3)] }, dec!(3)));
        }
        v
    }

    /// Uses a code that can be used several times, until it cannot any more.
    fn exhaust(&mut self) {
        let room = 14u64.saturating_sub(self.rig.accounts.len() as u64);
        let fits = |c: &Code| c.max > 1 && c.count < c.max && c.max - c.count < room;
        let l: Vec<String> = self.state.codes.iter().filter(|(_, c)| fits(c)).map(|x| x.0.clone()).collect();
        if l.is_empty() {
            return;
        }
        let name = self.rng.pick(&l);
        let left = self.state.codes[&name].max - self.state.codes[&name].count;
        for _ in 0..left + 1 {
            let owner = self.rng.below(self.rig.owners.len());
            let tokens = if self.rng.percent(30) { vec![(self.rig.w.a.base, dec!(10))] } else { vec![] };
            self.step(Op::Create { owner, tokens, code: Some(name.clone()), oath: None });
        }
    }

    fn codes(&mut self) {
        if matches!(self.prop.as_str(), "P21" | "P22") && self.rng.percent(8) {
            return self.exhaust();
        }
        let referral = self.rng.below(self.rig.badges.len());
        let k = self.rng.below(3);
        let base_only = self.rng.percent(40);
        let stamp = format!("{}-{}", self.episode, self.steps);
        match self.rng.below(4) {
            0 | 1 => {
                let mut codes = vec![];
                for i in 0..self.rng.int(1, 3) {
                    let reuse: Vec<String> = self.rig.codes.iter().cloned().collect();
                    let name = if !reuse.is_empty() && self.rng.percent(10) {
                        self.rng.pick(&reuse)
                    } else {
                        match self.rng.below(12) {
                            0 => format!(" code-{stamp}-{i} "),
                            1 => format!("Code-{stamp}-{i}\u{e9}\n"),
                            _ => format!("code-{stamp}-{i}"),
                        }
                    };
                    if self.rng.percent(50) {
                        let uses = if self.rng.percent(85) { self.rng.int(0, 4) } else { self.rng.int(5, 9) };
                        codes.push((name, vec![], uses as u64));
                    } else {
                        let mut claims = self.claims(k, base_only);
                        let uses = if self.rng.percent(90) { 1 } else { self.rng.weighted(&[(2, 4), (0, 2), (3, 1)]) };
                        if uses != 1 && self.rng.percent(40) {
                            let little = self.rng.pick(&[ATTO, dec!("0.000000001"), dec!("0.0001")]);
                            claims.iter_mut().for_each(|c| c.1 = little);
                        }
                        codes.push((name, claims, uses));
                    }
                }
                let mut seen = Set::new();
                codes.retain(|c| seen.insert(c.0.clone()));
                let claims: Vec<_> = codes.iter().flat_map(|c| c.1.clone()).collect();
                let tokens = self.payment(&claims, 1);
                self.step(Op::CreateCodes { referral, tokens, codes });
            }
            2 => {
                let claims = self.claims(k, base_only);
                let count = self.rng.int(0, 4) as u64;
                let tokens = self.payment(&claims, count);
                self.step(Op::AddAllocation { referral, tokens, claims, count });
            }
            _ => {
                // Mostly an allocation that has something left.
                let mut open = vec![];
                for (i, id) in self.rig.badges.clone().iter().enumerate() {
                    for (j, al) in self.state.allocations.get(id).into_iter().flatten().enumerate() {
                        if al.count < al.max {
                            open.push((i, j as u64, (al.max - al.count) as i64));
                        }
                    }
                }
                let (referral, index, left) = if open.is_empty() || self.rng.percent(15) {
                    let id = self.rig.badges[referral].clone();
                    let n = self.state.allocations.get(&id).map_or(0, |l| l.len()) as i64;
                    (referral, self.rng.int(0, n) as u64, 1)
                } else {
                    self.rng.pick(&open)
                };
                // Or one that is far out of range, though a shorter number would not be.
                let index = if self.rng.percent(5) {
                    index.wrapping_add(self.rng.pick(&[1 << 8, 1 << 16, 1 << 32, 1 << 63, u64::MAX]))
                } else {
                    index
                };
                let k = match self.rng.below(12) {
                    0..=2 => left + 1,
                    3..=5 => left,
                    6 => 0,
                    _ => self.rng.int(1, 3),
                };
                let reuse: Vec<String> = self.rig.codes.iter().cloned().collect();
                let codes = (0..k.min(8))
                    .map(|i| {
                        if !reuse.is_empty() && self.rng.percent(4) {
                            self.rng.pick(&reuse)
                        } else {
                            format!("alloc-{stamp}-{i}")
                        }
                    })
                    .collect();
                self.step(Op::CodesFromAllocation { referral, index, codes });
            }
        }
    }

    /// The largest value, found by bisection with the model, for which `ok` holds.
    fn edge(&self, lo: D, hi: D, ok: &dyn Fn(D) -> Option<bool>) -> Option<(D, D)> {
        if !ok(lo)? || ok(hi)? {
            return None;
        }
        let (mut lo, mut hi) = (lo, hi);
        for _ in 0..60 {
            let mid = (lo + hi) / dec!(2);
            if mid == lo || mid == hi {
                break;
            }
            if ok(mid)? {
                lo = mid
            } else {
                hi = mid
            }
        }
        Some((lo, hi))
    }

    fn beside(&mut self, lo: D, hi: D) -> D {
        let e = self.rng.pick(&[dec!("0.0000001"), dec!("0.00001"), dec!("0.001"), dec!("0.02")]);
        match self.rng.below(5) {
            0 => lo,
            1 => hi,
            2 | 3 => lo - lo * e,
            _ => hi + hi * e,
        }
    }

    // The acts.

    pub fn act(&mut self, k: Kind) {
        let a = self.rig.w.a.clone();
        match k {
            Trade => {
                let acc = self.some_acc();
                let o = if self.rng.percent(15) { self.an_order_with_links(acc) } else { self.an_order(acc) };
                let oath = self.oath();
                if self.step(Op::Order { acc, order: o, oath }) {
                    let dt = self.rng.weighted(&[(1i64, 8), (0, 1), (2, 2), (5, 1)]);
                    self.wait(dt);
                    if self.rng.percent(30) {
                        self.drift();
                    }
                    self.process_last(acc);
                }
            }
            OrderOnly => {
                let acc = self.some_acc();
                let mut o = if self.rng.percent(30) { self.an_order_with_links(acc) } else { self.an_order(acc) };
                self.window(&mut o);
                let oath = self.oath();
                self.step(Op::Order { acc, order: o, oath });
            }
            ProcessAny => {
                let acc = self.some_acc();
                let x = &self.state.accounts[&acc];
                let n = x.reqs.len() as i64;
                let active: Vec<u64> = x.active.iter().copied().collect();
                let index = if !active.is_empty() && self.rng.percent(75) {
                    self.rng.pick(&active)
                } else {
                    self.rng.int(0, n) as u64
                };
                if self.rng.percent(70) {
                    let dt = self.rng.int(0, 3);
                    self.wait(dt);
                }
                if self.process_at(acc, index) && self.rng.percent(40) {
                    self.process_at(acc, index);
                }
            }
            Bracket => {
                let acc = self.some_acc();
                let mut o = self.an_order(acc);
                o.reduce_only = self.rng.percent(8);
                if self.rng.percent(70) {
                    o.price_limit = PriceLimit::None;
                }
                let p = self.price.get(&o.pair).copied().unwrap_or(D::ONE);
                let (up, down) = (p * self.rng.dec(1.0001, 1.05), p * self.rng.dec(0.95, 0.9999));
                let (tp, sl) = if o.amount > D::ZERO { (up, down) } else { (down, up) };
                let tp = if self.rng.percent(3) { sl } else { tp };
                let tp = if self.rng.percent(80) { Some(tp) } else { None };
                let sl = if self.rng.percent(80) { Some(sl) } else { None };
                if self.rng.percent(20) {
                    o.expiry = self.rng.int(1, 60) as u64;
                    o.delay = self.rng.int(0, 5) as u64;
                } else if self.rng.percent(8) {
                    o.expiry = self.rng.pick(&[61, 90, 3_601, 40_000_000]);
                    o.delay = self.rng.pick(&[0, 30, 61, 120, 3_601]);
                }
                let oath = self.oath();
                let pair = o.pair.clone();
                if self.step(Op::TpSl { acc, order: o, tp, sl, oath }) {
                    let n = 1 + tp.is_some() as u64 + sl.is_some() as u64;
                    let first = self.state.accounts[&acc].reqs.len() as u64 - n;
                    self.wait(1);
                    if self.rng.percent(15) {
                        // Too early for the exits.
                        self.process_at(acc, first + n - 1);
                    }
                    if self.rng.percent(85) {
                        self.process_at(acc, first);
                        if self.rng.percent(60) {
                            let by = (self.rng.unit() - 0.5) * 0.15;
                            if self.price.contains_key(&pair) {
                                self.move_price(&pair, by);
                            }
                            self.wait(1);
                            for i in 1..n {
                                self.process_at(acc, first + i);
                            }
                        }
                    }
                }
            }
            Linked => {
                let acc = self.some_acc();
                let mut o = self.an_order(acc);
                o.status = self.rng.pick(&[0u8, 1]);
                let first = self.state.accounts[&acc].reqs.len() as u64;
                self.step(Op::Order { acc, order: o, oath: None });
                let mut o = self.an_order_with_links(acc);
                o.price_limit = PriceLimit::None;
                if self.step(Op::Order { acc, order: o, oath: None }) {
                    self.wait(1);
                    if self.process_last(acc) {
                        self.process_at(acc, first);
                    }
                }
            }
            Cancel => {
                let acc = self.some_acc();
                let x = &self.state.accounts[&acc];
                let active: Vec<u64> = x.active.iter().copied().collect();
                let stale: Vec<u64> = (0..x.start).filter(|i| x.reqs[*i as usize].status <= ACTIVE).collect();
                let n = x.reqs.len() as i64;
                let mut indexes = vec![];
                for _ in 0..self.rng.pick(&[0, 1, 1, 1, 1, 1, 2, 2, 2, 3, 3, 5]) {
                    indexes.push(if !active.is_empty() && self.rng.percent(80) {
                        self.rng.pick(&active)
                    } else if !stale.is_empty() && self.rng.percent(60) {
                        self.rng.pick(&stale)
                    } else {
                        self.rng.int(0, n) as u64
                    });
                }
                if self.rng.percent(90) {
                    indexes.sort();
                    indexes.dedup();
                }
                let oath = self.oath();
                self.step(Op::Cancel { acc, indexes, oath });
            }
            Withdraw => {
                let acc = self.some_acc();
                let claims = self.some_claims(acc);
                self.withdraw(acc, claims);
            }
            WithdrawEdge => {
                let mut acc = self.some_acc();
                // Sometimes with a lot of funding that is owed but not settled.
                if self.rng.percent(25) {
                    if let Some((a, _)) = self.holder() {
                        acc = a;
                        let pairs: Vec<Id> = self.state.accounts[&a].positions.keys().cloned().collect();
                        let dt = self.rng.int(3600, 60 * DAY);
                        self.wait(dt);
                        let prices = Some(self.fresh());
                        self.step(Op::Update { pairs, prices });
                    }
                }
                let x = self.state.accounts[&acc].clone();
                let mut kinds: Vec<ResourceAddress> = x.coll.keys().copied().collect();
                if x.vb > D::ZERO {
                    kinds.push(a.base);
                }
                if kinds.is_empty() {
                    return;
                }
                let r = self.rng.pick(&kinds);
                let have = if r == a.base { x.vb } else { x.coll[&r] };
                let m = self.msg_at(self.state.now + 1);
                let target = self.rig.targets[0];
                let index = x.reqs.len() as u64;
                // Together with a part of everything else, now and then.
                let mut others = vec![];
                if self.rng.percent(30) {
                    for (k, v) in x.coll.iter().filter(|k| *k.0 != r) {
                        others.push((*k, *v * self.rng.dec(0.02, 0.6)));
                    }
                }
                let claims = |d: D| {
                    let mut l = others.clone();
                    l.push((r, d));
                    l
                };
                let e = self.edge(ATTO, have * dec!("1.5") + D::ONE, &|d| {
                    let ops = [
                        (
                            0,
                            Op::Remove { acc, expiry: 100, target, claims: claims(d), oath: None },
                        ),
                        (1, Op::Process { acc, index, prices: Some(m.clone()) }),
                    ];
                    Some(self.probe(&ops)?.0.is_ok())
                });
                let Some((lo, hi)) = e else { return };
                let d = self.beside(lo, hi);
                self.withdraw(acc, claims(d));
            }
            Deposit => {
                let acc = self.some_acc();
                let mut tokens = vec![];
                if self.rng.percent(45) {
                    tokens.push((a.base, self.rng.log(1.0, 20_000.0)));
                }
                if self.rng.percent(15) {
                    let dust = self.rng.log(1e-18, 1.0);
                    tokens.push((a.base, if dust.is_zero() { ATTO } else { dust }));
                }
                for i in 0..3 {
                    if self.rng.percent(35) {
                        tokens.push(self.some_tokens(i));
                        if self.rng.percent(10) {
                            tokens.push(self.some_tokens(i));
                        }
                    } else if self.rng.percent(6) {
                        tokens.push((a.tokens[i], [dec!("0.00000001"), ATTO, dec!("0.000001")][i]));
                    }
                }
                if tokens.len() > 1 && self.rng.percent(50) {
                    let i = self.rng.below(tokens.len());
                    tokens.swap(0, i);
                }
                if self.rng.percent(5) {
                    tokens.push((self.rng.pick(&[a.junk, a.lp, a.protocol]), dec!("0.5")));
                }
                let oath = self.oath();
                self.step(Op::Add { acc, tokens, oath });
            }
            Create => {
                self.create();
            }
            MoveMarket => {
                let p = self.rng.pick(&self.rig.feeds.clone());
                let size = self.rng.pick(&[0.01, 0.05, 0.2, 0.5]);
                let by = (self.rng.unit() * 2.0 - 1.0) * size;
                self.move_price(&p, by);
                if self.rng.percent(40) {
                    self.wait(1);
                    let m = self.fresh();
                    self.step(Op::Push(m));
                }
            }
            Wait => {
                let dt = match self.rng.below(6) {
                    0 => self.rng.int(1, 10),
                    1 => self.rng.int(10, 3600),
                    2 | 3 => self.rng.int(3600, DAY),
                    4 => self.rng.int(DAY, 20 * DAY),
                    _ => self.rng.int(20 * DAY, 400 * DAY),
                };
                self.wait(dt);
                self.drift();
            }
            Liquidate => {
                let acc = self.some_acc();
                if let Some((_, p)) = self.holder() {
                    let by = (self.rng.unit() * 2.0 - 1.0) * 0.2;
                    self.move_price(&p, by);
                }
                self.wait(1);
                let prices = self.supply();
                let pay = (if self.rng.percent(96) { a.base } else { a.tokens[2] }, self.rng.dec(0.0, 60_000.0));
                self.step(Op::Liquidate { acc, pay, prices });
            }
            LiquidateEdge => self.liquidate_edge(),
            Deleverage => {
                let Some((acc, pair)) = self.holder() else { return };
                // Fortunes: several times what was paid.
                if self.rng.percent(20) {
                    let held = self.state.accounts[&acc].positions[&pair].amount;
                    let by = if held > D::ZERO { self.rng.unit() * 2.5 } else { -self.rng.unit() * 0.9 };
                    self.move_price(&pair, by);
                    if self.rng.percent(50) {
                        let dt = self.rng.int(10, 20 * DAY);
                        self.wait(dt);
                    }
                    let prices = Some(self.fresh());
                    self.step(Op::Update { pairs: vec![pair.clone()], prices });
                }
                if self.rng.percent(60) {
                    self.tighten();
                }
                // One that may hold nothing of the pair.
                let acc = if self.rng.percent(6) { self.some_acc() } else { acc };
                self.wait(1);
                let prices = self.supply();
                let pair = if self.rng.percent(6) { self.rng.pick(&self.pairs.clone()) } else { pair };
                self.step(Op::Adl { acc, pair, prices });
            }
            DeleverageEdge => self.deleverage_edge(),
            SwapDebt => self.swap_debt(),
            AddLiquidity => {
                if self.rng.percent(30) {
                    self.wait(1);
                    let pairs = self.pairs.clone();
                    let prices = Some(self.fresh());
                    self.step(Op::Update { pairs, prices });
                }
                let r = if self.rng.percent(95) { a.base } else { self.rng.pick(&[a.tokens[1], a.junk, a.lp]) };
                let d = if self.rng.percent(5) { ATTO } else { self.rng.log(0.001, 500_000.0) };
                let d = if r == a.base { d } else { dec!("0.001") };
                self.step(Op::AddLiq { pay: (r, d) });
            }
            RemoveLiquidity => {
                let have = self.rig.w.sim.balance(self.rig.w.bank.account, a.lp);
                let d = match self.rng.below(8) {
                    0 => have,
                    1 => ATTO,
                    2 => have - ATTO,
                    _ => have * self.rng.dec(0.001, 0.6),
                };
                let pay = if self.rng.percent(95) { (a.lp, d) } else { (self.rng.pick(&[a.base, a.junk]), dec!(1)) };
                self.step(Op::RemLiq { pay });
            }
            LiquidityCycle => {
                let lp0 = self.rig.w.sim.balance(self.rig.w.bank.account, a.lp);
                let d = if self.rng.percent(30) { ATTO * D::from(self.rng.int(1, 5000)) } else { self.rng.log(0.001, 200_000.0) };
                let before = self.rig.w.sim.balance(self.rig.w.bank.account, a.base);
                let shares = self.state.lp_supply;
                if self.step(Op::AddLiq { pay: (a.base, d) }) {
                    let got = self.rig.w.sim.balance(self.rig.w.bank.account, a.lp) - lp0;
                    if got > D::ZERO {
                        let whole = self.rng.percent(60);
                        if whole {
                            self.step(Op::RemLiq { pay: (a.lp, got) });
                        } else {
                            let part = floor_to(got * self.rng.dec(0.1, 0.9), 18);
                            if part > D::ZERO {
                                self.step(Op::RemLiq { pay: (a.lp, part) });
                            }
                            let rest = self.rig.w.sim.balance(self.rig.w.bank.account, a.lp) - lp0;
                            if rest > D::ZERO {
                                self.step(Op::RemLiq { pay: (a.lp, rest) });
                            }
                        }
                        let after = self.rig.w.sim.balance(self.rig.w.bank.account, a.base);
                        self.mon.note("liquidity cycle");
                        // Without any shares left, what the pool still holds has no owner: the
                        // next share is issued at the price of one.
                        if after > before && shares > D::ZERO {
                            self.blame(
                                vec!["P04"],
                                format!("putting in {d} and taking it out again yields a gain of {}", after - before),
                            );
                        }
                    }
                }
            }
            UpdatePairs => {
                if self.rng.percent(60) {
                    let p = self.rng.pick(&self.pairs.clone());
                    if self.rng.percent(50) {
                        // Just at the ratio that is rewarded.
                        let q = &self.state.pairs[&p];
                        let c = self.state.pair_cfg[&p].update_price_delta_ratio;
                        let e = self.rng.pick(&[D::ZERO, dec!("0.00000001"), dec!("-0.00000001")]);
                        let s = if self.rng.percent(50) { D::ONE } else { -D::ONE };
                        let d = q.last_price * (D::ONE + s * (c + e));
                        if d > D::ZERO && d != D::ONE {
                            self.price.insert(p, d);
                        }
                    } else {
                        let by = (self.rng.unit() * 2.0 - 1.0) * 0.06;
                        self.move_price(&p, by);
                    }
                }
                if self.rng.percent(40) {
                    // Just at the age that is rewarded.
                    let p = self.rng.pick(&self.pairs.clone());
                    let due = self.state.pairs[&p].last_update + self.state.pair_cfg[&p].update_period_seconds;
                    let dt = due - self.state.now + self.rng.int(-1, 1);
                    self.wait(dt);
                } else {
                    let dt = self.rng.int(0, 100);
                    self.wait(dt);
                }
                let mut pairs: Vec<Id> = self.pairs.clone().into_iter().filter(|_| self.rng.percent(65)).collect();
                if !pairs.is_empty() && self.rng.percent(10) {
                    pairs.push(pairs[0].clone());
                }
                if self.rng.percent(2) {
                    pairs.push("NONE/USD".into());
                }
                let prices = self.supply();
                self.step(Op::Update { pairs, prices });
            }
            Push => {
                let n = self.rng.int(1, 4);
                let mut m = PriceMsg { prices: vec![], authentic: !self.rng.percent(15) };
                for _ in 0..n {
                    let p = self.rng.pick(&self.rig.feeds.clone());
                    let t0 = self.state.oracle.get(&p).map_or(self.state.now, |x| x.1);
                    let t = match self.rng.below(6) {
                        0 => t0,
                        1 => t0 - self.rng.int(1, 100),
                        2 => t0 + 1,
                        3 => self.state.now + self.rng.int(0, 3),
                        _ => self.state.now,
                    };
                    let d = self.price[&p] * self.rng.dec(0.9, 1.1);
                    m.prices.push((p, d, t));
                }
                self.step(Op::Push(m));
                let dt = self.rng.int(0, 2);
                self.wait(dt);
            }
            SwapProtocol => {
                let burn = self.state.ex.protocol_burn_amount;
                let d = match self.rng.below(6) {
                    0 => burn,
                    1 => burn - ATTO,
                    2 => burn * dec!("0.5"),
                    3 => burn + self.rng.pick(&[ATTO, dec!("0.001"), dec!("0.4"), dec!(1)]),
                    _ => burn + self.rng.dec(0.0, 2000.0),
                };
                let r = if self.rng.percent(93) { a.protocol } else { self.rng.pick(&[a.base, a.junk]) };
                self.step(Op::SwapProtocol { pay: (r, d) });
            }
            Collect => {
                self.step(Op::CollectTreasury);
                if self.rng.percent(50) {
                    self.step(Op::CollectDelegator);
                }
                if self.rng.percent(30) {
                    self.step(Op::CollectTreasury);
                }
            }
            CollectReferral => {
                let referral = self.rng.below(self.rig.badges.len());
                self.step(Op::CollectReferral { referral });
            }
            Referral if self.rig.badges.len() < 6 && self.rng.percent(35) => {
                let rate = |ep: &mut Self| match ep.rng.below(12) {
                    0 => D::ZERO,
                    1 | 2 => dec!("0.1"),
                    3 => dec!("0.1") + ATTO,
                    4 => -ATTO,
                    5 => ep.rng.dec(0.1, 1.1),
                    _ => ep.rng.dec(0.0, 0.1),
                };
                let share = rate(self);
                let rebate = rate(self);
                let max = self.rng.pick(&[0, 1, 3, 1000, u64::MAX]);
                let allocation = if self.rng.percent(50) {
                    let k = self.rng.below(3);
                    let base_only = self.rng.percent(40);
                    let claims = self.claims(k, base_only);
                    let count = self.rng.int(0, 4) as u64;
                    let tokens = self.payment(&claims, count);
                    Some(Funding { tokens, claims, count })
                } else {
                    None
                };
                self.step(Op::MintReferral { share, rebate, max, allocation });
            }
            Referral => {
                let referral = self.rng.below(self.rig.badges.len());
                let rate = |ep: &mut Self| match ep.rng.below(8) {
                    0 => None,
                    1 => Some(D::ZERO),
                    2 => Some(dec!("0.1")),
                    3 => Some(dec!("0.1") + ATTO),
                    4 => Some(-ATTO),
                    _ => Some(ep.rng.dec(0.0, 0.1)),
                };
                let share = rate(self);
                let rebate = rate(self);
                let max = if self.rng.percent(40) { Some(self.rng.int(0, 40) as u64) } else { None };
                self.step(Op::UpdateReferral { referral, share, rebate, max });
            }
            Codes => self.codes(),
            ConfigExchange => {
                let mut c = self.exchange_config();
                if self.rng.percent(55) {
                    distort_exchange(&mut self.rng, &mut c);
                }
                self.step(Op::SetExchange(c));
            }
            ConfigPair => {
                let n = self.rng.int(1, 2);
                let mut cs = vec![];
                for _ in 0..n {
                    let p = self.rng.pick(&self.pairs.clone());
                    let mut c = self.pair_config(&p);
                    if self.rng.percent(50) {
                        distort_pair(&mut self.rng, &mut c);
                    }
                    cs.push(c);
                }
                self.step(Op::SetPairs(cs));
            }
            ConfigCollateral => {
                let mut cs = vec![];
                for _ in 0..self.rng.weighted(&[(1, 5), (2, 3), (3, 2)]) {
                    let i = self.rng.below(3);
                    let mut c = self.collateral_config(i);
                    if self.rng.percent(if cs.is_empty() { 45 } else { 30 }) {
                        distort_collateral(&mut self.rng, &mut c);
                    }
                    cs.push((self.rig.w.a.tokens[i], c));
                }
                self.step(Op::SetCollateral(cs));
            }
            DropCollateral => {
                let i = self.rng.below(3);
                let r = self.rig.w.a.tokens[i];
                self.step(Op::DropCollateral(r));
                if self.rng.percent(60) {
                    for _ in 0..2 {
                        let k = self.rng.pick(&[Withdraw, Trade, Deposit, Liquidate]);
                        self.act(k);
                    }
                    let c = self.collateral_config(i);
                    self.step(Op::SetCollateral(vec![(r, c)]));
                }
            }
            OrderEdge => self.order_edge(),
            SlippageEdge => {
                let mut acc = self.some_acc();
                let mut o = self.an_order(acc);
                o.slippage_limit = SlippageLimit::None;
                o.price_limit = PriceLimit::None;
                // Sometimes a reduction, often of more than there is.
                if self.rng.percent(35) {
                    if let Some((a, p)) = self.holder() {
                        let held = self.state.accounts[&a].positions[&p].amount;
                        acc = a;
                        o = Order::market(&p, -(held * self.rng.dec(0.3, 3.0)));
                        o.reduce_only = self.rng.percent(85);
                    }
                }
                if !self.price.contains_key(&o.pair) {
                    return;
                }
                let m = self.msg_at(self.state.now + 1);
                let index = self.state.accounts[&acc].reqs.len() as u64;
                let ops = [
                    (0, Op::Order { acc, order: o.clone(), oath: None }),
                    (1, Op::Process { acc, index, prices: Some(m.clone()) }),
                ];
                let Some((Ok(()), out)) = self.probe(&ops) else { return };
                let Some((fee, value)) = out.events.iter().find_map(|e| match e {
                    Ev::Order { fees, close, open, price, .. } => {
                        let f = fees.iter().fold(D::ZERO, |s, x| s - *x);
                        let v = (*close + *open) * *price;
                        Some((f, if v.is_negative() { -v } else { v }))
                    }
                    _ => None,
                }) else {
                    return;
                };
                if value.is_zero() {
                    return;
                }
                let e = self.rng.pick(&[dec!("0.000001"), dec!("-0.000001"), dec!("0.01"), dec!("-0.01"), D::ZERO]);
                let limit = fee + fee * e + e * dec!("0.01");
                o.slippage_limit = if self.rng.percent(50) {
                    SlippageLimit::Absolute(limit)
                } else {
                    SlippageLimit::Percent(limit / value * dec!(100))
                };
                if self.step(Op::Order { acc, order: o, oath: None }) {
                    self.wait(1);
                    self.step(Op::Process { acc, index, prices: Some(m) });
                }
            }
            LimitEdge => {
                let acc = self.some_acc();
                match self.rng.below(5) {
                    0 => {
                        let mut o = self.an_order(acc);
                        if let Some(c) = self.state.pair_cfg.get(&o.pair) {
                            let m = c.trade_size_min;
                            o.amount = self.rng.pick(&[m, -m, m - ATTO, ATTO - m, m + ATTO]);
                            if o.amount.is_zero() && self.rng.percent(80) {
                                return;
                            }
                            if self.step(Op::Order { acc, order: o, oath: None }) && self.rng.percent(40) {
                                self.wait(1);
                                self.process_last(acc);
                            }
                        }
                    }
                    1 => {
                        let n = self.rng.int(9, 12);
                        let r = self.rng.pick(&[a.base, a.tokens[0]]);
                        let mut claims = vec![(r, dec!("0.01")); n as usize];
                        if self.rng.percent(30) {
                            claims.iter_mut().skip(10).for_each(|c| c.1 = D::ZERO);
                        }
                        let target = self.rig.targets[0];
                        self.step(Op::Remove { acc, expiry: 100, target, claims, oath: None });
                    }
                    2 => {
                        for i in 0..3 {
                            if self.rng.percent(70) {
                                let t = self.some_tokens(i);
                                self.step(Op::Add { acc, tokens: vec![t], oath: None });
                            }
                        }
                    }
                    3 => {
                        for _ in 0..self.rng.int(1, 5) {
                            let k = self.rng.pick(&[OrderOnly, OrderOnly, Withdraw, Bracket]);
                            self.act(k);
                        }
                    }
                    _ => {
                        if self.equity(acc) < 500.0 {
                            let d = self.rng.dec(500.0, 5000.0);
                            self.step(Op::Add { acc, tokens: vec![(a.base, d)], oath: None });
                        }
                        // Small ones, so that only their number is in the way.
                        let small = self.rng.percent(60);
                        for p in self.pairs.clone() {
                            let size = self.equity(acc).max(10.0) / to_f64(self.price[&p]);
                            let mut amount = self.rng.dec(size * 0.1, size);
                            if small {
                                amount = amount * dec!("0.03") + self.state.pair_cfg.get(&p).map_or(D::ZERO, |c| c.trade_size_min);
                            }
                            let o = Order::market(&p, if self.rng.percent(50) { amount } else { -amount });
                            if self.step(Op::Order { acc, order: o, oath: None }) {
                                self.wait(1);
                                self.process_last(acc);
                            }
                        }
                    }
                }
            }
            CapEdge => self.cap_edge(),
            AgeEdge => self.age_edge(),
            Ruin => self.ruin(),
            ExpiryEdge => {
                let acc = self.some_acc();
                let mut o = self.an_order(acc);
                o.price_limit = PriceLimit::None;
                o.slippage_limit = SlippageLimit::None;
                o.delay = self.rng.int(0, 6) as u64;
                o.expiry = self.rng.int(0, 6) as u64;
                o.status = self.rng.pick(&[1u8, 1, 0]);
                let (delay, expiry) = (o.delay as i64, o.expiry as i64);
                if self.step(Op::Order { acc, order: o, oath: None }) {
                    let index = self.state.accounts[&acc].reqs.len() as u64 - 1;
                    let (t0, t1) = (self.state.now + delay, self.state.now + delay + expiry);
                    let mut times = vec![t0 - 1, t0, t0 + 1, t1 - 1, t1, t1 + 1, t1 + 2];
                    times.sort();
                    times.dedup();
                    for t in times {
                        if self.rng.percent(55) {
                            let dt = t - self.state.now;
                            self.wait(dt);
                            let m = Some(self.fresh());
                            if self.step(Op::Process { acc, index, prices: m }) && self.rng.percent(60) {
                                break;
                            }
                        }
                    }
                }
            }
        }
    }

    fn some_claims(&mut self, acc: ComponentAddress) -> Vec<(ResourceAddress, D)> {
        let a = self.rig.w.a.clone();
        let x = self.state.accounts[&acc].clone();
        let mut claims = vec![];
        if self.rng.percent(60) {
            let v = to_f64(x.vb).max(1.0);
            claims.push((a.base, self.rng.dec(v * 0.01, v * 1.05)));
        }
        for (r, d) in &x.coll {
            if self.rng.percent(50) {
                claims.push((*r, if self.rng.percent(35) { *d } else { *d * self.rng.dec(0.01, 1.02) }));
            }
        }
        if !claims.is_empty() && self.rng.percent(12) {
            let c = claims[0];
            claims.push((c.0, c.1 * dec!("0.25")));
        }
        if self.rng.percent(2) {
            claims.push((a.tokens[self.rng.below(3)], dec!("0.5")));
        }
        if self.rng.percent(1) {
            claims.push((a.base, dec!("-1")));
        }
        if claims.len() > 1 && self.rng.percent(20) {
            let k = self.rng.below(claims.len());
            claims[k].1 *= self.rng.dec(0.0001, 0.01);
        }
        if !claims.is_empty() && self.rng.percent(10) {
            for _ in 0..self.rng.int(1, 4) {
                let c = self.rng.pick(&claims);
                claims.push((c.0, self.rng.pick(&[D::ZERO, dec!("0.000000000000000001"), dec!("0.01"), dec!("0.4")])));
            }
        }
        claims
    }

    fn withdraw(&mut self, acc: ComponentAddress, claims: Vec<(ResourceAddress, D)>) {
        let target = if self.rng.percent(92) {
            let l: Vec<_> = self.rig.targets.iter().copied().filter(|t| self.rig.depositable.contains(t)).collect();
            self.rng.pick(&l)
        } else {
            self.rng.pick(&self.rig.targets.clone())
        };
        let oath = self.oath();
        let expiry = if self.rng.percent(90) { 1000 } else { self.rng.int(0, 4) as u64 };
        if self.step(Op::Remove { acc, expiry, target, claims, oath }) {
            let dt = self.rng.weighted(&[(1i64, 10), (0, 1), (3, 2)]);
            self.wait(dt);
            if self.rng.percent(90) {
                self.process_last(acc);
            }
        }
    }

    /// A trader wins more than the pool has, and asks for it.
    fn ruin(&mut self) {
        let s = &self.state;
        let worth = to_f64(s.base_tokens + s.pool_vb + s.unrealized + s.pnl);
        let owing = matches!(self.prop.as_str(), "P20" | "P22");
        if self.ruined || worth <= 0.0 || worth > 400_000.0 || !self.rng.percent(if owing { 85 } else { 40 }) {
            return;
        }
        self.ruined = true;
        let base = self.rig.w.a.base;
        let mut c = self.state.ex.clone();
        c.skew_ratio_cap = dec!(10);
        c.positions_max = c.positions_max.max(10);
        c.active_requests_max = c.active_requests_max.max(50);
        self.step(Op::SetExchange(c));
        let acc = self.some_acc();
        let p = self.rng.pick(&self.pairs.clone());
        let Some(mut c) = self.state.pair_cfg.get(&p).cloned() else { return };
        c.oi_max = dec!(1000000000);
        self.step(Op::SetPairs(vec![c]));
        let d = from_f64(worth * (0.5 + self.rng.unit()));
        self.step(Op::Add { acc, tokens: vec![(base, d.max(dec!("0.01")))], oath: None });
        let size = from_f64(worth * (1.0 + 3.0 * self.rng.unit()) / to_f64(self.price[&p]));
        let up = self.rng.percent(60);
        self.wait(1);
        if !self.step(Op::Order { acc, order: Order::market(&p, if up { size } else { -size }), oath: None }) {
            return;
        }
        self.wait(1);
        self.process_last(acc);
        let Some(held) = self.state.accounts[&acc].positions.get(&p).map(|x| x.amount) else { return };
        for _ in 0..self.rng.int(1, 4) {
            self.move_price(&p, if held > D::ZERO { 0.6 } else { -0.35 });
            self.wait(1);
            let prices = Some(self.fresh());
            self.step(Op::Update { pairs: vec![p.clone()], prices });
            // The pool, worth less than nothing.
            if self.rng.percent(20) {
                self.act(AddLiquidity);
            }
        }
        if self.step(Op::Order { acc, order: Order::market(&p, -held), oath: None }) {
            self.wait(1);
            self.process_last(acc);
        }
        let (vb, has) = (self.state.accounts[&acc].vb, self.state.base_tokens);
        let d = self.rng.pick(&[vb, has, has, has + ATTO, has * dec!("1.001"), has * dec!("0.9")]);
        if d > D::ZERO && self.rng.percent(if owing { 15 } else { 70 }) {
            self.withdraw(acc, vec![(base, d)]);
            return;
        }
        // All but what is owed to somebody else: just enough, or not quite.
        let s = &self.state;
        let badge = |i: usize| s.referrals.get(&self.rig.badges[i]).map_or(D::ZERO, |x| x.balance);
        let best = (0..self.rig.badges.len()).max_by_key(|i| badge(*i)).unwrap_or(0);
        let mut dues = vec![(0, s.treasury), (1, s.protocol), (2, s.delegator_vb)];
        if !self.rig.badges.is_empty() {
            dues.push((3, badge(best)));
            if self.prop == "P22" {
                dues = vec![(3, badge(best))];
            }
        }
        dues.retain(|x| x.1 > D::ZERO);
        if dues.is_empty() {
            return;
        }
        let (which, due) = self.rng.pick(&dues);
        let d = self.state.base_tokens - due + self.rng.pick(&[D::ZERO, D::ZERO, D::ZERO, ATTO, -ATTO, due * dec!("0.3")]);
        if d <= D::ZERO || d > self.state.accounts[&acc].vb {
            return;
        }
        self.withdraw(acc, vec![(base, d)]);
        match which {
            0 => self.step(Op::CollectTreasury),
            1 => {
                let burn = self.state.ex.protocol_burn_amount;
                let protocol = self.rig.w.a.protocol;
                self.step(Op::SwapProtocol { pay: (protocol, burn) })
            }
            2 => self.step(Op::CollectDelegator),
            _ => self.step(Op::CollectReferral { referral: best }),
        };
    }

    fn tighten(&mut self) {
        let mut c = self.state.ex.clone();
        let ratio = {
            let s = &self.state;
            let v = s.base_tokens + s.pool_vb + s.unrealized + s.pnl;
            let v = if v > D::ONE { v } else { D::ONE };
            to_f64(s.skew_abs / v)
        };
        let f = self.rng.pick(&[0.3, 0.7, 0.95, 1.05]);
        c.skew_ratio_cap = significant(from_f64(ratio * f), 3);
        c.adl_offset = significant(from_f64(ratio * self.rng.pick(&[0.5, 0.8, 1.0, 1.3])), 3);
        c.adl_a = significant(self.rng.dec(0.02, 0.5), 3);
        c.adl_b = significant(self.rng.dec(0.0, 0.5), 3);
        self.step(Op::SetExchange(c));
    }

    fn liquidate_edge(&mut self) {
        let base = self.rig.w.a.base;
        // Now and then one that only has collateral and a debt, due for the price of a collateral.
        let bare = if self.rng.percent(if matches!(self.prop.as_str(), "P08" | "P11" | "P23") { 18 } else { 6 }) {
            let bare = |x: &Acc| x.vb < D::ZERO && x.positions.is_empty() && !x.coll.is_empty();
            let l: Vec<_> = self.state.accounts.iter().filter(|x| bare(x.1)).map(|x| *x.0).collect();
            let acc = if l.is_empty() { self.make_debtor() } else { self.rng.pick(&l) };
            if bare(&self.state.accounts[&acc]) {
                let feeds: Vec<Id> = self.state.accounts[&acc]
                    .coll
                    .keys()
                    .filter_map(|r| self.state.coll_cfg.get(r).map(|c| c.pair_id.clone()))
                    .collect();
                if feeds.is_empty() {
                    None
                } else {
                    Some((acc, self.rng.pick(&feeds)))
                }
            } else {
                None
            }
        } else {
            None
        };
        let Some((acc, p)) = (if bare.is_some() { bare.clone() } else { self.holder() }) else {
            self.act(Trade);
            return;
        };
        // Round figures, so that what the collateral is worth is exact, and a payment can be too.
        if self.rng.percent(40) {
            for f in self.rig.feeds.clone() {
                if f != p {
                    let d = significant(self.price[&f], 4);
                    self.price.insert(f, if d == D::ONE { dec!("1.001") } else { d });
                }
            }
            if bare.is_none() && self.state.accounts[&acc].coll.is_empty() {
                let i = self.rng.below(3);
                let (r, d) = self.some_tokens(i);
                self.step(Op::Add { acc, tokens: vec![(r, significant(d, 2))], oath: None });
            }
        }
        let amount = if bare.is_some() { D::ONE } else { self.state.accounts[&acc].positions[&p].amount };
        let price0 = self.price[&p];
        let huge = dec!(100000000000);
        let now = self.state.now + 1;
        let prices = self.price.clone();
        let msg = |d: D| PriceMsg {
            prices: prices.iter().map(|(k, v)| (k.clone(), if *k == p { d } else { *v }, now)).collect(),
            authentic: true,
        };
        let trial = |d: D| self.probe(&[(1, Op::Liquidate { acc, pay: (base, huge), prices: Some(msg(d)) })]);
        // Safe on the one side, due on the other.
        let due = |d: D| match trial(d) {
            Some((Ok(()), _)) => Some(true),
            Some((Err(Rej::Sufficient), _)) => Some(false),
            _ => None,
        };
        let floor = if bare.is_some() { dec!("0.000001") } else { dec!("0.01") };
        let (mut lo, mut hi) = (price0 * floor, price0 * dec!(20));
        // `lo` always stands for the price that is due.
        if amount < D::ZERO {
            std::mem::swap(&mut lo, &mut hi);
        }
        let (Some(true), Some(false)) = (due(lo), due(hi)) else {
            // Not a matter of this price: try it anyway.
            let m = Some(self.msg_at(now));
            self.wait(1);
            self.step(Op::Liquidate { acc, pay: (base, dec!(100000)), prices: m });
            return;
        };
        for _ in 0..50 {
            let mid = (lo + hi) / dec!(2);
            if mid == lo || mid == hi {
                break;
            }
            match due(mid) {
                Some(true) => lo = mid,
                Some(false) => hi = mid,
                None => return,
            }
        }
        let e = self.rng.pick(&[dec!("0.000001"), dec!("0.0001"), dec!("0.01"), dec!("0.1")]);
        let (gone, safe) = if amount > D::ZERO { (lo - lo * e, hi + hi * e) } else { (lo + lo * e, hi - hi * e) };
        let price = match self.rng.below(10) {
            0 | 1 | 2 => safe,
            _ => gone,
        };
        if price <= D::ZERO || price == D::ONE {
            return;
        }
        // A few requests that have to be void afterwards.
        if self.rng.percent(50) {
            for _ in 0..self.rng.int(1, 2) {
                self.act_for(acc);
            }
        }
        self.price.insert(p.clone(), price);
        self.wait(1);
        let m = self.fresh();
        let discounted = match self.probe(&[(0, Op::Liquidate { acc, pay: (base, huge), prices: Some(m.clone()) })]) {
            Some((Ok(()), out)) => out
                .events
                .iter()
                .find_map(|e| match e {
                    Ev::Liquidate { coll_discounted, .. } => Some(*coll_discounted),
                    _ => None,
                })
                .unwrap_or(D::ZERO),
            _ => dec!(1000),
        };
        if discounted > D::ZERO && self.rng.percent(25) {
            let less = discounted * self.rng.pick(&[dec!("0.999999"), dec!("0.9"), dec!("0.5")]);
            self.step(Op::Liquidate { acc, pay: (base, less), prices: Some(m.clone()) });
        }
        if discounted > ATTO && short(discounted) && self.rng.percent(35) {
            self.step(Op::Liquidate { acc, pay: (base, discounted - ATTO), prices: Some(m.clone()) });
        }
        let pay = match self.rng.below(3) {
            0 | 1 if short(discounted) => discounted,
            0 => discounted + dec!("0.000001"),
            1 => discounted + dec!("123.456"),
            _ => discounted * dec!("1.5") + D::ONE,
        };
        let n = self.state.accounts[&acc].reqs.len() as u64;
        if self.step(Op::Liquidate { acc, pay: (base, pay), prices: Some(m) }) {
            self.wait(1);
            if n > 0 {
                let i = self.rng.int(0, n as i64 - 1) as u64;
                self.process_at(acc, i);
                if self.rng.percent(40) {
                    self.step(Op::Cancel { acc, indexes: vec![i], oath: None });
                }
            }
            if self.rng.percent(50) {
                self.step(Op::Add { acc, tokens: vec![(base, dec!(5000))], oath: None });
                let mut o = self.an_order(acc);
                if n > 0 && self.rng.percent(50) {
                    o.cancel.push(RequestIndexRef::Index(self.rng.int(0, n as i64 - 1) as u64));
                }
                if self.step(Op::Order { acc, order: o, oath: None }) {
                    self.wait(1);
                    self.process_last(acc);
                }
            }
        }
    }

    fn act_for(&mut self, acc: ComponentAddress) {
        let mut o = self.an_order(acc);
        self.window(&mut o);
        self.step(Op::Order { acc, order: o, oath: None });
    }

    fn value(&self) -> D {
        let s = &self.state;
        s.base_tokens + s.pool_vb + s.unrealized + s.pnl
    }

    /// The skew ratio is the cap, to the last digit: not above it.
    fn deleverage_at_cap(&mut self, acc: ComponentAddress, p: Id) {
        self.wait(1);
        let m = self.fresh();
        self.step(Op::Update { pairs: vec![p.clone()], prices: Some(m.clone()) });
        let (skew, value) = (self.state.skew_abs, self.value());
        if skew <= D::ZERO || value <= D::ONE {
            return;
        }
        let mut c = self.state.ex.clone();
        c.fee_liquidity_add = D::ZERO;
        c.adl_offset = D::ZERO;
        c.adl_a = dec!("0.02");
        let caps = [dec!(5), dec!(2), dec!(1), dec!("0.5"), dec!("0.2"), dec!("0.1"), dec!("0.05"), dec!("0.02"), dec!("0.01"), dec!("0.001")];
        let Some(cap) = caps.into_iter().find(|x| skew / *x > value) else { return };
        c.skew_ratio_cap = cap;
        let pay = skew / cap - value;
        if pay > dec!(50000000) {
            return;
        }
        self.step(Op::SetExchange(c));
        let pay = pay + self.rng.pick(&[D::ZERO, D::ZERO, D::ZERO, dec!("0.001"), -dec!("0.001")]);
        if pay <= D::ZERO {
            return;
        }
        let base = self.rig.w.a.base;
        self.step(Op::AddLiq { pay: (base, pay) });
        // At the same instant and the same prices.
        let prices = if self.rng.percent(50) { Some(m) } else { None };
        self.step(Op::Adl { acc, pair: p, prices });
    }

    /// Closing turns the skew into its mirror image: nothing is reduced.
    fn deleverage_mirror(&mut self, p: Id) {
        let Some(mut c) = self.state.pair_cfg.get(&p).cloned() else { return };
        c.fee_0 = D::ZERO;
        c.trade_size_min = D::ZERO;
        c.oi_max = dec!(1000000000);
        self.step(Op::SetPairs(vec![c]));
        let mut x = self.state.ex.clone();
        x.skew_ratio_cap = dec!(10);
        self.step(Op::SetExchange(x.clone()));
        let acc = self.some_acc();
        let q = self.state.pairs[&p].clone();
        let held = self.state.accounts[&acc].positions.get(&p).map_or(D::ZERO, |x| x.amount);
        let amount = held - (q.oi_long - q.oi_short) * dec!(2);
        if amount.is_zero() {
            return;
        }
        let base = self.rig.w.a.base;
        let d = abs(amount) * self.price[&p];
        if d > dec!(20000000) {
            return;
        }
        self.step(Op::Add { acc, tokens: vec![(base, d.max(ATTO))], oath: None });
        if !self.step(Op::Order { acc, order: Order::market(&p, amount), oath: None }) {
            return;
        }
        self.wait(1);
        self.process_last(acc);
        let (skew, value) = (self.state.skew_abs, self.value());
        if skew <= D::ZERO || value <= D::ONE {
            return;
        }
        x.skew_ratio_cap = significant(skew / value * dec!("0.5"), 3);
        x.adl_offset = D::ZERO;
        x.adl_a = dec!("0.01");
        x.adl_b = dec!("0.5");
        self.step(Op::SetExchange(x));
        let prices = if self.rng.percent(50) { Some(self.msg_at(self.state.now)) } else { None };
        self.step(Op::Adl { acc, pair: p, prices });
    }

    fn deleverage_edge(&mut self) {
        let Some((mut acc, p)) = self.holder() else {
            self.act(Trade);
            return;
        };
        match self.rng.below(10) {
            0 => return self.deleverage_at_cap(acc, p),
            1 => return self.deleverage_mirror(p),
            _ => {}
        }
        if self.rng.percent(10) {
            // A position of next to nothing.
            let a = self.some_acc();
            let least = self.state.pair_cfg.get(&p).map_or(D::ZERO, |c| c.trade_size_min);
            let amount = least.max(from_f64(self.rng.unit() / to_f64(self.price[&p])));
            let skew = self.state.pairs.get(&p).map_or(D::ZERO, |q| q.oi_long - q.oi_short);
            let order = Order::market(&p, if skew < D::ZERO { -amount } else { amount });
            if !self.state.accounts[&a].positions.contains_key(&p) && self.step(Op::Order { acc: a, order, oath: None }) {
                self.wait(1);
                self.process_last(a);
                if self.state.accounts[&a].positions.contains_key(&p) {
                    acc = a;
                }
            }
        }
        if self.rng.percent(75) {
            self.tighten();
        }
        let wide = self.rng.percent(25);
        let price0 = self.price[&p];
        if self.rng.percent(18) {
            // A price that multiplies.
            self.price.insert(p.clone(), significant(price0 * self.rng.dec(4.0, 15.0), 6));
            self.wait(1);
            let m = Some(self.fresh());
            // The profit that is too much close to what the account made of it.
            if self.rng.percent(70) {
                self.step(Op::Update { pairs: vec![p.clone()], prices: m });
                let Some(x) = self.state.accounts[&acc].positions.get(&p).cloned() else { return };
                let (skew, value, cost) = (to_f64(self.state.skew_abs), to_f64(self.value()), to_f64(x.cost).abs());
                if skew <= 0.0 || value <= 1.0 || cost <= 0.0 {
                    return;
                }
                let share = (to_f64(x.amount) * to_f64(self.price[&p]) - to_f64(x.cost)) / cost;
                let want = share * self.rng.pick(&[0.5, 0.8, 0.95, 1.05, 1.25, 2.0]);
                let ratio = skew / value;
                let mut c = self.state.ex.clone();
                c.skew_ratio_cap = significant(from_f64(ratio * 0.5), 3);
                let up = if want > 0.0 { 1.5 } else { 0.5 };
                c.adl_offset = significant(from_f64(ratio * up), 3);
                c.adl_b = D::ZERO;
                c.adl_a = significant(from_f64((ratio * (up - 1.0) / want.cbrt()).abs()), 3);
                if c.adl_a <= D::ZERO || c.skew_ratio_cap <= D::ZERO {
                    return;
                }
                self.step(Op::SetExchange(c));
                self.step(Op::Adl { acc, pair: p, prices: None });
                return;
            }
            self.step(Op::Adl { acc, pair: p, prices: m });
            return;
        }
        let now = self.state.now + 1;
        let prices = self.price.clone();
        let verdict = |d: D| {
            let m = PriceMsg {
                prices: prices.iter().map(|(k, v)| (k.clone(), if *k == p { d } else { *v }, now)).collect(),
                authentic: true,
            };
            self.probe(&[(1, Op::Adl { acc, pair: p.clone(), prices: Some(m) })]).map(|x| x.0)
        };
        // Scan for a price where the verdict changes, then close in on it.
        let mut seen: Vec<(D, Result<(), Rej>)> = vec![];
        for i in 0..25 {
            let d = price0 * from_f64(if wide { 0.08 * 1.25f64.powi(i) } else { 0.4 + 0.06 * i as f64 });
            if let Some(v) = verdict(d) {
                seen.push((d, v));
            }
        }
        let changes: Vec<usize> = (1..seen.len()).filter(|i| seen[*i].1 != seen[*i - 1].1).collect();
        if changes.is_empty() {
            self.wait(1);
            let m = Some(self.fresh());
            self.step(Op::Adl { acc, pair: p, prices: m });
            return;
        }
        let i = changes[self.rng.clone().below(changes.len())];
        let (mut lo, mut hi) = (seen[i - 1].0, seen[i].0);
        let at_lo = seen[i - 1].1;
        for _ in 0..45 {
            let mid = (lo + hi) / dec!(2);
            match verdict(mid) {
                Some(v) if v == at_lo => lo = mid,
                Some(_) => hi = mid,
                None => return,
            }
        }
        self.rng.next();
        let e = self.rng.pick(&[dec!("0.000001"), dec!("0.0001"), dec!("0.02")]);
        for d in [lo - lo * e, hi + hi * e] {
            if self.rng.percent(70) && d > D::ZERO && d != D::ONE {
                self.price.insert(p.clone(), d);
                self.wait(1);
                let m = Some(self.fresh());
                self.step(Op::Adl { acc, pair: p.clone(), prices: m });
            }
        }
    }

    /// Collateral only, a lost trade, closed: an account with a debt and no position.
    fn make_debtor(&mut self) -> ComponentAddress {
        let a = self.rig.w.a.clone();
        // Make one: collateral only, a lost trade, closed.
        let acc = self.some_acc();
        let t = {
            let i = self.rng.below(3);
            self.some_tokens(i)
        };
        self.step(Op::Add { acc, tokens: vec![t], oath: None });
        let vb = self.state.accounts[&acc].vb;
        if vb > D::ZERO {
            let target = self.rig.targets[0];
            if self.step(Op::Remove { acc, expiry: 1000, target, claims: vec![(a.base, vb)], oath: None }) {
                self.wait(1);
                self.process_last(acc);
            }
        }
        let p = self.rng.pick(&self.pairs.clone());
        let size = self.equity(acc).max(1.0) * 2.0 / to_f64(self.price[&p]);
        let amount = self.rng.dec(size * 0.3, size);
        if self.step(Op::Order { acc, order: Order::market(&p, amount), oath: None }) {
            self.wait(1);
            self.process_last(acc);
            self.move_price(&p, -0.03);
            let held = self.state.accounts[&acc].positions.get(&p).map(|x| x.amount);
            if let Some(h) = held {
                self.step(Op::Order { acc, order: Order::market(&p, -h), oath: None });
                self.wait(1);
                self.process_last(acc);
            }
        }
        acc
    }

    fn swap_debt(&mut self) {
        let a = self.rig.w.a.clone();
        let debtors: Vec<ComponentAddress> =
            self.state.accounts.iter().filter(|x| x.1.vb < D::ZERO && !x.1.coll.is_empty()).map(|x| *x.0).collect();
        let acc = if debtors.is_empty() {
            self.make_debtor()
        } else if self.rng.percent(93) {
            self.rng.pick(&debtors)
        } else {
            self.some_acc()
        };
        // A little of a collateral, less than the debt is worth.
        let mut little = None;
        if self.state.accounts[&acc].vb < D::ZERO && self.rng.percent(25) {
            let i = self.rng.below(3);
            let r = a.tokens[i];
            let feed = self.state.coll_cfg.get(&r).map(|c| c.pair_id.clone()).unwrap_or("USDC/USD".into());
            let debt = to_f64(-self.state.accounts[&acc].vb);
            let d = floor_to(from_f64(debt / to_f64(self.price[&feed])) * self.rng.dec(0.01, 0.9), [8, 18, 6][i]);
            if d > D::ZERO && self.step(Op::Add { acc, tokens: vec![(r, d)], oath: None }) {
                little = Some(r);
            }
        }
        let x = self.state.accounts[&acc].clone();
        let held: Vec<ResourceAddress> = x.coll.keys().copied().collect();
        let res = if let Some(r) = little {
            r
        } else if !held.is_empty() && self.rng.percent(93) {
            self.rng.pick(&held)
        } else {
            self.rng.pick(&[a.tokens[0], a.tokens[1], a.tokens[2], a.base, a.junk])
        };
        let debt = if x.vb < D::ZERO { -x.vb } else { dec!(10) };
        let mut d = match self.rng.below(6) {
            0 => debt,
            1 => debt + ATTO,
            2 => debt * dec!(3),
            3 => (debt - self.rng.pick(&[ATTO, dec!("0.0000000001"), dec!("0.0000003"), dec!("0.0001"), dec!("0.005")])).max(ATTO),
            _ => debt * self.rng.dec(0.001, 0.99),
        };
        // Just what all of the collateral costs.
        if little.is_some() && self.rng.percent(60) {
            if let (Some(c), Some(h)) = (self.state.coll_cfg.get(&res).cloned(), x.coll.get(&res)) {
                let all = *h * (self.price[&c.pair_id] * (c.discount * dec!("0.1") + dec!("0.9")));
                d = all + self.rng.pick(&[D::ZERO, ATTO, -ATTO, dec!("0.000001"), all]);
                if d <= D::ZERO {
                    d = debt;
                }
            }
        }
        self.wait(1);
        let pay = (if self.rng.percent(95) { a.base } else { a.tokens[1] }, d);
        let prices = self.supply();
        self.step(Op::SwapDebt { acc, res, pay, prices });
    }

    fn order_edge(&mut self) {
        let acc = self.some_acc();
        let p = self.rng.pick(&self.pairs.clone());
        let m = self.msg_at(self.state.now + 1);
        let index = self.state.accounts[&acc].reqs.len() as u64;
        let sign = if self.rng.percent(50) { D::ONE } else { -D::ONE };
        let ops = |d: D| {
            [
                (0, Op::Order { acc, order: Order::market(&p, sign * d), oath: None }),
                (1, Op::Process { acc, index, prices: Some(m.clone()) }),
            ]
        };
        let price = to_f64(self.price[&p]);
        let min = self.state.pair_cfg[&p].trade_size_min;
        let small = from_f64((0.01 / price).max(1e-12));
        let lo = if small > min { small } else { min };
        // A first refusal may come from a different rule than the last: either is an edge.
        let mut hi = lo;
        let verdict = |d: D| self.probe(&ops(d)).map(|x| x.0);
        let first = verdict(lo);
        let mut change = None;
        for _ in 0..60 {
            let next = hi * dec!("1.7");
            let v = verdict(next);
            if v != first {
                change = v.map(|v| (hi, next, v));
                break;
            }
            hi = next;
            if to_f64(hi) * price > 1e10 {
                break;
            }
        }
        let Some((mut lo, mut hi, _)) = change else {
            return;
        };
        for _ in 0..50 {
            let mid = (lo + hi) / dec!(2);
            if mid == lo || mid == hi {
                break;
            }
            if verdict(mid) == first {
                lo = mid
            } else {
                hi = mid
            }
        }
        let d = self.beside(lo, hi);
        let o = Order::market(&p, sign * d);
        if self.step(Op::Order { acc, order: o, oath: None }) {
            self.wait(1);
            self.step(Op::Process { acc, index, prices: Some(m) });
        }
    }

    /// The caps move to where the market already is: what increases is refused, what closes is not.
    fn cap_edge(&mut self) {
        let Some((acc, p)) = self.holder() else {
            return;
        };
        let Some(c) = self.state.pair_cfg.get(&p).cloned() else {
            return;
        };
        let q = self.state.pairs[&p].clone();
        let top = if q.oi_long > q.oi_short { q.oi_long } else { q.oi_short };
        let other = if q.oi_long > q.oi_short { q.oi_short } else { q.oi_long };
        let ex = self.state.ex.clone();
        let mut cross = None;
        if self.rng.percent(20) {
            // Between the two sides: too low already for the one, not yet for the other.
            let between = significant(other + (top - other) * self.rng.dec(0.02, 0.9), 3);
            let mut n = c.clone();
            n.oi_max = between;
            n.trade_size_min = D::ZERO;
            self.step(Op::SetPairs(vec![n]));
            if between > other {
                let x = (between - other) * self.rng.pick(&[dec!("0.9"), dec!("1.001"), dec!("1.1"), dec!("1.5")]);
                cross = Some(if q.oi_long > q.oi_short { -x } else { x });
            }
        } else if self.rng.percent(60) {
            let of = if self.rng.percent(70) || other.is_zero() { top } else { other };
            let near = of * self.rng.dec(0.85, 1.15);
            let mut n = c.clone();
            n.oi_max = significant(near, 3);
            n.trade_size_min = D::ZERO;
            self.step(Op::SetPairs(vec![n]));
        } else {
            let value = {
                let mut s = self.state.clone();
                let m = Model::new(&mut s);
                catch_unwind(AssertUnwindSafe(|| m.skew_ratio())).ok()
            };
            let Some(now) = value else {
                return;
            };
            let mut n = ex.clone();
            n.skew_ratio_cap = significant(now * self.rng.dec(0.8, 1.2), 3);
            self.step(Op::SetExchange(n));
        }
        if let Some(x) = cross {
            // Whoever holds nothing of it adds to the smaller side.
            let l = self.accs();
            let l: Vec<_> = l.into_iter().filter(|a| !self.state.accounts[a].positions.contains_key(&p)).collect();
            if !l.is_empty() {
                let a = self.rng.pick(&l);
                let base = self.rig.w.a.base;
                let d = abs(x) * self.price[&p] * dec!("0.5");
                self.step(Op::Add { acc: a, tokens: vec![(base, d.max(ATTO))], oath: None });
                if self.step(Op::Order { acc: a, order: Order::market(&p, x), oath: None }) {
                    self.wait(1);
                    self.process_last(a);
                }
            }
        }
        for _ in 0..self.rng.int(1, 4) {
            let a = if self.rng.percent(70) { acc } else { self.some_acc() };
            let held = self.state.accounts[&a].positions.get(&p).map_or(D::ZERO, |x| x.amount);
            let part = if held.is_zero() { top * dec!("0.1") } else { held };
            let amount = match self.rng.below(6) {
                0 | 1 => part * self.rng.dec(0.001, 0.15),
                2 => -held,
                3 => -(part * self.rng.dec(0.01, 0.9)),
                4 => -(part * self.rng.dec(1.0, 2.2)),
                _ => part * self.rng.dec(-0.1, 0.1),
            };
            if amount.is_zero() {
                continue;
            }
            if self.step(Op::Order { acc: a, order: Order::market(&p, amount), oath: None }) {
                self.wait(1);
                self.process_last(a);
            }
        }
        if self.rng.percent(70) {
            self.step(Op::SetPairs(vec![c]));
            self.step(Op::SetExchange(ex));
        }
    }

    /// One price is exactly, or almost, too old.
    fn age_edge(&mut self) {
        let a = self.rig.w.a.clone();
        let acc = match self.holder() {
            Some((acc, _)) if self.rng.percent(70) => acc,
            _ => self.some_acc(),
        };
        // The longest age any feed allows, plus one, passes; then all but one are fresh.
        let feeds = self.rig.feeds.clone();
        let mut p = self.rng.pick(&feeds);
        // An account of positions and collateral, ruined by a price other than the aged one.
        let mut ruin = None;
        let mut acc = acc;
        if self.rng.percent(35) {
            if let Some((holder, pair)) = self.holder() {
                if self.state.accounts[&holder].coll.is_empty() {
                    let t = {
                        let i = self.rng.below(3);
                        self.some_tokens(i)
                    };
                    self.step(Op::Add { acc: holder, tokens: vec![t], oath: None });
                }
                let x = &self.state.accounts[&holder];
                let l: Vec<Id> = x
                    .coll
                    .keys()
                    .filter_map(|r| self.state.coll_cfg.get(r))
                    .map(|c| c.pair_id.clone())
                    .filter(|f| *f != pair)
                    .collect();
                let long = x.positions[&pair].amount > D::ZERO;
                if !l.is_empty() {
                    p = self.rng.pick(&l);
                    acc = holder;
                    ruin = Some((pair, if long { 0.05 } else { 8.0 }));
                }
            }
        }
        let p = p;
        let mut limits = vec![];
        if let Some(c) = self.state.pair_cfg.get(&p) {
            limits.push(c.price_age_max);
        }
        for c in self.state.coll_cfg.values() {
            if c.pair_id == p {
                limits.push(c.price_age_max);
            }
        }
        if limits.is_empty() {
            return;
        }
        let age = self.rng.pick(&limits) + self.rng.int(-1, 1);
        // Something to process.
        let kind = if ruin.is_some() { 4 } else { self.rng.below(7) };
        let mut index = 0;
        if kind <= 2 {
            let mut o = self.an_order(acc);
            o.price_limit = PriceLimit::None;
            o.slippage_limit = SlippageLimit::None;
            if !self.step(Op::Order { acc, order: o, oath: None }) {
                return;
            }
            index = self.state.accounts[&acc].reqs.len() as u64 - 1;
        } else if kind == 3 {
            let vb = to_f64(self.state.accounts[&acc].vb);
            let d = self.rng.dec(0.0, (vb * 0.2).max(0.01));
            let target = self.rig.targets[0];
            if !self.step(Op::Remove { acc, expiry: 100000, target, claims: vec![(a.base, d)], oath: None }) {
                return;
            }
            index = self.state.accounts[&acc].reqs.len() as u64 - 1;
        }
        let t = self.state.now + 1;
        self.wait(1);
        let m = PriceMsg { prices: vec![(p.clone(), self.price[&p], t)], authentic: true };
        self.step(Op::Push(m));
        self.wait(age.max(0));
        let before = self.price.clone();
        if let Some((pair, factor)) = &ruin {
            let d = self.price[pair] * from_f64(*factor);
            self.price.insert(pair.clone(), d);
        }
        let mut m = self.fresh();
        if ruin.is_some() {
            self.price = before;
        }
        let with = self.rng.percent(12);
        if !with {
            m.prices.retain(|x| x.0 != p);
        }
        if self.rng.percent(6) {
            for x in &mut m.prices {
                if self.rng.percent(30) {
                    x.1 = D::ZERO;
                }
            }
        }
        let prices = if self.rng.percent(25) {
            self.step(Op::Push(m));
            None
        } else {
            Some(m)
        };
        match kind {
            0..=3 => self.step(Op::Process { acc, index, prices }),
            4 => self.step(Op::Liquidate { acc, pay: (a.base, dec!(100000)), prices }),
            5 => {
                let pairs = vec![self.rng.pick(&self.pairs.clone())];
                self.step(Op::Update { pairs, prices })
            }
            _ => {
                let pair = self.rng.pick(&self.pairs.clone());
                self.step(Op::Adl { acc, pair, prices })
            }
        };
    }

    pub fn run(&mut self, steps: usize) {
        let mut weights = BASE_WEIGHTS.to_vec();
        for (k, w) in boosts(&self.prop) {
            weights.iter_mut().find(|x| x.0 == *k).unwrap().1 += w;
        }
        let mut guard = 0;
        while self.steps < steps && guard < steps * 4 {
            guard += 1;
            if self.rig.accounts.is_empty() && !self.create() {
                continue;
            }
            if self.accs().iter().all(|a| self.state.accounts[a].reqs.len() > 60) {
                break;
            }
            let k = self.rng.weighted(&weights);
            self.act(k);
            if self.rng.percent(50) {
                let dt = self.rng.int(0, 2);
                self.wait(dt);
            }
            if self.rng.percent(20) {
                self.drift();
            }
        }
    }
}

fn prices_of(op: &mut Op) -> Option<&mut PriceMsg> {
    match op {
        Op::Process { prices, .. }
        | Op::SwapDebt { prices, .. }
        | Op::Liquidate { prices, .. }
        | Op::Adl { prices, .. }
        | Op::Update { prices, .. } => prices.as_mut(),
        _ => None,
    }
}

/// A number of seconds at an edge of what a configuration takes, or beyond it.
fn edge_seconds(r: &mut Rng) -> i64 {
    match r.below(4) {
        0 => r.pick(&[0, -1, 1, 65534, 65535, 65536, i64::MAX, i64::MIN, i64::MIN + 1]),
        // Valid again once shortened to 8, 16, 31 or 32 bits.
        1 => (1i64 << r.pick(&[16, 17, 31, 32, 33, 40, 62])) + r.int(1, 90),
        2 => -(1i64 << r.pick(&[16, 31, 32, 48])) + r.int(1, 65535),
        _ => r.int(65536, 200_000),
    }
}

fn long_seconds(r: &mut Rng) -> i64 {
    r.pick(&[127, 128, 255, 256, 257, 1000, 32767, 32768, 40000, 65535])
}

fn rough(name: &str, given: D, real: D, out: &mut Vec<String>) {
    let abs = |d: D| if d.is_negative() { -d } else { d };
    let lost = abs(given - real);
    let ok = given == real
        || (abs(real) <= abs(given)
            && lost <= abs(given) * dec!("0.01")
            && significant(given, 3) != given
            // What falls below the smallest unit may vanish.
            || abs(given) < dec!("0.00000000000001"));
    if !ok {
        out.push(format!("{name} is {real} instead of {given}"));
    }
}
fn exact<T: PartialEq + std::fmt::Debug>(name: &str, given: T, real: T, out: &mut Vec<String>) {
    if given != real {
        out.push(format!("{name} is {real:?} instead of {given:?}"));
    }
}

pub fn some_exchange(r: &mut Rng, limits: bool) -> ExchangeConfig {
    let q = |d: D| significant(d, 3);
    ExchangeConfig {
        positions_max: if limits { r.int(1, 2) as u16 } else { 30 },
        collaterals_max: if limits { r.int(0, 2) as u16 } else { 5 },
        active_requests_max: if limits { r.int(0, 5) as u16 } else { 100 },
        skew_ratio_cap: q(if r.percent(50) { r.dec(0.05, 0.5) } else { r.dec(0.5, 5.0) }),
        adl_offset: q(r.dec(0.05, 0.4)),
        adl_a: q(r.dec(0.02, 0.3)),
        adl_b: q(r.dec(0.0, 0.3)),
        fee_liquidity_add: if r.percent(20) { D::ZERO } else { q(r.dec(0.0, 0.02)) },
        fee_liquidity_remove: if r.percent(20) { D::ZERO } else { q(r.dec(0.0, 0.02)) },
        fee_share_protocol: if r.percent(8) { D::ZERO } else { q(r.dec(0.01, 0.3)) },
        fee_share_treasury: if r.percent(8) { D::ZERO } else { q(r.dec(0.01, 0.15)) },
        fee_share_referral: q(r.dec(0.0, 1.0)),
        fee_max: if r.percent(30) { q(r.dec(0.0001, 0.002)) } else { dec!("0.01") },
        protocol_burn_amount: q(r.dec(1000.0, 20000.0)),
        reward_keeper: q(r.dec(0.5, 5.0)),
    }
}

pub fn some_pair(r: &mut Rng, p: &str, price: f64, hasty: bool) -> PairConfig {
    let q = |d: D| significant(d, 3);
    let initial = q(r.log(0.005, 0.3));
    let maintenance = q(initial * r.dec(0.2, 1.0));
    PairConfig {
        pair_id: p.to_string(),
        price_age_max: if r.percent(88) { r.int(1, 60) } else { long_seconds(r) },
        oi_max: if r.percent(35) { q(r.dec(20_000.0 / price, 400_000.0 / price)) } else { dec!(1000000000) },
        trade_size_min: if r.percent(25) { q(r.dec(1.0 / price, 50.0 / price)) } else { D::ZERO },
        update_price_delta_ratio: q(r.dec(0.001, 0.05)),
        update_period_seconds: if r.percent(90) { r.int(10, 7200) } else { long_seconds(r) },
        margin_initial: initial,
        margin_maintenance: maintenance,
        funding_1: q(r.dec(0.0, 2.0)),
        funding_2: q(r.dec(0.0, 4.0)),
        funding_2_delta: q(if hasty && r.percent(50) { r.log(1000.0, 10000.0) } else { r.log(1.0, 10000.0) }),
        funding_2_decay: q(r.log(1.0, 5000.0)),
        funding_pool_0: q(r.dec(0.0, 1.0)),
        funding_pool_1: q(r.dec(0.0, 2.0)),
        funding_share: q(r.dec(0.0, 0.1)),
        fee_0: q(if r.percent(10) { D::ZERO } else { r.log(0.00005, 0.015) }),
        fee_1: q(if r.percent(10) { D::ZERO } else { r.log(0.0000000001, 0.000001) }),
    }
}

/// One value at or beyond a bound.
pub fn distort_exchange(rng: &mut Rng, c: &mut ExchangeConfig) {
    let atto = ATTO;
    match rng.below(24) {
        0 => c.positions_max = 0,
        1 => c.positions_max = 1,
        2 => c.skew_ratio_cap = D::ZERO,
        3 => c.skew_ratio_cap = -atto,
        4 => c.adl_offset = -atto,
        5 => c.adl_a = -dec!("0.1"),
        6 => c.adl_b = -atto,
        7 => c.fee_liquidity_add = -atto,
        8 => c.fee_liquidity_remove = -atto,
        9 => c.fee_share_protocol = dec!("0.3"),
        10 => c.fee_share_protocol = dec!("0.3") + atto,
        11 => c.fee_share_protocol = -atto,
        12 => c.fee_share_treasury = dec!("0.15"),
        13 => c.fee_share_treasury = dec!("0.15") + atto,
        14 => c.fee_share_treasury = -atto,
        15 => c.fee_share_referral = D::ONE,
        16 => c.fee_share_referral = D::ONE + atto,
        17 => c.fee_share_referral = -atto,
        18 => c.fee_max = -atto,
        19 => c.protocol_burn_amount = dec!(1000),
        20 => c.protocol_burn_amount = dec!(1000) - atto,
        21 => c.reward_keeper = -atto,
        22 => {
            c.collaterals_max = rng.pick(&[0, 1, 65535]);
            c.active_requests_max = rng.pick(&[0, 1, 65535]);
            c.positions_max = 65535;
        }
        _ => {
            c.skew_ratio_cap = rng.dec(0.0, 3.0);
            c.reward_keeper = rng.dec(0.0, 3.0);
            c.fee_max = rng.dec(0.0, 0.02);
        }
    }
}

pub fn distort_pair(rng: &mut Rng, c: &mut PairConfig) {
    let atto = ATTO;
    let hi_lo = |rng: &mut Rng, hi: D| match rng.below(4) {
        0 => hi,
        1 => hi + atto,
        2 => -atto,
        _ => D::ZERO,
    };
    match rng.below(18) {
        0 => c.price_age_max = edge_seconds(rng),
        1 => c.update_period_seconds = edge_seconds(rng),
        2 => c.oi_max = rng.pick(&[D::ZERO, -atto]),
        3 => c.trade_size_min = rng.pick(&[D::ZERO, -atto]),
        4 => c.update_price_delta_ratio = rng.pick(&[D::ZERO, -atto, dec!("0.00001")]),
        5 => {
            c.margin_initial = hi_lo(rng, D::ONE);
            c.margin_maintenance = D::ZERO;
        }
        6 => {
            c.margin_initial = D::ONE;
            c.margin_maintenance = hi_lo(rng, D::ONE);
        }
        7 => {
            c.margin_initial = dec!("0.1");
            c.margin_maintenance = rng.pick(&[dec!("0.1"), dec!("0.1") + atto]);
        }
        8 => c.funding_1 = hi_lo(rng, dec!(2)),
        9 => c.funding_2 = hi_lo(rng, dec!(4)),
        10 => c.funding_2_delta = hi_lo(rng, dec!(10000)),
        11 => c.funding_2_decay = rng.pick(&[D::ZERO, -atto]),
        12 => c.funding_pool_0 = hi_lo(rng, D::ONE),
        13 => c.funding_pool_1 = hi_lo(rng, dec!(2)),
        14 => c.funding_share = hi_lo(rng, dec!("0.1")),
        15 => c.fee_0 = hi_lo(rng, dec!("0.015")),
        16 => c.fee_1 = hi_lo(rng, dec!("0.000001")),
        _ => {
            c.oi_max = rng.log(1.0, 1e9);
            c.margin_initial = rng.dec(0.001, 1.0);
            c.margin_maintenance = c.margin_initial * rng.dec(0.1, 0.98);
            c.funding_2_decay = rng.log(0.001, 1e6);
            c.fee_0 = rng.dec(0.0, 0.015);
        }
    }
}

/// One value at or beyond a bound.
pub fn distort_collateral(rng: &mut Rng, c: &mut CollateralConfig) {
    match rng.below(10) {
        0 => c.discount = dec!("0.8"),
        1 => c.discount = dec!("0.799"),
        2 => c.discount = dec!("1"),
        3 => c.discount = dec!("1.000000000000000001"),
        4 => c.margin = dec!("0.1"),
        5 => c.margin = dec!("0.100000000000000001"),
        6 => c.margin = -ATTO,
        _ => c.price_age_max = edge_seconds(rng),
    }
}

pub fn exchange_config_differences(a: &ExchangeConfig, b: &ExchangeConfig) -> Vec<String> {
    let mut o = vec![];
    exact("positions_max", a.positions_max, b.positions_max, &mut o);
    exact("collaterals_max", a.collaterals_max, b.collaterals_max, &mut o);
    exact("active_requests_max", a.active_requests_max, b.active_requests_max, &mut o);
    rough("skew_ratio_cap", a.skew_ratio_cap, b.skew_ratio_cap, &mut o);
    rough("adl_offset", a.adl_offset, b.adl_offset, &mut o);
    rough("adl_a", a.adl_a, b.adl_a, &mut o);
    rough("adl_b", a.adl_b, b.adl_b, &mut o);
    rough("fee_liquidity_add", a.fee_liquidity_add, b.fee_liquidity_add, &mut o);
    rough("fee_liquidity_remove", a.fee_liquidity_remove, b.fee_liquidity_remove, &mut o);
    rough("fee_share_protocol", a.fee_share_protocol, b.fee_share_protocol, &mut o);
    rough("fee_share_treasury", a.fee_share_treasury, b.fee_share_treasury, &mut o);
    rough("fee_share_referral", a.fee_share_referral, b.fee_share_referral, &mut o);
    rough("fee_max", a.fee_max, b.fee_max, &mut o);
    rough("protocol_burn_amount", a.protocol_burn_amount, b.protocol_burn_amount, &mut o);
    rough("reward_keeper", a.reward_keeper, b.reward_keeper, &mut o);
    o
}
pub fn pair_config_differences(a: &PairConfig, b: &PairConfig) -> Vec<String> {
    let mut o = vec![];
    exact("pair_id", a.pair_id.clone(), b.pair_id.clone(), &mut o);
    exact("price_age_max", a.price_age_max, b.price_age_max, &mut o);
    exact("update_period_seconds", a.update_period_seconds, b.update_period_seconds, &mut o);
    rough("oi_max", a.oi_max, b.oi_max, &mut o);
    rough("trade_size_min", a.trade_size_min, b.trade_size_min, &mut o);
    rough("update_price_delta_ratio", a.update_price_delta_ratio, b.update_price_delta_ratio, &mut o);
    rough("margin_initial", a.margin_initial, b.margin_initial, &mut o);
    rough("margin_maintenance", a.margin_maintenance, b.margin_maintenance, &mut o);
    rough("funding_1", a.funding_1, b.funding_1, &mut o);
    rough("funding_2", a.funding_2, b.funding_2, &mut o);
    rough("funding_2_delta", a.funding_2_delta, b.funding_2_delta, &mut o);
    rough("funding_2_decay", a.funding_2_decay, b.funding_2_decay, &mut o);
    rough("funding_pool_0", a.funding_pool_0, b.funding_pool_0, &mut o);
    rough("funding_pool_1", a.funding_pool_1, b.funding_pool_1, &mut o);
    rough("funding_share", a.funding_share, b.funding_share, &mut o);
    rough("fee_0", a.fee_0, b.fee_0, &mut o);
    rough("fee_1", a.fee_1, b.fee_1, &mut o);
    o
}
pub fn collateral_config_differences(a: &CollateralConfig, b: &CollateralConfig) -> Vec<String> {
    let mut o = vec![];
    exact("pair_id", a.pair_id.clone(), b.pair_id.clone(), &mut o);
    exact("price_age_max", a.price_age_max, b.price_age_max, &mut o);
    rough("discount", a.discount, b.discount, &mut o);
    rough("margin", a.margin, b.margin, &mut o);
    o
}
