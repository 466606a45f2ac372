//! What the exchange reports against what it is, and lists page by page.

use crate::campaign::Ep;
use crate::judge::*;
use crate::model::*;
use crate::real::{args, pair, request};
use crate::report::hash;
use crate::rng::*;
use std::collections::{BTreeMap as Map, BTreeSet as Set};
use world::*;

use ::account::{KeeperRequest, MarginAccountInfo};
use ::exchange::*;
use ::pool::{MarginPoolInfo, PoolPosition};
use ::referral_generator::{ReferralAllocation, ReferralData};

/// A recorded finding.
pub const UNREADABLE: &str = "the details of an account cannot be read once it names, in a withdrawal request, a token it does not hold";

struct Looker<'a, 'b> {
    ep: &'a mut Ep<'b>,
    calls: Vec<(ComponentAddress, &'static str, ManifestValue)>,
}

impl<'a, 'b> Looker<'a, 'b> {
    fn judge<T: std::hash::Hash>(&mut self, situation: &T, ok: bool, text: impl FnOnce() -> String) {
        let what = hash(situation);
        self.ep.mon.judged("P29", what);
        if !ok {
            let (e, log) = (self.ep.episode, self.ep.log.clone());
            self.ep.mon.violation(&["P29"], &text(), e, &log);
        }
    }
    fn same<T: PartialEq + std::fmt::Debug>(&mut self, what: &str, want: &T, have: &T) {
        let k = format!("{want:?}");
        let ok = want == have;
        self.judge(&(what, k), ok, || format!("{what}: {have:?} instead of {want:?}"));
    }
    fn near(&mut self, what: &str, want: D, have: D) {
        let k = want.to_string();
        self.judge(&(what, k), close(want, have), || format!("{what}: {have} instead of {want}"));
    }
    /// Asks for something, and says where the answer will be.
    fn ask(&mut self, at: ComponentAddress, method: &'static str, v: ManifestValue) -> usize {
        *self.ep.mon.stats.ops.entry(method.to_string()).or_default() += 1;
        self.calls.push((at, method, v));
        self.calls.len() - 1
    }
}

/// A page size, and where it starts or ends.
fn page(r: &mut Rng, len: u64) -> (u64, Option<u64>) {
    let n = match r.below(6) {
        0 => 0,
        1 => u64::MAX - r.below(2) as u64,
        2 => len,
        _ => r.int(1, len as i64 + 2) as u64,
    };
    let start = match r.below(6) {
        0 => None,
        1 => Some(u64::MAX - r.below(2) as u64),
        2 => Some(len.saturating_sub(1)),
        _ => Some(r.int(0, len as i64 + 2) as u64),
    };
    (n, start)
}

fn ascending(len: u64, n: u64, start: Option<u64>) -> Vec<u64> {
    (0..len).filter(|i| *i >= start.unwrap_or(0)).take(n.min(len) as usize).collect()
}
fn descending(len: u64, n: u64, end: Option<u64>) -> Vec<u64> {
    (0..len).rev().filter(|i| end.map_or(true, |e| *i <= e)).take(n.min(len) as usize).collect()
}

pub fn reads(ep: &mut Ep) {
    // What can be wrapped, in the order in which it was added.
    let wrapper = ep.rig.w.a.token_wrapper;
    let mut inputs: Vec<(ResourceAddress, bool, D)> = vec![];
    let mut tokens = vec![ep.rig.w.a.tokens[0], ep.rig.w.a.tokens[1], ep.rig.w.a.tokens[2], ep.rig.w.a.junk];
    for _ in 0..ep.rng.below(5) {
        let t = tokens.remove(ep.rng.below(tokens.len()));
        ep.rig.w.owner_call(wrapper, "add_input", args(&(t,))).expect("input");
        let amount = D::from(ep.rng.int(0, 5));
        if !amount.is_zero() {
            ep.rig.w.paying(wrapper, "wrap", &[(t, amount)], |b| args(&(b[0],)), &[]).expect("wrap");
        }
        let open = ep.rng.percent(70);
        ep.rig.w.owner_call(wrapper, "update_wrappable", args(&(t, open))).expect("switch");
        inputs.push((t, open, amount));
    }
    ep.state = ep.rig.read();
    // The order in which pairs were first configured.
    let mut order: Vec<Id> = vec![];
    // Lists that are long, in one episode out of four.
    let crowd = ep.rng.int(1, 18);
    for block in 1..=5 {
        ep.run(block as usize * 24);
        let many = ep.rng.below(3);
        for _ in 0..many {
            more_pairs(ep);
        }
        if block == crowd {
            crowded(ep);
        }
        if block == 5 && ep.episode % 4 == 1 {
            let (acc, _) = ep.rig.accounts[0];
            let op = Op::Remove {
                acc,
                expiry: 1000,
                target: ep.rig.targets[0],
                claims: vec![(ep.rig.w.a.junk, D::ONE)],
                oath: None,
            };
            ep.step(op);
        }
        for _ in 0..2 {
            let mut x = Looker { ep: &mut *ep, calls: vec![] };
            look(&mut x, &mut order, &inputs);
        }
    }
}

/// More of everything than fits on one page.
fn crowded(ep: &mut Ep) {
    if ep.rng.percent(50) {
        let n = ep.rng.int(65, 140);
        let mut l = vec![];
        for i in 0..n {
            let mut c = ep.some_pair_config("BTC/USD");
            c.pair_id = format!("Y{i}/USD");
            l.push(c);
        }
        // The event of a batch is limited to 32 kB.
        for l in l.chunks(40) {
            ep.step(Op::SetPairs(l.to_vec()));
        }
        return;
    }
    let mut c = ep.state.ex.clone();
    c.active_requests_max = 300;
    ep.step(Op::SetExchange(c));
    let l: Vec<_> = ep.state.accounts.keys().copied().collect();
    let acc = ep.rng.pick(&l);
    let target = ep.rig.targets[0];
    let base = ep.rig.w.a.base;
    for i in 0..ep.rng.int(65, 110) {
        ep.step(Op::Remove { acc, expiry: 1000, target, claims: vec![(base, D::from(1 + i))], oath: None });
        if ep.rng.percent(8) {
            let open = ep.state.accounts[&acc].reqs.len() as u64;
            let k = ep.rng.below(open as usize) as u64;
            ep.step(Op::Cancel { acc, indexes: vec![k], oath: None });
        }
    }
}

/// Further pairs, and changes of those there are.
fn more_pairs(ep: &mut Ep) {
    let n = ep.rng.int(1, 4);
    let mut l = vec![];
    for _ in 0..n {
        let p = if ep.rng.percent(70) { format!("X{}/USD", ep.rng.below(12)) } else { ep.rng.pick(&ep.pairs.clone()) };
        let mut c = ep.some_pair_config(if p.starts_with('X') && !ep.pairs.contains(&p) { "BTC/USD" } else { &p });
        c.pair_id = p;
        l.push(c);
    }
    ep.step(Op::SetPairs(l));
}

fn look(x: &mut Looker, order: &mut Vec<Id>, inputs: &[(ResourceAddress, bool, D)]) {
    let a = x.ep.rig.w.a.clone();
    let e = a.exchange;
    x.ep.state = x.ep.rig.read();
    let s = x.ep.state.clone();

    // What the vaults hold.
    let held = x.ep.rig.w.sim.balance(a.pool, a.base);
    x.same("base tokens of the pool", &held, &s.base_tokens);
    let supply = x.ep.rig.w.sim.total_supply(a.lp);

    // Pairs, page by page.
    let all = x.ask(e, "get_pairs", args(&(10_000u64, None::<u64>)));
    let len = x.ask(e, "get_pair_configs_len", args(&()));
    let direct_len = x.ask(a.config, "get_pair_configs_len", args(&()));
    let known = s.pair_cfg.len() as u64;
    let mut pages = vec![];
    for _ in 0..3 {
        let (n, start) = page(&mut x.ep.rng, known);
        let i = x.ask(e, "get_pairs", args(&(n, start)));
        let j = x.ask(e, "get_pair_configs", args(&(n, start)));
        pages.push((n, start, i, j));
    }
    let size = x.ep.rng.int(1, known as i64 + 1) as u64;
    let mut tiles = vec![];
    let mut at = 0;
    while at < known + size {
        tiles.push(x.ask(e, "get_pairs", args(&(size, Some(at)))));
        at += size;
    }
    // Tokens that can be wrapped.
    let wrappable = inputs.len() as u64;
    let mut input_pages = vec![];
    for _ in 0..3 {
        let (n, start) = page(&mut x.ep.rng, wrappable);
        input_pages.push((n, start, x.ask(a.token_wrapper, "get_inputs", args(&(n, start)))));
    }
    // The rest of the configuration, and the balances.
    let ex = x.ask(e, "get_exchange_config", args(&()));
    let coll = x.ask(e, "get_collateral_configs", args(&()));
    let tokens = x.ask(e, "get_collaterals", args(&()));
    let protocol = x.ask(e, "get_protocol_balance", args(&()));
    let treasury = x.ask(e, "get_treasury_balance", args(&()));
    let delegator = x.ask(a.fee_delegator, "get_info", args(&()));
    let delegator_vb = x.ask(a.fee_delegator, "get_virtual_balance", args(&()));
    let pool = x.ask(e, "get_pool_details", args(&()));
    // Some pairs, in any order and even twice.
    let configured: Vec<Id> = s.pair_cfg.keys().cloned().collect();
    // What has never been traded has the figures of a new pair.
    let figures: Map<Id, Pair> = configured
        .iter()
        .map(|p| (p.clone(), s.pairs.get(p).cloned().unwrap_or(Pair::fresh(s.now))))
        .collect();
    let mut wanted: Vec<Id> = vec![];
    for _ in 0..x.ep.rng.below(4) {
        wanted.push(x.ep.rng.pick(&configured));
    }
    let details = x.ask(e, "get_pair_details", args(&(wanted.clone(),)));
    let set: Set<Id> = configured.iter().cloned().collect();
    let info = x.ask(a.pool, "get_info", args(&(set.clone(),)));
    let positions = x.ask(a.pool, "get_positions", args(&(set.clone(),)));
    let single: Id = x.ep.rng.pick(&configured);
    let position = x.ask(a.pool, "get_position", args(&(single.clone(),)));
    // Accounts.
    let mut accounts = vec![];
    for (acc, _) in x.ep.rig.accounts.clone() {
        let l = s.accounts[&acc].reqs.len() as u64;
        let (n, end) = page(&mut x.ep.rng, l);
        let i = x.ask(e, "get_account_details", args(&(acc, n, end)));
        let (n1, start) = page(&mut x.ep.rng, l);
        x.ask(acc, "get_requests", args(&(n1, start)));
        let (n2, end2) = page(&mut x.ep.rng, l);
        x.ask(acc, "get_requests_tail", args(&(n2, end2)));
        x.ask(acc, "get_requests_len", args(&()));
        x.ask(acc, "get_active_requests", args(&()));
        x.ask(acc, "get_info", args(&()));
        let which: Vec<u64> = (0..x.ep.rng.below(4)).map(|_| x.ep.rng.int(0, l as i64 + 2) as u64).collect();
        x.ask(acc, "get_requests_by_indexes", args(&(which.clone(),)));
        let one = x.ep.rng.int(0, l as i64 + 1) as u64;
        x.ask(acc, "get_request", args(&(one,)));
        accounts.push((acc, (n, end), (n1, start), (n2, end2), which, one, i));
    }
    let mut referrals = vec![];
    for b in x.ep.rig.badges.clone() {
        referrals.push((b.clone(), x.ask(e, "get_referral_details", args(&(b,)))));
    }

    let calls = std::mem::take(&mut x.calls);
    for (acc, (n, end), .., i) in &accounts {
        let m = s.accounts[acc].clone();
        let l = m.reqs.len() as u64;
        let shown: Set<u64> = descending(l, *n, *end).into_iter().chain(m.active.iter().copied()).collect();
        // The ledger lets nobody name a token out of the blue, not even in an answer.
        let blue = shown.iter().any(|k| match &m.reqs[*k as usize].rq {
            Rq::Remove { claims, .. } => {
                claims.iter().any(|(r, _)| !s.coll_cfg.contains_key(r) && !m.coll.contains_key(r) && *r != a.base)
            }
            _ => false,
        });
        let (c, f, v) = calls[*i].clone();
        let r = x.ep.rig.w.query(vec![(c, f, v)]);
        let (ok, error) = (r.ok(), r.error());
        x.judge(&("answered", blue, shown.len().min(9)), ok, || {
            let error: String = error.chars().take(1500).collect();
            if blue && error.contains("NodeNotVisible") {
                format!("{UNREADABLE}: {error}")
            } else {
                format!("the details of an account were refused: {error}")
            }
        });
        if !ok {
            return;
        }
    }
    let asked = calls.clone();
    // Asked in a real transaction, now and then: nothing may come of it.
    if x.ep.rng.percent(30) {
        let w = &mut x.ep.rig.w;
        let b = asked.iter().take(40).fold(w.b(), |b, (c, m, v)| b.call_method(*c, *m, Raw(v.clone())));
        let r = w.run(b, &[]);
        let moved: Vec<_> = w.flows(&r).into_iter().filter(|(_, d)| !d.is_zero()).collect();
        let events: usize = [
            "EventPairUpdates", "EventRequests", "EventMarginOrder", "EventLiquidityChange", "EventAccountCreation",
            "EventPairConfigUpdates", "EventExchangeConfigUpdate",
        ]
        .iter()
        .map(|n| r.events_named(n).len())
        .sum();
        let after = x.ep.rig.read();
        let d = differences(&flatten(&s), &flatten(&after), &|_| true);
        let ok = r.ok();
        let error = r.error();
        x.judge(&("transaction", asked.len(), s.accounts.len()), ok, || format!("reading in a transaction was refused: {error}"));
        x.judge(&("nothing moves", moved.len()), moved.is_empty(), || format!("reading moved {moved:?}"));
        x.judge(&("nothing announced", events), events == 0, || "reading announced something".to_string());
        x.judge(&("nothing changes", asked.len(), s.lp_supply.to_string()), d.is_empty(), || format!("reading changed {:?}", d[0].1));
    }

    let q = x.ep.rig.w.query(calls);
    let (ok, error) = (q.ok(), q.error());
    x.judge(&"answered", ok, || format!("reading was refused: {}", error.chars().take(300).collect::<String>()));
    if !ok {
        return;
    }

    let now: Vec<Id> = q.output(all);
    let set_now: Set<Id> = now.iter().cloned().collect();
    x.same("the pairs", &s.pair_cfg.keys().cloned().collect::<Set<_>>(), &set_now);
    x.same("how many pairs are listed", &s.pair_cfg.len(), &now.len());
    let so_far = order.len().min(now.len());
    x.same("the order of the pairs", &order[..so_far].to_vec(), &now[..so_far].to_vec());
    *order = now.clone();
    x.same("how many pairs there are", &known, &q.output::<u64>(len));
    x.same("how many pairs are configured", &known, &q.output::<u64>(direct_len));
    for (n, start, i, j) in pages {
        let want: Vec<Id> = ascending(known, n, start).into_iter().map(|k| now[k as usize].clone()).collect();
        x.same(&format!("{n} pairs from {start:?}"), &want, &q.output::<Vec<Id>>(i));
        let have: Vec<PairConfig> = q.output(j);
        x.same(&format!("{n} configurations from {start:?}"), &want, &have.iter().map(|c| c.pair_id.clone()).collect::<Vec<_>>());
        for c in have {
            x.same("a configuration on a page", &s.pair_cfg.get(&c.pair_id).map(|c| format!("{c:?}")), &Some(format!("{c:?}")));
        }
    }
    let tiled: Vec<Id> = tiles.iter().flat_map(|i| q.output::<Vec<Id>>(*i)).collect();
    x.same(&format!("all pages of {size} pairs"), &now, &tiled);

    for (n, start, i) in input_pages {
        let want: Vec<_> = ascending(wrappable, n, start).into_iter().map(|k| inputs[k as usize]).collect();
        x.same(&format!("{n} inputs from {start:?}"), &want, &q.output(i));
    }

    x.same("the exchange's configuration", &format!("{:?}", s.ex), &format!("{:?}", q.output::<ExchangeConfig>(ex)));
    let have: Map<ResourceAddress, String> =
        q.output::<HashMap<ResourceAddress, CollateralConfig>>(coll).into_iter().map(|(r, c)| (r, format!("{c:?}"))).collect();
    x.same("collateral", &s.coll_cfg.iter().map(|(r, c)| (*r, format!("{c:?}"))).collect::<Map<_, _>>(), &have);
    let mut have: Vec<ResourceAddress> = q.output(tokens);
    have.sort();
    x.same("collateral tokens", &s.coll_cfg.keys().copied().collect::<Vec<_>>(), &have);
    x.same("the protocol's balance", &s.protocol, &q.output::<D>(protocol));
    x.same("the treasury's balance", &s.treasury, &q.output::<D>(treasury));
    let d: (D, D, D, D, bool) = q.output(delegator);
    x.same("the delegator's balance", &s.delegator_vb, &d.1);
    x.same("the delegator's balance by itself", &s.delegator_vb, &q.output::<D>(delegator_vb));
    let xrd = x.ep.rig.w.sim.balance(a.fee_delegator, XRD);
    x.same("the delegator's funds", &xrd, &d.0);

    let p: PoolDetails = q.output(pool);
    x.same("details: tokens of the pool", &s.base_tokens, &p.base_tokens_amount);
    x.same("details: balance of the pool", &s.pool_vb, &p.virtual_balance);
    x.same("details: unrealised funding", &s.unrealized, &p.unrealized_pool_funding);
    x.same("details: unrealised profit", &s.pnl, &p.pnl_snap);
    x.same("details: shares", &supply, &p.lp_supply);
    x.same("details: cap on the skew", &s.ex.skew_ratio_cap, &p.skew_ratio_cap);
    let value = s.base_tokens + s.pool_vb + s.unrealized + s.pnl;
    let value = if value > D::ONE { value } else { D::ONE };
    x.near("details: skew ratio", s.skew_abs / value, p.skew_ratio);
    x.near("details: share price", if supply.is_zero() { D::ONE } else { value / supply }, p.lp_price);

    let l: Vec<PairDetails> = q.output(details);
    x.same("pairs in detail", &wanted, &l.iter().map(|c| c.pair_id.clone()).collect::<Vec<_>>());
    for c in l {
        x.same("figures of a pair", &figures.get(&c.pair_id), &Some(&pair(&c.pool_position)));
        x.same(
            "configuration of a pair",
            &s.pair_cfg.get(&c.pair_id).map(|c| format!("{c:?}")),
            &Some(format!("{:?}", c.pair_config)),
        );
    }
    let i: MarginPoolInfo = q.output(info);
    x.same("the pool's pairs", &figures, &i.positions.iter().map(|(p, q)| (p.clone(), pair(q))).collect());
    let have: HashMap<Id, PoolPosition> = q.output(positions);
    x.same("the pool's pairs alone", &figures, &have.iter().map(|(p, q)| (p.clone(), pair(q))).collect());
    x.same("one pair of the pool", &figures[&single], &pair(&q.output::<PoolPosition>(position)));

    for (acc, (n, end), (n1, start), (n2, end2), which, one, i) in accounts {
        let m = s.accounts[&acc].clone();
        let l = m.reqs.len() as u64;
        let d: AccountDetails = q.output(i);
        x.same("details: balance of an account", &m.vb, &d.virtual_balance);
        let mut seen = Map::new();
        for z in &d.positions {
            seen.insert(z.pair_id.clone(), (z.amount, z.cost));
            let c = &s.pair_cfg[&z.pair_id];
            let pos = m.positions.get(&z.pair_id);
            x.judge(&"a position", pos.is_some(), || format!("details: a position in {} that is not there", z.pair_id));
            let Some(pos) = pos else { continue };
            let f = &s.pairs[&z.pair_id];
            let owed = if pos.amount > D::ZERO { pos.amount * (f.long_index - pos.index) } else { -pos.amount * (f.short_index - pos.index) };
            x.near("details: funding of a position", owed, z.funding);
            x.near("details: initial margin of a position", abs(pos.amount) * c.margin_initial, z.margin_initial);
            x.near("details: maintenance margin of a position", abs(pos.amount) * c.margin_maintenance, z.margin_maintenance);
        }
        x.same("details: how many positions", &m.positions.len(), &d.positions.len());
        x.same("details: positions", &m.positions.iter().map(|(p, z)| (p.clone(), (z.amount, z.cost))).collect(), &seen);
        x.same("details: how many collaterals", &s.coll_cfg.len(), &d.collaterals.len());
        for z in &d.collaterals {
            let c = s.coll_cfg.get(&z.resource);
            x.judge(&"a collateral", c.is_some(), || format!("details: a collateral {:?} that is none", z.resource));
            let Some(c) = c else { continue };
            let amount = m.coll.get(&z.resource).copied().unwrap_or(D::ZERO);
            x.same("details: pair of a collateral", &c.pair_id, &z.pair_id);
            x.same("details: amount of a collateral", &amount, &z.amount);
            x.same("details: discount of a collateral", &c.discount, &z.discount);
            x.near("details: margin of a collateral", amount * c.margin, z.margin);
            let held = x.ep.rig.w.sim.balance(acc, z.resource);
            x.same("collateral that is really held", &held, &z.amount);
        }
        x.same("details: first valid request", &m.start, &d.valid_requests_start);
        x.same("details: number of requests", &l, &d.requests_len);
        let of = |k: u64| {
            let r = &m.reqs[k as usize];
            (k, r.rq.clone(), r.submission, r.expiry, r.status)
        };
        let shown = |z: &RequestDetails| {
            let r = request(&KeeperRequest {
                request: z.request.encode(),
                submission: z.submission,
                expiry: z.expiry,
                status: z.status,
                effected_components: vec![],
            });
            (z.index, r.rq, r.submission, r.expiry, r.status)
        };
        let open: Vec<u64> = (0..l).filter(|k| *k >= m.start && m.reqs[*k as usize].status <= ACTIVE).collect();
        // The newest first.
        let have: Vec<_> = d.active_requests.iter().map(shown).collect();
        x.same("details: open requests", &open.iter().rev().map(|k| of(*k)).collect::<Vec<_>>(), &have);
        let want: Vec<_> = descending(l, n, end).into_iter().map(of).collect();
        x.same(&format!("details: {n} requests of {l} down from {end:?}"), &want, &d.requests_history.iter().map(shown).collect());
        let r = m.referral.clone();
        let have = d.referral.as_ref().map(|(g, _)| (g.resource_address(), g.local_id().clone()));
        x.same("details: referral", &r.clone().map(|r| (a.referral, r)), &have);
        if let (Some(r), Some((_, d))) = (r, &d.referral) {
            referral(x, &s.referrals[&r], d);
        }

        let have: Vec<(u64, KeeperRequest)> = q.output(i + 1);
        let have: Vec<_> = have.iter().map(|(k, r)| (*k, request(r))).collect();
        let want: Vec<_> = ascending(l, n1, start).into_iter().map(|k| (k, m.reqs[k as usize].clone())).collect();
        x.same(&format!("{n1} requests of {l} from {start:?}"), &want, &have);
        let have: Vec<(u64, KeeperRequest)> = q.output(i + 2);
        let have: Vec<_> = have.iter().map(|(k, r)| (*k, request(r))).collect();
        let want: Vec<_> = descending(l, n2, end2).into_iter().map(|k| (k, m.reqs[k as usize].clone())).collect();
        x.same(&format!("{n2} requests of {l} down from {end2:?}"), &want, &have);
        x.same("number of requests", &l, &q.output::<u64>(i + 3));
        let have: HashMap<u64, KeeperRequest> = q.output(i + 4);
        x.same(
            "open requests",
            &open.iter().map(|k| (*k, m.reqs[*k as usize].clone())).collect(),
            &have.iter().map(|(k, r)| (*k, request(r))).collect::<Map<_, _>>(),
        );
        let f: MarginAccountInfo = q.output(i + 5);
        x.same("number of open requests", &(open.len() as u64), &(f.active_requests_len as u64));
        x.same("number of requests in the summary", &l, &f.requests_len);
        x.same("first valid request in the summary", &m.start, &f.valid_requests_start);
        let have: HashMap<u64, Option<KeeperRequest>> = q.output(i + 6);
        x.same(
            "requests by their indexes",
            &which.iter().map(|k| (*k, m.reqs.get(*k as usize).cloned())).collect(),
            &have.iter().map(|(k, r)| (*k, r.as_ref().map(request))).collect::<Map<_, _>>(),
        );
        let have: Option<KeeperRequest> = q.output(i + 7);
        x.same("one request", &m.reqs.get(one as usize).cloned(), &have.as_ref().map(request));
    }
    for (b, i) in referrals {
        let d: ReferralDetails = q.output(i);
        referral(x, &s.referrals[&b], &d.referral);
        let have: Vec<_> = d.allocations.iter().map(allocation).collect();
        x.same("allocations of a referral", &s.allocations.get(&b).cloned().unwrap_or_default(), &have);
    }
    x.ep.mon.stats.states += 1;
}

fn allocation(x: &ReferralAllocation) -> Allocation {
    Allocation { claims: x.claims.clone(), count: x.count, max: x.max_count }
}

fn referral(x: &mut Looker, want: &Referral, have: &ReferralData) {
    let have = Referral {
        share: have.fee_referral,
        rebate: have.fee_rebate,
        referrals: have.referrals,
        max: have.max_referrals,
        balance: have.balance,
        total: have.total_rewarded,
    };
    x.same("data of a referral", want, &have);
}
