//! Who may do what with an account, and what the registry says about it.

use crate::model::{ATTO, D};
use crate::real::args;
use crate::small::*;
use std::collections::{BTreeMap as Map, BTreeSet as Set};
use world::*;

type Node = AccessRuleNode;
type Need = ResourceOrNonFungible;

/// What is shown in a transaction besides the bank's and the owner's signatures.
#[derive(Clone, Default, Debug)]
struct Shown {
    badges: Vec<NonFungibleGlobalId>,
    junk: D,
}

impl Shown {
    fn has(&self, junk: ResourceAddress, n: &Need) -> bool {
        match n {
            ResourceOrNonFungible::NonFungible(id) => self.badges.contains(id),
            ResourceOrNonFungible::Resource(r) => *r == junk && self.junk.is_positive() || self.badges.iter().any(|b| b.resource_address() == *r),
        }
    }
    fn node(&self, junk: ResourceAddress, n: &Node) -> bool {
        match n {
            AccessRuleNode::AnyOf(l) => l.iter().any(|x| self.node(junk, x)),
            AccessRuleNode::AllOf(l) => l.iter().all(|x| self.node(junk, x)),
            AccessRuleNode::ProofRule(p) => match p {
                ProofRule::Require(x) => self.has(junk, x),
                ProofRule::AmountOf(d, r) => *r == junk && self.junk >= *d && self.junk.is_positive(),
                ProofRule::CountOf(n, l) => {
                    *n == 0 || l.iter().filter(|x| self.has(junk, x)).count() >= *n as usize
                }
                ProofRule::AllOf(l) => l.iter().all(|x| self.has(junk, x)),
                ProofRule::AnyOf(l) => l.iter().any(|x| self.has(junk, x)),
            },
        }
    }
    fn rule(&self, junk: ResourceAddress, r: &AccessRule) -> bool {
        match r {
            AccessRule::AllowAll => true,
            AccessRule::DenyAll => false,
            AccessRule::Protected(n) => self.node(junk, n),
        }
    }
}

struct Acc {
    address: ComponentAddress,
    levels: [AccessRule; 3],
    requests: u64,
    /// Those before are cancelled.
    open: u64,
}

fn extended(old: &AccessRule, new: Node) -> AccessRule {
    match old {
        AccessRule::Protected(AccessRuleNode::AnyOf(l)) => {
            let mut l = l.clone();
            l.push(new);
            AccessRule::Protected(AccessRuleNode::AnyOf(l))
        }
        AccessRule::Protected(n) => AccessRule::Protected(AccessRuleNode::AnyOf(vec![n.clone(), new])),
        _ => AccessRule::Protected(new),
    }
}

/// Roughly.
fn rule_size(r: &AccessRule) -> usize {
    key(r).len() / 32
}

/// The rules under which the registry has to list an account at a level with this rule.
fn listed(r: &AccessRule) -> Vec<AccessRule> {
    let mut out = vec![r.clone()];
    if let AccessRule::Protected(AccessRuleNode::AnyOf(l)) = r {
        out.extend(l.iter().map(|n| AccessRule::Protected(n.clone())));
    }
    out
}

/// The ledger takes no keys of more than 1024 bytes.
fn key(r: &AccessRule) -> Vec<u8> {
    scrypto_encode(r).unwrap()
}

pub fn auth(cx: &mut Cx) {
    let a = cx.w.a.clone();
    let (e, junk, bank) = (a.exchange, a.junk, cx.w.bank.account);
    let actors: Vec<Actor> = (0..4).map(|i| Actor::new(100 + i)).collect();
    let mut keys: Vec<NonFungibleGlobalId> = vec![];
    let mut accounts: Vec<Acc> = vec![];
    let mut rules: Map<Vec<u8>, AccessRule> = Map::new();
    let judge_auth = cx.prop == "P15";
    let judge_fees = cx.prop == "P24";
    cx.judging_outcomes = judge_auth;
    let charged = cx.w.query(vec![(a.fee_delegator, "get_info", args(&()))]);
    let (_, mut receivable, most, rate, _): (D, D, D, D, bool) = charged.output(0);
    let usd: D = dec!("16.666666666666666666");
    let value = |x: D| usd * rate * x;
    // A place where orders can be left.
    cx.w.set_pair_configs(&[pair_config("BTC/USD")]).expect("pair");
    // Means to have fees delegated, and prices to value orders at.
    {
        let b = cx.w.as_owner(cx.w.b().call_method(FAUCET, "free", manifest_args!())).take_from_worktop(XRD, dec!(100), "xrd");
        let xrd = b.name_lookup().bucket("xrd");
        cx.w.run(b.call_method(a.fee_delegator, "deposit", manifest_args!(xrd)), &[]).expect("delegator funds");
        let now = cx.w.sim.now();
        cx.w.push_prices(&sign_prices(ORACLE_KEY, 0, &[("BTC/USD".to_string(), dec!(1), now)])).expect("price");
    }
    // An account that only looks like one: the same code, from somewhere else.
    let foreign = if judge_auth && cx.episode % 3 == 0 {
        let i = BLUEPRINTS.iter().position(|b| *b == "MarginAccount").unwrap();
        let p = cx.w.sim.publish_native(i, None);
        let all = AccessRule::AllowAll;
        let dapp: GlobalAddress = cx.w.owner.account.into();
        let b = cx.w.as_authority(cx.w.b()).call_function(
            p,
            "MarginAccount",
            "new",
            manifest_args!(all.clone(), all.clone(), all, None::<NonFungibleLocalId>, dapp, None::<ManifestAddressReservation>),
        );
        let r = cx.w.run(b, &[]);
        if r.ok() {
            r.commit().new_component_addresses().first().copied()
        } else {
            panic!("no foreign account: {}", r.error())
        }
    } else {
        None
    };
    let mut names: Vec<(String, String)> =
        actors.iter().enumerate().map(|(i, x)| (format!("{:?}", x.badge), format!("a{i}"))).collect();
    names.push((format!("Resource({junk:?})"), "junk".into()));
    names.push((format!("{junk:?}"), "junk".into()));
    let mut balances: Vec<D> = vec![];
    let need = |cx: &mut Cx, keys: &[NonFungibleGlobalId]| -> Need {
        let k = cx.rng.below(10);
        if k < 6 || (k < 9 && keys.is_empty()) {
            ResourceOrNonFungible::NonFungible(cx.rng.pick(&actors).badge)
        } else if k < 9 {
            ResourceOrNonFungible::NonFungible(cx.rng.pick(keys))
        } else {
            ResourceOrNonFungible::Resource(junk)
        }
    };
    fn node(cx: &mut Cx, depth: u32, junk: ResourceAddress, need: &dyn Fn(&mut Cx) -> Need) -> Node {
        let k = if depth == 0 { cx.rng.below(8) } else { cx.rng.below(14) };
        let list = |cx: &mut Cx| -> Vec<Need> { (0..cx.rng.int(1, 3)).map(|_| need(cx)).collect() };
        match k {
            0..=3 => AccessRuleNode::ProofRule(ProofRule::Require(need(cx))),
            4 => AccessRuleNode::ProofRule(ProofRule::AmountOf(D::from(cx.rng.int(1, 3)), junk)),
            5 => {
                let l = list(cx);
                let n = cx.rng.int(1, l.len() as i64) as u8;
                AccessRuleNode::ProofRule(ProofRule::CountOf(n, l))
            }
            6 => AccessRuleNode::ProofRule(ProofRule::AllOf(list(cx))),
            7 => AccessRuleNode::ProofRule(ProofRule::AnyOf(list(cx))),
            8..=11 => {
                let n = cx.rng.int(1, 3);
                AccessRuleNode::AnyOf((0..n).map(|_| node(cx, depth - 1, junk, need)).collect())
            }
            _ => {
                let n = cx.rng.int(1, 2);
                AccessRuleNode::AllOf((0..n).map(|_| node(cx, depth - 1, junk, need)).collect())
            }
        }
    }
    for step in 0..34 {
        cx.names = names.clone();
        let needs = keys.clone();
        let pick_need = |cx: &mut Cx| need(cx, &needs);
        // A rule: fresh, or one that somebody has already.
        let any_rule = |cx: &mut Cx, rules: &Map<Vec<u8>, AccessRule>| -> AccessRule {
            match cx.rng.below(12) {
                0 => AccessRule::AllowAll,
                1 => AccessRule::DenyAll,
                2..=6 if !rules.is_empty() => {
                    let all: Vec<AccessRule> = rules.values().cloned().collect();
                    cx.rng.pick(&all)
                }
                _ => loop {
                    let r = AccessRule::Protected(node(cx, 2, junk, &pick_need));
                    if key(&r).len() <= 950 {
                        break r;
                    }
                },
            }
        };
        if accounts.is_empty() || (accounts.len() < 5 && cx.rng.percent(15)) {
            let rule = any_rule(cx, &rules);
            let n = NewAccount { tokens: vec![(a.base, dec!(5))], ..Default::default() };
            let n = NewAccount { oath: cx.rng.percent(30).then(|| dec!("0.001")), reserve: cx.rng.percent(25), ..n };
            let (r, acc) = cx.w.create_account(rule.clone(), &n);
            cx.outcome(&format!("create_account {rule:?}"), &(rule_size(&rule), n.oath.is_some(), n.reserve), true, &r);
            let Some(address) = acc else { return };
            let cost = n.oath.map_or(D::ZERO, value);
            receivable += cost;
            balances.push(dec!(5) - cost);
            if judge_fees {
                let (x, n) = (balances.len() - 1, format!("create_account {}", n.oath.is_some()));
                fees(cx, &n, address, balances[x], receivable);
            }
            for x in listed(&rule) {
                rules.insert(key(&x), x);
            }
            accounts.push(Acc { address, levels: [rule.clone(), rule.clone(), rule], requests: 0, open: 0 });
        }
        let i = cx.rng.below(accounts.len());
        let kind = cx.rng.below(16);
        // Who shows what.
        let mut shown = Shown::default();
        let generosity = cx.rng.below(5);
        let full = generosity == 0 || (judge_fees && cx.rng.percent(60));
        for x in &actors {
            if full || (generosity < 4 && cx.rng.percent(35)) {
                shown.badges.push(x.badge.clone());
            }
        }
        let mut shown_keys: Vec<NonFungibleLocalId> = vec![];
        for k in &keys {
            if full || cx.rng.percent(25) {
                shown.badges.push(k.clone());
                shown_keys.push(k.local_id().clone());
            }
        }
        if full || cx.rng.percent(20) {
            shown.junk = D::from(cx.rng.int(1, 3));
        }
        if !full && cx.rng.percent(45) {
            // A single need of the account's own, or of another one's, rule.
            shown = Shown::default();
            shown_keys.clear();
            let j = if cx.rng.percent(75) { i } else { cx.rng.below(accounts.len()) };
            let mut ids: Vec<NonFungibleGlobalId> = vec![];
            for l in &accounts[j].levels {
                if let AccessRule::Protected(n) = l {
                    mentioned(n, &mut ids);
                }
            }
            if ids.is_empty() {
                shown.junk = dec!(3);
            } else {
                let id = cx.rng.pick(&ids);
                if id.resource_address() == a.recovery_key {
                    shown_keys.push(id.local_id().clone());
                }
                shown.badges.push(id);
            }
        }
        let signers: Vec<NonFungibleGlobalId> =
            shown.badges.iter().filter(|b| b.resource_address() != a.recovery_key).cloned().collect();
        let mut b = cx.w.b();
        if shown.junk.is_positive() {
            b = b.create_proof_from_account_of_amount(bank, junk, shown.junk);
        }
        if !shown_keys.is_empty() {
            b = b.create_proof_from_account_of_non_fungibles(bank, a.recovery_key, shown_keys.clone());
        }
        let acc = accounts[i].address;
        let levels = accounts[i].levels.clone();
        let allowed: Vec<bool> = levels.iter().map(|r| shown.rule(junk, r)).collect();
        let delegated = kind != 14 && cx.rng.percent(if judge_fees { 75 } else { 35 });
        // More than it can bear, or than may be locked, now and then.
        let lock = if judge_fees && cx.rng.percent(60) { cx.rng.dec(0.0001, 0.4) } else { dec!("0.001") };
        let cost = if delegated { value(lock) } else { D::ZERO };
        let (nb, none) = cx.w.oath(b, delegated.then(|| lock));
        b = nb;
        let credit = if kind == 11 { dec!(2) } else { D::ZERO };
        let bearable = cost <= most && balances[i] + credit >= cost;
        let mut charge = cx.prop == "P24" && kind < 14;
        let allowed: Vec<bool> = allowed.iter().map(|x| *x && bearable).collect();
        cx.judging_outcomes = judge_auth || (charge && delegated);
        let situation = ((kind, delegated), allowed.clone(), shown.badges.len(), shown_keys.len(), levels.iter().map(rule_size).collect::<Vec<_>>());
        let who = format!("by {:?} junk {} delegated {delegated} to account {i} with {levels:?}", shown.badges, shown.junk);
        let mut next = levels.clone();
        match kind {
            0 | 1 => {
                if keys.len() >= 5 || key(&levels[0]).len() > 850 {
                    continue;
                }
                let before = cx.w.sim.total_supply(a.recovery_key);
                let held: Set<NonFungibleLocalId> = held(cx, bank, a.recovery_key);
                let r = cx.w.run(b.call_method(e, "create_recovery_key", manifest_args!(none, acc)), &signers);
                cx.outcome(&format!("create_recovery_key {who}"), &situation, allowed[0], &r);
                charge &= r.ok();
                let made = cx.w.sim.total_supply(a.recovery_key) - before;
                cx.same("recovery keys made", &D::from(r.ok() as u8), &made);
                if r.ok() {
                    let now: Set<_> = self::held(cx, bank, a.recovery_key);
                    let fresh: Vec<_> = now.difference(&held).cloned().collect();
                    if fresh.len() != 1 {
                        cx.bad(format!("{} recovery keys were handed out", fresh.len()));
                        return;
                    }
                    let id = NonFungibleGlobalId::new(a.recovery_key, fresh[0].clone());
                    names.push((format!("{id:?}"), format!("k{}", keys.len())));
                    keys.push(id.clone());
                    next[0] = extended(&next[0], AccessRuleNode::ProofRule(ProofRule::Require(ResourceOrNonFungible::NonFungible(id))));
                }
            }
            2..=4 => {
                let level = cx.rng.pick(&[1u8, 1, 2, 2, 3, 3, 0, 4]);
                let n = node(cx, 1, junk, &pick_need);
                let valid = (1..=3).contains(&level);
                if valid && key(&extended(&next[level as usize - 1], n.clone())).len() > 950 {
                    continue;
                }
                let r = cx.w.run(b.call_method(e, "add_auth_rule", manifest_args!(none, acc, level, n.clone())), &signers);
                cx.outcome(&format!("add_auth_rule {level} {n:?} {who}"), &(situation, level), allowed[0] && valid, &r);
                charge &= r.ok();
                if r.ok() && valid {
                    let l = &mut next[level as usize - 1];
                    *l = extended(l, n);
                }
            }
            5..=8 => {
                let level = cx.rng.int(1, 3) as usize;
                let rule = any_rule(cx, &rules);
                let method = ["set_level_1_auth", "set_level_2_auth", "set_level_3_auth"][level - 1];
                let r = cx.w.run(b.call_method(e, method, manifest_args!(none, acc, rule.clone())), &signers);
                cx.outcome(&format!("{method} {rule:?} {who}"), &situation, allowed[0], &r);
                charge &= r.ok();
                if r.ok() {
                    next[level - 1] = rule;
                }
            }
            9 | 10 => {
                let claims = vec![(a.base, dec!(1))];
                let target = cx.rng.pick(&actors).account;
                let r = cx.w.run(
                    b.call_method(e, "remove_collateral_request", manifest_args!(none, 1000u64, acc, target, claims)),
                    &signers,
                );
                cx.outcome(&format!("remove_collateral_request {who}"), &situation, allowed[1], &r);
                charge &= r.ok();
                if r.ok() {
                    accounts[i].requests += 1;
                }
            }
            11 => {
                let (nb, bucket) = cx.w.pay(b, &cx.w.bank.clone(), a.base, dec!(2));
                let r = cx.w.run(nb.call_method(e, "add_collateral", manifest_args!(none, acc, vec![bucket])), &signers);
                cx.outcome(&format!("add_collateral {who}"), &situation, allowed[2], &r);
                charge &= r.ok();
            }
            12 => {
                let o = Order::market("BTC/USD", dec!(1));
                let r = if cx.rng.percent(50) {
                    let b = b.call_method(
                        e,
                        "margin_order_request",
                        manifest_args!(
                            none, o.delay, o.expiry, acc, o.pair.clone(), o.amount, o.reduce_only, o.price_limit,
                            o.slippage_limit, o.activate.clone(), o.cancel.clone(), o.status
                        ),
                    );
                    let r = cx.w.run(b, &signers);
                    cx.outcome(&format!("margin_order_request {who}"), &situation, allowed[2], &r);
                    charge &= r.ok();
                    accounts[i].requests += r.ok() as u64;
                    r
                } else {
                    let b = b.call_method(
                        e,
                        "margin_order_tp_sl_request",
                        manifest_args!(
                            none, o.delay, o.expiry, acc, o.pair.clone(), o.amount, o.reduce_only, o.price_limit,
                            o.slippage_limit, Some(dec!(2)), Some(dec!(1))
                        ),
                    );
                    let r = cx.w.run(b, &signers);
                    cx.outcome(&format!("margin_order_tp_sl_request {who}"), &situation, allowed[2], &r);
                    charge &= r.ok();
                    accounts[i].requests += 3 * r.ok() as u64;
                    r
                };
                let _ = r;
            }
            13 => {
                // All of them, to stay below the limit.
                let n = accounts[i].requests;
                let list: Vec<u64> = (accounts[i].open..n).collect();
                let r = cx.w.run(b.call_method(e, "cancel_requests", manifest_args!(none, acc, list)), &signers);
                cx.outcome(&format!("cancel_requests {who}"), &situation, allowed[2], &r);
                charge &= r.ok();
                if r.ok() {
                    accounts[i].open = n;
                }
            }
            14 => {
                // Directly at the account.
                let level = cx.rng.int(1, 3);
                let r = cx.w.run(
                    b.set_role(acc, ModuleId::Main, RoleKey::new(format!("level_{level}")), AccessRule::AllowAll),
                    &signers,
                );
                cx.outcome(&format!("set_role level_{level} {who}"), &situation, false, &r);
            }
            _ => {
                let Some(f) = foreign else { continue };
                let which = cx.rng.below(8);
                let bank = cx.w.bank.clone();
                let claims: Vec<(ResourceAddress, D)> = vec![(a.base, ATTO)];
                let list: Vec<u64> = vec![];
                let no_prices = None::<Signed>;
                b = match which {
                    0 => b.call_method(e, "create_recovery_key", manifest_args!(none, f)),
                    1 => b.call_method(e, "set_level_2_auth", manifest_args!(none, f, AccessRule::AllowAll)),
                    2 => b.call_method(e, "remove_collateral_request", manifest_args!(none, 10u64, f, bank.account, claims)),
                    3 => b.call_method(e, "cancel_requests", manifest_args!(none, f, list)),
                    4 => {
                        let (nb, bucket) = cx.w.pay(b, &bank, a.base, dec!(2));
                        nb.call_method(e, "add_collateral", manifest_args!(none, f, vec![bucket]))
                    }
                    5 => {
                        let o = Order::market("BTC/USD", dec!(1));
                        b.call_method(
                            e,
                            "margin_order_request",
                            manifest_args!(
                                none, o.delay, o.expiry, f, o.pair.clone(), o.amount, o.reduce_only, o.price_limit,
                                o.slippage_limit, o.activate.clone(), o.cancel.clone(), o.status
                            ),
                        )
                    }
                    6 => b.call_method(e, "process_request", manifest_args!(f, 0u64, no_prices)),
                    _ => {
                        let (nb, bucket) = cx.w.pay(b, &bank, a.base, dec!(2));
                        nb.call_method(e, "swap_debt", manifest_args!(f, a.base, bucket, no_prices))
                    }
                };
                let r = cx.w.run(b, &signers);
                cx.outcome(&format!("foreign account, operation {which}"), &which, false, &r);
            }
        }
        accounts[i].levels = next;
        for l in &accounts[i].levels.clone() {
            for x in listed(l) {
                rules.insert(key(&x), x);
            }
        }
        // The rules as stored.
        if judge_auth {
            for (n, x) in accounts.iter().enumerate() {
                for (l, want) in x.levels.iter().enumerate() {
                    let have = cx.w.sim.role(x.address, &format!("level_{}", l + 1));
                    let ok = have.as_ref() == Some(want);
                    let situation = (kind, l, n == i, rule_size(want), accounts.len());
                    let text = format!("level {} of account {n} is {have:?} instead of {want:?}", l + 1);
                    cx.judge(&situation, ok, || text);
                }
            }
        } else if judge_fees {
            if charge {
                receivable += cost;
                balances[i] += credit - cost;
            }
            let n = format!("operation {kind} delegated {delegated} {bearable}");
            fees(cx, &n, accounts[i].address, balances[i], receivable);
        } else {
            // The registry: what this step touched, and now and then everything.
            let everything = step % 5 == 4;
            let touched: Set<Vec<u8>> = levels
                .iter()
                .chain(accounts[i].levels.iter())
                .flat_map(|r| listed(r))
                .map(|r| key(&r))
                .collect();
            let ask: Vec<AccessRule> =
                rules.iter().filter(|(k, _)| everything || touched.contains(*k)).map(|(_, r)| r.clone()).collect();
            for chunk in ask.chunks(30) {
                let direct = cx.rng.percent(50);
                let c = if direct { a.permission_registry } else { e };
                let r = cx.w.query(chunk.iter().map(|r| (c, "get_permissions", args(&(r.clone(),)))).collect());
                if !r.ok() {
                    cx.bad(format!("reading permissions: {}", r.error()));
                    return;
                }
                for (n, rule) in chunk.iter().enumerate() {
                    let p: permission_registry::Permissions = r.output(n);
                    let have: Vec<Set<ComponentAddress>> =
                        [p.level_1, p.level_2, p.level_3].into_iter().map(|s| s.into_iter().collect()).collect();
                    let want: Vec<Set<ComponentAddress>> = (0..3)
                        .map(|l| accounts.iter().filter(|x| listed(&x.levels[l]).contains(rule)).map(|x| x.address).collect())
                        .collect();
                    let situation = (kind, want.iter().map(|s| s.len()).collect::<Vec<_>>(), rule_size(rule));
                    cx.judge(&situation, want == have, || {
                        format!("the registry lists {have:?} under {rule:?} instead of {want:?}")
                    });
                }
            }
        }
    }
}

/// What an operation charged, and to whom.
fn fees(cx: &mut Cx, what: &str, account: ComponentAddress, balance: D, receivable: D) {
    let a = cx.w.a.clone();
    let r = cx.w.query(vec![(account, "get_info", args(&())), (a.fee_delegator, "get_info", args(&()))]);
    if !r.ok() {
        cx.bad(format!("reading balances: {}", r.error()));
        return;
    }
    let have = r.output::<account::MarginAccountInfo>(0).virtual_balance;
    let d: (D, D, D, D, bool) = r.output(1);
    cx.judge(&("charge", what), have == balance, || {
        format!("{what}: the account was left with {have} instead of {balance}")
    });
    cx.judge(&("receivable", what), d.1 == receivable, || {
        format!("{what}: the delegator is owed {} instead of {receivable}", d.1)
    });
    let left = cx.w.sim.total_supply(a.fee_oath);
    cx.judge(&("oaths", what), left.is_zero(), || format!("{what}: {left} of fee oaths are still about"));
}

fn mentioned(n: &Node, out: &mut Vec<NonFungibleGlobalId>) {
    let mut take = |x: &Need| {
        if let ResourceOrNonFungible::NonFungible(id) = x {
            out.push(id.clone());
        }
    };
    match n {
        AccessRuleNode::AnyOf(l) | AccessRuleNode::AllOf(l) => l.iter().for_each(|x| mentioned(x, out)),
        AccessRuleNode::ProofRule(p) => match p {
            ProofRule::Require(x) => take(x),
            ProofRule::AmountOf(..) => {}
            ProofRule::CountOf(_, l) | ProofRule::AllOf(l) | ProofRule::AnyOf(l) => l.iter().for_each(take),
        },
    }
}

fn held(cx: &Cx, account: ComponentAddress, r: ResourceAddress) -> Set<NonFungibleLocalId> {
    if !cx.w.sim.exists(account) {
        return Set::new();
    }
    cx.w.sim.vaults(account, r).into_iter().flat_map(|v| cx.w.sim.non_fungible_ids(v)).collect()
}
