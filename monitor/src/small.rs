//! Histories of the smaller components, each judged against its own model.

use crate::judge::Prop;
use crate::model::{abs, ceil_to, floor_to, ATTO, D};
use crate::real::args;
use crate::report::{hash, Monitor};
use crate::rng::*;
use std::collections::{BTreeMap as Map, BTreeSet as Set};
use std::panic::{catch_unwind, AssertUnwindSafe};
use world::*;

/// A history of one property: what was done, and what was seen.
pub struct Cx<'a> {
    pub w: World,
    pub rng: Rng,
    pub mon: &'a mut Monitor,
    pub prop: Prop,
    pub episode: u64,
    pub log: Vec<String>,
    /// Replacements that make the history readable.
    pub names: Vec<(String, String)>,
    /// Whether outcomes are this history's business.
    pub judging_outcomes: bool,
}

impl<'a> Cx<'a> {
    pub fn new(world: &World, name: &str, prop: Prop, seed: u64, episode: u64, mon: &'a mut Monitor) -> Self {
        let tag: u64 = prop.bytes().chain(name.bytes()).fold(7u64, |h, b| h.wrapping_mul(131).wrapping_add(b as u64));
        Cx { w: world.fork(), rng: Rng::new(&[seed, tag, episode]), mon, prop, episode, log: vec![], names: vec![], judging_outcomes: true }
    }
    pub fn short(&self, text: &str) -> String {
        self.names.iter().fold(text.to_string(), |t, (a, b)| t.replace(a, b))
    }
    pub fn say(&mut self, text: String) {
        self.log.push(text);
    }
    pub fn bad(&mut self, text: String) {
        let (p, e) = (self.prop, self.episode);
        let text = self.short(&text);
        self.mon.violation(&[p], &text, e, &self.log);
    }
    /// One judgement.
    pub fn judge<T: std::hash::Hash>(&mut self, situation: &T, ok: bool, text: impl FnOnce() -> String) -> bool {
        let p = self.prop;
        self.mon.judged(p, hash(situation));
        if !ok {
            self.bad(text());
        }
        ok
    }
    /// Whether a transaction succeeded as it had to.
    pub fn outcome<T: std::hash::Hash>(&mut self, what: &str, situation: &T, want: bool, r: &TxResult) -> bool {
        let have = r.ok();
        let what: &str = &self.short(what);
        let error: String = r.error().chars().take(300).collect();
        self.say(format!("{what} -> {}", if have { "ok".to_string() } else { format!("refused: {error}") }));
        *self.mon.stats.ops.entry(format!("{} {}", what.split(' ').next().unwrap(), if have { "ok" } else { "refused" })).or_default() += 1;
        if self.mon.stats.samples.len() < 6 {
            self.mon.sample(format!("{what} -> {}", if have { "ok" } else { "refused" }));
        }
        if !self.judging_outcomes {
            return have == want;
        }
        self.judge(&(what.split(' ').next().unwrap(), situation, want), have == want, || {
            if have {
                format!("{what} was accepted, but has to be refused")
            } else {
                format!("{what} was refused, but has to succeed: {error}")
            }
        })
    }
    pub fn same<T: PartialEq + std::fmt::Debug>(&mut self, what: &str, want: &T, have: &T) -> bool {
        let ok = want == have;
        let k = format!("{:?}", want);
        self.judge(&(what, k), ok, || format!("{what}: {have:?} instead of {want:?}"))
    }
    pub fn flow(&mut self, r: &TxResult, c: ComponentAddress, res: ResourceAddress) -> D {
        self.w.flows(r).get(&(c, res)).copied().unwrap_or(D::ZERO)
    }
}

fn bits(d: D) -> u32 {
    I192::BITS - abs(d).0.leading_zeros()
}

fn power(base: u8, e: u32) -> I192 {
    (0..e).fold(I192::ONE, |x, _| x * I192::from(base))
}

// Compressed decimals.

pub fn dfloat(cx: &mut Cx) {
    use common::DFloat16;
    let top: D = dec!("10240000000000000");
    let encode = |d: D| -> Option<D> { catch_unwind(AssertUnwindSafe(|| Into::<D>::into(DFloat16::from(d)))).ok() };
    let mut cases: Vec<D> = vec![];
    for _ in 0..600 {
        let r = &mut cx.rng;
        let raw: D = match r.below(8) {
            // A few digits anywhere in the range.
            0 => D::from(r.int(0, 1100)) * Decimal(power(10, r.int(0, 31) as u32)),
            1 => Decimal(I192::from(r.int(0, 5000))),
            // Around powers of two and ten.
            2 => {
                let p = Decimal(power(2, r.int(0, 120) as u32));
                p + Decimal(I192::from(r.int(-2, 2)))
            }
            3 => {
                let p = Decimal(power(10, r.int(0, 36) as u32));
                p + Decimal(I192::from(r.int(-2, 2)))
            }
            // Around the significand's limit.
            4 => {
                let e = power(10, r.int(0, 31) as u32);
                let k = r.pick(&[99i64, 100, 101, 102, 103, 999, 1000, 1001, 1022, 1023, 1024, 1025, 1029, 1030]);
                let shift = if r.percent(50) { I192::ZERO } else { e / I192::from(r.int(1, 2000)) };
                let v = I192::from(k) * e;
                Decimal(if r.percent(50) { v + shift } else { v - shift })
            }
            5 => r.log(1e-17, 1e17),
            6 => top + Decimal(I192::from(r.int(-2_000_000_000, 2_000_000_000))) * Decimal(power(10, r.int(0, 24) as u32)),
            _ => {
                let b = r.int(1, 118) as u32;
                let x = (I192::from(r.next()) * I192::from(r.next() >> 1)) % power(2, b);
                Decimal(x)
            }
        };
        cases.push(if r.percent(35) { -raw } else { raw });
    }
    for d in cases {
        let got = encode(d);
        let prop = cx.prop;
        cx.mon.judged(prop, hash(&(d.is_negative(), bits(d), d.to_string().trim_matches('0').len().min(6))));
        let m = abs(d);
        // Within range means that the magnitude fits three digits at the largest exponent.
        let limit = dec!("10240000000000000");
        let Some(v) = got else {
            if m < dec!("10230000000000000") {
                cx.bad(format!("{d} cannot be stored"));
            }
            *cx.mon.stats.ops.entry("out of range".into()).or_default() += 1;
            continue;
        };
        *cx.mon.stats.ops.entry("stored".into()).or_default() += 1;
        if cx.mon.stats.samples.len() < 6 {
            cx.mon.sample(format!("{d} is stored as {v}"));
        }
        let text = format!("{d} is stored as {v}");
        if m >= limit + dec!("10000000000000") {
            cx.bad(format!("{text}, although it is out of range"));
        }
        if (d.is_zero() != v.is_zero()) && (m >= ATTO || d.is_zero()) {
            cx.bad(format!("{text}: zero"));
        }
        if !v.is_zero() && v.is_negative() != d.is_negative() {
            cx.bad(format!("{text}: sign"));
        }
        if abs(v) > m {
            cx.bad(format!("{text}: larger"));
        }
        if (m - abs(v)) * dec!(100) >= m && !m.is_zero() {
            cx.bad(format!("{text}: less than three digits"));
        }
        if significant(m, 3) == m && v != d {
            cx.bad(format!("{text}, although it has three digits"));
        }
        match encode(v) {
            Some(again) if again == v => {}
            other => cx.bad(format!("{text}, and that as {other:?}")),
        }
    }
}

// The environment registry.

pub fn env(cx: &mut Cx) {
    let e = cx.w.a.env_registry;
    let mut model: Map<String, String> = Map::new();
    let mut keys: Vec<String> = ["a", "b", "A", "", "long-key-with-some-text", "é", "b2", " a", "a ", "a b", "\t", "a\n", "É", "0", "null", "\"a\""]
        .iter()
        .map(|s| s.to_string())
        .collect();
    keys.push("k".repeat(300));
    keys.push(format!("{}2", "k".repeat(299)));
    let keys: Vec<String> = if cx.rng.percent(60) { keys } else { keys[..7].to_vec() };
    for step in 0..40 {
        let kind = cx.rng.below(10);
        let owner = cx.rng.percent(85);
        let n = cx.rng.weighted(&[(0usize, 2), (1, 3), (2, 3), (3, 3), (8, 1), (20, 1)]);
        let some: Vec<String> = (0..n).map(|_| cx.rng.pick(&keys)).collect();
        match kind {
            0..=4 => {
                let pairs: Vec<(String, String)> = some
                    .iter()
                    .map(|k| {
                        let v = match cx.rng.below(12) {
                            0 | 1 => String::new(),
                            2 => format!(" v{step} \n"),
                            3 => format!("{step}{}", "vé".repeat(cx.rng.below(3000))),
                            4 => cx.rng.pick(&keys),
                            _ => format!("v{step}-{}", cx.rng.below(100)),
                        };
                        (k.clone(), v)
                    })
                    .collect();
                let a = args(&(pairs.clone(),));
                let r = if owner { cx.w.owner_call(e, "set_variables", a) } else { plain(&mut cx.w, e, "set_variables", a) };
                let mut text = format!("{pairs:?}");
                text.truncate(text.char_indices().nth(400).map_or(text.len(), |x| x.0));
                cx.outcome(&format!("set_variables {text} owner={owner}"), &pairs.len(), owner, &r);
                if owner {
                    model.extend(pairs);
                }
            }
            5 | 6 => {
                let a = args(&(some.clone(),));
                let r = if owner { cx.w.owner_call(e, "remove_variables", a) } else { plain(&mut cx.w, e, "remove_variables", a) };
                cx.outcome(&format!("remove_variables {some:?} owner={owner}"), &some.len(), owner, &r);
                if owner {
                    for k in &some {
                        model.remove(k);
                    }
                }
            }
            _ => {
                let r = cx.w.query(vec![(e, "get_variables", args(&(some.clone(),)))]);
                if cx.outcome(&format!("get_variables {some:?}"), &some.len(), true, &r) {
                    let got: HashMap<String, String> = r.output(0);
                    let got: Map<String, String> = got.into_iter().collect();
                    let want: Map<String, String> =
                        some.iter().map(|k| (k.clone(), model.get(k).cloned().unwrap_or_default())).collect();
                    cx.same("variables", &want, &got);
                }
            }
        }
        // Everything, whatever was asked for.
        let r = cx.w.query(vec![(e, "get_variables", args(&(keys.clone(),)))]);
        if r.ok() {
            let got: Map<String, String> = r.output::<HashMap<String, String>>(0).into_iter().collect();
            let want: Map<String, String> =
                keys.iter().map(|k| (k.clone(), model.get(k).cloned().unwrap_or_default())).collect();
            cx.same("all variables", &want, &got);
        }
    }
}

/// A call that nobody but the bank signs.
pub fn plain(w: &mut World, c: ComponentAddress, method: &str, a: ManifestValue) -> TxResult {
    let b = w.b().call_method(c, method, Raw(a));
    w.run(b, &[])
}

// The test faucet.

pub fn faucet(cx: &mut Cx) {
    let f = cx.w.a.faucet;
    let tokens: Vec<ResourceAddress> = cx.w.a.faucet_tokens.clone();
    let divisibility: Map<ResourceAddress, u8> = tokens.iter().map(|t| (*t, divisibility(&cx.w, *t))).collect();
    let mut amounts: Map<ResourceAddress, D> = Map::new();
    {
        let r = plain(&mut cx.w, f, "free_tokens", args(&()));
        cx.outcome("free_tokens", &0, true, &r);
        if !r.ok() {
            return;
        }
        for t in &tokens {
            let d = cx.flow(&r, cx.w.bank.account, *t);
            amounts.insert(*t, d);
        }
        let want: Vec<(u8, D)> = vec![(6, dec!(0)), (6, dec!(0)), (8, dec!("0.001")), (18, dec!("0.2"))];
        let mut have: Vec<(u8, D)> = amounts.iter().map(|(t, d)| (divisibility[t], *d)).collect();
        have.sort();
        cx.same("initial amounts", &want, &have);
    }
    let owner_badge = cx.w.a.faucet_owner_badge;
    let supply = cx.w.sim.total_supply(owner_badge);
    cx.same("owner badges", &dec!(1), &supply);
    for _ in 0..30 {
        let supplies: Map<_, _> = tokens.iter().map(|t| (*t, cx.w.sim.total_supply(*t))).collect();
        let before: Map<_, _> = tokens.iter().map(|t| (*t, cx.w.sim.balance(cx.w.bank.account, *t))).collect();
        let mut want: Map<ResourceAddress, D> = tokens.iter().map(|t| (*t, D::ZERO)).collect();
        let caller = cx.rng.below(5);
        let t = cx.rng.pick(&tokens);
        let fits = |d: D, div: u8| floor_to(d, div) == d;
        let amount = match cx.rng.below(6) {
            0 => D::ZERO,
            1 => ATTO,
            2 => dec!("0.000001"),
            3 => dec!("0.0000001"),
            4 => cx.rng.log(0.001, 100000.0),
            5 if cx.rng.percent(40) => cx.rng.pick(&[dec!("-1"), -ATTO, dec!("1000000.000001"), dec!("123456789012345"), dec!("1000000000000000000")]),
            _ => D::from(cx.rng.int(1, 1000)),
        };
        // Who calls: mostly the faucet's owner.
        let owner = caller != 0;
        let begin = |cx: &Cx| match caller {
            0 => cx.w.as_owner(cx.w.b()),
            _ => cx.w.b().create_proof_from_account_of_amount(cx.w.owner.account, owner_badge, dec!(1)),
        };
        match cx.rng.below(5) {
            0 | 1 => {
                let b = begin(cx).call_method(f, "update_mint_amount", manifest_args!(t, amount));
                let r = cx.w.run(b, &[]);
                cx.outcome(&format!("update_mint_amount {t:?} {amount} owner={owner}"), &(), owner, &r);
                if owner {
                    amounts.insert(t, amount);
                }
            }
            2 => {
                let b = begin(cx).call_method(f, "admin_mint_token", manifest_args!(t, amount));
                let r = cx.w.run(b, &[]);
                let ok = owner && fits(amount, divisibility[&t]) && !amount.is_negative();
                cx.outcome(&format!("admin_mint_token {t:?} {amount} owner={owner}"), &divisibility[&t], ok, &r);
                if ok {
                    want.insert(t, amount);
                }
            }
            _ => {
                let r = plain(&mut cx.w, f, "free_tokens", args(&()));
                let ok = amounts.iter().all(|(t, d)| !d.is_positive() || fits(*d, divisibility[t]));
                let paying = amounts.values().filter(|d| d.is_positive()).count();
                cx.outcome("free_tokens", &paying, ok, &r);
                if ok {
                    want.extend(amounts.iter().filter(|x| x.1.is_positive()).map(|(t, d)| (*t, *d)));
                }
            }
        }
        let minted: Map<_, _> = tokens.iter().map(|t| (*t, cx.w.sim.total_supply(*t) - supplies[t])).collect();
        let received: Map<_, _> =
            tokens.iter().map(|t| (*t, cx.w.sim.balance(cx.w.bank.account, *t) - before[t])).collect();
        cx.same("minted", &want, &minted);
        cx.same("received", &want, &received);
        let supply = cx.w.sim.total_supply(owner_badge);
        cx.same("owner badges", &dec!(1), &supply);
    }
}

pub fn divisibility(w: &World, r: ResourceAddress) -> u8 {
    w.sim.divisibility(r)
}

// The token wrapper.

struct Wrapper {
    inputs: Vec<(ResourceAddress, bool, D)>,
}

fn wrapper_state(cx: &mut Cx, page: u64) -> Vec<(ResourceAddress, bool, D)> {
    let t = cx.w.a.token_wrapper;
    let mut out: Vec<(ResourceAddress, bool, D)> = vec![];
    loop {
        let start = if out.is_empty() { None } else { Some(out.len() as u64) };
        let r = cx.w.query(vec![(t, "get_inputs", args(&(page, start)))]);
        if !r.ok() {
            cx.bad(format!("reading the wrapper: {}", r.error()));
            return out;
        }
        let l: Vec<(ResourceAddress, bool, D)> = r.output(0);
        if l.is_empty() || l.len() as u64 > page {
            return out;
        }
        out.extend(l);
    }
}

pub fn wrapper(cx: &mut Cx) {
    let a = cx.w.a.clone();
    let t = a.token_wrapper;
    let mut m = Wrapper { inputs: vec![] };
    // Tokens of other people, one of which anybody may mint and burn.
    let all = [a.tokens[0], a.tokens[1], a.tokens[2], a.junk];
    let mut loose = D::ZERO;
    for step in 0..36 {
        let supply0 = cx.w.sim.total_supply(a.base);
        let tok = cx.rng.pick(&all[..3]);
        let any = cx.rng.pick(&all);
        let div = divisibility(&cx.w, tok);
        let pos = m.inputs.iter().position(|x| x.0 == tok);
        let size = |cx: &mut Cx, div: u8| -> D {
            let unit = floor_to(D::ONE, 18) / D::from(10u64.pow(div.min(18) as u32));
            match cx.rng.below(5) {
                0 => unit,
                1 => unit * D::from(cx.rng.int(1, 999)),
                2 => D::from(cx.rng.int(1, 5000)),
                _ => floor_to(cx.rng.log(0.001, 50_000.0), div),
            }
        };
        let mut issued = D::ZERO;
        // The first is kept out of the wrapper for a while.
        match cx.rng.below(12) {
            0 | 1 => {
                let which = if step == 0 { tok } else { any };
                if which == a.junk && !cx.rng.percent(20) {
                    continue;
                }
                let owner = cx.rng.percent(85);
                let b = if owner { cx.w.as_owner(cx.w.b()) } else { cx.w.b() };
                let r = cx.w.run(b.call_method(t, "add_input", manifest_args!(which)), &[]);
                cx.outcome(&format!("add_input {which:?} owner={owner}"), &m.inputs.len(), owner, &r);
                if owner && !m.inputs.iter().any(|x| x.0 == which) {
                    m.inputs.push((which, true, D::ZERO));
                }
            }
            2 => {
                let owner = cx.rng.percent(85);
                let on = cx.rng.percent(60);
                let b = if owner { cx.w.as_owner(cx.w.b()) } else { cx.w.b() };
                let r = cx.w.run(b.call_method(t, "update_wrappable", manifest_args!(tok, on)), &[]);
                cx.outcome(&format!("update_wrappable {on} owner={owner}"), &pos, owner && pos.is_some(), &r);
                if let (true, Some(i)) = (owner, pos) {
                    m.inputs[i].1 = on;
                }
            }
            3..=6 => {
                let tok = if cx.rng.percent(15) { any } else { tok };
                let pos = m.inputs.iter().position(|x| x.0 == tok);
                let d = size(cx, divisibility(&cx.w, tok));
                let ok = pos.map_or(false, |i| m.inputs[i].1);
                let r = cx.w.paying(t, "wrap", &[(tok, d)], |b| args(&(b[0],)), &[]);
                cx.outcome(&format!("wrap {d} of {tok:?}"), &(pos, div, d < dec!(1)), ok, &r);
                if r.ok() {
                    let got = cx.flow(&r, cx.w.bank.account, a.base);
                    cx.same("base tokens issued", &d, &got);
                    let paid = cx.flow(&r, cx.w.bank.account, tok);
                    cx.same("tokens wrapped", &-d, &paid);
                }
                if ok {
                    m.inputs[pos.unwrap()].2 += d;
                    issued = d;
                }
            }
            _ => {
                let held = pos.map_or(D::ZERO, |i| m.inputs[i].2);
                let unit = D::ONE / D::from(10u64.pow(div.min(18) as u32));
                let d = match cx.rng.below(8) {
                    0 => held,
                    1 => held + unit,
                    2 => ATTO,
                    3 => size(cx, 18),
                    4 => floor_to(held * cx.rng.dec(0.0, 1.0), 18),
                    5 => floor_to(held * cx.rng.dec(0.0, 1.0), div) + ATTO * D::from(cx.rng.int(0, 10)),
                    _ => size(cx, div),
                };
                if !d.is_positive() {
                    continue;
                }
                let out = floor_to(d, div);
                // What is handed in: the base token, mostly.
                let parent = match cx.rng.below(8) {
                    0 => a.junk,
                    1 => tok,
                    2 => cx.rng.pick(&[a.lp, a.tokens[0], a.tokens[1], a.tokens[2]]),
                    _ => a.base,
                };
                let (d, out) = if parent == a.base { (d, out) } else {
                    let d = floor_to(d, divisibility(&cx.w, parent));
                    (d, floor_to(d, div))
                };
                if !d.is_positive() || (parent == a.lp && cx.w.sim.balance(cx.w.bank.account, a.lp) < d) {
                    continue;
                }
                let ok = pos.is_some() && out <= held && parent == a.base;
                let supply = cx.w.sim.total_supply(parent);
                let r = cx.w.paying(t, "unwrap", &[(parent, d)], |b| args(&(b[0], tok)), &[]);
                cx.outcome(
                    &format!("unwrap {d} of {parent:?} into {tok:?}"),
                    &(pos, div, parent == a.base, d == held),
                    ok,
                    &r,
                );
                if r.ok() {
                    let got = cx.flow(&r, cx.w.bank.account, tok);
                    let extra = if parent == tok { -d } else { D::ZERO };
                    cx.same("tokens unwrapped", &(out + extra), &got);
                    let burnt = supply - cx.w.sim.total_supply(parent);
                    cx.same("burnt by unwrapping", &d, &burnt);
                }
                if ok {
                    m.inputs[pos.unwrap()].2 -= out;
                    issued = -d;
                    loose += d - out;
                }
            }
        }
        let supply = cx.w.sim.total_supply(a.base);
        cx.same("change of the base supply", &issued, &(supply - supply0));
        let page = cx.rng.int(1, 5) as u64;
        let have = wrapper_state(cx, page);
        let want = m.inputs.clone();
        cx.same("wrapper's holdings as read", &want, &have);
        for (r, _, d) in want {
            let vault = cx.w.sim.balance(t, r);
            cx.same("wrapper's holdings", &d, &vault);
        }
        let _ = loose;
    }
}

// Flash loans.

pub fn flash(cx: &mut Cx) {
    let a = cx.w.a.clone();
    let t = a.token_wrapper;
    let usdc = a.tokens[2];
    let r = cx.w.owner_call(t, "add_input", args(&(usdc,)));
    if !r.ok() {
        cx.bad(format!("add_input: {}", r.error()));
        return;
    }
    let oath = a.flash_oath;
    for _ in 0..30 {
        let supply0 = cx.w.sim.total_supply(a.base);
        let bank0 = cx.w.sim.balance(cx.w.bank.account, a.base);
        let other0 = cx.w.sim.balance(cx.w.bank.account, usdc);
        let mut b = cx.w.b();
        let mut story = String::new();
        let mut ok = true;
        // Outstanding oaths and base tokens on the worktop.
        let (mut owed, mut have) = (D::ZERO, D::ZERO);
        let mut wrapped = D::ZERO;
        let loans = cx.rng.int(1, 3);
        for _ in 0..loans {
            let x = match cx.rng.below(6) {
                0 => ATTO,
                1 => D::ZERO,
                2 => D::from(cx.rng.int(1, 1_000_000_000)),
                3 => cx.rng.pick(&[dec!(1), dec!(1), dec!(10), dec!(1000), dec!("0.1"), dec!("1000000000000")]),
                _ => cx.rng.log(0.01, 1_000_000.0),
            };
            b = b.call_method(t, "flash_loan", manifest_args!(x));
            owed += x;
            have += x;
            story += &format!("loan {x}; ");
        }
        // Something is done with it.
        if cx.rng.percent(40) {
            let d = D::from(cx.rng.int(1, 100));
            let (nb, bucket) = cx.w.pay(b, &cx.w.bank.clone(), usdc, d);
            b = nb.call_method(t, "wrap", manifest_args!(bucket));
            have += d;
            wrapped += d;
            story += &format!("wrap {d}; ");
        } else if cx.rng.percent(30) {
            let d = cx.rng.log(0.1, 1000.0);
            let (nb, bucket) = cx.w.pay(b, &cx.w.bank.clone(), a.base, d);
            b = nb.return_to_worktop(bucket);
            have += d;
            story += &format!("own {d}; ");
        }
        let parts = cx.rng.int(1, 3);
        let mut paid = D::ZERO;
        let mode = cx.rng.below(14);
        for i in 0..parts {
            let last = i == parts - 1;
            // The oath handed in, and the payment for it.
            let o = if last { owed } else { floor_to(owed * cx.rng.dec(0.0, 1.0), 18) };
            let pay = match mode {
                0 if last && o.is_positive() => o - ATTO,
                1 if last => floor_to(o * dec!("0.5"), 18),
                2 | 3 => D::min(o + cx.rng.log(0.001, 10.0), have),
                _ => o,
            };
            if pay > have {
                ok = false;
            }
            if pay < o {
                ok = false;
            }
            let mut token = a.base;
            let mut oath_token = oath;
            if last {
                match mode {
                    4 => token = a.junk,
                    5 => token = a.tokens[1],
                    6 => oath_token = a.junk,
                    7 => oath_token = a.base,
                    _ => {}
                }
            }
            let name = |x: &str| format!("{x}{i}");
            if oath_token == oath {
                b = b.take_from_worktop(oath, o, name("oath"));
            } else if oath_token == a.base {
                b = b.take_from_worktop(a.base, D::ZERO, name("oath"));
                ok = false;
            } else {
                let bank = cx.w.bank.account;
                b = b.withdraw_from_account(bank, oath_token, o).take_from_worktop(oath_token, o, name("oath"));
                ok = false;
            }
            if token == a.base {
                b = b.take_from_worktop(a.base, pay, name("pay"));
            } else {
                let bank = cx.w.bank.account;
                b = b.withdraw_from_account(bank, token, pay).take_from_worktop(token, pay, name("pay"));
                ok = false;
            }
            let (x, y) = (b.name_lookup().bucket(name("oath")), b.name_lookup().bucket(name("pay")));
            b = b.call_method(t, "repay_flash_loan", manifest_args!(x, y));
            owed -= o;
            have -= o;
            paid += o;
            story += &format!("repay {o} with {pay} of {token:?}; ");
            if mode == 8 && owed.is_positive() {
                // The rest of the oath is left over.
                ok = false;
                story += "and leave the rest; ";
                break;
            }
        }
        match mode {
            9 if owed.is_zero() => {
                // A loan after everything, never repaid.
                b = b.call_method(t, "flash_loan", manifest_args!(dec!(5)));
                ok = false;
                story += "loan 5 and keep it; ";
            }
            10 => {
                // The oath is burnt instead.
                b = b.call_method(t, "flash_loan", manifest_args!(dec!(5))).take_all_from_worktop(oath, "burnt");
                b = b.burn_resource("burnt");
                ok = false;
                story += "loan 5 and burn the oath; ";
            }
            11 => {
                let x = cx.rng.pick(&[cx.w.bank.account, cx.w.owner.account]);
                b = b.call_method(t, "flash_loan", manifest_args!(dec!(5))).take_all_from_worktop(oath, "kept");
                let k = b.name_lookup().bucket("kept");
                b = b.call_method(x, "try_deposit_or_abort", manifest_args!(k, None::<ResourceOrNonFungible>));
                ok = false;
                story += "loan 5 and deposit the oath; ";
            }
            12 => {
                b = b.call_method(t, "flash_loan", manifest_args!(dec!(5))).take_all_from_worktop(oath, "kept");
                let k = b.name_lookup().bucket("kept");
                b = b.call_method(cx.w.a.exchange, "add_liquidity", manifest_args!(k));
                ok = false;
                story += "loan 5 and hand the oath to somebody; ";
            }
            13 if cx.rng.percent(40) => {
                b = b.call_method(t, "flash_loan", manifest_args!(dec!("-1")));
                ok = false;
                story += "loan -1; ";
            }
            _ => {}
        }
        let r = cx.w.run(b, &[]);
        cx.outcome(&format!("flash {story}"), &(mode, loans, parts, wrapped.is_zero()), ok, &r);
        let w = if ok { wrapped } else { D::ZERO };
        let supply = cx.w.sim.total_supply(a.base);
        cx.same("base supply", &(supply0 + w), &supply);
        let bank = cx.w.sim.balance(cx.w.bank.account, a.base);
        cx.same("borrower's base tokens", &(bank0 + w), &bank);
        let other = cx.w.sim.balance(cx.w.bank.account, usdc);
        cx.same("borrower's other tokens", &(other0 - w), &other);
        let oaths = cx.w.sim.total_supply(oath);
        cx.same("flash oaths left", &D::ZERO, &oaths);
        let _ = paid;
    }
}

// The fee delegator.

pub fn delegator(cx: &mut Cx) {
    let a = cx.w.a.clone();
    let d = a.fee_delegator;
    #[derive(Clone, Debug, PartialEq)]
    struct M {
        funds: D,
        virt: D,
        max: D,
        mult: D,
        contingent: bool,
    }
    let mut m = M { funds: D::ZERO, virt: D::ZERO, max: dec!(3), mult: dec!("1.5"), contingent: false };
    let usd: D = dec!("16.666666666666666666");
    // XRD for the owner to deposit.
    let bank = cx.w.bank.account;
    for _ in 0..2 {
        let b = cx.w.b().call_method(FAUCET, "free", manifest_args!());
        let r = cx.w.run(b, &[]);
        if !r.ok() {
            panic!("no XRD: {}", r.error());
        }
    }
    let alice = Actor::new(70 + cx.rng.below(20) as u64);
    let n = NewAccount { tokens: vec![(a.base, dec!(100))], ..Default::default() };
    let (r, acc) = cx.w.create_account(alice.rule(), &n);
    let Some(acc) = acc else { panic!("no account: {}", r.error()) };
    let read = |cx: &mut Cx| -> M {
        let r = cx.w.query(vec![(d, "get_info", args(&())), (d, "get_virtual_balance", args(&()))]);
        let x: (D, D, D, D, bool) = r.output(0);
        let v: D = r.output(1);
        M { funds: x.0, virt: if v == x.1 { v } else { D::MIN }, max: x.2, mult: x.3, contingent: x.4 }
    };
    let balance = |cx: &mut Cx| -> D {
        let r = cx.w.query(vec![(acc, "get_info", args(&()))]);
        r.output::<account::MarginAccountInfo>(0).virtual_balance
    };
    let mut vb = dec!(100);
    for _ in 0..36 {
        let owner = cx.rng.percent(88);
        let start = |cx: &Cx| if owner { cx.w.as_owner(cx.w.b()) } else { cx.w.b() };
        let mut charged = D::ZERO;
        match cx.rng.below(14) {
            0 | 1 => {
                let x = match cx.rng.below(3) {
                    0 => ATTO,
                    1 => cx.rng.log(0.1, 50.0),
                    _ => D::from(cx.rng.int(1, 300)),
                };
                let b = start(cx);
                let (b, bucket) = cx.w.pay(b, &cx.w.bank.clone(), XRD, x);
                let r = cx.w.run(b.call_method(d, "deposit", manifest_args!(bucket)), &[]);
                cx.outcome(&format!("deposit {x} owner={owner}"), &(x < D::ONE), owner, &r);
                if owner {
                    m.funds += x;
                }
            }
            2 => {
                let x = match cx.rng.below(4) {
                    0 => m.funds,
                    1 => m.funds + ATTO,
                    _ => floor_to(m.funds * cx.rng.dec(0.0, 0.3), 18),
                };
                let r = cx.w.run(start(cx).call_method(d, "withdraw", manifest_args!(x)), &[]);
                let ok = owner && x <= m.funds;
                cx.outcome(&format!("withdraw {x} of {} owner={owner}", m.funds), &(x == m.funds), ok, &r);
                if ok {
                    m.funds -= x;
                    let got = cx.flow(&r, bank, XRD);
                    cx.same("withdrawn", &x, &got);
                }
            }
            3 => {
                let x = cx.rng.pick(&[dec!(0), dec!("0.5"), dec!(3), dec!(50), dec!(1000), -ATTO]);
                let r = cx.w.run(start(cx).call_method(d, "update_max_lock", manifest_args!(x)), &[]);
                let ok = owner && !x.is_negative();
                cx.outcome(&format!("update_max_lock {x} owner={owner}"), &x.to_string(), ok, &r);
                if ok {
                    m.max = x;
                }
            }
            4 => {
                let x = cx.rng.pick(&[dec!(0), dec!("0.5"), dec!("1.5"), dec!(3), ATTO, -ATTO]);
                let r = cx.w.run(start(cx).call_method(d, "update_price_multiplier", manifest_args!(x)), &[]);
                let ok = owner && !x.is_negative();
                cx.outcome(&format!("update_price_multiplier {x} owner={owner}"), &x.to_string(), ok, &r);
                if ok {
                    m.mult = x;
                }
            }
            5 => {
                let x = cx.rng.percent(50);
                let r = cx.w.run(start(cx).call_method(d, "update_is_contingent", manifest_args!(x)), &[]);
                cx.outcome(&format!("update_is_contingent {x} owner={owner}"), &x, owner, &r);
                if owner {
                    m.contingent = x;
                }
            }
            6 => {
                let r = cx.w.run(start(cx).call_method(a.exchange, "collect_fee_delegator", manifest_args!()), &[]);
                cx.outcome(&format!("collect_fee_delegator owner={owner}"), &m.virt.is_zero(), owner, &r);
                if owner {
                    let got = cx.flow(&r, bank, a.base);
                    let want = m.virt;
                    cx.same("collected", &want, &got);
                    m.virt = D::ZERO;
                }
            }
            _ => {
                // One or two locks, whose oaths end up somewhere.
                let price = usd * m.mult;
                // The ledger locks fees only out of a vault that is untouched so far in the transaction.
                let locks: Vec<D> = (0..if cx.rng.percent(10) { 2 } else { 1 })
                    .map(|_| match cx.rng.below(5) {
                        // Around the limit.
                        0 if price.is_positive() => floor_to(m.max / price, 18),
                        1 if price.is_positive() => floor_to(m.max / price, 18) + ATTO * dec!(2),
                        2 if price.is_positive() => floor_to(m.max / price / dec!(2), 18),
                        3 => m.funds + ATTO,
                        _ => cx.rng.log(0.0001, 0.2),
                    })
                    .collect();
                let mut b = cx.w.b();
                let mut ok = locks.len() == 1;
                let mut out = D::ZERO;
                let mut left = m.funds;
                for x in &locks {
                    b = b.call_method(d, "lock_fee", manifest_args!(*x));
                    out += price * *x;
                    if out > m.max {
                        ok = false;
                    }
                    // A contingent lock takes the funds out all the same.
                    if *x > left {
                        ok = false;
                    }
                    left -= *x;
                }
                let mode = cx.rng.below(12);
                let mut story = format!("lock {locks:?} worth {out} (at most {}); ", m.max);
                match mode {
                    0 => {
                        // Only part of it is handed in: the rest cannot be kept.
                        let half = floor_to(out * dec!("0.5"), 18);
                        b = b.take_from_worktop(a.fee_oath, half, "oath");
                        ok = ok && half == out;
                        story += "hand in half";
                    }
                    1 => {
                        let z = dec!(1);
                        b = b.withdraw_from_account(bank, a.junk, z).take_from_worktop(a.junk, z, "oath");
                        ok = false;
                        story += "hand in another token";
                    }
                    2 => {
                        let z = dec!(1);
                        b = b.withdraw_from_account(bank, a.base, z).take_from_worktop(a.base, z, "oath");
                        ok = false;
                        story += "hand in base tokens";
                    }
                    3 => {
                        b = b.take_all_from_worktop(a.fee_oath, "burnt").burn_resource("burnt");
                        ok = false;
                        story += "burn it";
                    }
                    4 => {
                        b = b.take_all_from_worktop(a.fee_oath, "kept");
                        let k = b.name_lookup().bucket("kept");
                        b = b
                            .call_method(bank, "try_deposit_or_abort", manifest_args!(k, None::<ResourceOrNonFungible>));
                        ok = false;
                        story += "keep it";
                    }
                    _ => {
                        b = b.take_all_from_worktop(a.fee_oath, "oath");
                        story += "hand it in";
                    }
                }
                let o = if mode == 3 || mode == 4 { None } else { Some(b.name_lookup().bucket("oath")) };
                let which = cx.rng.below(6);
                let rule = alice.rule();
                let empty: Vec<ManifestBucket> = vec![];
                let empty_claims: Vec<(ResourceAddress, D)> = vec![];
                let indexes: Vec<u64> = vec![];
                let refs: Vec<exchange::RequestIndexRef> = vec![];
                let _ = &refs;
                b = match which {
                    // Nothing is left to be handed in: what has been lent must not go unpaid.
                    _ if o.is_none() => b,
                    0 => b.call_method(a.exchange, "add_collateral", manifest_args!(o, acc, empty)),
                    1 => b.call_method(a.exchange, "remove_collateral_request", manifest_args!(o, 1000u64, acc, bank, empty_claims)),
                    2 => b.call_method(a.exchange, "cancel_requests", manifest_args!(o, acc, indexes)),
                    3 => b.call_method(a.exchange, "set_level_3_auth", manifest_args!(o, acc, rule)),
                    4 => b.call_method(a.exchange, "set_level_2_auth", manifest_args!(o, acc, rule)),
                    _ => b.call_method(a.exchange, "create_recovery_key", manifest_args!(o, acc)),
                };
                // The account must stay in the black.
                let broke = vb - out < D::ZERO;
                if broke {
                    ok = false;
                }
                let r = cx.w.run(b, &[alice.badge.clone()]);
                cx.outcome(
                    &format!("lock_fee {story} with operation {which}, balance {vb}"),
                    &(mode, locks.len(), m.contingent, which, broke, out > m.max),
                    ok,
                    &r,
                );
                if ok && r.ok() {
                    m.virt += out;
                    charged = out;
                }
                // What the network took of the delegator's funds.
                let taken: D = cx
                    .w
                    .sim
                    .vaults(d, XRD)
                    .iter()
                    .filter_map(|v| r.commit().fee_source.paying_vaults.get(v).copied())
                    .fold(D::ZERO, |a, b| a + b);
                let most: D = locks.iter().copied().fold(D::ZERO, |a, b| a + b);
                let contingent = m.contingent;
                let fair = taken <= most && !(contingent && !r.ok() && taken.is_positive());
                cx.judge(&("network fee", taken.is_positive(), contingent, r.ok()), fair, || {
                    format!("the network took {taken} of the delegator, which locked {most}")
                });
                m.funds -= taken;
            }
        }
        vb -= charged;
        let have = read(cx);
        let want = m.clone();
        cx.same("fee delegator", &want, &have);
        let v = balance(cx);
        cx.same("account's balance", &vb, &v);
        let oaths = cx.w.sim.total_supply(a.fee_oath);
        cx.same("fee oaths left", &D::ZERO, &oaths);
        if vb < dec!(20) {
            let r = cx.w.add_collateral(acc, &[(a.base, dec!(60))], None, &[alice.badge.clone()]);
            if r.ok() {
                vb += dec!(60);
            }
        }
    }
}

// The oracle.

pub fn oracle(cx: &mut Cx) {
    let a = cx.w.a.clone();
    let o = a.oracle;
    let mut keys: Map<u64, u64> = [(0u64, ORACLE_KEY)].into();
    let mut prices: Map<String, (D, i64)> = Map::new();
    let pairs: Vec<String> = ["BTC/USD", "ETH/USD", "XRD/USD", "", "x"].iter().map(|s| s.to_string()).collect();
    let mut sent: Vec<Signed> = vec![];
    let mut contents: Vec<(u64, Vec<(String, D, i64)>)> = vec![];
    let mut t0 = 1_700_000_000i64;
    for _ in 0..30 {
        t0 += cx.rng.int(0, 5);
        let kind = cx.rng.below(12);
        match kind {
            0 => {
                let (id, seed) = (cx.rng.int(0, 3) as u64, cx.rng.int(1, 5) as u64);
                let owner = cx.rng.percent(85);
                let x = args(&(id, oracle_key(seed)));
                let r = if owner { cx.w.owner_call(o, "add_key", x) } else { plain(&mut cx.w, o, "add_key", x) };
                let ok = owner && !keys.contains_key(&id);
                cx.outcome(&format!("add_key {id} seed {seed} owner={owner}"), &keys.len(), ok, &r);
                if ok {
                    keys.insert(id, seed);
                }
            }
            1 => {
                let id = cx.rng.int(0, 3) as u64;
                let owner = cx.rng.percent(85);
                let x = args(&(id,));
                let r = if owner { cx.w.owner_call(o, "remove_key", x) } else { plain(&mut cx.w, o, "remove_key", x) };
                cx.outcome(&format!("remove_key {id} owner={owner}"), &keys.contains_key(&id), owner, &r);
                if owner {
                    keys.remove(&id);
                }
            }
            2 => {
                let p = cx.rng.pick(&pairs);
                let owner = cx.rng.percent(85);
                let x = args(&(p.clone(),));
                let r = if owner { cx.w.owner_call(o, "remove_price", x) } else { plain(&mut cx.w, o, "remove_price", x) };
                cx.outcome(&format!("remove_price {p} owner={owner}"), &prices.contains_key(&p), owner, &r);
                if owner {
                    prices.remove(&p);
                }
            }
            _ => {
                // A message: new, or one sent before.
                let replay = !sent.is_empty() && cx.rng.percent(15);
                let (mut signed, seed, msg) = if replay {
                    let i = cx.rng.below(sent.len());
                    (sent[i].clone(), contents[i].0, contents[i].1.clone())
                } else {
                    let seed = cx.rng.int(1, 5) as u64;
                    // Mostly a key that is registered.
                    let known: Vec<(u64, u64)> = keys.iter().map(|(k, v)| (*k, *v)).collect();
                    let (id, seed) = if !known.is_empty() && cx.rng.percent(80) {
                        cx.rng.pick(&known)
                    } else {
                        (cx.rng.int(0, 3) as u64, seed)
                    };
                    let n = cx.rng.below(6);
                    let msg: Vec<(String, D, i64)> = (0..n)
                        .map(|_| {
                            let p = cx.rng.pick(&pairs);
                            let last = prices.get(&p).map_or(t0, |x| x.1);
                            let t = match cx.rng.below(6) {
                                0 => last,
                                1 => last - 1,
                                2 => last + 1,
                                3 => last - cx.rng.int(1, 1000),
                                _ => t0 + cx.rng.int(-3, 3),
                            };
                            let q = match cx.rng.below(8) {
                                0 => D::ZERO,
                                1 => -cx.rng.log(0.1, 100.0),
                                _ => cx.rng.log(0.0001, 100_000.0),
                            };
                            (p, q, t)
                        })
                        .collect();
                    (sign_prices(seed, id, &msg), seed, msg)
                };
                if !replay {
                    sent.push(signed.clone());
                    contents.push((seed, msg.clone()));
                }
                let mut genuine = true;
                let mut how = "intact";
                match cx.rng.below(16) {
                    0 if !signed.0.is_empty() => {
                        let i = cx.rng.below(signed.0.len());
                        signed.0[i] ^= 1 << cx.rng.below(8);
                        genuine = false;
                        how = "altered data";
                    }
                    1 => {
                        let i = cx.rng.below(96);
                        signed.1 .0[i] ^= 1 << cx.rng.below(8);
                        genuine = false;
                        how = "altered signature";
                    }
                    2 => {
                        let id = cx.rng.int(0, 4) as u64;
                        signed.2 = id;
                        how = "another key named";
                    }
                    3 if sent.len() > 1 => {
                        let other = cx.rng.pick(&sent);
                        if other.0 != signed.0 {
                            signed.1 = other.1;
                            genuine = false;
                            how = "another message's signature";
                        }
                    }
                    4 => {
                        // Signed garbage.
                        let junk: Vec<u8> = (0..cx.rng.int(0, 20)).map(|_| cx.rng.next() as u8).collect();
                        signed = sign_data(seed, signed.2, junk);
                        genuine = false;
                        how = "garbage";
                    }
                    5 => {
                        // The same data, signed by a key that is not the one named.
                        signed = sign_prices(seed % 5 + 1, signed.2, &msg);
                        genuine = keys.get(&signed.2) == Some(&(seed % 5 + 1));
                        if genuine {
                            // It happens to be the key registered.
                            genuine = true;
                        }
                        how = "signed by another key";
                    }
                    _ => {}
                }
                let key = keys.get(&signed.2).copied();
                let verified = genuine && (key == Some(seed) || how == "signed by another key");
                let mut ahead = prices.clone();
                for (p, q, t) in &msg {
                    match ahead.get_mut(p) {
                        Some(x) => {
                            if *t > x.1 {
                                *x = (*q, *t);
                            }
                        }
                        None => {
                            ahead.insert(p.clone(), (*q, *t));
                        }
                    }
                }
                let n = cx.rng.below(4);
                let ask: Set<String> = (0..n).map(|_| cx.rng.pick(&pairs)).collect();
                let answerable = ask.iter().all(|p| ahead.contains_key(p));
                let (method, authority) = if cx.rng.percent(70) {
                    ("push_and_get_prices", true)
                } else {
                    ("push_and_get_prices_with_auth", cx.rng.percent(80))
                };
                let ok = verified && answerable && (method == "push_and_get_prices" || authority);
                let x = args(&(ask.clone(), signed.0.clone(), signed.1, signed.2));
                let b = if authority && method != "push_and_get_prices" { cx.w.as_authority(cx.w.b()) } else { cx.w.b() };
                let r = cx.w.run(b.call_method(o, method, Raw(x)), &[]);
                cx.outcome(
                    &format!("{method} {how}, replay={replay} key {} {msg:?} asking {ask:?} authority={authority}", signed.2),
                    &(how, replay, msg.len(), ask.len(), key == Some(seed)),
                    ok,
                    &r,
                );
                if ok {
                    prices = ahead;
                    if r.ok() {
                        let n = r.commit().outcome.expect_success().len();
                        let got: HashMap<String, (D, Instant)> = r.output(n - 2);
                        let got: Map<String, (D, i64)> =
                            got.into_iter().map(|(k, v)| (k, (v.0, v.1.seconds_since_unix_epoch))).collect();
                        let want: Map<String, (D, i64)> = ask.iter().map(|p| (p.clone(), prices[p])).collect();
                        cx.same("prices answered", &want, &got);
                    }
                }
            }
        }
        // All that is stored.
        let mut got: Map<String, (D, i64)> = Map::new();
        for p in &pairs {
            let one: Set<String> = [p.clone()].into();
            let r = cx.w.query(vec![(o, "get_prices", args(&(one,)))]);
            if r.ok() {
                for (k, v) in r.output::<HashMap<String, (D, Instant)>>(0) {
                    got.insert(k, (v.0, v.1.seconds_since_unix_epoch));
                }
            }
        }
        let want = prices.clone();
        cx.same("prices stored", &want, &got);
    }
    let _ = ceil_to;
}
