//! Compares what happened with what had to happen, and says whose property a difference breaks.

use crate::model::*;
use crate::real::Done;
use std::collections::{BTreeMap as Map, BTreeSet as Set};
use world::*;

pub type Prop = &'static str;

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    D(D),
    S(String),
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Part {
    Oracle(Id),
    Exchange,
    PairCfg(Id),
    CollCfg(ResourceAddress),
    Pool,
    Pair(Id),
    Acc(ComponentAddress),
    Fees,
    Delegator,
    Oath,
    Lp,
    Referral(NonFungibleLocalId),
    Code(String),
    Allocation(NonFungibleLocalId),
}

pub type Flat = Map<(Part, String), Val>;

fn s<T: std::fmt::Debug>(x: &T) -> Val {
    Val::S(format!("{:?}", x))
}

pub fn flat_pair(prefix: &str, q: &Pair, put: &mut dyn FnMut(String, Val)) {
    for (k, d) in [
        ("oi_long", q.oi_long),
        ("oi_short", q.oi_short),
        ("cost", q.cost),
        ("skew_abs", q.skew_abs),
        ("pnl", q.pnl),
        ("rate", q.rate),
        ("long_index", q.long_index),
        ("short_index", q.short_index),
        ("last_price", q.last_price),
    ] {
        put(format!("{prefix}{k}"), Val::D(d));
    }
    put(format!("{prefix}last_update"), s(&q.last_update));
}

pub fn flatten(x: &State) -> Flat {
    let mut f = Flat::new();
    let mut put = |p: &Part, k: &str, v: Val| {
        f.insert((p.clone(), k.to_string()), v);
    };
    for (p, (d, t)) in &x.oracle {
        put(&Part::Oracle(p.clone()), "price", Val::D(*d));
        put(&Part::Oracle(p.clone()), "time", s(t));
    }
    put(&Part::Exchange, "config", s(&x.ex));
    for (p, c) in &x.pair_cfg {
        put(&Part::PairCfg(p.clone()), "config", s(c));
    }
    for (r, c) in &x.coll_cfg {
        put(&Part::CollCfg(*r), "config", s(c));
    }
    for (k, d) in [
        ("base_tokens", x.base_tokens),
        ("vb", x.pool_vb),
        ("unrealized", x.unrealized),
        ("skew_abs", x.skew_abs),
        ("pnl", x.pnl),
    ] {
        put(&Part::Pool, k, Val::D(d));
    }
    for (p, q) in &x.pairs {
        let part = Part::Pair(p.clone());
        flat_pair("", q, &mut |k, v| put(&part, &k, v));
    }
    for (a, acc) in &x.accounts {
        let part = Part::Acc(*a);
        put(&part, "vb", Val::D(acc.vb));
        put(&part, "start", s(&acc.start));
        put(&part, "active", s(&acc.active));
        put(&part, "referral", s(&acc.referral));
        for (r, d) in &acc.coll {
            put(&part, &format!("coll {r:?}"), Val::D(*d));
        }
        for (p, pos) in &acc.positions {
            put(&part, &format!("pos amount {p}"), Val::D(pos.amount));
            put(&part, &format!("pos cost {p}"), Val::D(pos.cost));
            put(&part, &format!("pos index {p}"), Val::D(pos.index));
        }
        for (i, r) in acc.reqs.iter().enumerate() {
            put(&part, &format!("req status {i}"), s(&r.status));
            put(
                &part,
                &format!("req content {i}"),
                s(&(&r.rq, &r.effected)),
            );
            put(&part, &format!("req window {i}"), s(&(r.submission, r.expiry)));
        }
    }
    put(&Part::Fees, "protocol", Val::D(x.protocol));
    put(&Part::Fees, "treasury", Val::D(x.treasury));
    put(&Part::Delegator, "vb", Val::D(x.delegator_vb));
    put(&Part::Delegator, "max_lock", Val::D(x.max_lock));
    put(&Part::Delegator, "multiplier", Val::D(x.multiplier));
    put(&Part::Oath, "supply", Val::D(x.oath_supply));
    put(&Part::Lp, "supply", Val::D(x.lp_supply));
    for (id, r) in &x.referrals {
        let part = Part::Referral(id.clone());
        put(&part, "share", Val::D(r.share));
        put(&part, "rebate", Val::D(r.rebate));
        put(&part, "balance", Val::D(r.balance));
        put(&part, "total", Val::D(r.total));
        put(&part, "referrals", s(&r.referrals));
        put(&part, "max", s(&r.max));
    }
    for (c, v) in &x.codes {
        put(&Part::Code(c.clone()), "data", s(v));
    }
    for (id, v) in &x.allocations {
        put(&Part::Allocation(id.clone()), "data", s(v));
    }
    f
}

/// Paths whose values differ.
pub fn differences(want: &Flat, have: &Flat, exact: &dyn Fn(&Part) -> bool) -> Vec<((Part, String), String)> {
    let mut out = vec![];
    let keys: Set<_> = want.keys().chain(have.keys()).cloned().collect();
    for k in keys {
        let (w, h) = (want.get(&k), have.get(&k));
        let same = match (w, h) {
            (Some(Val::D(a)), Some(Val::D(b))) => a == b || (!exact(&k.0) && close(*a, *b)),
            (a, b) => a == b,
        };
        if !same {
            let show = |v: Option<&Val>| match v {
                None => "nothing".to_string(),
                Some(Val::D(d)) => d.to_string(),
                Some(Val::S(x)) => x.clone(),
            };
            let text = format!("{:?} {}: expected {}, found {}", k.0, k.1, show(w), show(h));
            out.push((k, text));
        }
    }
    out
}

/// Whether two indexes of funding differ by no more than what rounding amounts to once it is
/// divided by an open interest of dust.
pub fn blurred(pre: &State, key: &(Part, String), want: Option<&Val>, have: Option<&Val>) -> bool {
    let pair = match &key.0 {
        Part::Pair(p) if key.1 == "long_index" || key.1 == "short_index" => p.as_str(),
        Part::Acc(_) => match key.1.strip_prefix("pos index ") {
            Some(p) => p,
            None => return false,
        },
        _ => return false,
    };
    let (Some(Val::D(a)), Some(Val::D(b)), Some(q)) = (want, have, pre.pairs.get(pair)) else { return false };
    let least = q.oi_long.min(q.oi_short);
    // Untouched, or no funding at all, leaves no room for rounding.
    if least <= D::ZERO || least > dec!("0.001") || *b == pre.pairs[pair].long_index || *b == pre.pairs[pair].short_index {
        return false;
    }
    abs(*a - *b) * least <= ATTO * dec!(1000)
}

/// What an operation is mainly about.
pub fn main_props(op: &Op, pre: &State) -> Vec<Prop> {
    match op {
        Op::Push(_) => vec!["P13"],
        Op::Create { code, .. } => {
            if code.is_some() {
                vec!["P18", "P21", "P22"]
            } else {
                vec!["P18"]
            }
        }
        Op::Add { .. } => vec!["P18"],
        Op::Remove { .. } => vec!["P11", "P18"],
        Op::Order { .. } => vec!["P11", "P06"],
        Op::TpSl { .. } => vec!["P12"],
        Op::Cancel { .. } => vec!["P11"],
        Op::Process { acc, index, .. } => {
            match pre.accounts.get(acc).and_then(|a| a.reqs.get(*index as usize)).map(|r| &r.rq) {
                Some(Rq::Remove { .. }) => vec!["P18", "P11"],
                Some(Rq::Order { activate, cancel, .. }) if !activate.is_empty() || !cancel.is_empty() => {
                    vec!["P06", "P11", "P12"]
                }
                _ => vec!["P06", "P11"],
            }
        }
        Op::SwapDebt { .. } => vec!["P19"],
        Op::Liquidate { .. } => vec!["P08"],
        Op::Adl { .. } => vec!["P09"],
        Op::Update { .. } => vec!["P23", "P03"],
        Op::AddLiq { .. } | Op::RemLiq { .. } => vec!["P04"],
        Op::SwapProtocol { .. } | Op::CollectTreasury => vec!["P20"],
        Op::CollectDelegator => vec!["P20", "P24"],
        Op::CollectReferral { .. } => vec!["P22"],
        Op::SetExchange(_) | Op::SetPairs(_) | Op::SetCollateral(_) | Op::DropCollateral(_) => vec!["P27"],
        Op::UpdateReferral { .. } | Op::MintReferral { allocation: None, .. } => vec!["P22"],
        Op::MintReferral { .. } => vec!["P22", "P21"],
        Op::CreateCodes { .. } | Op::AddAllocation { .. } | Op::CodesFromAllocation { .. } => vec!["P21", "P22"],
    }
}

pub fn has_oath(op: &Op) -> bool {
    match op {
        Op::Create { oath, .. }
        | Op::Add { oath, .. }
        | Op::Remove { oath, .. }
        | Op::Order { oath, .. }
        | Op::TpSl { oath, .. }
        | Op::Cancel { oath, .. } => oath.is_some(),
        _ => false,
    }
}

/// Accepted although it had to be refused for this reason.
pub fn accepted_props(r: Rej, op: &Op, pre: &State) -> Vec<Prop> {
    use Rej::*;
    let main = || main_props(op, pre);
    match r {
        BadSignature => vec!["P13"],
        MissingPrice | StalePrice | BadPrice => vec!["P14"],
        MissingPairConfig => vec!["P33"],
        MissingRequest => match op {
            Op::Process { index, acc, .. } if pre.accounts[acc].reqs.len() as u64 > *index => vec!["P12"],
            _ => vec!["P11"],
        },
        BeforeValidStart => vec!["P11", "P08"],
        NotActive | BeforeSubmission | NotCancellable | BadStatus | Time => vec!["P11"],
        PriceLimit | Slippage => vec!["P06"],
        OiMax => vec!["P10"],
        Skew => match op {
            Op::RemLiq { .. } => vec!["P04"],
            _ => vec!["P10"],
        },
        Positions | Collaterals | ActiveRequests | TradeSize | Claims | Effected => vec!["P33"],
        Margin => {
            if has_oath(op) {
                vec!["P07", "P24"]
            } else {
                vec!["P07"]
            }
        }
        Balance | PoolTokens | Amount | InvalidCollateral | Payment | WrongToken => main(),
        Sufficient => vec!["P08"],
        AdlSkew | AdlPosition | AdlPnl | AdlNotReduced => vec!["P09"],
        NoDebt => vec!["P19"],
        ReferralLimit | ReferralData => vec!["P22"],
        CodeExists | CodeMissing | CodeUsed | Allocation | Tokens => vec!["P21"],
        Config => vec!["P27"],
        OathLimit => vec!["P24"],
    }
}

/// Refused with this message although nothing stood against it.
pub fn refused_props(error: &str, auth: bool, op: &Op, pre: &State) -> Vec<Prop> {
    if auth {
        return vec!["P15", "P17"];
    }
    let has = |t: &str| error.contains(t);
    if has("Skew exceeds maximum") {
        return if matches!(op, Op::RemLiq { .. }) { vec!["P04"] } else { vec!["P10"] };
    }
    if has("Pair OI exceeds") {
        return vec!["P10"];
    }
    if has("Insufficient margin") {
        return if has_oath(op) { vec!["P07", "P24"] } else { vec!["P07"] };
    }
    if has("Price limit not met") || has("Slippage limit exceeded") {
        return vec!["P06"];
    }
    if has("Sufficient margin, can not") {
        return vec!["P08"];
    }
    if has("Claims list too big")
        || has("Too many effected")
        || has("Trade size minimum")
        || has("Too many positions")
        || has("Too many collaterals")
        || has("Too many active")
        || has("Pair config not found")
    {
        return vec!["P33"];
    }
    if has("Invalid price") || has("Price too old") || has("Price not found") {
        return vec!["P14"];
    }
    if has("Request not found") {
        return vec!["P11", "P12"];
    }
    if has("Request not active") || has("Request before") || has("Invalid request status") {
        return vec!["P11"];
    }
    if has("Referral limit") {
        return vec!["P22"];
    }
    main_props(op, pre)
}

/// The properties a difference in the state speaks about.
pub fn field_props(part: &Part, field: &str, op: &Op, pre: &State, out: &Out, all: &[((Part, String), String)]) -> Vec<Prop> {
    let main = main_props(op, pre);
    let mut v: Vec<Prop> = vec![];
    let trade = matches!(op, Op::Liquidate { .. } | Op::Adl { .. })
        || matches!(op, Op::Process { acc, index, .. }
            if matches!(pre.accounts.get(acc).and_then(|a| a.reqs.get(*index as usize)).map(|r| &r.rq), Some(Rq::Order { .. })));
    let noted = |n: &str| out.notes.iter().any(|x| *x == n);
    let fee_off = all.iter().any(|((p, k), _)| *p == Part::Fees || (matches!(p, Part::Referral(_)) && k == "balance"));
    match part {
        Part::Oracle(_) => v.push("P13"),
        Part::Exchange | Part::PairCfg(_) | Part::CollCfg(_) => v.push("P27"),
        Part::Pool => match field {
            "unrealized" => v.push("P03"),
            "skew_abs" | "pnl" => v.push("P02"),
            "base_tokens" => v.extend(main),
            _ => {
                v.extend(&main);
                if trade && noted("fee charged") {
                    v.push("P05");
                }
                if trade && (noted("funding paid") || noted("funding received")) {
                    v.push("P03");
                }
            }
        },
        Part::Pair(p) => {
            if !out.pairs.contains(p) {
                v.push("P34");
            }
            match field {
                "oi_long" | "oi_short" | "cost" => {
                    v.push("P02");
                    v.extend(main);
                    if field == "cost" && noted("fee charged") {
                        v.push("P05");
                    }
                }
                "skew_abs" | "pnl" => {
                    v.push("P02");
                    v.push("P10");
                }
                "rate" | "long_index" | "short_index" => v.push("P03"),
                _ => {
                    v.push("P03");
                    v.push("P10");
                    v.push("P23");
                }
            }
        }
        Part::Acc(a) => {
            if op.account() != Some(*a) && pre.accounts.contains_key(a) {
                v.push("P34");
            } else if field == "vb" {
                if trade {
                    if fee_off {
                        v.push("P05");
                    }
                    if noted("funding paid") || noted("funding received") {
                        v.push("P03");
                    }
                    if noted("fee charged") {
                        v.push("P05");
                    }
                }
                v.extend(&main);
                if has_oath(op) {
                    v.push("P24");
                }
            } else if field.starts_with("pos index") {
                v.push("P03");
            } else if field.starts_with("pos") {
                v.extend(&main);
                if field.starts_with("pos cost") && noted("fee charged") {
                    v.push("P05");
                }
            } else if field.starts_with("coll") {
                v.push("P18");
                v.extend(&main);
            } else if field.starts_with("req") || field == "active" {
                v.push("P11");
                // What is recorded is not what was asked for.
                if field.starts_with("req content") {
                    match op {
                        Op::Remove { .. } => v.push("P18"),
                        Op::Order { .. } => v.push("P06"),
                        _ => {}
                    }
                }
                let own = match op {
                    Op::Process { index, .. } => field.ends_with(&format!(" {index}")),
                    _ => false,
                };
                if matches!(op, Op::TpSl { .. }) || (matches!(op, Op::Process { .. }) && !own) {
                    v.push("P12");
                }
                if matches!(op, Op::Liquidate { .. }) {
                    v.push("P08");
                }
            } else if field == "start" {
                v.push("P11");
                v.push("P08");
            } else if field == "referral" {
                v.push("P22");
            }
        }
        Part::Fees => {
            if trade {
                v.push("P05");
            } else {
                v.extend(main);
                v.push("P20");
            }
        }
        Part::Delegator | Part::Oath => {
            v.push("P24");
            if matches!(op, Op::CollectDelegator) {
                v.push("P20");
            }
        }
        Part::Lp => v.push("P04"),
        Part::Referral(_) => {
            v.push("P22");
            if trade {
                v.push("P05");
            }
        }
        Part::Code(_) | Part::Allocation(_) => v.push("P21"),
    }
    v
}

// Events, taken apart the same way.
pub fn flat_event(e: &Ev) -> (String, Map<String, Val>) {
    let mut m = Map::new();
    let name = format!("{:?}", e);
    let name = name.split(['(', ' ', '{']).next().unwrap().to_string();
    let mut put = |k: &str, v: Val| {
        m.insert(k.to_string(), v);
    };
    let fees = |put: &mut dyn FnMut(&str, Val), f: &[D; 4]| {
        for (k, d) in ["fee_pool", "fee_protocol", "fee_treasury", "fee_referral"].iter().zip(f) {
            put(k, Val::D(*d));
        }
    };
    match e {
        Ev::PairUpdates(u) => {
            for (p, q) in u {
                flat_pair(&format!("{p} "), q, &mut |k, v| put(&k, v));
            }
        }
        Ev::Requests(a, r) => {
            put("account", s(a));
            for (i, r) in r {
                put(&format!("request {i}"), s(r));
            }
        }
        Ev::ValidStart(a, i) => {
            put("account", s(a));
            put("start", s(i));
        }
        Ev::Creation(r) => put("referral", s(r)),
        Ev::Liquidity { price, lp, amount, pool, protocol, treasury } => {
            for (k, d) in [
                ("price", price),
                ("lp", lp),
                ("amount", amount),
                ("pool", pool),
                ("protocol", protocol),
                ("treasury", treasury),
            ] {
                put(k, Val::D(*d));
            }
        }
        Ev::AddCollateral(a, l) => {
            put("account", s(a));
            for (r, d) in sums(l) {
                put(&format!("{r:?}"), Val::D(d));
            }
        }
        Ev::RemoveCollateral(a, t, l) => {
            put("account", s(a));
            put("target", s(t));
            for (r, d) in sums(l) {
                put(&format!("{r:?}"), Val::D(d));
            }
        }
        Ev::Order { acc, pair, price, limit, close, open, pnl, funding, fees: f, activated, cancelled } => {
            put("account", s(acc));
            put("pair", s(pair));
            put("limit", s(limit));
            put("activated", s(activated));
            put("cancelled", s(cancelled));
            for (k, d) in [("price", price), ("close", close), ("open", open), ("pnl", pnl), ("funding", funding)] {
                put(k, Val::D(*d));
            }
            fees(&mut put, f);
        }
        Ev::SwapDebt { acc, res, amount, price } => {
            put("account", s(acc));
            put("resource", s(res));
            put("amount", Val::D(*amount));
            put("price", Val::D(*price));
        }
        Ev::Liquidate {
            acc,
            prices,
            coll_prices,
            value,
            margin,
            vb,
            amounts,
            pnl,
            coll,
            coll_value,
            coll_discounted,
            funding,
            fees: f,
            loss,
        } => {
            put("account", s(acc));
            for (p, d) in prices {
                put(&format!("price {p}"), Val::D(*d));
            }
            for (p, d) in amounts {
                put(&format!("amount {p}"), Val::D(*d));
            }
            for (r, d) in coll_prices {
                put(&format!("price {r:?}"), Val::D(*d));
            }
            for (r, d) in coll {
                put(&format!("amount {r:?}"), Val::D(*d));
            }
            for (k, d) in [
                ("value", value),
                ("margin", margin),
                ("vb", vb),
                ("pnl", pnl),
                ("coll_value", coll_value),
                ("coll_discounted", coll_discounted),
                ("funding", funding),
                ("loss", loss),
            ] {
                put(k, Val::D(*d));
            }
            fees(&mut put, f);
        }
        Ev::Adl { acc, pair, price, close, pnl, funding, fees: f, percent, threshold } => {
            put("account", s(acc));
            put("pair", s(pair));
            for (k, d) in [
                ("price", price),
                ("close", close),
                ("pnl", pnl),
                ("funding", funding),
                ("percent", percent),
                ("threshold", threshold),
            ] {
                put(k, Val::D(*d));
            }
            fees(&mut put, f);
        }
        Ev::ExchangeConfig(c) => put("config", s(c)),
        Ev::PairConfigs(c) => put("config", s(c)),
        Ev::CollateralConfigs(c) => put("config", s(c)),
        Ev::CollateralRemoval(r) => put("resource", s(r)),
    }
    (name, m)
}

fn sums(l: &[(ResourceAddress, D)]) -> Map<ResourceAddress, D> {
    let mut m = Map::new();
    for (r, d) in l {
        *m.entry(*r).or_insert(D::ZERO) += *d;
    }
    m
}

/// Differences between announced and predicted events.
pub fn event_differences(want: &[Ev], have: &[Ev]) -> Vec<String> {
    let mut out = vec![];
    let flat = |l: &[Ev]| {
        let mut m: Map<String, Vec<Map<String, Val>>> = Map::new();
        for e in l {
            let (n, f) = flat_event(e);
            m.entry(n).or_default().push(f);
        }
        m
    };
    let (w, h) = (flat(want), flat(have));
    for name in w.keys().chain(h.keys()).cloned().collect::<Set<_>>() {
        let (a, b) = (w.get(&name).cloned().unwrap_or_default(), h.get(&name).cloned().unwrap_or_default());
        if a.len() != b.len() {
            out.push(format!("{name}: expected {} of them, found {}", a.len(), b.len()));
            continue;
        }
        for (x, y) in a.iter().zip(&b) {
            for k in x.keys().chain(y.keys()).cloned().collect::<Set<_>>() {
                let same = match (x.get(&k), y.get(&k)) {
                    (Some(Val::D(p)), Some(Val::D(q))) => close(*p, *q),
                    (p, q) => p == q,
                };
                if !same {
                    out.push(format!("{name} {k}: expected {:?}, found {:?}", x.get(&k), y.get(&k)));
                }
            }
        }
    }
    out
}

pub fn flow_props(who: &Who, res: ResourceAddress, op: &Op, pre: &State) -> Vec<Prop> {
    let mut v = main_props(op, pre);
    if res == pre.lp {
        v = vec!["P04"];
    } else if *who == Who::Referrals {
        v.push("P21");
    } else if matches!(who, Who::At(a) if pre.accounts.contains_key(a)) {
        v.push("P18");
    }
    if let Who::At(a) = who {
        if pre.accounts.contains_key(a) && op.account() != Some(*a) {
            v.push("P34");
        }
    }
    if *who == Who::Pool && res == pre.base {
        v.push("P01");
    }
    v
}

pub fn flow_differences(
    op: &Op,
    want: &Map<(Who, ResourceAddress), D>,
    done: &Done,
) -> Vec<((Who, ResourceAddress), String)> {
    // What is merely handed over has no rounding of its own.
    let exact = matches!(
        op,
        Op::CollectTreasury
            | Op::CollectDelegator
            | Op::CollectReferral { .. }
            | Op::SwapProtocol { .. }
            | Op::Create { .. }
            | Op::Add { .. }
            | Op::CreateCodes { .. }
            | Op::AddAllocation { .. }
            | Op::MintReferral { .. }
    );
    let mut out = vec![];
    for k in want.keys().chain(done.flows.keys()).cloned().collect::<Set<_>>() {
        let (a, b) = (
            want.get(&k).copied().unwrap_or(D::ZERO),
            done.flows.get(&k).copied().unwrap_or(D::ZERO),
        );
        if if exact { a != b } else { !close(a, b) } {
            out.push((k, format!("payment {:?}: expected {a}, found {b}", k)));
        }
    }
    out
}

/// What must hold of every state, whatever happened.
pub fn invariants(x: &State) -> Vec<(Prop, String)> {
    let mut out = vec![];
    let mut sum = x.pool_vb + x.protocol + x.treasury + x.delegator_vb - x.oath_supply;
    for a in x.accounts.values() {
        sum += a.vb;
    }
    for r in x.referrals.values() {
        sum += r.balance;
    }
    if !sum.is_zero() {
        out.push(("P01", format!("all base balances net to {sum}")));
    }
    let (mut skew, mut pnl, mut owed) = (D::ZERO, D::ZERO, D::ZERO);
    let mut scale = D::ONE;
    for (p, q) in &x.pairs {
        skew += q.skew_abs;
        pnl += q.pnl;
        let (mut long, mut short, mut cost) = (D::ZERO, D::ZERO, D::ZERO);
        for a in x.accounts.values() {
            let Some(pos) = a.positions.get(p) else { continue };
            if pos.amount > D::ZERO {
                long += pos.amount;
                owed += pos.amount * (q.long_index - pos.index);
                scale += pos.amount;
            } else {
                short -= pos.amount;
                owed -= pos.amount * (q.short_index - pos.index);
                scale -= pos.amount;
            }
            cost += pos.cost;
            if pos.amount.is_zero() {
                out.push(("P02", format!("a position of size zero in {p} is kept")));
            }
        }
        for (n, a, b) in [("long", q.oi_long, long), ("short", q.oi_short, short), ("cost", q.cost, cost)] {
            if a != b {
                out.push(("P02", format!("{p}: the pool has {n} {a}, the accounts together {b}")));
            }
        }
        let net = (q.oi_long - q.oi_short) * q.last_price;
        let abs = if net.is_negative() { -net } else { net };
        if !close(q.skew_abs, abs) {
            out.push(("P02", format!("{p}: absolute skew {} instead of {abs}", q.skew_abs)));
        }
        if !close(q.pnl, q.cost - net) {
            out.push(("P02", format!("{p}: unrealised profit {} instead of {}", q.pnl, q.cost - net)));
        }
    }
    if skew != x.skew_abs {
        out.push(("P02", format!("the pool's absolute skew is {}, of the pairs together {skew}", x.skew_abs)));
    }
    if pnl != x.pnl {
        out.push(("P02", format!("the pool's unrealised profit is {}, of the pairs together {pnl}", x.pnl)));
    }
    let gap = owed - x.unrealized;
    let gap = if gap.is_negative() { -gap } else { gap };
    if gap > dec!("0.0000001") + scale * dec!("0.0000000000001") {
        out.push(("P03", format!("unrealised funding {} although positions owe {owed}", x.unrealized)));
    }
    for (a, acc) in &x.accounts {
        for (i, r) in acc.reqs.iter().enumerate() {
            let i = i as u64;
            let open = r.status <= ACTIVE && i >= acc.start;
            if open != acc.active.contains(&i) {
                out.push(("P11", format!("request {i} of {a:?} has status {} and active set {:?}", r.status, acc.active)));
            }
        }
        if acc.active.contains(&u64::MAX) {
            out.push(("P29", format!("the request lists of {a:?} disagree")));
            out.push(("P11", format!("the request lists of {a:?} disagree")));
        }
    }
    for r in x.referrals.values() {
        let ok = |d: D| d >= D::ZERO && d <= dec!("0.1");
        if !ok(r.share) || !ok(r.rebate) {
            out.push(("P22", format!("a referral's rates are {} and {}", r.share, r.rebate)));
        }
    }
    out
}
