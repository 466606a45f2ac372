//! What was seen, and what was wrong with it.

use crate::judge::*;
use crate::model::*;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap as Map, BTreeSet as Set, HashSet};
use std::hash::Hasher;

#[derive(Clone, Debug)]
pub struct Violation {
    pub props: Vec<Prop>,
    pub text: String,
    pub episode: u64,
    pub log: Vec<String>,
}

#[derive(Default)]
pub struct Stats {
    pub ops: Map<String, u64>,
    pub notes: Map<String, u64>,
    pub states: u64,
    pub unjudged: u64,
    pub events_compared: u64,
    pub episodes: u64,
    /// Judgements that concern each property.
    pub evaluations: Map<Prop, u64>,
    pub distinct: Map<Prop, HashSet<u64>>,
    pub samples: Vec<String>,
}

#[derive(Default)]
pub struct Monitor {
    pub stats: Stats,
    pub violations: Vec<Violation>,
    seen: Set<String>,
}

pub fn hash<T: std::hash::Hash>(x: &T) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

impl Monitor {
    pub fn violation(&mut self, props: &[Prop], text: &str, episode: u64, log: &[String]) {
        // One of a kind is enough: numbers and addresses aside.
        let kind: String = format!("{props:?}{}", text.chars().filter(|c| c.is_alphabetic() || *c == ' ').take(70).collect::<String>());
        if self.seen.insert(kind) && self.violations.len() < 200 {
            self.violations.push(Violation {
                props: props.to_vec(),
                text: text.to_string(),
                episode,
                log: log.to_vec(),
            });
        }
    }
    pub fn note(&mut self, n: &str) {
        *self.stats.notes.entry(n.to_string()).or_default() += 1;
    }
    /// Counts a judgement on behalf of a property.
    pub fn judged(&mut self, p: Prop, what: u64) {
        *self.stats.evaluations.entry(p).or_default() += 1;
        self.stats.distinct.entry(p).or_default().insert(what);
    }
    pub fn sample(&mut self, text: String) {
        if self.stats.samples.len() < 6 {
            self.stats.samples.push(text.chars().take(600).collect());
        }
    }

    pub fn count(&mut self, op: &Op, pre: &State, verdict: &Result<(), Rej>, near: bool, out: &Out, accepted: bool) {
        let outcome = match verdict {
            _ if near => "too close to call".to_string(),
            Ok(()) => "ok".to_string(),
            Err(r) => format!("{r:?}"),
        };
        *self.stats.ops.entry(format!("{} {}", op.name(), outcome)).or_default() += 1;
        if near {
            return;
        }
        if accepted {
            for n in out.notes.iter().collect::<Set<_>>() {
                self.note(n);
            }
        }
        let bucket = |d: D| {
            let s = d.to_string();
            (d.is_negative(), s.split('.').next().unwrap_or("").len())
        };
        let acc = op.account().and_then(|a| pre.accounts.get(&a));
        let situation = hash(&(
            op.name(),
            &outcome,
            out.notes.iter().collect::<Set<_>>(),
            acc.map(|a| {
                (
                    bucket(a.vb),
                    a.positions.values().map(|p| bucket(p.amount)).collect::<Vec<_>>(),
                    a.coll.len(),
                    a.active.len().min(4),
                    a.referral.is_some(),
                )
            }),
            pre.pairs.values().map(|q| (q.oi_long > q.oi_short, bucket(q.cost))).collect::<Vec<_>>(),
            bucket(pre.pool_vb),
        ));
        for p in subjects(op, pre, verdict, out) {
            self.judged(p, situation);
        }
    }

    pub fn absorb(&mut self, other: Monitor) {
        let s = other.stats;
        for (k, v) in s.ops {
            *self.stats.ops.entry(k).or_default() += v;
        }
        for (k, v) in s.notes {
            *self.stats.notes.entry(k).or_default() += v;
        }
        for (k, v) in s.evaluations {
            *self.stats.evaluations.entry(k).or_default() += v;
        }
        for (k, v) in s.distinct {
            self.stats.distinct.entry(k).or_default().extend(v);
        }
        self.stats.states += s.states;
        self.stats.unjudged += s.unjudged;
        self.stats.events_compared += s.events_compared;
        self.stats.episodes += s.episodes;
        for x in s.samples {
            self.sample(x);
        }
        for v in other.violations {
            self.violation(&v.props.clone(), &v.text.clone(), v.episode, &v.log);
        }
    }
}

/// The properties whose statement this outcome exercises.
pub fn subjects(op: &Op, pre: &State, verdict: &Result<(), Rej>, out: &Out) -> Set<Prop> {
    let mut s: Set<Prop> = Set::new();
    let noted = |n: &str| out.notes.iter().any(|x| *x == n);
    match verdict {
        Err(r) => {
            s.extend(accepted_props(*r, op, pre));
            if noted("margin checked") {
                s.insert("P07");
            }
        }
        Ok(()) => {
            s.extend(main_props(op, pre));
            s.insert("P34");
            if !matches!(op, Op::Push(_)) {
                s.insert("P01");
            }
            if !out.pairs.is_empty() {
                s.insert("P02");
            }
            if noted("funding accrued") || noted("funding paid") || noted("funding received") {
                s.insert("P03");
            }
            if noted("fee charged") {
                s.insert("P05");
            }
            if noted("margin checked") {
                s.insert("P07");
            }
            if noted("order opens") || noted("order increases") || noted("order flips") {
                s.insert("P10");
            }
            if noted("activates") || noted("cancels") {
                s.insert("P12");
            }
            if noted("prices used") {
                s.insert("P14");
            }
            if noted("referral share") || noted("referral code used") {
                s.insert("P22");
            }
            if !out.reward.is_zero() {
                s.insert("P23");
            }
            if has_oath(op) {
                s.insert("P24");
            }
            if !out.events.is_empty() {
                s.insert("P30");
            }
            if matches!(op, Op::Order { .. } | Op::TpSl { .. } | Op::Add { .. } | Op::Create { .. } | Op::Remove { .. }) {
                s.insert("P33");
            }
        }
    }
    s
}
