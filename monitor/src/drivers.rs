//! Which workloads decide which property.

use crate::campaign::*;
use crate::judge::Prop;
use crate::report::*;
use crate::small::{self, Cx};
use world::*;

/// The workloads of a property, and their share of its time.
pub fn plan(prop: Prop) -> Vec<(&'static str, f64)> {
    match prop {
        "P13" => vec![("campaign", 0.5), ("oracle", 0.5)],
        "P15" | "P16" => vec![("auth", 1.0)],
        "P17" => vec![("matrix", 1.0)],
        "P24" => vec![("campaign", 0.4), ("delegator", 0.35), ("auth", 0.25)],
        "P25" => vec![("wrapper", 1.0)],
        "P26" => vec![("flash", 1.0)],
        "P27" => vec![("campaign", 0.6), ("configs", 0.4)],
        "P28" => vec![("dfloat", 1.0)],
        "P29" => vec![("reads", 1.0)],
        "P31" => vec![("env", 1.0)],
        "P32" => vec![("faucet", 1.0)],
        _ => vec![("campaign", 1.0)],
    }
}

pub fn run(name: &str, world: &World, prop: Prop, seed: u64, episode: u64, _quick: bool, mon: &mut Monitor) {
    let small: fn(&mut Cx) = match name {
        "campaign" => {
            let mut ep = Ep::new(world, prop, seed, episode, mon);
            ep.run(140);
            return;
        }
        "reads" => {
            let mut ep = Ep::new(world, prop, seed, episode, mon);
            crate::reads::reads(&mut ep);
            return;
        }
        "auth" => crate::auth::auth,
        "matrix" => crate::matrix::matrix,
        "configs" => crate::configs::configs,
        "oracle" => small::oracle,
        "delegator" => small::delegator,
        "wrapper" => small::wrapper,
        "flash" => small::flash,
        "dfloat" => small::dfloat,
        "env" => small::env,
        "faucet" => small::faucet,
        _ => panic!("no driver {name}"),
    };
    let mut cx = Cx::new(world, name, prop, seed, episode, mon);
    small(&mut cx);
}

/// How cases are made and told apart.
pub fn rule(prop: Prop) -> String {
    plan(prop)
        .iter()
        .map(|(name, _)| match *name {
            "campaign" => "campaign: transactions of generated histories (orders, brackets, keepers, liquidations, \
                deleveraging, liquidity, configuration, referrals, prices, time), part of them placed just inside and \
                outside a limit by searching the model; a case is one transaction whose outcome and effects concern \
                this property; cases differ in operation, outcome, what they exercised (fees, funding, margin check \
                ...) and the magnitudes of account, pairs and pool they met",
            "auth" => "auth: calls of every account method through the exchange by generated callers under generated \
                access rules; cases differ in method, caller's proofs, rules of the account and expected outcome",
            "matrix" => "matrix: every privileged method by every kind of caller, roles being reassigned in between; \
                cases differ in method, component, badges shown and expected outcome",
            "reads" => "reads: every getter and generated pages over the states of a campaign, compared with the \
                model's state, the vaults and one another; cases differ in getter, page and expected answer",
            "configs" => "configs: batches of pair and collateral configurations over many names, values at and beyond \
                their bounds, removals, everything read back page by page; cases differ in what the batch names, how \
                much is configured and the expected outcome",
            "oracle" => "oracle: signed, forged, stale, replayed and permuted price messages, key changes; cases \
                differ in message kind, key state, relation to stored prices and outcome",
            "delegator" => "delegator: locks, deposits, withdrawals, settings and charges; cases differ in operation, \
                size relative to limit and funds, and outcome",
            "wrapper" => "wrapper: wraps and unwraps of tokens of many divisibilities, switches and foreign tokens; \
                cases differ in operation, token, magnitude, switch and outcome",
            "flash" => "flash: transactions with loans whose oaths and loans are repaid, split, swapped, kept or \
                forged; cases differ in the shape of the transaction and outcome",
            "dfloat" => "dfloat: decimals through the real encoder and decoder, random and around powers of two and \
                ten and the ends of the range; cases differ in sign, magnitude and number of digits",
            "env" => "env: reads, writes and removals of variables; cases differ in operation, keys and map size",
            "faucet" => "faucet: calls by owner and strangers; cases differ in method, caller, token and amount",
            other => other,
        })
        .map(|t| t.split_whitespace().collect::<Vec<_>>().join(" "))
        .collect::<Vec<_>>()
        .join("; ")
}

pub fn assumptions(prop: Prop) -> Vec<String> {
    let mut l = vec![
        "the blueprints run as native code inside the real Radix engine (system layer, authorisation, vaults, \
         receipts), not as WebAssembly; fee costing of WebAssembly and its size limits are not observed",
        "only the generated histories are covered",
    ];
    if plan(prop).iter().any(|x| x.0 == "campaign" || x.0 == "reads") {
        l.push(
            "numeric results are compared to a relative 1e-13 or so where rounding may legitimately differ, exactly \
             elsewhere; outcomes that hinge on less are left unjudged and counted",
        );
    }
    if prop == "P28" {
        l.push("values up to the top of the format's range, about 1.024e16");
    }
    l.iter().map(|t| t.split_whitespace().collect::<Vec<_>>().join(" ")).collect()
}
