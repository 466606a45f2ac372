//! The configuration on its own: many pairs and collaterals, batches, bounds, removals.

use crate::campaign::*;
use crate::model::{collateral_config_ok, exchange_config_ok, pair_config_ok, ATTO, D};
use crate::real::args;
use crate::small::*;
use ::config::{CollateralConfig, ExchangeConfig, PairConfig};
use std::collections::{BTreeMap as Map, BTreeSet as Set};
use world::*;

pub fn configs(cx: &mut Cx) {
    let a = cx.w.a.clone();
    let e = a.exchange;
    let read = |cx: &mut Cx, n: u64| -> (ExchangeConfig, Vec<PairConfig>, Map<ResourceAddress, CollateralConfig>, u64, Vec<ResourceAddress>, Vec<String>) {
        let r = cx.w.query(vec![
            (e, "get_exchange_config", args(&())),
            (e, "get_collateral_configs", args(&())),
            (e, "get_collaterals", args(&())),
            (e, "get_pair_configs_len", args(&())),
            (e, "get_pairs", args(&(1000u64, None::<u64>))),
        ]);
        let len: u64 = r.output(3);
        let mut pairs: Vec<PairConfig> = vec![];
        while (pairs.len() as u64) < len {
            let q = cx.w.query(vec![(e, "get_pair_configs", args(&(n, Some(pairs.len() as u64))))]);
            let page: Vec<PairConfig> = q.output(0);
            if page.is_empty() {
                break;
            }
            pairs.extend(page);
        }
        let colls: HashMap<ResourceAddress, CollateralConfig> = r.output(1);
        (r.output(0), pairs, colls.into_iter().collect(), len, r.output(2), r.output(4))
    };
    let first = read(cx, 7);
    let (mut ex, mut pairs, mut colls) = (first.0, first.1, first.2);
    let names: Vec<String> = ["BTC/USD", "ETH/USD", "XRD/USD", "SOL/USD", "btc/usd", "BTC/USDT", "", "A", "B", "é/USD", "a pair with a rather long name indeed", "Z", "DOGE/USD", "X/Y"]
        .iter()
        .map(|s| s.to_string())
        .collect();
    let mut resources = a.tokens.to_vec();
    resources.extend(a.faucet_tokens.iter().copied());
    resources.extend([a.junk, XRD, a.protocol]);
    let few = cx.rng.percent(30);
    // Every bound in turn, eight to an episode.
    let (on_exchange, on_pair, on_collateral) = (exchange_edges(), pair_edges(), collateral_edges());
    let edges = on_exchange.len() + on_pair.len() + on_collateral.len();
    for step in 0..34usize {
        let edge = (step % 4 == 3).then(|| (cx.episode as usize * 8 + step / 4) % edges);
        let (edge_ex, edge_pair, edge_coll) = match edge {
            Some(i) if i < on_exchange.len() => (on_exchange.get(i), None, None),
            Some(i) if i < on_exchange.len() + on_pair.len() => (None, on_pair.get(i - on_exchange.len()), None),
            Some(i) => (None, None, on_collateral.get(i - on_exchange.len() - on_pair.len())),
            None => (None, None, None),
        };
        let kind = match (&edge_ex, &edge_pair, &edge_coll) {
            (Some(_), _, _) => 0,
            (_, Some(_), _) => 2,
            (_, _, Some(_)) => 6,
            _ => cx.rng.below(12),
        };
        let mut text;
        let (want, r);
        let mut touched: (bool, Set<String>, Set<ResourceAddress>) = (false, Set::new(), Set::new());
        let (mut ex1, mut pairs1, mut colls1) = (ex.clone(), pairs.clone(), colls.clone());
        match kind {
            0 | 1 => {
                let limits = cx.rng.percent(40);
                let mut c = some_exchange(&mut cx.rng, limits);
                if let Some(f) = edge_ex {
                    f(&mut c);
                } else if cx.rng.percent(50) {
                    distort_exchange(&mut cx.rng, &mut c);
                }
                want = exchange_config_ok(&c);
                text = format!("update_exchange_config {c:?}");
                r = cx.w.set_exchange_config(&c);
                touched.0 = true;
                ex1 = c;
            }
            2..=5 => {
                let n = cx.rng.weighted(&[(0usize, 1), (1, 6), (2, 4), (3, 3), (5, 2)]).max(edge.is_some() as usize);
                let odd = cx.rng.percent(35);
                let at = cx.rng.below(n.max(1));
                let mut cs = vec![];
                for i in 0..n {
                    let p = cx.rng.pick(&names[..if few { 3 } else { names.len() }]);
                    let price = *cx.rng.pick(&[&0.01, &1.0, &100.0, &50000.0]);
                    let mut c = some_pair(&mut cx.rng, &p, price, false);
                    if let Some(f) = edge_pair {
                        if i == at {
                            f(&mut c);
                        }
                    } else if odd && i == at {
                        distort_pair(&mut cx.rng, &mut c);
                    }
                    cs.push(c);
                }
                want = cs.iter().all(pair_config_ok);
                text = format!("update_pair_configs {cs:?}");
                r = cx.w.set_pair_configs(&cs);
                for c in cs {
                    touched.1.insert(c.pair_id.clone());
                    match pairs1.iter_mut().find(|x| x.pair_id == c.pair_id) {
                        Some(x) => *x = c,
                        None => pairs1.push(c),
                    }
                }
            }
            6..=9 => {
                let n = cx.rng.weighted(&[(0usize, 1), (1, 6), (2, 4), (3, 3), (5, 2)]).max(edge.is_some() as usize);
                let odd = cx.rng.percent(35);
                let at = cx.rng.below(n.max(1));
                let mut cs = vec![];
                for i in 0..n {
                    let res = cx.rng.pick(&resources[..if few { 3 } else { resources.len() }]);
                    let mut c = CollateralConfig {
                        pair_id: cx.rng.pick(&names),
                        price_age_max: cx.rng.int(1, 90),
                        discount: cx.rng.dec(0.8, 1.0),
                        margin: cx.rng.dec(0.0, 0.1),
                    };
                    if let Some(f) = edge_coll {
                        if i == at {
                            f(&mut c);
                        }
                    } else if odd && i == at {
                        distort_collateral(&mut cx.rng, &mut c);
                    }
                    cs.push((res, c));
                }
                want = cs.iter().all(|c| collateral_config_ok(&c.1));
                text = format!("update_collateral_configs {cs:?}");
                r = cx.w.set_collateral_configs(&cs);
                for (res, c) in cs {
                    touched.2.insert(res);
                    colls1.insert(res, c);
                }
            }
            _ => {
                // Everything, now and then, one after the other.
                let l: Vec<_> = if cx.rng.percent(25) {
                    colls.keys().copied().collect()
                } else {
                    vec![cx.rng.pick(&resources)]
                };
                for res in l.iter().skip(1) {
                    let r = cx.w.remove_collateral_config(*res);
                    cx.outcome(&format!("remove_collateral_config {res:?}"), &colls1.contains_key(res), true, &r);
                    colls1.remove(res);
                }
                let Some(res) = l.first() else { continue };
                want = true;
                text = format!("remove_collateral_config {res:?}");
                r = cx.w.remove_collateral_config(*res);
                colls1.remove(res);
            }
        }
        text.truncate(text.char_indices().nth(900).map_or(text.len(), |x| x.0));
        cx.outcome(&text, &(touched.1.len(), touched.2.len(), pairs.len(), colls.len()), want, &r);
        if want {
            (ex, pairs, colls) = (ex1, pairs1, colls1);
        } else {
            touched = (false, Set::new(), Set::new());
        }
        let n = cx.rng.int(1, 6) as u64;
        let have = read(cx, n);
        // What was named holds the values given, to the storage precision; what was not, the very same as before.
        let mut bad: Vec<String> = vec![];
        if touched.0 {
            bad.extend(exchange_config_differences(&ex, &have.0));
        } else if format!("{ex:?}") != format!("{:?}", have.0) {
            bad.push(format!("the exchange's configuration: {:?} instead of {ex:?}", have.0));
        }
        let order: Vec<_> = pairs.iter().map(|c| c.pair_id.clone()).collect();
        let listed: Vec<_> = have.1.iter().map(|c| c.pair_id.clone()).collect();
        if order.len() != listed.len() || order.iter().collect::<Set<_>>() != listed.iter().collect::<Set<_>>() || have.3 != order.len() as u64 {
            bad.push(format!("pairs {listed:?} (of {}) instead of {order:?}", have.3));
        }
        if have.5 != listed {
            bad.push(format!("get_pairs says {:?}, get_pair_configs {listed:?}", have.5));
        }
        for c in &pairs {
            let Some(x) = have.1.iter().find(|x| x.pair_id == c.pair_id) else { continue };
            if touched.1.contains(&c.pair_id) {
                bad.extend(pair_config_differences(c, x));
            } else if format!("{c:?}") != format!("{x:?}") {
                bad.push(format!("{}, not named in the update: {x:?} instead of {c:?}", c.pair_id));
            }
        }
        if colls.keys().collect::<Vec<_>>() != have.2.keys().collect::<Vec<_>>() {
            bad.push(format!("collaterals {:?} instead of {:?}", have.2.keys(), colls.keys()));
        }
        if have.4.iter().collect::<Set<_>>() != have.2.keys().collect::<Set<_>>() || have.4.len() != have.2.len() {
            bad.push(format!("get_collaterals says {:?}, get_collateral_configs {:?}", have.4, have.2.keys()));
        }
        for (res, c) in &colls {
            let Some(x) = have.2.get(res) else { continue };
            if touched.2.contains(res) {
                bad.extend(collateral_config_differences(c, x));
            } else if format!("{c:?}") != format!("{x:?}") {
                bad.push(format!("{res:?}, not named in the update: {x:?} instead of {c:?}"));
            }
        }
        let situation = ("read back", touched.0, touched.1.len(), touched.2.len(), pairs.len(), colls.len(), want);
        cx.judge(&situation, bad.is_empty(), || bad.join("; "));
        (ex, pairs, colls) = (have.0, have.1, have.2);
        let _: D = ex.fee_max;
    }
}

type Edge<T> = Box<dyn Fn(&mut T)>;

/// At a bound, an atto beyond it, and what a bound lets through only when taken for another.
fn around(lo: D, hi: Option<D>) -> Vec<D> {
    let mut l = vec![lo, lo - ATTO, lo + ATTO, lo - D::ONE, -hi.unwrap_or(D::ONE)];
    if let Some(hi) = hi {
        l.extend([hi, hi + ATTO, hi - ATTO, hi * dec!("1.0004"), hi * dec!("1.01"), hi * dec!(10), hi + D::ONE]);
    }
    l
}

const SECONDS: [i64; 12] =
    [0, 1, -1, 2, 65534, 65535, 65536, 65537, i64::MAX, i64::MIN, (1 << 32) + 5, -((1 << 16) - 7)];

macro_rules! edges {
    ($l:ident, $t:ty, $field:ident, $lo:expr, $hi:expr) => {
        for d in around($lo, $hi) {
            $l.push(Box::new(move |c: &mut $t| c.$field = d) as Edge<$t>);
        }
    };
}

fn exchange_edges() -> Vec<Edge<ExchangeConfig>> {
    let z = D::ZERO;
    let mut l = vec![];
    for n in [0u16, 1, 2, 255, 256, 257, 32767, 32768, 65535] {
        l.push(Box::new(move |c: &mut ExchangeConfig| c.positions_max = n) as Edge<ExchangeConfig>);
        l.push(Box::new(move |c: &mut ExchangeConfig| c.collaterals_max = n));
        l.push(Box::new(move |c: &mut ExchangeConfig| c.active_requests_max = n));
    }
    edges!(l, ExchangeConfig, skew_ratio_cap, z, None);
    edges!(l, ExchangeConfig, adl_offset, z, None);
    edges!(l, ExchangeConfig, adl_a, z, None);
    edges!(l, ExchangeConfig, adl_b, z, None);
    edges!(l, ExchangeConfig, fee_liquidity_add, z, None);
    edges!(l, ExchangeConfig, fee_liquidity_remove, z, None);
    edges!(l, ExchangeConfig, fee_share_protocol, z, Some(dec!("0.3")));
    edges!(l, ExchangeConfig, fee_share_treasury, z, Some(dec!("0.15")));
    edges!(l, ExchangeConfig, fee_share_referral, z, Some(D::ONE));
    edges!(l, ExchangeConfig, fee_max, z, None);
    edges!(l, ExchangeConfig, protocol_burn_amount, dec!(1000), None);
    edges!(l, ExchangeConfig, reward_keeper, z, None);
    l
}

fn pair_edges() -> Vec<Edge<PairConfig>> {
    let z = D::ZERO;
    let mut l = vec![];
    for n in SECONDS {
        l.push(Box::new(move |c: &mut PairConfig| c.price_age_max = n) as Edge<PairConfig>);
        l.push(Box::new(move |c: &mut PairConfig| c.update_period_seconds = n));
    }
    edges!(l, PairConfig, oi_max, z, None);
    edges!(l, PairConfig, trade_size_min, z, None);
    edges!(l, PairConfig, update_price_delta_ratio, z, None);
    for d in around(z, Some(D::ONE)) {
        l.push(Box::new(move |c: &mut PairConfig| {
            c.margin_initial = d;
            c.margin_maintenance = D::ZERO;
        }));
        l.push(Box::new(move |c: &mut PairConfig| {
            c.margin_initial = D::ONE;
            c.margin_maintenance = d;
        }));
    }
    for d in [z, ATTO, -ATTO, dec!("0.01"), dec!("-0.01"), dec!("0.5")] {
        l.push(Box::new(move |c: &mut PairConfig| c.margin_maintenance = c.margin_initial + d));
    }
    edges!(l, PairConfig, funding_1, z, Some(dec!(2)));
    edges!(l, PairConfig, funding_2, z, Some(dec!(4)));
    edges!(l, PairConfig, funding_2_delta, z, Some(dec!(10000)));
    edges!(l, PairConfig, funding_2_decay, z, None);
    edges!(l, PairConfig, funding_pool_0, z, Some(D::ONE));
    edges!(l, PairConfig, funding_pool_1, z, Some(dec!(2)));
    edges!(l, PairConfig, funding_share, z, Some(dec!("0.1")));
    edges!(l, PairConfig, fee_0, z, Some(dec!("0.015")));
    edges!(l, PairConfig, fee_1, z, Some(dec!("0.000001")));
    l
}

fn collateral_edges() -> Vec<Edge<CollateralConfig>> {
    let mut l = vec![];
    for n in SECONDS {
        l.push(Box::new(move |c: &mut CollateralConfig| c.price_age_max = n) as Edge<CollateralConfig>);
    }
    edges!(l, CollateralConfig, discount, dec!("0.8"), Some(D::ONE));
    edges!(l, CollateralConfig, margin, D::ZERO, Some(dec!("0.1")));
    l
}
