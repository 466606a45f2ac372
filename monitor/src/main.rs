//! Runs the real exchange under generated histories and judges every step for one property.
//!
//!   monitor --property P07 [--tier quick|thorough] [--seed N] [--episode K] [--seconds S]
//!           [--episodes N] [--all] [--driver NAME] [--out DIR]

mod auth;
mod campaign;
mod configs;
mod drivers;
mod judge;
mod matrix;
mod model;
mod reads;
mod real;
mod report;
mod rng;
mod small;

use crate::report::*;
use std::collections::BTreeMap as Map;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

struct Options {
    property: String,
    tier: String,
    seed: u64,
    episode: Option<u64>,
    seconds: Option<u64>,
    episodes: Option<u64>,
    all: bool,
    driver: Option<String>,
    out: String,
}

fn options() -> Options {
    let env = |k: &str, d: &str| std::env::var(k).ok().filter(|x| !x.is_empty()).unwrap_or(d.to_string());
    let mut o = Options {
        property: String::new(),
        tier: env("VERIF_TIER", "quick"),
        seed: env("VERIF_SEED", "1").parse().unwrap_or(1),
        episode: None,
        seconds: None,
        episodes: None,
        all: false,
        driver: None,
        out: concat!(env!("CARGO_MANIFEST_DIR"), "/../evidence").to_string(),
    };
    let mut args = std::env::args().skip(1);
    while let Some(a) = args.next() {
        if a == "--all" {
            o.all = true;
            continue;
        }
        let v = args.next().unwrap_or_else(|| panic!("{a} needs a value"));
        match a.as_str() {
            "--property" => o.property = v,
            "--tier" => o.tier = v,
            "--seed" => o.seed = v.parse().unwrap(),
            "--episode" => o.episode = Some(v.parse().unwrap()),
            "--seconds" => o.seconds = Some(v.parse().unwrap()),
            "--episodes" => o.episodes = Some(v.parse().unwrap()),
            "--driver" => o.driver = Some(v),
            "--out" => o.out = v,
            _ => panic!("unknown option {a}"),
        }
    }
    o
}

fn main() {
    let start = Instant::now();
    let o = options();
    // Refused transactions and impossible predictions are panics caught further up.
    let last: &'static Mutex<Map<String, u64>> = Box::leak(Box::new(Mutex::new(Map::new())));
    let trace = std::env::var("TRACE_PANICS").is_ok();
    std::panic::set_hook(Box::new(move |i| {
        if trace {
            eprintln!("{i}\n{}", std::backtrace::Backtrace::force_capture());
        }
    }));
    let prop: judge::Prop = Box::leak(o.property.clone().into_boxed_str());
    let quick = o.tier != "thorough";
    let mut total = Monitor::default();
    let plan = drivers::plan(prop);
    for (name, share) in &plan {
        if o.driver.as_ref().map_or(false, |d| d != name) {
            continue;
        }
        let budget = o.seconds.unwrap_or(if quick { 24 } else { 420 });
        let limit = Duration::from_secs_f64(budget as f64 * share);
        let begun = Instant::now();
        let next = AtomicU64::new(o.episode.unwrap_or(0));
        let end = match (o.episode, o.episodes) {
            (Some(e), _) => e + 1,
            (None, Some(n)) => n,
            (None, None) => u64::MAX,
        };
        let threads = if o.episode.is_some() { 1 } else { 8 };
        let merged = Mutex::new(Monitor::default());
        std::thread::scope(|scope| {
            for _ in 0..threads {
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(scope, || {
                        let mut mon = Monitor::default();
                        let world = match catch_unwind(world::World::new) {
                            Ok(w) => w,
                            Err(e) => {
                                *last.lock().unwrap().entry(format!("no deployment: {}", text(&e))).or_default() += 1;
                                return;
                            }
                        };
                        loop {
                            let e = next.fetch_add(1, Ordering::SeqCst);
                            // At least one episode per thread, whatever the time.
                            if e >= end || (e >= threads && begun.elapsed() >= limit) {
                                break;
                            }
                            let r = catch_unwind(AssertUnwindSafe(|| {
                                drivers::run(name, &world, prop, o.seed, e, quick, &mut mon)
                            }));
                            mon.stats.episodes += 1;
                            if let Err(x) = r {
                                let t = text(&x);
                                let props = set_up_props(&t);
                                if !props.is_empty() {
                                    let log = [format!("{name}, episode {e}: {t}")];
                                    mon.violation(props, &format!("refused, though it has to succeed: {t}"), e, &log);
                                }
                                *last.lock().unwrap().entry(t).or_default() += 1;
                            }
                        }
                        merged.lock().unwrap().absorb(mon);
                    })
                    .unwrap();
            }
        });
        total.absorb(merged.into_inner().unwrap());
    }
    let broken = last.lock().unwrap().clone();
    let code = conclude(&o, prop, total, broken, start, quick);
    std::process::exit(code);
}

/// The steps that set a history up are valid by the documentation and nothing about them is in
/// doubt: whose property it is when one of them is refused.
fn set_up_props(t: &str) -> &'static [judge::Prop] {
    const STEPS: &[(&str, &[judge::Prop])] = &[
        ("mint referral: ", &["P22"]),
        ("referral: ", &["P22"]),
        ("fund the delegator: ", &["P24"]),
        ("delegator funds: ", &["P24"]),
        ("deposit: ", &["P24"]),
        ("reading the state: ", &["P29"]),
        ("pair: ", &["P27"]),
        ("collateral: ", &["P27"]),
        ("price: ", &["P13"]),
        ("prices: ", &["P13"]),
        ("key: ", &["P13"]),
        ("liquidity: ", &["P04"]),
        ("input: ", &["P25"]),
        ("wrap: ", &["P25"]),
        ("switch: ", &["P25"]),
    ];
    STEPS.iter().find(|s| t.starts_with(s.0)).map_or(&[], |s| s.1)
}

fn text(e: &Box<dyn std::any::Any + Send>) -> String {
    let t = e
        .downcast_ref::<String>()
        .cloned()
        .or(e.downcast_ref::<&str>().map(|s| s.to_string()))
        .unwrap_or("panic".to_string());
    t.chars().take(400).collect()
}

fn conclude(
    o: &Options,
    prop: judge::Prop,
    m: Monitor,
    broken: Map<String, u64>,
    start: Instant,
    quick: bool,
) -> i32 {
    let evaluations = m.stats.evaluations.get(prop).copied().unwrap_or(0);
    let distinct = m.stats.distinct.get(prop).map_or(0, |s| s.len());
    let mine: Vec<&Violation> = m.violations.iter().filter(|v| o.all || v.props.iter().any(|p| *p == prop)).collect();
    let _ = std::fs::create_dir_all(&o.out);
    let known = known_findings();
    let mut reported = vec![];
    for v in &mine {
        if let Some(k) = known.iter().find(|k| v.props.iter().any(|p| *p == k.0) && v.text.contains(&k.1)) {
            println!("KNOWN-FINDING: property={} {}", prop, k.2);
            continue;
        }
        reported.push(*v);
    }
    let evidence = serde_json::json!({
        "property": prop,
        "tier": if quick { "quick" } else { "thorough" },
        "seed": o.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": distinct,
            "rule": drivers::rule(prop),
            "samples": m.stats.samples,
            "episodes": m.stats.episodes,
            "operations_by_outcome": m.stats.ops,
            "situations_seen": m.stats.notes,
            "ledger_states_checked": m.stats.states,
            "events_compared": m.stats.events_compared,
            "operations_left_unjudged_near_a_boundary": m.stats.unjudged,
            "harness_failures": broken,
            "violations_seen": reported.iter().map(|v| v.text.clone()).collect::<Vec<_>>(),
        },
        "assumptions": drivers::assumptions(prop),
        "wall_s": (start.elapsed().as_secs_f64() * 10.0).round() / 10.0,
        "violations": reported.len(),
    });
    std::fs::write(format!("{}/{prop}.json", o.out), serde_json::to_string_pretty(&evidence).unwrap() + "\n").unwrap();
    println!(
        "{prop}: {evaluations} judgements, {distinct} distinct situations, {} episodes, {} states, {:.1} s",
        m.stats.episodes,
        m.stats.states,
        start.elapsed().as_secs_f64()
    );
    for (k, n) in &broken {
        println!("harness failure ({n} times): {k}");
    }
    if !reported.is_empty() {
        let mut by_prop: Vec<&Violation> = reported.clone();
        by_prop.sort_by_key(|v| v.log.len());
        let path = format!("{}/{prop}.replay.txt", o.out);
        let mut t = format!(
            "replay: cd /verif/monitor && ./check.sh {prop} --tier {} --seed {} --episode <episode>\n\n",
            o.tier, o.seed
        );
        for v in &by_prop {
            t += &format!("episode {} breaks {:?}\n{}\n\n", v.episode, v.props, v.text);
        }
        t += &format!("history of the first ({} steps), the last step being the one that fails:\n", by_prop[0].log.len());
        for l in &by_prop[0].log {
            t += l;
            t += "\n";
        }
        std::fs::write(&path, t).unwrap();
        for v in by_prop.iter().take(if o.all { 200 } else { 5 }) {
            println!("  [{}] {:?} {}", v.episode, v.props, v.text);
        }
        println!("VIOLATION property={prop} replay={}", std::fs::canonicalize(&path).unwrap().display());
        return 1;
    }
    if evaluations == 0 {
        println!("nothing was observed for {prop}");
        return 2;
    }
    let failures: u64 = broken.values().sum();
    if failures > 0 && failures * 2 >= m.stats.episodes {
        println!("most histories could not be completed");
        return 2;
    }
    0
}

/// (property, part of the violation's text, what it is), from known_findings.json.
fn known_findings() -> Vec<(String, String, String)> {
    let path = concat!(env!("CARGO_MANIFEST_DIR"), "/../known_findings.json");
    let Ok(t) = std::fs::read_to_string(path) else { return vec![] };
    let v: serde_json::Value = serde_json::from_str(&t).expect("known_findings.json");
    v["open"]
        .as_array()
        .map(|l| {
            l.iter()
                .map(|x| {
                    let f = |k: &str| x[k].as_str().unwrap_or_default().to_string();
                    (f("property"), f("match"), f("what"))
                })
                .collect()
        })
        .unwrap_or_default()
}
