mod conc;
mod debug;
mod graph;
mod handles;
mod keyed;
mod model;
mod nib;
mod obs;
mod order;
mod pack;
mod record;
mod replay;
mod report;
mod scale;
mod subset;
mod values;

use std::{
    fs,
    panic::{catch_unwind, resume_unwind, AssertUnwindSafe},
    sync::atomic::Ordering,
    time::{Duration, Instant},
};

use eth_trie_utils::partial_trie::{HashedPartialTrie as H, StandardTrie as S};
use graph::{Graph, Trans};
use model::{foreign_panic, watch_panics};
use replay::*;
use report::Report;
use serde_json::json;

fn env(name: &str, default: &str) -> String {
    std::env::var(name).unwrap_or_else(|_| default.into())
}

/// Writes every log message of the library to nowhere, so that the messages
/// are put together as they are for a user who logs.
struct Log;

impl log::Log for Log {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }

    fn log(&self, record: &log::Record) {
        std::hint::black_box(record.args().to_string());
    }

    fn flush(&self) {}
}

fn log_everything() {
    log::set_logger(&Log).unwrap();
    log::set_max_level(log::LevelFilter::Trace);
}

/// A call into the implementation that never returns is reported like any
/// other disagreement.
fn watchdog(out: String) {
    std::thread::spawn(move || {
        let mut last = (0, Instant::now());
        loop {
            std::thread::sleep(Duration::from_millis(500));
            let n = model::CALLS.load(Ordering::Relaxed);
            if n != last.0 {
                last = (n, Instant::now());
            } else if n > 0 && last.1.elapsed() > Duration::from_secs(120) {
                let r = json!({"violations": [{"what": "hang",
                    "detail": {"mismatch": "a call into the library did not return within 120 s",
                               "calls": n}}],
                    "total": 1, "known": {}, "counts": {}, "samples": []});
                fs::write(&out, r.to_string()).unwrap();
                std::process::exit(0);
            }
        }
    });
}

fn replay_map(prop: &str, rep: &Report, univ: &str, emit: &str) {
    let seed: u64 = env("VERIF_SEED", "1").parse().unwrap_or(1);
    let walks: usize = env("VH_WALKS", "400").parse().unwrap();
    let walk_len: usize = env("VH_WALK_LEN", "120").parse().unwrap();
    let g = Graph::load(univ, emit);
    rep.count("spec_states", g.states.len() as u64);
    rep.count("spec_transitions", g.trans.len() as u64);
    let all = |_: &Trans| true;
    let cfg = |mask| Cfg {
        mask,
        seed,
        walks,
        walk_len,
    };
    macro_rules! both {
        ($mask:expr, $pick:expr) => {{
            let m = $mask;
            states::<S>(&g, rep, m);
            states::<H>(&g, rep, m);
            edges::<S>(&g, rep, m, $pick);
            edges::<H>(&g, rep, m, $pick);
            walks_all::<S>(&g, rep, &cfg(m));
            walks_all::<H>(&g, rep, &cfg(m));
        }};
    }
    match prop {
        "C01" => both!(GETS, all),
        "C02" => both!(RES | GETS | SAME | HASH, |t: &Trans| !t.ins),
        "C03" => both!(HASH, all),
        "C04" => {
            both!(TREE | EQ, all);
            distinct_hashes::<S>(&g, rep);
            distinct_hashes::<H>(&g, rep);
        }
        "C11" => {
            both!(RES | SAME | HASH | GETS | TREE, all);
            batches::<S>(&g, rep, &cfg(TREE | HASH));
            batches::<H>(&g, rep, &cfg(TREE | HASH));
        }
        "C12" => both!(ITEMS, all),
        "C13" => {
            batches::<S>(&g, rep, &cfg(TREE | HASH | GETS));
            batches::<H>(&g, rep, &cfg(TREE | HASH | GETS));
        }
        "C14" => lockstep(&g, rep, &cfg(0)),
        "C18" => both!(SERDE | HASH | TREE | RES, all),
        _ => panic!("no map replay for {prop}"),
    }
}

fn walks_all<N: Trie>(g: &Graph, rep: &Report, c: &Cfg) {
    walks::<N>(g, rep, c)
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    watch_panics(!env("VH_LOUD", "").is_empty());
    let (cmd, prop, out) = (&args[1], &args[2], &args[3]);
    let rep = Report::default();
    let seed: u64 = env("VERIF_SEED", "1").parse().unwrap_or(1);
    let walks: usize = env("VH_WALKS", "400").parse().unwrap();
    let walk_len: usize = env("VH_WALK_LEN", "120").parse().unwrap();
    watchdog(out.clone());
    let run = || match cmd.as_str() {
        "map" => replay_map(prop, &rep, &args[4], &args[5]),
        "subset" => {
            let g = subset::Subsets::load(&args[4], &args[5]);
            let share: usize = env("VH_SHARE", "1").parse().unwrap();
            match prop.as_str() {
                "C10" => {
                    g.batch::<S>(&rep, seed, 20, share);
                    g.batch::<H>(&rep, seed, 20, share);
                }
                "C24" => {
                    g.compose::<S>(&rep, seed, share);
                    g.compose::<H>(&rep, seed, share);
                }
                _ => {
                    g.extract::<S>(&rep, seed, prop == "C09");
                    g.extract::<H>(&rep, seed, prop == "C09");
                }
            }
        }
        "hide" => {
            let g = subset::Hidden::load(&args[4], &args[5]);
            g.replay::<S>(&rep, seed, walks, walk_len);
            g.replay::<H>(&rep, seed, walks, walk_len);
        }
        "handles" => {
            let g = handles::Handles::load(&args[4], &args[5]);
            let (len, share) = (
                env("VH_LEN", "3").parse().unwrap(),
                env("VH_SHARE", "1").parse().unwrap(),
            );
            let c05 = prop == "C05";
            g.exhaustive::<H>(&rep, seed, len, share, c05);
            g.walks::<H>(&rep, seed, walks, walk_len, c05);
            if !c05 {
                g.walks::<S>(&rep, seed, walks, walk_len, c05);
            }
        }
        "lockstep" => {
            let (n, len) = (args[4].parse().unwrap(), args[5].parse().unwrap());
            record::lockstep(prop, &rep, seed, n, len);
        }
        "scale" => scale::replay(prop, &args[4], &args[5], &rep, seed, args[6].parse().unwrap()),
        "values" => values::replay(&args[4], &args[5], &rep),
        "conc" => {
            let reps: usize = env("VH_REPS", "4").parse().unwrap();
            conc::replay(&args[4], &args[5], &rep, seed, reps);
        }
        "concalone" => {
            conc::versus_alone(&rep, seed, args[4].parse().unwrap(), args[5].parse().unwrap())
        }
        "concrecord" => {
            log_everything();
            let (n, len) = (args[5].parse().unwrap(), args[6].parse().unwrap());
            let events = conc::record(seed, n, len, &args[4]);
            rep.count("recorded_events", events as u64);
        }
        "diffs" => debug::diffs(&args[4], &rep),
        "paths" => debug::paths(&args[4], &rep),
        "stats" => debug::stats(&args[4], &rep),
        "keyed" => keyed::replay(&args[4], &args[5], &rep),
        "orderrecord" => {
            let (n, len) = (args[5].parse().unwrap(), args[6].parse().unwrap());
            let events = order::record(seed, n, len, &args[4]);
            rep.count("recorded_events", events as u64);
        }
        "keyops" => nib::ops(&args[4], &rep),
        "keyconv" => nib::conversions(&args[4], &rep),
        "keyrecord" => {
            let (n, len) = (args[5].parse().unwrap(), args[6].parse().unwrap());
            let events = nib::record(seed, n, len, &args[4]);
            rep.count("recorded_events", events as u64);
        }
        "record" => {
            log_everything();
            let (n, len) = (args[5].parse().unwrap(), args[6].parse().unwrap());
            let events = record::record(prop, seed, n, len, &args[4]);
            rep.count("recorded_events", events as u64);
        }
        _ => panic!("unknown command"),
    };
    if let Err(e) = catch_unwind(AssertUnwindSafe(run)) {
        match foreign_panic() {
            Some(m) => rep.violation("panic", json!({"what": m})),
            None => resume_unwind(e),
        }
    }
    let mut r = rep.json();
    r["counts"]["calls"] = json!(model::CALLS.load(Ordering::Relaxed));
    fs::write(out, r.to_string()).unwrap();
}
