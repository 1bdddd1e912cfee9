//! Several threads on tries that share structure.

use std::{
    fs,
    sync::{
        atomic::{AtomicUsize, Ordering},
        Mutex, RwLock,
    },
};

use eth_trie_utils::{
    partial_trie::{HashedPartialTrie as H, Node, StandardTrie as S},
    trie_subsets::create_trie_subset,
};
use serde_json::{json, Value};

use crate::{
    graph::{emitted, opt_bytes, universes_of, Universe},
    model::*,
    record::{one, profile, Pool, SLOTS},
    replay::{nested, round_trip, Trie},
    report::Report,
};

/// Lets threads go at the same moment; yields since there may be more threads
/// than cores.
struct Gate {
    arrived: AtomicUsize,
    n: usize,
}

impl Gate {
    fn wait(&self) {
        let round = self.arrived.fetch_add(1, Ordering::SeqCst) / self.n;
        let mut spins = 0u32;
        while self.arrived.load(Ordering::SeqCst) < (round + 1) * self.n {
            spins += 1;
            if spins > 10_000 {
                std::thread::yield_now();
            } else {
                std::hint::spin_loop();
            }
        }
    }
}

fn delay(rng: &mut Rng) {
    if rng.chance(1, 2) {
        for _ in 0..rng.below(400) {
            std::hint::spin_loop();
        }
    }
}

enum Got {
    Hash(Bytes),
    Tree(Tree),
    Val(Option<Bytes>),
    Same(bool),
    Failed(String),
}

/// What is read back after the trie was written down.
fn saved<N: Trie>(t: &N) -> Got {
    let back: N = match round_trip(t) {
        Ok(b) => b,
        Err(e) => return Got::Failed(e),
    };
    let tree = Tree::of_impl(&back);
    // its cached hashes are those of its nodes
    if nested(&back).hash() == nested(&tree.to_impl::<N>()).hash() {
        Got::Tree(tree)
    } else {
        Got::Failed("hash of the trie read back".into())
    }
}

fn run<N: Trie>(op: &Value, u: &Universe, t: &mut N, base: &N) -> Got {
    let i = op["i"].as_u64().unwrap() as usize - 1;
    let j = op["j"].as_u64().unwrap() as usize;
    let k = nibs(&u.keys[i]);
    guarded(|| match op["op"].as_str().unwrap() {
        "hash" => Got::Hash(t.hash().0.to_vec()),
        "hashbase" => Got::Hash(base.hash().0.to_vec()),
        // a sub-trie that is shared, on its own
        "hashkid" => Got::Hash(match &**base {
            Node::Branch { children, .. } => children[u.keys[i][0] as usize].hash().0.to_vec(),
            _ => base.hash().0.to_vec(),
        }),
        "clone" => {
            *t = base.clone();
            Got::Val(None)
        }
        // iteration and the nodes themselves
        "items" => {
            let again: N = t.items().collect();
            let tree = Tree::of_impl(t);
            if Tree::of_impl(&again) == tree {
                Got::Tree(tree)
            } else {
                Got::Failed("iteration does not agree with the nodes".into())
            }
        }
        "sub" => match create_trie_subset(t, [k]) {
            Ok(s) => Got::Tree(Tree::of_impl(&s)),
            Err(e) => Got::Failed(format!("{e:?}")),
        },
        "eq" => Got::Same(*t == *base),
        "save" => saved(t),
        "savebase" => saved(base),
        "get" => Got::Val(t.get(k).map(|v| v.to_vec())),
        "del" => Got::Val(t.delete(k)),
        _ => {
            t.insert(k, u.ents[j - 1].to_impl());
            Got::Val(None)
        }
    })
    .unwrap_or_else(|e| Got::Failed(format!("panic: {e}")))
}

fn agrees(got: &Got, want: &Value) -> Result<(), String> {
    let ok = match got {
        Got::Hash(h) => want["r"] == "hash" && *h == bytes(&want["v"]),
        Got::Tree(t) => want["r"] == "tree" && *t == Tree::from_json(&want["v"]),
        Got::Val(v) => *v == opt_bytes(want),
        Got::Same(y) => want["r"] == if *y { "yes" } else { "no" },
        Got::Failed(_) => false,
    };
    if ok {
        return Ok(());
    }
    Err(match got {
        Got::Hash(h) => format!("hash {}", hex(h)),
        Got::Tree(t) => format!("nodes {}", t.json()),
        Got::Val(v) => format!("value {v:?}"),
        Got::Same(y) => format!("equal to the base: {y}"),
        Got::Failed(e) => e.clone(),
    })
}

struct Case {
    v: Value,
    base: Tree,
    progs: Vec<Vec<Value>>,
    want: Vec<Vec<Value>>,
}

/// Runs the programs of every case at the same time on real threads.
fn replay_type<N: Trie>(cases: &[Case], us: &[Universe], rep: &Report, seed: u64, reps: usize, nt: usize) {
    let cases: Vec<&Case> = cases.iter().filter(|c| c.progs.len() == nt).collect();
    // as many groups of threads at a time as there are cores for
    let groups = (8 / nt).max(1);
    std::thread::scope(|s| {
        for g in 0..groups {
            let cases = &cases;
            s.spawn(move || {
                let gate = Gate { arrived: AtomicUsize::new(0), n: nt };
                let shared: RwLock<Option<N>> = RwLock::new(None);
                std::thread::scope(|s| {
                    for t in 0..nt {
                        let (gate, shared) = (&gate, &shared);
                        s.spawn(move || {
                            let mut rng = Rng::new(seed, &format!("conc{g}.{t}"));
                            for n in (g..cases.len()).step_by(groups) {
                                let c = cases[n];
                                let u = &us[c.v["u"].as_u64().unwrap() as usize - 1];
                                for _ in 0..reps {
                                    if t == 0 {
                                        let base: N = c.base.to_impl();
                                        if c.v["warm"] == 1 {
                                            base.hash();
                                        }
                                        *shared.write().unwrap() = Some(base);
                                    }
                                    gate.wait();
                                    let lock = shared.read().unwrap();
                                    let base = lock.as_ref().unwrap();
                                    let mut mine = base.clone();
                                    gate.wait();
                                    let got: Vec<Got> = c.progs[t]
                                        .iter()
                                        .map(|op| {
                                            delay(&mut rng);
                                            run(op, u, &mut mine, base)
                                        })
                                        .collect();
                                    for (i, x) in got.iter().enumerate() {
                                        if let Err(m) = agrees(x, &c.want[t][i]) {
                                            rep.violation(
                                                "threads",
                                                json!({"type": N::NAME, "case": c.v, "thread": t + 1, "operation": i + 1,
                                                       "expected": c.want[t][i], "mismatch": m}),
                                            );
                                        }
                                    }
                                    drop(lock);
                                    gate.wait();
                                }
                            }
                        });
                    }
                });
            });
        }
    });
    rep.count("concurrent_runs", (cases.len() * reps) as u64);
}

pub fn replay(inputs: &str, emit: &str, rep: &Report, seed: u64, reps: usize) {
    let v: Value = serde_json::from_str(&fs::read_to_string(inputs).unwrap()).unwrap();
    let us = universes_of(&v["univ"]);
    let mut cases = vec![];
    emitted(emit, |v| {
        cases.push(Case {
            base: Tree::from_json(&v["base"]),
            progs: list(&v["progs"]).iter().map(list).collect(),
            want: list(&v["want"]).iter().map(list).collect(),
            v,
        })
    });
    cases.sort_by_key(|c| c.v["c"].as_u64());
    for nt in [2, 3] {
        replay_type::<H>(&cases, &us, rep, seed, reps, nt);
        replay_type::<S>(&cases, &us, rep, seed, reps.div_ceil(8), nt);
    }
    if let Some(c) = cases.last() {
        rep.sample(json!({"kind": "concurrent programs", "programs": c.v["progs"], "base": c.v["base"]}));
    }
}

// ------------------------------------------------------ recorded executions
/// One thread's operations on its own tries, the first being a copy of `base`.
fn work<N: Trie>(base: &N, start: &Value, pool: &Pool, rng: &mut Rng, len: usize, slow: bool) -> Vec<Value> {
    let p = profile("C19");
    let total: usize = p.weights.iter().map(|w| w.1).sum();
    let mut t: Vec<N> = (0..SLOTS).map(|_| N::default()).collect();
    t[0] = base.clone();
    let mut out = vec![start.clone()];
    while out.len() < len {
        let mut x = rng.below(total);
        let mut op = "hash";
        for w in &p.weights {
            if x < w.1 {
                op = w.0;
                break;
            }
            x -= w.1;
        }
        let pause = rng.below(400);
        if slow {
            for _ in 0..pause {
                std::hint::spin_loop();
            }
        }
        if rng.chance(1, 12) {
            // another copy of the base, and the base itself
            let to = rng.below(p.slots);
            t[to] = base.clone();
            let mut e = start.clone();
            e["h"] = json!(to + 1);
            out.push(e);
            let h = guarded(|| base.hash()).map_or_else(|_| json!("panic"), |h| json!(h.0.to_vec()));
            out.push(json!({"op": "hash", "h": to + 1, "hash": h}));
            continue;
        }
        one(op, rng, pool, p.hidden, &mut t, p.slots, &mut out);
    }
    out
}

/// A base trie with its entries as the event that creates it.
fn base<N: Trie>(rng: &mut Rng, pool: &Pool, n: usize) -> (N, Value) {
    let es: Vec<(Key, Ent)> = (0..n).map(|_| (pool.key(rng), pool.ent(rng, false))).collect();
    let t: N = es.iter().map(|(k, e)| (nibs(k), e.to_impl())).collect();
    let es: Vec<Value> = es.iter().map(|(k, e)| json!([k, e.json()])).collect();
    (t, json!({"op": "collect", "h": 1, "es": es, "r": "ok"}))
}

/// All threads start from copies of one base at the same time.
fn group<N: Trie>(seed: u64, n: usize, threads: usize, len: usize, entries: usize) -> Vec<Vec<Value>> {
    let mut rng = Rng::new(seed, &format!("conc/group{n}"));
    let pool = Pool::new(&mut rng);
    let (b, start) = base::<N>(&mut rng, &pool, entries);
    if rng.chance(1, 3) {
        b.hash();
    }
    let gate = Gate { arrived: AtomicUsize::new(0), n: threads };
    let out = Mutex::new(vec![vec![]; threads]);
    std::thread::scope(|s| {
        for t in 0..threads {
            let (b, start, pool, gate, out) = (&b, &start, &pool, &gate, &out);
            s.spawn(move || {
                let mut rng = Rng::new(seed, &format!("conc/group{n}.{t}"));
                gate.wait();
                let e = work(b, start, pool, &mut rng, len, true);
                out.lock().unwrap()[t] = e;
            });
        }
    });
    out.into_inner().unwrap()
}

/// What each thread of a group observes when it runs alone.
fn alone<N: Trie>(seed: u64, n: usize, t: usize, len: usize, entries: usize) -> Vec<Value> {
    let mut rng = Rng::new(seed, &format!("conc/group{n}"));
    let pool = Pool::new(&mut rng);
    let (b, start) = base::<N>(&mut rng, &pool, entries);
    let mut rng = Rng::new(seed, &format!("conc/group{n}.{t}"));
    work(&b, &start, &pool, &mut rng, len, false)
}

pub fn record(seed: u64, groups: usize, len: usize, path: &str) -> usize {
    let mut eps = vec![];
    for n in 0..groups {
        let threads = [2, 3, 4, 8][n % 4];
        eps.extend(if n % 5 == 4 {
            group::<S>(seed, n, threads, len, 30)
        } else {
            group::<H>(seed, n, threads, len, 30)
        });
    }
    fs::write(path, json!(eps).to_string()).unwrap();
    eps.iter().map(|e| e.len()).sum()
}

/// The same work by all threads at once and by each of them alone.
pub fn versus_alone(rep: &Report, seed: u64, groups: usize, len: usize) {
    for n in 0..groups {
        let threads = [2, 4, 8][n % 3];
        let n = n + 100_000;
        let entries = [10, 100, 400][n % 3];
        let got = group::<H>(seed, n, threads, len, entries);
        for (t, g) in got.iter().enumerate() {
            let want = alone::<H>(seed, n, t, len, entries);
            if let Some(i) = (0..g.len().max(want.len())).find(|i| g.get(*i) != want.get(*i)) {
                rep.violation(
                    "threads",
                    json!({"thread": t + 1, "event": i + 1, "alone": want.get(i), "together": g.get(i),
                           "history": g[..i.min(g.len())].to_vec()}),
                );
            }
        }
        rep.count("concurrent_episodes", threads as u64);
    }
}
