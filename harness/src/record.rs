//! Code -> spec: drives the implementation with random operations and records
//! what it answers, for validation by `TrieTrace`.

use std::{fs, sync::Mutex};

use eth_trie_utils::{
    debug_tools::{diff::create_diff_between_tries, query::get_path_from_query, stats::*},
    partial_trie::{HashedPartialTrie, Node, StandardTrie},
    trie_subsets::{create_trie_subset, create_trie_subsets},
};
use serde_json::{json, Value};

use crate::{model::*, obs, replay::*, report::Report};

pub const SLOTS: usize = 6;

/// How often each operation is chosen.
pub struct Profile {
    pub weights: Vec<(&'static str, usize)>,
    pub hidden: bool,
    pub slots: usize,
}

pub fn profile(prop: &str) -> Profile {
    let p = |weights: &[(&'static str, usize)], hidden, slots| Profile {
        weights: weights.to_vec(),
        hidden,
        slots,
    };
    match prop {
        "C01" => p(&[("ins", 5), ("del", 3), ("get", 8)], false, 1),
        "C02" => p(&[("ins", 5), ("del", 5), ("get", 4), ("tree", 1), ("hash", 1)], true, 1),
        "C03" => p(&[("ins", 5), ("del", 3), ("hash", 3)], false, 1),
        "C04" => p(
            &[("ins", 4), ("del", 3), ("same", 4), ("eq", 3), ("tree", 1), ("hash", 1)],
            true,
            3,
        ),
        "C05" => p(
            &[
                ("ins", 5), ("del", 3), ("hash", 8), ("clone", 3), ("set", 2), ("subset", 2),
                ("extend", 2), ("items", 1), ("eq", 1), ("serde", 1),
            ],
            true,
            4,
        ),
        "C06" => p(
            &[
                ("ins", 5), ("del", 3), ("hash", 3), ("clone", 3), ("set", 1), ("subset", 1),
                ("extend", 1), ("tree", 3), ("get", 2), ("items", 1),
            ],
            true,
            5,
        ),
        "C07" => p(
            &[("ins", 5), ("del", 2), ("hash", 3), ("subset", 1), ("clone", 1), ("twins", 4)],
            true,
            4,
        ),
        "C08" => p(&[("ins", 4), ("del", 1), ("subsethash", 5), ("clone", 1), ("hash", 1)], true, 4),
        "C09" => p(&[("ins", 4), ("del", 1), ("subset", 5), ("clone", 1), ("hash", 1)], true, 4),
        "C10" => p(
            &[("ins", 4), ("del", 1), ("subsets", 4), ("tree", 1), ("hash", 1)],
            true,
            4,
        ),
        "C11" => p(
            &[
                ("ins", 6), ("del", 4), ("get", 3), ("tree", 3), ("hash", 2), ("extend", 2),
                ("subset", 2),
            ],
            true,
            3,
        ),
        "C12" => p(&[("ins", 5), ("del", 3), ("items", 4), ("subset", 1)], true, 3),
        "C13" => p(
            &[("extend", 5), ("collect", 2), ("tree", 3), ("hash", 2), ("get", 3), ("del", 2)],
            true,
            2,
        ),
        "C14" => p(
            &[
                ("ins", 5), ("del", 3), ("hash", 3), ("tree", 2), ("get", 3), ("items", 1),
                ("subset", 1), ("subsets", 1), ("extend", 1), ("collect", 1), ("clone", 1),
                ("eq", 1), ("set", 1), ("query", 1), ("stats", 1),
            ],
            true,
            3,
        ),
        "C18" => p(
            &[
                ("ins", 5), ("del", 3), ("serde", 4), ("hash", 3), ("tree", 2), ("get", 2),
                ("eq", 2), ("subset", 1), ("items", 1),
            ],
            true,
            4,
        ),
        "C19" => p(
            &[
                ("ins", 4), ("del", 3), ("hash", 5), ("tree", 1), ("get", 4), ("items", 2),
                ("clone", 2), ("subset", 2), ("extend", 1), ("serde", 1), ("eq", 1),
            ],
            false,
            4,
        ),
        "C20" => p(
            &[("ins", 4), ("del", 2), ("clone", 2), ("same", 1), ("diff", 6), ("subset", 1)],
            true,
            3,
        ),
        "C21" => p(&[("ins", 4), ("del", 1), ("query", 8), ("subset", 1)], true, 2),
        "C22" => p(&[("ins", 4), ("del", 1), ("stats", 4), ("subset", 1)], true, 2),
        _ => panic!("no profile for {prop}"),
    }
}

pub struct Pool {
    pub keys: Vec<Key>,
    pub vals: Vec<Bytes>,
    pub hashes: Vec<Bytes>,
}

impl Pool {
    pub fn new(rng: &mut Rng) -> Self {
        let n = *rng.pick(&[6, 10, 16, 24]);
        Self::sized(rng, n)
    }

    pub fn sized(rng: &mut Rng, n: usize) -> Self {
        let style = rng.below(7);
        let mut keys: Vec<Key> = vec![];
        let alphabet: Vec<u8> = match rng.below(3) {
            0 => vec![0, 1],
            1 => vec![0, 7, 8, 15],
            _ => (0..16).collect(),
        };
        while keys.len() < n {
            let tail = |rng: &mut Rng, n: usize| -> Key { (0..n).map(|_| *rng.pick(&alphabet)).collect() };
            let k = match style {
                0 | 1 => {
                    let n = rng.below(6);
                    tail(rng, n)
                }
                2 => {
                    if keys.is_empty() {
                        tail(rng, 64)
                    } else {
                        let b = rng.pick(&keys).clone();
                        let c = *rng.pick(&[0, 1, 2, 31, 32, 33, 60, 61, 62, 63]);
                        let mut k = b[..c].to_vec();
                        k.extend(tail(rng, 64 - c));
                        k
                    }
                }
                3 | 4 => {
                    if keys.is_empty() {
                        let n = *rng.pick(&[8, 40, 63, 64]);
                        tail(rng, n)
                    } else {
                        let b = rng.pick(&keys).clone();
                        let mut k = b[..rng.below(b.len() + 1)].to_vec();
                        let n = *rng.pick(&[0, 1, 2, 5, 20]);
                        k.extend(tail(rng, n));
                        k.truncate(64);
                        k
                    }
                }
                5 => {
                    let mut k = vec![0; rng.below(5)];
                    let n = rng.below(4);
                    k.extend(tail(rng, n));
                    k
                }
                _ => {
                    let n = 2 * rng.below(4);
                    tail(rng, n)
                }
            };
            // short alphabets may not have enough keys
            if !keys.contains(&k) || rng.chance(1, 8) {
                keys.push(k);
            }
        }
        let lens: &[usize] = match rng.below(4) {
            0 => &[1],
            1 => &[32, 33, 40, 55, 56],
            2 => &[1, 2, 24, 27, 28, 29, 30, 31, 32],
            _ => &[1, 3, 31, 32, 54, 55, 56, 57, 255, 256, 300],
        };
        let mut vals = vec![];
        for _ in 0..4 {
            let n = *rng.pick(lens);
            let mut v = rng.bytes(n);
            if n == 1 {
                v[0] = *rng.pick(&[0, 1, 0x7f, 0x80, 0x81, 0xff]);
            }
            vals.push(v);
        }
        let hashes = (0..2).map(|_| rng.bytes(32)).collect();
        Pool { keys, vals, hashes }
    }

    pub fn key(&self, rng: &mut Rng) -> Key {
        let mut k = rng.pick(&self.keys).clone();
        match rng.below(12) {
            0 => {
                let n = rng.below(k.len() + 1);
                k.truncate(n)
            }
            1 if k.len() < 64 => k.push(rng.below(16) as u8),
            2 if !k.is_empty() => {
                let i = rng.below(k.len());
                k[i] = rng.below(16) as u8
            }
            _ => {}
        }
        k
    }

    pub fn ent(&self, rng: &mut Rng, hidden: bool) -> Ent {
        if hidden && rng.chance(1, 6) {
            Ent::H(rng.pick(&self.hashes).clone())
        } else {
            Ent::V(rng.pick(&self.vals).clone())
        }
    }

    pub fn subset_keys(&self, rng: &mut Rng) -> Vec<Key> {
        let n = match *rng.pick(&[0, 1, 1, 2, 2, 3, 5]) {
            n if n > 1 && self.keys.len() > 50 => n * rng.below(16),
            n => n,
        };
        (0..n).map(|_| self.key(rng)).collect()
    }
}

/// Debug tools work on one of the types only; both are brought there.
fn as_hashed<N: Trie>(t: &N) -> HashedPartialTrie {
    Tree::of_impl(t).to_impl()
}

/// Mutating-operation results carry the post-state only through later events.
pub fn one<N: Trie>(
    op: &str,
    rng: &mut Rng,
    pool: &Pool,
    hidden: bool,
    t: &mut [N],
    slots: usize,
    out: &mut Vec<Value>,
) {
    let h = rng.below(slots);
    let to = rng.below(slots);
    let panic = |_| json!("panic");
    match op {
        "ins" => {
            let (k, e) = (pool.key(rng), pool.ent(rng, hidden));
            let r = guarded(|| t[h].insert(nibs(&k), e.to_impl()));
            let r = if r.is_ok() { "ok" } else { "panic" };
            out.push(json!({"op": "ins", "h": h + 1, "k": k, "e": e.json(), "r": r}));
        }
        "del" => {
            let k = pool.key(rng);
            let (r, v) = match guarded(|| t[h].delete(nibs(&k))) {
                Ok(Some(v)) => ("some", v),
                Ok(None) => ("none", vec![]),
                Err(_) => ("panic", vec![]),
            };
            out.push(json!({"op": "del", "h": h + 1, "k": k, "r": r, "v": v}));
        }
        "get" => {
            let k = pool.key(rng);
            let (r, v) = match guarded(|| t[h].get(nibs(&k)).map(|v| v.to_vec())) {
                Ok(Some(v)) => ("some", v),
                Ok(None) => ("none", vec![]),
                Err(_) => ("panic", vec![]),
            };
            out.push(json!({"op": "get", "h": h + 1, "k": k, "r": r, "v": v}));
        }
        "hash" => {
            let v = guarded(|| t[h].hash()).map_or_else(panic, |h| json!(h.0.to_vec()));
            out.push(json!({"op": "hash", "h": h + 1, "hash": v}));
        }
        "tree" => out.push(json!({"op": "tree", "h": h + 1, "tree": Tree::of_impl(&t[h]).json()})),
        "items" => {
            let v = guarded(|| items_of(&t[h])).map_or_else(
                |_| json!([[[99], {"kind": "v", "b": []}]]),
                |v| v.iter().map(|(k, e)| json!([k, e.json()])).collect(),
            );
            out.push(json!({"op": "items", "h": h + 1, "items": v}));
        }
        "eq" => {
            let r = guarded(|| t[h] == t[to]).unwrap_or(false);
            out.push(json!({"op": "eq", "a": h + 1, "b": to + 1, "r": r}));
        }
        "clone" => {
            t[to] = if rng.chance(1, 3) { nested(&t[h]) } else { t[h].clone() };
            out.push(json!({"op": "clone", "h": h + 1, "to": to + 1}));
        }
        "serde" => {
            if let Ok(b) = round_trip(&t[h]) {
                t[to] = b;
                out.push(json!({"op": "clone", "h": h + 1, "to": to + 1}));
            } else {
                // never allowed: the round trip itself failed
                out.push(json!({"op": "items", "h": h + 1, "items": [[[99], {"kind": "v", "b": []}]]}));
            }
        }
        "same" => {
            // the same entries in another order, with detours
            let Ok(mut es) = guarded(|| items_of(&t[h])) else { return };
            for i in (1..es.len()).rev() {
                es.swap(i, rng.below(i + 1));
            }
            t[to] = N::default();
            let h2 = to;
            out.push(json!({"op": "new", "h": h2 + 1}));
            for (k, e) in es {
                if rng.chance(1, 3) {
                    let (k2, v2) = (pool.key(rng), Ent::V(rng.pick(&pool.vals).clone()));
                    let before = guarded(|| t[h2].get(nibs(&k2)).is_some()).unwrap_or(true);
                    if !before {
                        let r = guarded(|| t[h2].insert(nibs(&k2), v2.to_impl()));
                        let r = if r.is_ok() { "ok" } else { "panic" };
                        out.push(json!({"op": "ins", "h": h2 + 1, "k": k2, "e": v2.json(), "r": r}));
                        if r == "ok" {
                            let (r, v) = match guarded(|| t[h2].delete(nibs(&k2))) {
                                Ok(Some(v)) => ("some", v),
                                Ok(None) => ("none", vec![]),
                                Err(_) => ("panic", vec![]),
                            };
                            out.push(json!({"op": "del", "h": h2 + 1, "k": k2, "r": r, "v": v}));
                        }
                    }
                }
                let r = guarded(|| t[h2].insert(nibs(&k), e.to_impl()));
                let r = if r.is_ok() { "ok" } else { "panic" };
                out.push(json!({"op": "ins", "h": h2 + 1, "k": k, "e": e.json(), "r": r}));
            }
            let r = guarded(|| t[h] == t[h2]).unwrap_or(false);
            out.push(json!({"op": "eq", "a": h + 1, "b": h2 + 1, "r": r}));
            for x in [h, h2] {
                let v = guarded(|| t[x].hash()).map_or_else(panic, |h| json!(h.0.to_vec()));
                out.push(json!({"op": "hash", "h": x + 1, "hash": v}));
            }
        }
        "set" => {
            // direct replacement of nodes through mutable access
            let (mine, other) = (Tree::of_impl(&t[h]), Tree::of_impl(&t[to]));
            match (mine, other) {
                (Tree::B(mut c, v), Tree::B(d, _)) if rng.chance(2, 3) => {
                    let i = rng.below(16);
                    let n = c.iter().filter(|x| **x != Tree::E).count();
                    if d[i] == Tree::E && n + usize::from(!v.is_empty()) <= 2 {
                        return;
                    }
                    c[i] = d[i].clone();
                    if let Node::Branch { children, .. } = &mut *t[h] {
                        children[i] = d[i].to_node::<N>().into();
                    }
                    out.push(json!({"op": "set", "h": h + 1, "tree": Tree::B(c, v).json()}));
                }
                (Tree::L(k, _), _) if rng.chance(1, 2) => {
                    let w = rng.pick(&pool.vals).clone();
                    if let Node::Leaf { value, .. } = &mut *t[h] {
                        *value = w.clone();
                    }
                    out.push(json!({"op": "set", "h": h + 1, "tree": Tree::L(k, w).json()}));
                }
                (_, o) => {
                    *t[h] = o.to_node::<N>();
                    out.push(json!({"op": "set", "h": h + 1, "tree": o.json()}));
                }
            }
        }
        "extend" | "collect" => {
            let n = rng.below(if pool.keys.len() > 50 { 90 } else { 9 });
            let es: Vec<(Key, Ent)> = (0..n)
                .map(|_| {
                    let k = pool.key(rng);
                    // bulk inserts that never fail are the common case
                    let hidden = hidden && rng.chance(1, 3);
                    (k, pool.ent(rng, hidden))
                })
                .collect();
            let given: Vec<_> = es.iter().map(|(k, e)| (nibs(k), e.to_impl())).collect();
            let r = if op == "extend" {
                guarded(|| t[h].extend(unsized_iter(given)))
            } else {
                guarded(|| given.into_iter().collect::<N>()).map(|n| t[h] = n)
            };
            let r = if r.is_ok() { "ok" } else { "panic" };
            let es: Vec<Value> = es.iter().map(|(k, e)| json!([k, e.json()])).collect();
            out.push(json!({"op": op, "h": h + 1, "es": es, "r": r}));
        }
        "subset" | "subsethash" => {
            let ks = pool.subset_keys(rng);
            let r = guarded(|| create_trie_subset(&t[h], ks.iter().map(|k| nibs(k))));
            let (r, tree, hash) = match r {
                Ok(Ok(s)) => {
                    let tree = Tree::of_impl(&s).json();
                    let hash = guarded(|| s.hash()).map_or_else(panic, |h| json!(h.0.to_vec()));
                    t[to] = s;
                    ("ok", tree, hash)
                }
                Ok(Err(_)) => ("err", Tree::E.json(), json!([])),
                Err(_) => ("panic", Tree::E.json(), json!([])),
            };
            out.push(json!({"op": op, "h": h + 1, "to": to + 1, "ks": ks, "r": r, "tree": tree,
                            "hash": hash}));
        }
        "subsets" => {
            let n = rng.below(4);
            let kss: Vec<Vec<Key>> = (0..n).map(|_| pool.subset_keys(rng)).collect();
            let r = guarded(|| {
                create_trie_subsets(&t[h], kss.iter().map(|ks| ks.iter().map(|k| nibs(k))))
            });
            let (r, trees) = match r {
                Ok(Ok(s)) => ("ok", s.iter().map(|x| Tree::of_impl(x).json()).collect()),
                Ok(Err(_)) => ("err", vec![]),
                Err(_) => ("panic", vec![]),
            };
            let alone: Vec<Value> = kss
                .iter()
                .map(|ks| match guarded(|| create_trie_subset(&t[h], ks.iter().map(|k| nibs(k)))) {
                    Ok(Ok(s)) => json!({"r": "ok", "tree": Tree::of_impl(&s).json()}),
                    _ => json!({"r": "err", "tree": Tree::E.json()}),
                })
                .collect();
            out.push(json!({"op": op, "h": h + 1, "kss": kss, "r": r, "trees": trees,
                            "alone": alone}));
        }
        "twins" => {
            // the same writes on a trie and a partly hidden copy of it
            let to = (h + 1 + rng.below(slots - 1)) % slots;
            let ks = pool.subset_keys(rng);
            let Ok(Ok(s)) = guarded(|| create_trie_subset(&t[h], ks.iter().map(|k| nibs(k)))) else {
                return;
            };
            let hash = guarded(|| s.hash()).map_or_else(panic, |h| json!(h.0.to_vec()));
            out.push(json!({"op": "subsethash", "h": h + 1, "to": to + 1, "ks": ks, "r": "ok",
                            "tree": Tree::of_impl(&s).json(), "hash": hash}));
            t[to] = s;
            for _ in 0..1 + rng.below(5) {
                let k = if !ks.is_empty() && rng.chance(2, 3) { rng.pick(&ks).clone() } else { pool.key(rng) };
                let e = pool.ent(rng, false);
                let del = rng.chance(1, 3);
                let mut lost = false;
                for x in [to, h] {
                    // what the hidden part prevents is not done to the other
                    if lost {
                        break;
                    }
                    if del {
                        let (r, v) = match guarded(|| t[x].delete(nibs(&k))) {
                            Ok(Some(v)) => ("some", v),
                            Ok(None) => ("none", vec![]),
                            Err(_) => ("panic", vec![]),
                        };
                        lost = r == "panic";
                        out.push(json!({"op": "del", "h": x + 1, "k": k, "r": r, "v": v}));
                    } else {
                        let r = guarded(|| t[x].insert(nibs(&k), e.to_impl()));
                        lost = r.is_err();
                        let r = if lost { "panic" } else { "ok" };
                        out.push(json!({"op": "ins", "h": x + 1, "k": k, "e": e.json(), "r": r}));
                    }
                }
                let v: Vec<Value> = [h, to]
                    .iter()
                    .map(|x| guarded(|| t[*x].hash()).map_or_else(panic, |h| json!(h.0.to_vec())))
                    .collect();
                out.push(json!({"op": "twins", "a": h + 1, "b": to + 1, "ha": v[0], "hb": v[1]}));
            }
        }
        "query" => {
            let k = pool.key(rng);
            let r = guarded(|| get_path_from_query(&*t[h], nibs(&k)).to_string());
            let (r, found, path) = match r.ok().as_deref().and_then(obs::parse_query) {
                Some(p) => ("ok", p.found, p.path),
                None => ("panic", false, json!([])),
            };
            out.push(json!({"op": op, "h": h + 1, "k": k, "r": r, "found": found, "path": path}));
        }
        "diff" => {
            let (a, b) = (as_hashed(&t[h]), as_hashed(&t[to]));
            let mut e = match guarded(|| create_diff_between_tries(&a, &b)) {
                Err(_) => json!({"r": "panic"}),
                Ok(d) => match d.latest_diff_res {
                    None => json!({"r": "none"}),
                    Some(p) => obs::diff_point(&p).unwrap_or(json!({"r": "unreadable"})),
                },
            };
            e["op"] = json!("diff");
            e["ha"] = json!(h + 1);
            e["hb"] = json!(to + 1);
            out.push(e);
        }
        "stats" => {
            let s = guarded(|| get_trie_stats(&t[h]).to_string());
            let mut e = s
                .ok()
                .as_deref()
                .and_then(obs::parse_stats)
                .unwrap_or(json!({"e": -1, "hn": 0, "b": 0, "x": 0, "l": 0, "low": 0}));
            e["op"] = json!("stats");
            e["h"] = json!(h + 1);
            out.push(e);
        }
        _ => panic!("unknown op {op}"),
    }
}

fn episode<N: Trie>(seed: u64, prop: &str, n: usize, len: usize, p: &Profile) -> Vec<Value> {
    let mut rng = Rng::new(seed, &format!("{prop}/episode{n}"));
    // a few episodes with larger tries, filled first
    let large = n % 24 == 23;
    let pool = if large {
        let n = 80 + rng.below(160);
        Pool::sized(&mut rng, n)
    } else {
        Pool::new(&mut rng)
    };
    let mut t: Vec<N> = (0..SLOTS).map(|_| N::default()).collect();
    let mut out = vec![];
    let total: usize = p.weights.iter().map(|w| w.1).sum();
    // some episodes without hidden entries
    let hidden = p.hidden && rng.chance(2, 3);
    if large {
        for k in &pool.keys {
            let e = pool.ent(&mut rng, false);
            let r = guarded(|| t[0].insert(nibs(k), e.to_impl()));
            let r = if r.is_ok() { "ok" } else { "panic" };
            out.push(json!({"op": "ins", "h": 1, "k": k, "e": e.json(), "r": r}));
        }
    }
    let len = out.len() + len;
    while out.len() < len {
        let mut x = rng.below(total);
        let op = p
            .weights
            .iter()
            .find(|w| {
                if x < w.1 {
                    true
                } else {
                    x -= w.1;
                    false
                }
            })
            .unwrap()
            .0;
        one(op, &mut rng, &pool, hidden, &mut t, p.slots, &mut out);
    }
    out
}

/// The same operations on both types; the answers must be the same.
pub fn lockstep(prop: &str, rep: &Report, seed: u64, episodes: usize, len: usize) {
    let p = profile(prop);
    parallel(episodes, |n| {
        let a = episode::<StandardTrie>(seed, prop, n, len, &p);
        let b = episode::<HashedPartialTrie>(seed, prop, n, len, &p);
        for i in 0..a.len().max(b.len()) {
            if a.get(i) != b.get(i) {
                rep.violation(
                    "lockstep",
                    json!({"operation": i, "StandardTrie": a.get(i), "HashedPartialTrie": b.get(i),
                           "history": a[..i.min(a.len())].to_vec()}),
                );
                return;
            }
        }
        if n == 0 {
            rep.sample(json!({"kind": "lockstep", "first_events": a[..3.min(a.len())].to_vec()}));
        }
    });
    rep.count("lockstep_episodes", episodes as u64);
    rep.count("lockstep_events", (episodes * len) as u64);
}

pub fn record(prop: &str, seed: u64, episodes: usize, len: usize, path: &str) -> usize {
    let p = profile(prop);
    let eps = Mutex::new(vec![Value::Null; episodes]);
    parallel(episodes, |n| {
        let e = if n % 2 == 0 {
            episode::<HashedPartialTrie>(seed, prop, n, len, &p)
        } else {
            episode::<StandardTrie>(seed, prop, n, len, &p)
        };
        eps.lock().unwrap()[n] = json!(e);
    });
    let v = json!(eps.into_inner().unwrap());
    let events = v.as_array().unwrap().iter().map(|e| e.as_array().unwrap().len()).sum();
    fs::write(path, v.to_string()).unwrap();
    events
}
