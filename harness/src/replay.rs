//! Spec -> code: replays the states, transitions and random walks of the
//! explored state graph on the implementation.

use std::sync::{
    atomic::{AtomicUsize, Ordering},
    Arc,
};

use eth_trie_utils::{
    nibbles::Nibbles,
    partial_trie::{HashedPartialTrie, Node, PartialTrie, StandardTrie},
    trie_ops::ValOrHash,
};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};

use crate::{
    graph::*,
    model::*,
    pack::{pack, unpack},
    report::Report,
};

pub const GETS: u32 = 1;
pub const TREE: u32 = 2;
pub const HASH: u32 = 4;
pub const ITEMS: u32 = 8;
pub const RES: u32 = 16;
pub const EQ: u32 = 32;
/// after a refused or vacuous operation the trie is exactly as before
pub const SAME: u32 = 64;
pub const SERDE: u32 = 128;

pub trait Trie:
    PartialTrie + Serialize + DeserializeOwned + FromIterator<(Nibbles, ValOrHash)> + Send + Sync + 'static
{
    const NAME: &'static str;
}
impl Trie for StandardTrie {
    const NAME: &'static str = "StandardTrie";
}
impl Trie for HashedPartialTrie {
    const NAME: &'static str = "HashedPartialTrie";
}

pub struct Cfg {
    pub mask: u32,
    pub seed: u64,
    pub walks: usize,
    pub walk_len: usize,
}

/// Calls `f` for 0..n from all cores.
pub fn parallel(n: usize, f: impl Fn(usize) + Sync) {
    let next = AtomicUsize::new(0);
    std::thread::scope(|s| {
        for _ in 0..8 {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, || loop {
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    if i >= n {
                        break;
                    }
                    f(i);
                })
                .unwrap();
        }
    });
}

/// Applies a transition's operation.
pub fn apply<N: PartialTrie>(
    g: &Graph,
    t: &Trans,
    trie: &mut N,
) -> Result<(Outcome, Bytes), String> {
    let u = &g.univ[g.states[t.from].u];
    let k = nibs(&u.keys[t.i]);
    let r = if t.ins {
        let e = u.ents[t.j].to_impl();
        guarded(|| {
            trie.insert(k, e);
            (Outcome::Ok, vec![])
        })
    } else {
        guarded(|| match trie.delete(k) {
            Some(v) => (Outcome::Some, v),
            None => (Outcome::None, vec![]),
        })
    };
    match r {
        Err(m) if t.r == Outcome::Panic => {
            let _ = m;
            Ok((Outcome::Panic, vec![]))
        }
        r => r,
    }
}

pub fn items_of<N: PartialTrie>(t: &N) -> Vec<(Key, Ent)> {
    t.items().map(|(k, e)| (seq(&k), Ent::of_impl(&e))).collect()
}

pub fn cmp<T: PartialEq + std::fmt::Debug>(what: &str, want: T, got: T) -> Result<(), String> {
    if want == got {
        Ok(())
    } else {
        let cut = |s: String| s.chars().take(2000).collect::<String>();
        Err(format!(
            "{what}: specification {} / implementation {}",
            cut(format!("{want:?}")),
            cut(format!("{got:?}"))
        ))
    }
}

/// Compares the trie with state `s` of the specification.
pub fn observe<N: Trie>(g: &Graph, s: usize, trie: &N, mask: u32) -> Result<(), String> {
    let st = &g.states[s];
    let u = &g.univ[st.u];
    let panicked = |m: String| format!("panic: {m}");
    if mask & GETS != 0 {
        for (p, want) in u.probes.iter().zip(&st.gets) {
            let got = guarded(|| trie.get(nibs(p)).map(|v| v.to_vec()))
                .map_err(|m| format!("lookup of 0x{} panicked: {m}", key_str(p)))?;
            cmp(&format!("lookup of 0x{}", key_str(p)), want, &got)?;
        }
    }
    if mask & TREE != 0 {
        cmp("node structure", &st.tree, &Tree::of_impl(trie))?;
    }
    if mask & EQ != 0 {
        let same: N = st.tree.to_impl();
        let eq = guarded(|| same == *trie && *trie == same).map_err(panicked)?;
        cmp("equal to a trie with the same entries", true, eq)?;
        let m = &g.members[st.u];
        for d in [1, m.len() / 2, m.len() - 1] {
            let o = m[(m.iter().position(|x| *x == s).unwrap() + d) % m.len()];
            if o == s {
                continue;
            }
            let other: N = g.states[o].tree.to_impl();
            let eq = guarded(|| other == *trie || *trie == other).map_err(panicked)?;
            cmp(
                &format!("equal to a trie with entries {:?}", g.state_str(o)),
                false,
                eq,
            )?;
            let (h1, h2) = guarded(|| (other.hash(), trie.hash())).map_err(panicked)?;
            if (h1 == h2) != (g.states[o].hash == st.hash) {
                return Err(format!(
                    "same hash as a trie with entries {:?}",
                    g.state_str(o)
                ));
            }
        }
    }
    if mask & HASH != 0 {
        let h = guarded(|| trie.hash()).map_err(panicked)?;
        cmp("root hash", hex(&st.hash), hex(&h.0))?;
    }
    if mask & ITEMS != 0 {
        let mut want = g.contents(s);
        want.sort();
        let raw = guarded(|| items_of(trie)).map_err(|m| format!("iteration panicked: {m}"))?;
        let mut got = raw.clone();
        got.sort();
        cmp("iterated entries", &want, &got)?;
        let ks: Vec<Key> =
            guarded(|| trie.keys().map(|k| seq(&k)).collect()).map_err(panicked)?;
        let vs: Vec<Ent> =
            guarded(|| trie.values().map(|v| Ent::of_impl(&v)).collect()).map_err(panicked)?;
        cmp(
            "keys() against items()",
            raw.iter().map(|x| x.0.clone()).collect::<Vec<_>>(),
            ks,
        )?;
        cmp(
            "values() against items()",
            raw.iter().map(|x| x.1.clone()).collect::<Vec<_>>(),
            vs,
        )?;
        let back: N = guarded(|| {
            let mut b = N::default();
            for (k, e) in trie.items() {
                b.insert(k, e);
            }
            b
        })
        .map_err(|m| format!("re-inserting the iterated entries panicked: {m}"))?;
        cmp(
            "trie rebuilt from the iterated entries",
            Tree::of_impl(trie),
            Tree::of_impl(&back),
        )?;
        cmp("rebuilt trie is equal", true, back == *trie)?;
    }
    if mask & SERDE != 0 {
        let back = round_trip(trie)?;
        cmp("deserialised structure", &st.tree, &Tree::of_impl(&back))?;
        cmp("deserialised trie is equal", true, back == *trie)?;
        let h = guarded(|| back.hash()).map_err(panicked)?;
        cmp("deserialised root hash", hex(&st.hash), hex(&h.0))?;
    }
    Ok(())
}

/// The trie as it is found again inside another one that was hashed.
pub fn nested<N: Trie>(trie: &N) -> N {
    let parent = N::new(Node::Extension {
        nibbles: nibs(&[1]),
        child: Arc::new(Box::new(trie.clone())),
    });
    let _ = guarded(|| parent.hash());
    match &*parent {
        Node::Extension { child, .. } => N::clone(child),
        _ => trie.clone(),
    }
}

/// Through text and through the self-describing value form.
pub fn round_trip<N: Trie>(trie: &N) -> Result<N, String> {
    let s = guarded(|| serde_json::to_string(trie))?.map_err(|e| format!("serialise: {e}"))?;
    let a: N =
        guarded(|| from_text::<N>(&s))?.map_err(|e| format!("deserialise: {e}"))?;
    let v = guarded(|| serde_json::to_value(trie))?.map_err(|e| format!("serialise: {e}"))?;
    let b: N = guarded(|| serde_json::from_value::<N>(v))?
        .map_err(|e| format!("deserialise: {e}"))?;
    cmp(
        "structure through text and value form",
        Tree::of_impl(&a),
        Tree::of_impl(&b),
    )?;
    let p = guarded(|| pack(trie))?.map_err(|e| format!("serialise: {e}"))?;
    let c: N = guarded(|| unpack::<N>(&p))?.map_err(|e| format!("deserialise: {e}"))?;
    cmp(
        "structure through text and positional form",
        Tree::of_impl(&a),
        Tree::of_impl(&c),
    )?;
    // the two differ in nothing but what they were read from
    Ok(if p.len() % 2 == 0 { a } else { c })
}

/// One step: apply, compare the outcome, compare the resulting trie.
fn step<N: Trie>(g: &Graph, t: usize, trie: &mut N, mask: u32) -> Result<(), String> {
    let tr = &g.trans[t];
    let before = (mask & SAME != 0 && tr.r != Outcome::Ok && tr.r != Outcome::Some)
        .then(|| (Tree::of_impl(trie), trie.clone()));
    let (r, v) = apply(g, tr, trie).map_err(|m| format!("unexpected panic: {m}"))?;
    if mask & RES != 0 || (r == Outcome::Panic) != (tr.r == Outcome::Panic) {
        cmp("outcome", (tr.r, hex(&tr.v)), (r, hex(&v)))?;
    }
    if let Some((tree, copy)) = before {
        cmp("structure after an operation without effect", &tree, &Tree::of_impl(trie))?;
        if mask & HASH != 0 {
            let h = guarded(|| trie.hash()).map_err(|m| format!("panic: {m}"))?;
            cmp(
                "root hash after an operation without effect",
                hex(&g.states[tr.to].hash),
                hex(&h.0),
            )?;
        }
        if copy != *trie {
            return Err("trie changed by an operation without effect".into());
        }
    }
    observe(g, tr.to, trie, mask)
}

fn detail<N: Trie>(g: &Graph, how: &str, pre: Vec<String>, ops: &[usize], msg: String) -> Value {
    json!({"type": N::NAME, "how": how, "start": pre,
           "operations": ops.iter().map(|t| g.trans_str(*t)).collect::<Vec<_>>(),
           "mismatch": msg})
}

pub fn states<N: Trie>(g: &Graph, rep: &Report, mask: u32) {
    parallel(g.states.len(), |s| {
        let trie: N = g.states[s].tree.to_impl();
        if let Err(m) = observe(g, s, &trie, mask) {
            rep.violation(
                "state",
                detail::<N>(g, "trie assembled from nodes", g.state_str(s), &[], m),
            );
        }
    });
    rep.count("states_replayed", g.states.len() as u64);
}

/// Every transition, from a pre-state assembled from nodes, with cold and with
/// filled hash caches, and from a pre-state read back from serialised form.
pub fn edges<N: Trie>(g: &Graph, rep: &Report, mask: u32, pick: impl Fn(&Trans) -> bool + Sync) {
    let n = AtomicUsize::new(0);
    parallel(g.trans.len(), |t| {
        let tr = &g.trans[t];
        if !pick(tr) {
            return;
        }
        n.fetch_add(1, Ordering::Relaxed);
        for warm in [false, true] {
            if warm && mask & (HASH | EQ | SAME | SERDE) == 0 {
                continue;
            }
            let mut trie: N = g.states[tr.from].tree.to_impl();
            if warm {
                let _ = guarded(|| trie.hash());
            }
            if mask & SERDE != 0 {
                match round_trip(&trie) {
                    Ok(b) => trie = b,
                    Err(m) => rep.violation(
                        "round trip",
                        detail::<N>(g, "round trip", g.state_str(tr.from), &[], m),
                    ),
                }
            }
            if let Err(m) = step(g, t, &mut trie, mask) {
                rep.violation(
                    "transition",
                    detail::<N>(
                        g,
                        if warm { "hash cached before" } else { "no hash cached" },
                        g.state_str(tr.from),
                        &[t],
                        m,
                    ),
                );
            }
        }
    });
    rep.count("transitions_replayed", n.into_inner() as u64);
}

/// Random walks through the graph from the empty trie: long histories on one
/// trie object, with hash queries in between.
pub fn walks<N: Trie>(g: &Graph, rep: &Report, c: &Cfg) {
    let nu = g.univ.len();
    let steps = AtomicUsize::new(0);
    parallel(c.walks, |w| {
        let mut rng = Rng::new(c.seed, &format!("walk{w}"));
        let mut s = g.start[w % nu];
        let mut trie: N = g.begin(w % nu);
        let mut ops = vec![];
        let grow = rng.below(3);
        for _ in 0..c.walk_len {
            let out = &g.states[s].out;
            let mut t = *rng.pick(out);
            // a second draw biases walks towards fuller or emptier tries
            if (grow == 0 && !g.trans[t].ins) || (grow == 1 && g.trans[t].ins) {
                t = *rng.pick(out);
            }
            if g.trans[t].to == s && rng.chance(1, 2) {
                t = *rng.pick(out);
            }
            ops.push(t);
            if c.mask & (HASH | EQ | SAME | SERDE) != 0 && rng.chance(1, 3) {
                let _ = guarded(|| trie.hash());
            }
            if c.mask & SERDE != 0 && rng.chance(1, 4) {
                match round_trip(&trie) {
                    Ok(b) => trie = b,
                    Err(m) => rep
                        .violation("walk", detail::<N>(g, "walk from the empty trie", vec![], &ops, m)),
                }
            }
            // compare everything at every third step only, so that errors
            // which a hash query or iteration would repair are seen as well
            let m = if rng.chance(1, 3) { c.mask } else { c.mask & (RES | SAME) };
            steps.fetch_add(1, Ordering::Relaxed);
            if let Err(m) = step(g, t, &mut trie, m) {
                rep.violation(
                    "walk",
                    detail::<N>(g, "walk from the empty trie", vec![], &ops, m),
                );
                return;
            }
            s = g.trans[t].to;
        }
        if let Err(m) = observe(g, s, &trie, c.mask) {
            rep.violation("walk", detail::<N>(g, "walk from the empty trie", vec![], &ops, m));
        } else if w < 2 {
            rep.sample(json!({"kind": "walk", "type": N::NAME,
                "operations": ops.iter().take(12).map(|t| g.trans_str(*t)).collect::<Vec<_>>(),
                "steps": ops.len()}));
        }
    });
    rep.count("walk_steps", steps.into_inner() as u64);
    rep.count("walks", c.walks as u64);
}

/// Different contents, different hashes (within each universe).
pub fn distinct_hashes<N: Trie>(g: &Graph, rep: &Report) {
    let n = AtomicUsize::new(0);
    parallel(g.univ.len(), |u| {
        let mut seen = std::collections::HashMap::new();
        for s in &g.members[u] {
            let trie: N = g.states[*s].tree.to_impl();
            if let Ok(h) = guarded(|| trie.hash()) {
                if let Some(o) = seen.insert(h, *s) {
                    if g.states[o].hash != g.states[*s].hash {
                        rep.violation(
                            "distinct",
                            json!({"type": N::NAME, "same hash": [g.state_str(o), g.state_str(*s)]}),
                        );
                    }
                }
            }
        }
        // every pair, with the hashes of none, one and both known
        let plain: Vec<N> = g.members[u].iter().map(|s| g.states[*s].tree.to_impl()).collect();
        let known: Vec<N> = plain.iter().map(|t| guarded(|| nested(t)).unwrap_or_else(|_| t.clone())).collect();
        for (i, s) in g.members[u].iter().enumerate() {
            for (j, o) in g.members[u].iter().enumerate() {
                let eq = guarded(|| (plain[i] == plain[j], known[i] == plain[j], known[i] == known[j]));
                if eq != Ok((i == j, i == j, i == j)) {
                    rep.violation(
                        "pairs",
                        json!({"type": N::NAME, "compared": [g.state_str(*s), g.state_str(*o)],
                               "equal": format!("{eq:?}")}),
                    );
                }
            }
        }
        n.fetch_add(g.members[u].len() * g.members[u].len(), Ordering::Relaxed);
    });
    rep.count("pairs_compared", n.load(Ordering::Relaxed) as u64);
}

/// Bulk construction: runs of inserts of a walk given to `extend` / `collect`
/// in one go; the last one of a run may be refused.
pub fn batches<N: Trie>(g: &Graph, rep: &Report, c: &Cfg) {
    let nu = g.univ.len();
    let n = AtomicUsize::new(0);
    parallel(c.walks, |w| {
        let mut rng = Rng::new(c.seed, &format!("batch{w}"));
        let u = w % nu;
        let mut s = g.start[u];
        let mut trie: N = g.begin(u);
        let mut ops = vec![];
        for round in 0..6 {
            let first = round == 0;
            let len = rng.below(9);
            let mut batch = vec![];
            let mut refused = false;
            let mut e = s;
            for _ in 0..len {
                let ins: Vec<usize> = g.states[e]
                    .out
                    .iter()
                    .copied()
                    .filter(|t| g.trans[*t].ins)
                    .collect();
                let mut t = *rng.pick(&ins);
                if g.trans[t].r == Outcome::Panic && !rng.chance(1, 4) {
                    t = *rng.pick(&ins);
                }
                batch.push(t);
                if g.trans[t].r == Outcome::Panic {
                    refused = true;
                    break;
                }
                e = g.trans[t].to;
            }
            ops.extend(&batch);
            n.fetch_add(batch.len(), Ordering::Relaxed);
            let ents: Vec<(Nibbles, ValOrHash)> = batch
                .iter()
                .map(|t| {
                    let t = &g.trans[*t];
                    (nibs(&g.univ[u].keys[t.i]), g.univ[u].ents[t.j].to_impl())
                })
                .collect();
            if c.mask & (HASH | SAME) != 0 && rng.chance(1, 2) {
                let _ = guarded(|| trie.hash());
            }
            // entries after a refused one must not matter
            let mut given = ents.clone();
            if refused {
                for _ in 0..rng.below(3) {
                    given.push(ents[rng.below(ents.len())].clone());
                }
            }
            let collect = first && !refused && g.univ[u].rest.is_empty() && rng.chance(1, 2);
            let r = if collect {
                guarded(|| {
                    trie = if w % 2 == 0 {
                        given.clone().into_iter().collect()
                    } else {
                        unsized_iter(given.clone()).collect()
                    }
                })
            } else if rng.chance(1, 2) {
                guarded(|| trie.extend(unsized_iter(given.clone())))
            } else {
                guarded(|| trie.extend(given.clone()))
            };
            let mut bad = None;
            if r.is_err() != refused {
                bad = Some(match r {
                    Err(m) => format!("bulk insert panicked: {m}"),
                    Ok(()) => "bulk insert with an entry that must be refused succeeded".into(),
                });
            }
            s = e;
            if bad.is_none() {
                bad = observe(g, s, &trie, c.mask).err();
            }
            if let Some(m) = bad {
                rep.violation(
                    "bulk",
                    detail::<N>(
                        g,
                        if collect { "collect" } else { "extend" },
                        vec![],
                        &ops,
                        m,
                    ),
                );
                return;
            }
            // now and then single operations in between
            for _ in 0..rng.below(3) {
                let t = *rng.pick(&g.states[s].out);
                ops.push(t);
                if let Err(m) = step(g, t, &mut trie, c.mask) {
                    rep.violation("bulk", detail::<N>(g, "extend", vec![], &ops, m));
                    return;
                }
                s = g.trans[t].to;
            }
        }
    });
    rep.count("bulk_entries", n.into_inner() as u64);
    rep.count("bulk_runs", c.walks as u64);
}

/// Both trie types through the same walk, compared with each other.
pub fn lockstep(g: &Graph, rep: &Report, c: &Cfg) {
    type S = StandardTrie;
    type H = HashedPartialTrie;
    let nu = g.univ.len();
    let steps = AtomicUsize::new(0);
    parallel(c.walks, |w| {
        let mut rng = Rng::new(c.seed, &format!("lock{w}"));
        let u = w % nu;
        let mut s = g.start[u];
        let (mut a, mut b) = (g.begin::<S>(u), g.begin::<H>(u));
        let mut ops = vec![];
        for _ in 0..c.walk_len {
            let mut t = *rng.pick(&g.states[s].out);
            if g.trans[t].to == s {
                t = *rng.pick(&g.states[s].out);
            }
            ops.push(t);
            steps.fetch_add(1, Ordering::Relaxed);
            let tr = &g.trans[t];
            let res = (|| {
                let class = |r: Result<(Outcome, Bytes), String>| match r {
                    Ok((o, v)) => (o, v),
                    Err(_) => (Outcome::Panic, vec![]),
                };
                cmp(
                    "outcome, plain / caching",
                    class(apply(g, tr, &mut a)),
                    class(apply(g, tr, &mut b)),
                )?;
                if rng.chance(1, 2) {
                    cmp("structure, plain / caching", Tree::of_impl(&a), Tree::of_impl(&b))?;
                    let (x, y) = (guarded(|| items_of(&a)).ok(), guarded(|| items_of(&b)).ok());
                    let sort = |v: Option<Vec<(Key, Ent)>>| {
                        v.map(|mut v| {
                            v.sort();
                            v
                        })
                    };
                    cmp("entries, plain / caching", sort(x), sort(y))?;
                    for p in &g.univ[u].probes {
                        cmp(
                            &format!("lookup of 0x{}, plain / caching", key_str(p)),
                            guarded(|| a.get(nibs(p)).map(|v| v.to_vec())).ok(),
                            guarded(|| b.get(nibs(p)).map(|v| v.to_vec())).ok(),
                        )?;
                    }
                }
                if rng.chance(2, 3) {
                    cmp(
                        "hash, plain / caching",
                        guarded(|| a.hash()).ok(),
                        guarded(|| b.hash()).ok(),
                    )?;
                }
                Ok::<(), String>(())
            })();
            if let Err(m) = res {
                rep.violation("lockstep", detail::<H>(g, "both types in step", vec![], &ops, m));
                return;
            }
            s = tr.to;
        }
    });
    rep.count("lockstep_walks", c.walks as u64);
    rep.count("lockstep_steps", steps.into_inner() as u64);
}
