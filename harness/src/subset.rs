//! Replay of the subset extractions explored by `SubsetMC` (C08, C09, C10) and
//! of the partially hidden tries explored by `HideMC` (C07).

use std::{
    collections::HashMap,
    sync::atomic::{AtomicUsize, Ordering},
};

use eth_trie_utils::{
    nibbles::Nibbles,
    trie_subsets::{create_trie_subset, create_trie_subsets},
};
use serde_json::{json, Value};

use crate::{graph::*, model::*, replay::*, report::Report};

struct Extraction {
    k: Vec<usize>,
    err: bool,
    tree: Tree,
    /// a further request on its own: 0 refused, 1 as from the base, 2 open
    again: Vec<u8>,
}

struct Base {
    u: usize,
    tree: Tree,
    hash: Bytes,
    gets: Vec<Option<Bytes>>,
    hid: Vec<usize>,
    ex: Vec<Extraction>,
}

pub struct Subsets {
    requests: Vec<Vec<Key>>,
    bases: Vec<Base>,
}

fn indices(v: &Value) -> Vec<usize> {
    let mut r: Vec<usize> = list(v).iter().map(|x| x.as_u64().unwrap() as usize - 1).collect();
    r.sort();
    r
}

impl Subsets {
    pub fn load(univ: &str, emit: &str) -> Self {
        let v: Value = serde_json::from_str(&std::fs::read_to_string(univ).unwrap()).unwrap();
        let requests = list(&v).iter().map(|u| keys(&u["requests"])).collect();
        let mut m: HashMap<(usize, Vec<u8>), Base> = HashMap::new();
        emitted(emit, |v| {
            let u = v["u"].as_u64().unwrap() as usize - 1;
            let b = m.entry((u, bytes(&v["x"]))).or_insert_with(|| Base {
                u,
                tree: Tree::E,
                hash: bytes(&v["hash"]),
                gets: list(&v["gets"]).iter().map(opt_bytes).collect(),
                hid: indices(&v["hid"]),
                ex: vec![],
            });
            let k = indices(&v["k"]);
            if k.is_empty() {
                b.tree = Tree::from_json(&v["base"]);
            }
            b.ex.push(Extraction {
                k,
                err: v["err"] == true,
                tree: Tree::from_json(&v["tree"]),
                again: bytes(&v["again"]),
            });
        });
        let mut all: Vec<_> = m.into_iter().collect();
        all.sort_by(|a, b| a.0.cmp(&b.0));
        let bases = all
            .into_iter()
            .map(|(_, mut b)| {
                b.ex.sort_by(|x, y| x.k.cmp(&y.k));
                b
            })
            .collect();
        Subsets { requests, bases }
    }

    fn keys(&self, b: &Base, k: &[usize]) -> Vec<Nibbles> {
        k.iter().map(|i| nibs(&self.requests[b.u][*i])).collect()
    }

    fn detail<N: Trie>(&self, b: &Base, lists: &[Vec<usize>], m: String) -> Value {
        let l: Vec<Vec<String>> = lists
            .iter()
            .map(|k| {
                k.iter()
                    .map(|i| format!("0x{}", key_str(&self.requests[b.u][*i])))
                    .collect()
            })
            .collect();
        json!({"type": N::NAME, "base": b.tree.json(), "requested": l, "mismatch": m})
    }

    /// Every extraction: `full` compares the nodes (C09), otherwise hash and
    /// answers (C08).
    pub fn extract<N: Trie>(&self, rep: &Report, seed: u64, full: bool) {
        let n = AtomicUsize::new(0);
        parallel(self.bases.len(), |bi| {
            let b = &self.bases[bi];
            let mut rng = Rng::new(seed, &format!("ex{bi}"));
            for (ei, e) in b.ex.iter().enumerate() {
                let base: N = b.tree.to_impl();
                if (ei + bi) % 2 == 0 {
                    let _ = guarded(|| base.hash());
                }
                // order and repetition must not matter
                let mut k = e.k.clone();
                for i in (1..k.len()).rev() {
                    k.swap(i, rng.below(i + 1));
                }
                if !k.is_empty() && rng.chance(1, 4) {
                    let again = *rng.pick(&k);
                    k.push(again);
                }
                n.fetch_add(1, Ordering::Relaxed);
                let res = self.one(b, e, &base, &k, full);
                if let Err(m) = res {
                    rep.violation("subset", self.detail::<N>(b, &[k.clone()], m));
                } else if bi == self.bases.len() / 2 && ei == b.ex.len() - 1 {
                    rep.sample(json!({"kind": "subset", "type": N::NAME, "base": b.tree.json(),
                        "requested": k.len(), "err": e.err, "tree": e.tree.json()}));
                }
            }
        });
        rep.count("extractions_replayed", n.into_inner() as u64);
    }

    fn one<N: Trie>(
        &self,
        b: &Base,
        e: &Extraction,
        base: &N,
        k: &[usize],
        full: bool,
    ) -> Result<(), String> {
        let r = guarded(|| match k.iter().sum::<usize>() % 2 {
            0 => create_trie_subset(base, self.keys(b, k)),
            _ => create_trie_subset(base, unsized_iter(self.keys(b, k))),
        })
        .map_err(|m| format!("extraction panicked: {m}"))?;
        let sub = match r {
            Err(_) if e.err => return Ok(()),
            Err(_) => return Err("extraction failed".into()),
            Ok(_) if e.err => return Err("extraction beyond a hidden node succeeded".into()),
            Ok(s) => s,
        };
        if full {
            return cmp("nodes of the subset", &e.tree, &Tree::of_impl(&sub));
        }
        let h = guarded(|| sub.hash()).map_err(|m| format!("hash panicked: {m}"))?;
        cmp("root hash of the subset", hex(&b.hash), hex(&h.0))?;
        for i in k {
            let key = &self.requests[b.u][*i];
            let got = guarded(|| sub.get(nibs(key)).map(|v| v.to_vec()))
                .map_err(|m| format!("lookup panicked: {m}"))?;
            cmp(&format!("lookup of 0x{} in the subset", key_str(key)), &b.gets[*i], &got)?;
            // deletion panics exactly if it meets a hidden node
            if !b.hid.contains(i) {
                let mut c = sub.clone();
                let got = guarded(|| c.delete(nibs(key)))
                    .map_err(|_| format!("0x{} meets a hidden node in the subset", key_str(key)))?;
                cmp(&format!("deletion of 0x{} in the subset", key_str(key)), &b.gets[*i], &got)?;
            }
        }
        Ok(())
    }

    /// Extraction from what has been extracted: for parts of the requests, and
    /// for further ones, several times over (C24).
    pub fn compose<N: Trie>(&self, rep: &Report, seed: u64, share: usize) {
        let n = AtomicUsize::new(0);
        parallel(self.bases.len(), |bi| {
            let b = &self.bases[bi];
            let mut rng = Rng::new(seed, &format!("compose{bi}"));
            let at: HashMap<&[usize], &Extraction> = b.ex.iter().map(|e| (e.k.as_slice(), e)).collect();
            let from = |t: &N, k: &[usize]| {
                n.fetch_add(1, Ordering::Relaxed);
                guarded(|| create_trie_subset(t, unsized_iter(self.keys(b, k))))
                    .map_err(|m| format!("extraction panicked: {m}"))
            };
            for e in b.ex.iter().filter(|e| !e.err) {
                let base: N = b.tree.to_impl();
                // what C08 and C09 are about
                let Ok(Ok(sub)) = from(&base, &e.k) else { continue };
                if Tree::of_impl(&sub) != e.tree {
                    continue;
                }
                if rng.chance(1, 2) {
                    let _ = guarded(|| sub.hash());
                }
                let mut lists = vec![e.k.clone()];
                let res = (|| {
                    // every part of the requests
                    for e2 in b.ex.iter().filter(|x| x.k.iter().all(|i| e.k.contains(i))) {
                        if e2.k.len() > 1 && !rng.chance(1, share) {
                            continue;
                        }
                        lists.truncate(1);
                        lists.push(e2.k.clone());
                        let s = from(&sub, &e2.k)?.map_err(|_| "extraction failed".to_string())?;
                        cmp("nodes, extracted from the base / from a subset", &e2.tree, &Tree::of_impl(&s))?;
                    }
                    // ever smaller parts
                    let (mut t, mut k) = (sub.clone(), e.k.clone());
                    lists.truncate(1);
                    while !k.is_empty() {
                        k.remove(rng.below(k.len()));
                        lists.push(k.clone());
                        t = from(&t, &k)?.map_err(|_| "extraction failed".to_string())?;
                        let want = &at[k.as_slice()].tree;
                        cmp("nodes, extracted from the base / from subsets", want, &Tree::of_impl(&t))?;
                    }
                    // further requests
                    for (i, a) in e.again.iter().enumerate() {
                        lists.truncate(1);
                        lists.push(vec![i]);
                        match (a, from(&sub, &[i])?) {
                            (0, Ok(_)) => return Err("extraction beyond a hidden node succeeded".into()),
                            (1, Err(_)) => return Err("extraction failed".into()),
                            (1, Ok(s)) => {
                                let want = &at[[i].as_slice()].tree;
                                cmp("nodes, extracted from the base / from a subset", want, &Tree::of_impl(&s))?
                            }
                            _ => {}
                        }
                    }
                    cmp("subset after extraction from it", &e.tree, &Tree::of_impl(&sub))?;
                    let h = guarded(|| sub.hash()).map_err(|m| format!("hash panicked: {m}"))?;
                    cmp("hash of the subset after extraction from it", hex(&b.hash), hex(&h.0))
                })();
                if let Err(m) = res {
                    rep.violation("extraction from a subset", self.detail::<N>(b, &lists, m));
                } else if bi == self.bases.len() / 2 && e.k.len() == 2 {
                    rep.sample(json!({"kind": "extraction from a subset", "type": N::NAME,
                        "base": b.tree.json(), "requested": lists, "subset": e.tree.json()}));
                }
            }
        });
        rep.count("extractions_replayed", n.into_inner() as u64);
    }

    /// Batches against separate extractions: all pairs of lists, longer
    /// batches at random.
    pub fn batch<N: Trie>(&self, rep: &Report, seed: u64, random: usize, share: usize) {
        let n = AtomicUsize::new(0);
        parallel(self.bases.len(), |bi| {
            let b = &self.bases[bi];
            let mut rng = Rng::new(seed, &format!("batch{bi}"));
            let base: N = b.tree.to_impl();
            let alone: Vec<Option<Tree>> = b
                .ex
                .iter()
                .map(|e| {
                    let ks = self.keys(b, &e.k);
                    guarded(|| create_trie_subset(&base, ks))
                        .ok()
                        .and_then(|r| r.ok())
                        .map(|s| Tree::of_impl(&s))
                })
                .collect();
            let run = |ls: &[usize], rng: &mut Rng| {
                n.fetch_add(1, Ordering::Relaxed);
                let base: N = b.tree.to_impl();
                if rng.chance(1, 2) {
                    let _ = guarded(|| base.hash());
                }
                let lists: Vec<Vec<usize>> = ls.iter().map(|l| b.ex[*l].k.clone()).collect();
                let res = (|| {
                    let given: Vec<Vec<Nibbles>> =
                        lists.iter().map(|l| self.keys(b, l)).collect();
                    let lazily = rng.chance(1, 2);
                    let r = guarded(|| match lazily {
                        false => create_trie_subsets(&base, given),
                        true => {
                            let given = given.into_iter().map(unsized_iter).collect();
                            create_trie_subsets(&base, unsized_iter(given))
                        }
                    })
                    .map_err(|m| format!("batch extraction panicked: {m}"))?;
                    let fails = ls.iter().any(|l| alone[*l].is_none());
                    match r {
                        Err(_) if fails => {}
                        Err(_) => return Err("batch failed, every list alone succeeds".into()),
                        Ok(_) if fails => return Err("batch succeeded, a list alone fails".into()),
                        Ok(subs) => {
                            cmp("number of subsets", ls.len(), subs.len())?;
                            for (i, (s, l)) in subs.iter().zip(ls).enumerate() {
                                cmp(
                                    &format!("subset {i} alone / in the batch"),
                                    alone[*l].as_ref().unwrap(),
                                    &Tree::of_impl(s),
                                )?;
                            }
                        }
                    }
                    cmp("base after extraction", &b.tree, &Tree::of_impl(&base))?;
                    let h = guarded(|| base.hash()).map_err(|m| format!("panic: {m}"))?;
                    cmp("hash of the base after extraction", hex(&b.hash), hex(&h.0))
                })();
                if let Err(m) = res {
                    rep.violation("batch", self.detail::<N>(b, &lists, m));
                }
            };
            let m = b.ex.len();
            for i in 0..m {
                for j in 0..m {
                    if rng.chance(1, share) {
                        run(&[i, j], &mut rng);
                    }
                }
            }
            for i in 0..random {
                // few lists, now and then many
                let most = if i > 0 { 6 } else { [40, 40, 40, 80, 80, 150, 300][rng.below(7)] };
                // without those that fail alone, which end a batch
                let l: Vec<usize> = (0..rng.below(most))
                    .map(|_| rng.below(m))
                    .filter(|l| most == 6 || alone[*l].is_some())
                    .collect();
                run(&l, &mut rng);
            }
        });
        rep.count("batches_replayed", n.into_inner() as u64);
    }
}

struct HTrans {
    from: usize,
    to: Option<usize>,
    ins: bool,
    i: usize,
    j: usize,
    r: String,
    tree: Tree,
    hash: Bytes,
    guess: bool,
}

struct HState {
    u: usize,
    part: Tree,
    hash: Bytes,
    out: Vec<usize>,
}

pub struct Hidden {
    univ: Vec<Universe>,
    states: Vec<HState>,
    trans: Vec<HTrans>,
}

impl Hidden {
    pub fn load(univ: &str, emit: &str) -> Self {
        let univ = universes(univ);
        let mut raw_s = vec![];
        let mut raw_t = vec![];
        emitted(emit, |v| {
            let u = v["u"].as_u64().unwrap() as usize - 1;
            let id = (u, bytes(&v["x"]), Tree::from_json(&v["part"]));
            if v["q"] == "S" {
                raw_s.push((id, bytes(&v["hash"])));
            } else {
                raw_t.push((
                    id,
                    v["op"] == "ins",
                    v["i"].as_u64().unwrap() as usize - 1,
                    (v["j"].as_u64().unwrap() as usize).saturating_sub(1),
                    v["r"].as_str().unwrap().to_string(),
                    bytes(&v["y"]),
                    Tree::from_json(&v["to"]),
                    bytes(&v["hash"]),
                    v["guess"] == true,
                ));
            }
        });
        raw_s.sort();
        raw_s.dedup();
        raw_t.sort();
        raw_t.dedup();
        let mut idx = HashMap::new();
        let mut states: Vec<HState> = vec![];
        for (id, hash) in raw_s {
            states.push(HState {
                u: id.0,
                part: id.2.clone(),
                hash,
                out: vec![],
            });
            idx.insert(id, states.len() - 1);
        }
        let mut trans = vec![];
        for (id, ins, i, j, r, y, tree, hash, guess) in raw_t {
            let from = idx[&id];
            states[from].out.push(trans.len());
            let to = idx.get(&(id.0, y, tree.clone())).copied();
            trans.push(HTrans {
                from,
                to: if guess { None } else { to },
                ins,
                i,
                j,
                r,
                tree,
                hash,
                guess,
            });
        }
        Hidden {
            univ,
            states,
            trans,
        }
    }

    fn op_str(&self, t: &HTrans) -> String {
        let u = &self.univ[self.states[t.from].u];
        let k = key_str(&u.keys[t.i]);
        if t.ins {
            format!("insert 0x{k} {}", u.ents[t.j].json())
        } else {
            format!("delete 0x{k}")
        }
    }

    fn detail<N: Trie>(&self, s: usize, ops: &[usize], m: String) -> Value {
        json!({"type": N::NAME, "partially hidden trie": self.states[s].part.json(),
               "operations": ops.iter().map(|t| self.op_str(&self.trans[*t])).collect::<Vec<_>>(),
               "mismatch": m})
    }

    /// Applies an operation; Ok(true) if the trie is now in the target state.
    fn step<N: Trie>(&self, rep: &Report, t: usize, trie: &mut N, look: bool) -> Result<bool, String> {
        let t = &self.trans[t];
        let u = &self.univ[self.states[t.from].u];
        let k = nibs(&u.keys[t.i]);
        let r = if t.ins {
            guarded(|| trie.insert(k, u.ents[t.j].to_impl()))
        } else {
            guarded(|| trie.delete(k)).map(|_| ())
        };
        let hash = |trie: &N| guarded(|| trie.hash()).map_err(|m| format!("hash panicked: {m}"));
        let refused = t.r == "panic";
        match r {
            // refusing is right if the result depends on something hidden
            Err(_) if refused || t.guess => return Ok(false),
            Err(m) => return Err(format!("operation outside of the hidden parts panicked: {m}")),
            Ok(()) => {}
        }
        if t.guess || refused {
            let h = hash(trie)?;
            if h.0.to_vec() == t.hash {
                return Ok(false);
            }
            if t.guess && Tree::of_impl(trie) == t.tree {
                rep.known(
                    "F1",
                    json!({"type": N::NAME, "trie": self.states[t.from].part.json(),
                           "operation": self.op_str(t), "complete": hex(&t.hash), "partial": hex(&h.0)}),
                );
                return Ok(false);
            }
            return Err(format!(
                "result depends on hidden data but a different root was produced: complete trie {} / {}",
                hex(&t.hash),
                hex(&h.0)
            ));
        }
        if look {
            cmp("root hash, complete trie / partially hidden", hex(&t.hash), hex(&hash(trie)?.0))?;
        }
        Ok(true)
    }

    pub fn replay<N: Trie>(&self, rep: &Report, seed: u64, walks: usize, len: usize) {
        parallel(self.states.len(), |s| {
            let st = &self.states[s];
            let trie: N = st.part.to_impl();
            let res = guarded(|| trie.hash())
                .and_then(|h| cmp("root hash, complete trie / partially hidden", hex(&st.hash), hex(&h.0)));
            if let Err(m) = res {
                rep.violation("hidden", self.detail::<N>(s, &[], m));
            }
        });
        rep.count("states_replayed", self.states.len() as u64);
        parallel(self.trans.len(), |t| {
            let from = self.trans[t].from;
            for warm in [false, true] {
                let mut trie: N = self.states[from].part.to_impl();
                if warm {
                    let _ = guarded(|| trie.hash());
                }
                if let Err(m) = self.step(rep, t, &mut trie, true) {
                    rep.violation("hidden", self.detail::<N>(from, &[t], m));
                }
            }
        });
        rep.count("transitions_replayed", self.trans.len() as u64);
        if self.states.is_empty() {
            return;
        }
        let steps = AtomicUsize::new(0);
        parallel(walks, |w| {
            let mut rng = Rng::new(seed, &format!("hide{w}"));
            let start = rng.below(self.states.len());
            let mut s = start;
            let mut trie: N = self.states[s].part.to_impl();
            let mut ops = vec![];
            for _ in 0..len {
                let t = *rng.pick(&self.states[s].out);
                let Some(to) = self.trans[t].to else { continue };
                if to == s && rng.chance(2, 3) {
                    continue;
                }
                ops.push(t);
                steps.fetch_add(1, Ordering::Relaxed);
                let keep = trie.clone();
                match self.step(rep, t, &mut trie, rng.chance(1, 2)) {
                    Err(m) => {
                        rep.violation("hidden", self.detail::<N>(start, &ops, m));
                        return;
                    }
                    Ok(true) => s = to,
                    Ok(false) => {
                        ops.pop();
                        trie = keep;
                    }
                }
            }
            if w < 1 {
                rep.sample(json!({"kind": "walk on a partially hidden trie", "type": N::NAME,
                    "start": self.states[start].part.json(),
                    "operations": ops.iter().take(8).map(|t| self.op_str(&self.trans[*t])).collect::<Vec<_>>()}));
            }
        });
        rep.count("walks", walks as u64);
        rep.count("walk_steps", steps.into_inner() as u64);
    }
}
