//! Replay of `HandleMC`: two tries sharing structure, with snapshots, under
//! all short and many long sequences of operations (C05, C06).

use std::{
    collections::HashMap,
    sync::{
        atomic::{AtomicUsize, Ordering},
        Arc,
    },
};

use eth_trie_utils::{partial_trie::Node, trie_subsets::create_trie_subset};
use serde_json::{json, Value};

use crate::{graph::*, model::*, replay::*, report::Report};

type Vecs = [Vec<u8>; 2];

struct Contents {
    tree: Tree,
    hash: Bytes,
    kids: Vec<(Key, Tree, Bytes)>,
    subs: Vec<Option<Tree>>,
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
struct Op {
    name: String,
    h: usize,
    i: usize,
    j: usize,
    r: String,
    to: usize,
}

struct Pair {
    x: Vecs,
    out: Vec<Op>,
}

pub struct Handles {
    univ: Vec<Universe>,
    contents: Vec<HashMap<Vec<u8>, Contents>>,
    pairs: Vec<Vec<Pair>>,
    start: Vec<usize>,
}

/// What is done in one step of a run.
#[derive(Clone, Debug)]
enum Act {
    Op(usize),
    Snap(usize, Kind),
}

#[derive(Clone, Copy, Debug)]
enum Kind {
    Clone,
    Kid(usize),
    Subset(usize),
    Iter,
    Serde,
}

/// Something taken from a trie that must keep showing the same.
struct Snap<N: Trie> {
    what: String,
    trie: Option<Box<N>>,
    iter: Option<Box<dyn Iterator<Item = (Key, Ent)>>>,
    seen: Vec<(Key, Ent)>,
    tree: Tree,
    hash: Bytes,
}

impl<N: Trie> Drop for Snap<N> {
    fn drop(&mut self) {
        // the iterator borrows from the boxed trie
        self.iter = None;
    }
}

fn vecs(v: &Value) -> Vecs {
    [bytes(&v[0]), bytes(&v[1])]
}

fn entries(t: &Tree, at: &mut Key, out: &mut Vec<(Key, Ent)>) {
    let n = at.len();
    match t {
        Tree::E => {}
        Tree::H(h) => out.push((at.clone(), Ent::H(h.clone()))),
        Tree::L(k, v) => {
            at.extend(k);
            out.push((at.clone(), Ent::V(v.clone())));
        }
        Tree::X(k, c) => {
            at.extend(k);
            entries(c, at, out);
        }
        Tree::B(c, v) => {
            if !v.is_empty() {
                out.push((at.clone(), Ent::V(v.clone())));
            }
            for (i, x) in c.iter().enumerate() {
                at.push(i as u8);
                entries(x, at, out);
                at.pop();
            }
        }
    }
    at.truncate(n);
}

fn node_at<N: Trie>(t: &N, p: &[u8]) -> Option<N> {
    if p.is_empty() {
        return Some(t.clone());
    }
    match &**t {
        Node::Extension { nibbles, child } => {
            let k = seq(nibbles);
            p.strip_prefix(k.as_slice()).and_then(|r| node_at::<N>(child, r))
        }
        Node::Branch { children, .. } => node_at::<N>(&children[p[0] as usize], &p[1..]),
        _ => None,
    }
}

impl Handles {
    pub fn load(univ: &str, emit: &str) -> Self {
        let univ = universes(univ);
        let n = univ.len();
        let mut contents: Vec<HashMap<Vec<u8>, Contents>> = (0..n).map(|_| HashMap::new()).collect();
        let mut raw: Vec<Vec<(Vecs, Vecs, Op)>> = vec![vec![]; n];
        emitted(emit, |v| {
            let u = v["u"].as_u64().unwrap() as usize - 1;
            let num = |n: &str| v[n].as_u64().unwrap() as usize;
            if v["q"] == "C" {
                let mut kids: Vec<(Key, Tree, Bytes)> = list(&v["kids"])
                    .iter()
                    .map(|k| (bytes(&k["p"]), Tree::from_json(&k["tree"]), bytes(&k["hash"])))
                    .collect();
                kids.sort();
                contents[u].insert(
                    bytes(&v["x"]),
                    Contents {
                        tree: Tree::from_json(&v["tree"]),
                        hash: bytes(&v["hash"]),
                        kids,
                        subs: list(&v["subs"])
                            .iter()
                            .map(|s| (s["ok"] == true).then(|| Tree::from_json(&s["tree"])))
                            .collect(),
                    },
                );
            } else {
                raw[u].push((
                    vecs(&v["x"]),
                    vecs(&v["y"]),
                    Op {
                        name: v["op"].as_str().unwrap().into(),
                        h: num("h") - 1,
                        i: num("i").saturating_sub(1),
                        j: num("j").saturating_sub(1),
                        r: v["r"].as_str().unwrap().into(),
                        to: 0,
                    },
                ));
            }
        });
        let (mut pairs, mut start) = (vec![], vec![]);
        for mut ts in raw {
            ts.sort();
            ts.dedup();
            let mut idx: HashMap<Vecs, usize> = HashMap::new();
            let mut ps: Vec<Pair> = vec![];
            for (x, _, _) in &ts {
                if !idx.contains_key(x) {
                    idx.insert(x.clone(), ps.len());
                    ps.push(Pair {
                        x: x.clone(),
                        out: vec![],
                    });
                }
            }
            for (x, y, mut op) in ts {
                op.to = idx[&y];
                ps[idx[&x]].out.push(op);
            }
            let zero = ps.iter().position(|p| p.x.iter().flatten().all(|v| *v == 0)).unwrap();
            pairs.push(ps);
            start.push(zero);
        }
        Handles {
            univ,
            contents,
            pairs,
            start,
        }
    }

    fn apply<N: Trie>(&self, u: usize, op: &Op, t: &mut [N; 2]) -> Result<(), String> {
        let un = &self.univ[u];
        let (h, o) = (op.h, 1 - op.h);
        let key = || nibs(&un.keys[op.i]);
        let r = match op.name.as_str() {
            "ins" => guarded(|| t[h].insert(key(), un.ents[op.j].to_impl())),
            "del" => guarded(|| {
                t[h].delete(key());
            }),
            "extend" => {
                // the second entry is refused: it asks to write below a hash
                let e = un.ents[op.j].to_impl();
                let es = vec![(key(), e.clone()), (key(), e)];
                guarded(|| t[h].extend(es))
            }
            "hash" => guarded(|| {
                t[h].hash();
            }),
            "nest" => {
                t[h] = nested(&t[h]);
                Ok(())
            }
            "inner" => {
                // the sub-node on the way is written to in place
                let (k, e) = (&un.keys[op.i], un.ents[op.j].to_impl());
                guarded(|| match &mut *t[h] {
                    Node::Branch { children, .. } => {
                        Arc::make_mut(&mut children[k[0] as usize]).insert(nibs(&k[1..]), e)
                    }
                    Node::Extension { nibbles, child } => {
                        let k = &k[seq(nibbles).len()..];
                        Arc::make_mut(child).insert(nibs(k), e)
                    }
                    _ => {}
                })
            }
            "clone" => {
                t[o] = t[h].clone();
                Ok(())
            }
            "assign" => {
                let n: Node<N> = (*t[o]).clone();
                *t[h] = n;
                Ok(())
            }
            _ => panic!("unknown operation {op:?}"),
        };
        match r {
            Err(_) if op.r == "panic" => Ok(()),
            Err(m) => Err(format!("unexpected panic: {m}")),
            // other properties decide whether it had to panic
            Ok(()) => Ok(()),
        }
    }

    fn snapshot<N: Trie>(&self, u: usize, x: &[u8], t: &N, kind: Kind) -> Option<Snap<N>> {
        let c = &self.contents[u][x];
        let mut s = Snap {
            what: format!("{kind:?}"),
            trie: None,
            iter: None,
            seen: vec![],
            tree: c.tree.clone(),
            hash: c.hash.clone(),
        };
        match kind {
            Kind::Clone => s.trie = Some(Box::new(t.clone())),
            Kind::Kid(n) => {
                let (p, tree, hash) = c.kids.get(n)?;
                s.what = format!("sub-node at 0x{}", key_str(p));
                s.trie = Some(Box::new(node_at(t, p)?));
                s.tree = tree.clone();
                s.hash = hash.clone();
            }
            Kind::Subset(i) => {
                s.tree = c.subs.get(i)?.clone()?;
                let k = [nibs(&self.univ[u].keys[i])];
                s.what = format!("subset for 0x{}", key_str(&self.univ[u].keys[i]));
                s.trie = Some(Box::new(guarded(|| create_trie_subset(t, k)).ok()?.ok()?));
            }
            Kind::Serde => s.trie = Some(Box::new(round_trip(t).ok()?)),
            Kind::Iter => {
                let b = Box::new(t.clone());
                // Lives as long as the box, which is dropped after it.
                let r: &'static N = unsafe { &*(&*b as *const N) };
                let mut it: Box<dyn Iterator<Item = (Key, Ent)>> =
                    Box::new(r.items().map(|(k, e)| (seq(&k), Ent::of_impl(&e))));
                if let Some(e) = it.next() {
                    s.seen.push(e);
                }
                s.iter = Some(it);
                s.trie = Some(b);
            }
        }
        Some(s)
    }

    /// C05: the reported hash belongs to the present nodes.
    fn fresh<N: Trie>(&self, t: &N, what: &str, tree: &Tree, hash: &[u8]) -> Result<(), String> {
        let now = Tree::of_impl(t);
        let got = guarded(|| t.hash()).map_err(|m| format!("hash of {what} panicked: {m}"))?;
        let want = if now == *tree {
            hash.to_vec()
        } else {
            let again: N = now.to_impl();
            guarded(|| again.hash()).map_err(|m| format!("hash panicked: {m}"))?.0.to_vec()
        };
        cmp(&format!("hash of the present nodes / reported by {what}"), hex(&want), hex(&got.0))
    }

    /// C06: nodes, hash and entries are what they were.
    fn intact<N: Trie>(&self, t: &N, what: &str, tree: &Tree, hash: &[u8], hashes: bool) -> Result<(), String> {
        cmp(&format!("nodes of {what}"), tree, &Tree::of_impl(t))?;
        if hashes {
            let got = guarded(|| t.hash()).map_err(|m| format!("hash of {what} panicked: {m}"))?;
            cmp(&format!("hash of {what}"), hex(hash), hex(&got.0))?;
        }
        Ok(())
    }

    fn finish<N: Trie>(&self, s: &mut Snap<N>, c05: bool) -> Result<(), String> {
        if let Some(it) = s.iter.take() {
            let mut got = std::mem::take(&mut s.seen);
            got.extend(guarded(|| it.collect::<Vec<_>>())?);
            let mut want = vec![];
            entries(&s.tree, &mut vec![], &mut want);
            got.sort();
            want.sort();
            if !c05 {
                cmp("entries of a running iterator", want, got)?;
            }
        }
        let t = s.trie.as_ref().unwrap();
        if c05 {
            self.fresh(&**t, &s.what, &s.tree, &s.hash)
        } else {
            self.intact(&**t, &s.what, &s.tree, &s.hash, true)
        }
    }

    /// Runs a sequence from tries with the contents of pair `p`.
    fn run<N: Trie>(
        &self,
        u: usize,
        p: usize,
        acts: &mut dyn FnMut(usize) -> Option<Act>,
        warm: bool,
        flip: bool,
        c05: bool,
        log: &mut Vec<String>,
    ) -> Result<(), String> {
        let ps = &self.pairs[u];
        let mut p = p;
        let c = |p: usize, h: usize| &self.contents[u][&ps[p].x[h]];
        let mut t: [N; 2] = [c(p, 0).tree.to_impl(), c(p, 1).tree.to_impl()];
        if warm {
            let _ = guarded(|| t[0].hash());
            let _ = guarded(|| t[1].hash());
        }
        let mut snaps: Vec<Snap<N>> = vec![];
        while let Some(a) = acts(p) {
            match a {
                Act::Snap(h, kind) => {
                    log.push(format!("snapshot of trie {h}: {kind:?}"));
                    if let Some(s) = self.snapshot(u, &ps[p].x[h], &t[h], kind) {
                        snaps.push(s);
                    }
                }
                Act::Op(n) => {
                    let op = &ps[p].out[n];
                    log.push(self.op_str(u, op));
                    self.apply(u, op, &mut t)?;
                    p = op.to;
                    if !c05 {
                        // the one the operation was not applied to
                        let o = if op.name == "clone" { op.h } else { 1 - op.h };
                        let e = c(p, o);
                        self.intact(&t[o], "the other trie", &e.tree, &e.hash, false)?;
                        for s in &snaps {
                            let t = s.trie.as_ref().unwrap();
                            self.intact(&**t, &s.what, &s.tree, &s.hash, false)?;
                        }
                        // the operation itself is decided elsewhere
                        if Tree::of_impl(&t[op.h]) != c(p, op.h).tree {
                            break;
                        }
                    }
                }
            }
        }
        let order = if flip { [1, 0] } else { [0, 1] };
        if flip {
            for s in &mut snaps {
                self.finish(s, c05)?;
            }
        }
        for h in order {
            let e = c(p, h);
            if c05 {
                self.fresh(&t[h], &format!("trie {h}"), &e.tree, &e.hash)?;
            } else if Tree::of_impl(&t[h]) == e.tree {
                self.intact(&t[h], &format!("trie {h}"), &e.tree, &e.hash, true)?;
            }
        }
        if !flip {
            for s in &mut snaps {
                self.finish(s, c05)?;
            }
        }
        Ok(())
    }

    fn op_str(&self, u: usize, op: &Op) -> String {
        let un = &self.univ[u];
        match op.name.as_str() {
            "ins" | "extend" | "inner" => format!(
                "{} trie {}: 0x{} {}",
                op.name, op.h, key_str(&un.keys[op.i]), un.ents[op.j].json()
            ),
            "del" => format!("del trie {}: 0x{}", op.h, key_str(&un.keys[op.i])),
            n => format!("{n} trie {}", op.h),
        }
    }

    fn acts_at(&self, u: usize, p: usize) -> Vec<Act> {
        let mut v: Vec<Act> = (0..self.pairs[u][p].out.len()).map(Act::Op).collect();
        for h in 0..2 {
            let c = &self.contents[u][&self.pairs[u][p].x[h]];
            v.push(Act::Snap(h, Kind::Clone));
            v.push(Act::Snap(h, Kind::Iter));
            for k in 1..c.kids.len() {
                v.push(Act::Snap(h, Kind::Kid(k)));
            }
            for i in 0..c.subs.len() {
                v.push(Act::Snap(h, Kind::Subset(i)));
            }
        }
        v
    }

    /// All sequences of `len` steps from the pairs (contents, nothing) with
    /// cold and filled caches.
    pub fn exhaustive<N: Trie>(&self, rep: &Report, seed: u64, len: usize, share: usize, c05: bool) {
        let n = AtomicUsize::new(0);
        let mut jobs = vec![];
        for (u, ps) in self.pairs.iter().enumerate() {
            if !self.univ[u].rest.is_empty() {
                continue; // too many nodes to take one out of; left to the walks
            }
            for (p, pr) in ps.iter().enumerate() {
                if pr.x[1].iter().all(|v| *v == 0) {
                    for a in 0..self.acts_at(u, p).len() {
                        jobs.push((u, p, a));
                    }
                }
            }
        }
        parallel(jobs.len(), |job| {
            let (u, p, first) = jobs[job];
            let mut rng = Rng::new(seed, &format!("exh{job}"));
            // odometer over the choices; their number depends on the pair reached
            let mut digits = vec![0usize; len];
            digits[0] = first;
            loop {
                let mut sizes = vec![0usize; len];
                if rng.chance(1, share) {
                    n.fetch_add(1, Ordering::Relaxed);
                    let mut log = vec![];
                    let mut depth = 0;
                    let (warm, flip) = (rng.chance(1, 2), rng.chance(1, 2));
                    let res = self.run::<N>(
                        u,
                        p,
                        &mut |q| {
                            if depth == len {
                                return None;
                            }
                            let acts = self.acts_at(u, q);
                            sizes[depth] = acts.len();
                            let a = acts.get(digits[depth]).cloned();
                            depth += 1;
                            a
                        },
                        warm,
                        flip,
                        c05,
                        &mut log,
                    );
                    if let Err(m) = res {
                        rep.violation("handles", self.detail::<N>(u, p, warm, log, m));
                    }
                } else {
                    let mut q = p;
                    for d in 0..len {
                        let acts = self.acts_at(u, q);
                        sizes[d] = acts.len();
                        match acts.get(digits[d]) {
                            Some(Act::Op(o)) => q = self.pairs[u][q].out[*o].to,
                            Some(_) => {}
                            None => break,
                        }
                    }
                }
                let mut d = len - 1;
                loop {
                    digits[d] += 1;
                    if digits[d] < sizes[d] {
                        break;
                    }
                    digits[d] = 0;
                    if d <= 1 {
                        return;
                    }
                    d -= 1;
                }
            }
        });
        rep.count("sequences_replayed", n.into_inner() as u64);
    }

    pub fn walks<N: Trie>(&self, rep: &Report, seed: u64, walks: usize, len: usize, c05: bool) {
        let steps = AtomicUsize::new(0);
        parallel(walks, |w| {
            let mut rng = Rng::new(seed, &format!("handles{w}"));
            let u = w % self.univ.len();
            let mut log = vec![];
            let mut left = 1 + rng.below(len);
            let (warm, flip) = (rng.chance(1, 2), rng.chance(1, 2));
            let mut r2 = rng.clone();
            let res = self.run::<N>(
                u,
                self.start[u],
                &mut |q| {
                    if left == 0 {
                        return None;
                    }
                    left -= 1;
                    steps.fetch_add(1, Ordering::Relaxed);
                    let acts = self.acts_at(u, q);
                    // snapshots now and then, hash queries and copies often
                    let mut a = r2.pick(&acts).clone();
                    for _ in 0..6 {
                        let dull = match &a {
                            Act::Snap(..) => r2.chance(9, 10),
                            Act::Op(n) => {
                                let op = &self.pairs[u][q].out[*n];
                                op.to == q && op.name != "hash" && op.name != "nest"
                            }
                        };
                        if !dull {
                            break;
                        }
                        a = r2.pick(&acts).clone();
                    }
                    if r2.chance(1, 12) {
                        a = Act::Snap(r2.below(2), Kind::Serde);
                    }
                    if r2.chance(1, 4) {
                        let want = *r2.pick(&["hash", "nest", "clone", "assign"]);
                        let h = r2.below(2);
                        if let Some(n) = self.pairs[u][q]
                            .out
                            .iter()
                            .position(|o| o.name == want && o.h == h)
                        {
                            a = Act::Op(n);
                        }
                    }
                    Some(a)
                },
                warm,
                flip,
                c05,
                &mut log,
            );
            if let Err(m) = res {
                rep.violation("handles", self.detail::<N>(u, self.start[u], warm, log, m));
            } else if w < 2 {
                rep.sample(json!({"kind": "walk over two tries", "type": N::NAME,
                    "operations": log.iter().take(12).collect::<Vec<_>>()}));
            }
        });
        rep.count("walks", walks as u64);
        rep.count("walk_steps", steps.into_inner() as u64);
    }

    fn detail<N: Trie>(&self, u: usize, p: usize, warm: bool, log: Vec<String>, m: String) -> Value {
        let c = |h: usize| self.contents[u][&self.pairs[u][p].x[h]].tree.json();
        json!({"type": N::NAME, "tries at the start": [c(0), c(1)], "hashed before": warm,
               "steps": log, "mismatch": m})
    }
}
