//! Large tries: the families of `ScaleMC`, built entry by entry, taken through
//! the behaviours of the specification and compared with its states.

use std::{
    collections::{BTreeMap, HashMap, HashSet},
    sync::atomic::{AtomicUsize, Ordering},
};

use eth_trie_utils::{
    debug_tools::{query::get_path_from_query, stats::get_trie_stats},
    nibbles::Nibbles,
    partial_trie::{HashedPartialTrie as H, PartialTrie, StandardTrie as S},
    trie_ops::ValOrHash,
    trie_subsets::{create_trie_subset, create_trie_subsets},
};
use serde_json::{json, Value};

use crate::{
    debug,
    graph::emitted,
    model::*,
    obs,
    pack::{pack, unpack},
    replay::*,
    report::Report,
};

type Contents = BTreeMap<Key, Ent>;

struct Family {
    v: Value,
    alpha: Vec<Vec<u8>>,
    prefix: Key,
    suffix: Key,
    inner: Vec<Bytes>,
    drops: Vec<(usize, u8)>,
    requests: Vec<Vec<Key>>,
}

type Id = (Vec<usize>, usize);

struct State {
    root: Bytes,
    v: Value,
    subs: Vec<(bool, Tree)>,
    next: Vec<Id>,
}

fn num(v: &Value) -> usize {
    v.as_u64().unwrap() as usize
}

fn id(d: &Value, m: &Value) -> Id {
    let mut d: Vec<usize> = list(d).iter().map(num).collect();
    d.sort();
    (d, num(m))
}

impl Family {
    fn new(v: &Value) -> Self {
        Family {
            v: v.clone(),
            alpha: keys(&v["alpha"]),
            prefix: bytes(&v["prefix"]),
            suffix: bytes(&v["suffix"]),
            inner: keys(&v["inner"]),
            drops: list(&v["drops"]).iter().map(|d| (num(&d["lev"]), num(&d["nib"]) as u8)).collect(),
            requests: list(&v["requests"]).iter().map(keys).collect(),
        }
    }

    fn value(&self, path: &[u8]) -> Bytes {
        let (vb, vl, vary) = (num(&self.v["vb"]), num(&self.v["vl"]), num(&self.v["vary"]));
        let mut b: Bytes = (1..=vl).map(|i| ((vb + i) % 256) as u8).collect();
        b.extend(&path[path.len() - vary..]);
        b
    }

    fn contents(&self, id: &Id) -> Contents {
        let mut c = Contents::new();
        let mut paths = vec![vec![]];
        for (i, a) in self.alpha.iter().enumerate() {
            if !self.inner[i].is_empty() {
                for p in &paths {
                    c.insert([&self.prefix[..], p].concat(), Ent::V(self.inner[i].clone()));
                }
            }
            let gone: Vec<u8> =
                id.0.iter().map(|j| self.drops[j - 1]).filter(|d| d.0 == i + 1).map(|d| d.1).collect();
            paths = paths
                .iter()
                .flat_map(|p| {
                    a.iter().filter(|n| !gone.contains(n)).map(move |n| {
                        let mut q = p.clone();
                        q.push(*n);
                        q
                    })
                })
                .collect();
        }
        let hid = num(&self.v["hid"]) == 1;
        for p in &paths {
            let e = if hid { Ent::H(bytes(&self.v["h"])) } else { Ent::V(self.value(p)) };
            c.insert([&self.prefix[..], p, &self.suffix].concat(), e);
        }
        if id.1 > 0 {
            let m = &list(&self.v["marks"])[id.1 - 1];
            let k = bytes(&m["k"]);
            if m["op"] == "put" {
                c.insert(k, Ent::V(bytes(&m["v"])));
            } else {
                c.remove(&k);
            }
        }
        c
    }
}

fn shuffle<T>(rng: &mut Rng, v: &mut [T]) {
    for i in (1..v.len()).rev() {
        v.swap(i, rng.below(i + 1));
    }
}

enum Op {
    Put(Key, Ent),
    Del(Key, Ent),
}

/// What has to be written and deleted to get from one state to the other.
fn difference(rng: &mut Rng, a: &Contents, b: &Contents) -> Vec<Op> {
    let mut ops: Vec<Op> = b
        .iter()
        .filter(|(k, e)| a.get(*k) != Some(e))
        .map(|(k, e)| Op::Put(k.clone(), e.clone()))
        .collect();
    ops.extend(a.iter().filter(|(k, _)| !b.contains_key(*k)).map(|(k, e)| Op::Del(k.clone(), e.clone())));
    match rng.below(3) {
        0 => ops.reverse(),
        1 => (),
        _ => shuffle(rng, &mut ops),
    }
    ops
}

fn apply<N: Trie>(t: &mut N, ops: &[Op], results: bool) -> Result<(), String> {
    for o in ops {
        match o {
            Op::Put(k, e) => guarded(|| t.insert(nibs(k), e.to_impl()))
                .map_err(|m| format!("insert of 0x{} panicked: {m}", key_str(k)))?,
            Op::Del(k, e) => {
                let got = guarded(|| t.delete(nibs(k)))
                    .map_err(|m| format!("delete of 0x{} panicked: {m}", key_str(k)))?;
                if results && got.map(Ent::V).as_ref() != Some(e) {
                    return Err(format!("wrong result of the delete of 0x{}", key_str(k)));
                }
            }
        }
    }
    Ok(())
}

fn built<N: Trie>(rng: &mut Rng, c: &Contents) -> Result<N, String> {
    let mut all: Vec<(&Key, &Ent)> = c.iter().collect();
    match rng.below(3) {
        0 => all.reverse(),
        1 => (),
        _ => shuffle(rng, &mut all),
    }
    let mut t = N::default();
    guarded(|| {
        for (k, e) in all {
            t.insert(nibs(k), e.to_impl());
        }
    })
    .map_err(|m| format!("building the trie panicked: {m}"))?;
    Ok(t)
}

fn root<N: Trie>(t: &N, s: &State, what: &str) -> Result<(), String> {
    let h = guarded(|| t.hash()).map_err(|m| format!("{what}: panic: {m}"))?;
    cmp(what, hex(&s.root), hex(&h.0))
}

/// Same hash as a trie without history.
fn alike<N: Trie>(t: &N, fresh: &N, what: &str) -> Result<(), String> {
    let (a, b) = guarded(|| (fresh.hash(), t.hash())).map_err(|m| format!("{what}: panic: {m}"))?;
    cmp(&format!("{what}: hash, without history / with history"), a, b)
}

fn gets<N: Trie>(t: &N, c: &Contents, s: &State) -> Result<(), String> {
    let get = |k: &Key| {
        guarded(|| t.get(nibs(k)).map(|v| v.to_vec())).map_err(|m| format!("lookup of 0x{} panicked: {m}", key_str(k)))
    };
    for (k, e) in c {
        if let Ent::V(b) = e {
            if get(k)?.as_ref() != Some(b) {
                return Err(format!("wrong result of the lookup of 0x{}", key_str(k)));
            }
        }
    }
    for p in list(&s.v["probes"]) {
        if p["met"] == false {
            let want = (p["r"] == "some").then(|| bytes(&p["v"]));
            cmp(&format!("lookup of 0x{}", key_str(&bytes(&p["k"]))), want, get(&bytes(&p["k"]))?)?;
        }
    }
    Ok(())
}

fn items<N: Trie>(t: &N, c: &Contents) -> Result<(), String> {
    let pan = |m| format!("iteration panicked: {m}");
    let raw = guarded(|| items_of(t)).map_err(pan)?;
    let ks: Vec<Key> = guarded(|| t.keys().map(|k| seq(&k)).collect()).map_err(pan)?;
    let vs: Vec<Ent> = guarded(|| t.values().map(|v| Ent::of_impl(&v)).collect()).map_err(pan)?;
    if !raw.iter().map(|x| &x.0).eq(&ks) || !raw.iter().map(|x| &x.1).eq(&vs) {
        return Err("keys() or values() disagree with items()".into());
    }
    cmp("number of iterated entries", c.len(), raw.len())?;
    let got: Contents = raw.into_iter().collect();
    (got == *c).then_some(()).ok_or("other entries than expected are iterated".into())
}

fn subsets<N: Trie>(prop: &str, f: &Family, t: &N, c: &Contents, s: &State) -> Result<(), String> {
    let req = |j: usize| f.requests[j].iter().map(|k| nibs(k)).collect::<Vec<Nibbles>>();
    if prop == "C10" {
        let mut good: Vec<usize> = (0..s.subs.len()).filter(|j| !s.subs[*j].0).collect();
        if c.len() < 400 {
            // every list several times
            good = good.repeat(1 + c.len() % 12);
        }
        let r = guarded(|| create_trie_subsets(t, good.iter().map(|j| req(*j))))
            .map_err(|m| format!("extraction panicked: {m}"))?
            .map_err(|e| format!("extraction failed: {e}"))?;
        cmp("number of subsets", good.len(), r.len())?;
        for (j, sub) in good.iter().zip(&r) {
            cmp(&format!("subset {j}"), &s.subs[*j].1, &Tree::of_impl(sub))?;
        }
        return Ok(());
    }
    if prop == "C24" {
        return compose(f, t, c, s);
    }
    for (j, (err, tree)) in s.subs.iter().enumerate() {
        let r = guarded(|| create_trie_subset(t, req(j))).map_err(|m| format!("extraction {j} panicked: {m}"))?;
        let sub = match r {
            Err(_) if *err => continue,
            Err(e) => return Err(format!("extraction {j} failed: {e}")),
            Ok(_) if *err => return Err(format!("extraction {j} should have failed")),
            Ok(s) => s,
        };
        if prop == "C09" {
            cmp(&format!("subset {j}"), tree, &Tree::of_impl(&sub))?;
            continue;
        }
        root(&sub, s, "hash of the subset")?;
        for k in &f.requests[j] {
            let want = match c.get(k) {
                Some(Ent::V(b)) => Some(b.clone()),
                Some(Ent::H(_)) => continue,
                None => None,
            };
            let got = guarded(|| sub.get(nibs(k)).map(|v| v.to_vec()))
                .map_err(|m| format!("lookup in the subset panicked: {m}"))?;
            cmp("lookup in the subset", want, got)?;
        }
    }
    // everything asked for: nothing may be left out
    if num(&f.v["hid"]) == 0 && c.len() < 5000 {
        let sub = guarded(|| create_trie_subset(t, c.keys().map(|k| nibs(k)).collect::<Vec<_>>()))
            .map_err(|m| format!("extraction of everything panicked: {m}"))?
            .map_err(|e| format!("extraction of everything failed: {e}"))?;
        if prop == "C09" {
            cmp("subset with everything", true, sub == *t && Tree::of_impl(&sub) == Tree::of_impl(t))?;
        } else {
            root(&sub, s, "hash of the subset with everything")?;
            gets(&sub, c, s)?;
        }
    }
    Ok(())
}

/// Extraction from subsets: from the one with everything and from those for
/// the request lists, for half of their keys.
fn compose<N: Trie>(f: &Family, t: &N, c: &Contents, s: &State) -> Result<(), String> {
    let from = |t: &N, ks: Vec<Nibbles>| {
        guarded(|| create_trie_subset(t, ks)).map_err(|m| format!("extraction panicked: {m}"))
    };
    let all: Vec<Nibbles> = c.keys().map(|k| nibs(k)).collect();
    let all = match num(&f.v["hid"]) == 0 && c.len() < 5000 {
        true => from(t, all)?.ok(),
        false => None,
    };
    for (j, (err, _)) in s.subs.iter().enumerate() {
        let ks: Vec<Nibbles> = f.requests[j].iter().map(|k| nibs(k)).collect();
        let (false, Ok(sub)) = (*err, from(t, ks.clone())?) else { continue };
        let half: Vec<Nibbles> = ks.iter().copied().step_by(2).collect();
        let want = from(t, half.clone())?.map_err(|e| format!("extraction {j} failed: {e}"))?;
        let got = from(&sub, half)?.map_err(|e| format!("extraction {j} from a subset failed: {e}"))?;
        cmp("extracted from the base / from a subset", &Tree::of_impl(&want), &Tree::of_impl(&got))?;
        // the subset with everything has the keys of the contents only
        if let Some(all) = all.as_ref().filter(|_| f.requests[j].iter().all(|k| c.contains_key(k))) {
            let got = from(all, ks)?.map_err(|e| format!("extraction {j} from everything failed: {e}"))?;
            cmp("extracted from the base / from everything", &Tree::of_impl(&sub), &Tree::of_impl(&got))?;
        }
    }
    Ok(())
}

fn entries(rng: &mut Rng, c: &Contents) -> Vec<(Nibbles, ValOrHash)> {
    let mut all: Vec<(&Key, &Ent)> = c.iter().collect();
    shuffle(rng, &mut all);
    let mut out = vec![];
    // overwritten ones first
    for (k, e) in all.iter().take(all.len() / 7) {
        if matches!(e, Ent::V(_)) {
            out.push((nibs(k), ValOrHash::Val(vec![7])));
        }
    }
    out.extend(all.iter().map(|(k, e)| (nibs(k), e.to_impl())));
    out
}

struct Here<'a, N> {
    f: &'a Family,
    s: &'a State,
    c: &'a Contents,
    t: &'a N,
}

fn observe<N: Trie>(prop: &str, h: &Here<N>, rng: &mut Rng) -> Result<(), String> {
    let Here { f, s, c, t } = *h;
    let pan = |m: String| format!("panic: {m}");
    match prop {
        "C01" => gets(t, c, s),
        "C02" => gets(t, c, s).and_then(|_| root(t, s, "root hash")),
        "C03" => root(t, s, "root hash"),
        "C05" => alike(t, &built(rng, c)?, "trie"),
        "C04" => {
            let other: N = built(rng, c)?;
            cmp("equal to a trie with the same entries", true, guarded(|| other == *t && *t == other).map_err(pan)?)?;
            let same = Tree::of_impl(&other) == Tree::of_impl(t);
            cmp("same nodes as a trie with the same entries", true, same)
        }
        "C08" | "C09" | "C10" | "C24" => subsets(prop, f, t, c, s),
        "C11" => {
            if num(&f.v["hid"]) == 0 {
                return Ok(());
            }
            let mut u = t.clone();
            let k = c.iter().filter(|(_, e)| matches!(e, Ent::H(_))).nth(rng.below(40) % c.len().min(2)).unwrap().0;
            let below = [&k[..], &[rng.below(16) as u8]].concat();
            let below = if below.len() > 64 { k.clone() } else { below };
            for ins in [true, false] {
                let r = guarded(|| {
                    if ins {
                        u.insert(nibs(&below), vec![1u8]);
                    } else {
                        u.delete(nibs(&below));
                    }
                });
                cmp("refused below a hidden node", true, r.is_err())?;
                cmp("unchanged by the refused operation", true, u == *t)?;
                root(&u, s, "root hash after a refused operation")?;
            }
            Ok(())
        }
        "C12" => items(t, c),
        "C13" => {
            let e = entries(rng, c);
            let a: N = guarded(|| e.clone().into_iter().collect()).map_err(pan)?;
            cmp("collected trie equals the one built by single inserts", true, a == *t)?;
            root(&a, s, "root hash of the collected trie")?;
            let (x, y) = e.split_at(rng.below(e.len() + 1));
            let mut b: N = guarded(|| x.to_vec().into_iter().collect()).map_err(pan)?;
            if rng.chance(1, 2) {
                let _ = guarded(|| b.hash());
            }
            guarded(|| b.extend(unsized_iter(y.to_vec()))).map_err(pan)?;
            cmp("extended trie equals the one built by single inserts", true, b == *t)?;
            root(&b, s, "root hash of the extended trie")
        }
        "C18" => {
            let text = guarded(|| serde_json::to_string(t))?.map_err(|e| format!("serialise: {e}"))?;
            let back: N = guarded(|| from_text(&text))?.map_err(|e| format!("deserialise: {e}"))?;
            cmp("deserialised trie is equal", true, back == *t)?;
            cmp("deserialised nodes", true, Tree::of_impl(&back) == Tree::of_impl(t))?;
            root(&back, s, "root hash of the deserialised trie")?;
            let packed = guarded(|| pack(t))?.map_err(|e| format!("serialise: {e}"))?;
            let back: N = guarded(|| unpack(&packed))?.map_err(|e| format!("deserialise: {e}"))?;
            cmp("trie read from the positional form is equal", true, back == *t)?;
            cmp("nodes read from the positional form", true, Tree::of_impl(&back) == Tree::of_impl(t))?;
            root(&back, s, "root hash of the trie read from the positional form")
        }
        "C21" => {
            for p in list(&s.v["probes"]) {
                let k = bytes(&p["k"]);
                let text = guarded(|| get_path_from_query(t, nibs(&k)).to_string()).map_err(pan)?;
                let q = obs::parse_query(&text).ok_or(format!("unreadable: {text}"))?;
                let norm = |v: &Value| {
                    list(v).iter().map(|x| (x["t"].as_str().unwrap().to_string(), bytes(&x["k"]))).collect::<Vec<_>>()
                };
                cmp(&format!("path of 0x{}", key_str(&k)), norm(&p["path"]), norm(&q.path))?;
                cmp(&format!("0x{} is found", key_str(&k)), c.contains_key(&k), q.found)?;
            }
            Ok(())
        }
        "C22" => {
            if s.v["known"] == false {
                return Ok(());
            }
            let text = guarded(|| get_trie_stats(t).to_string()).map_err(pan)?;
            let msg = || format!("statistics should be {}: {text}", s.v["stats"]);
            debug::stats_ok(&text, &s.v["stats"]).then_some(()).ok_or_else(msg)
        }
        _ => Ok(()),
    }
}

/// A walk through the states of one family.
fn walk<N: Trie>(prop: &str, f: &Family, st: &HashMap<Id, State>, rng: &mut Rng, len: usize, n: &AtomicUsize) -> Result<(), (Vec<Id>, String)> {
    let mut at: Id = (vec![], 0);
    let mut c = f.contents(&at);
    let mut hist = vec![at.clone()];
    let mut seen: HashSet<(Id, Id)> = HashSet::new();
    let res = (|| {
        let mut t: N = built(rng, &c)?;
        observe(prop, &Here { f, s: &st[&at], c: &c, t: &t }, rng)?;
        let warm = matches!(prop, "C03" | "C05" | "C06" | "C14" | "C18");
        for _ in 0..len {
            let s = &st[&at];
            if s.next.is_empty() {
                break;
            }
            let fresh: Vec<&Id> = s.next.iter().filter(|x| !seen.contains(&(at.clone(), (*x).clone()))).collect();
            let to = if fresh.is_empty() { rng.pick(&s.next).clone() } else { (*rng.pick(&fresh)).clone() };
            seen.insert((at.clone(), to.clone()));
            hist.push(to.clone());
            n.fetch_add(1, Ordering::Relaxed);
            let c2 = f.contents(&to);
            let ops = difference(rng, &c, &c2);
            if warm && rng.chance(2, 3) {
                let _ = guarded(|| t.hash());
            }
            // the difference tool and partial tries look at single writes
            if prop == "C20" && at.1 == 0 && to.1 != 0 {
                let before: H = built(rng, &c)?;
                let after: H = built(rng, &c2)?;
                if let Some(m) = debug::diff_mismatch(&before, &after, &list(&st[&to].v["points"])) {
                    return Err(m);
                }
            }
            if prop == "C07" && at.1 == 0 && to.1 != 0 {
                if let [Op::Put(k, _)] = &ops[..] {
                    let mut sub: N = guarded(|| create_trie_subset(&t, [nibs(k)]))?.map_err(|e| e.to_string())?;
                    apply(&mut sub, &ops, false)?;
                    root(&sub, &st[&to], "root hash of a partial trie after a write")?;
                }
            }
            let copy = t.clone();
            apply(&mut t, &ops, prop == "C02")?;
            if matches!(prop, "C05" | "C06") {
                alike(&copy, &built(rng, &c)?, "copy taken before the step")?;
                if prop == "C06" {
                    items(&copy, &c).map_err(|m| format!("copy taken before the step: {m}"))?;
                }
            }
            if prop == "C04" && !ops.is_empty() {
                let eq = guarded(|| copy == t || t == copy)?;
                cmp("equal to the trie before the step", false, eq)?;
            }
            at = to;
            c = c2;
            observe(prop, &Here { f, s: &st[&at], c: &c, t: &t }, rng)?;
        }
        Ok(())
    })();
    res.map_err(|m| (hist, m))
}

fn lockstep(f: &Family, st: &HashMap<Id, State>, rng: &mut Rng, len: usize, n: &AtomicUsize) -> Result<(), (Vec<Id>, String)> {
    let mut at: Id = (vec![], 0);
    let mut c = f.contents(&at);
    let mut hist = vec![at.clone()];
    let res = (|| {
        let mut r2 = rng.clone();
        let (mut a, mut b): (S, H) = (built(rng, &c)?, built(&mut r2, &c)?);
        for _ in 0..len {
            cmp("hash, plain / caching", guarded(|| a.hash())?, guarded(|| b.hash())?)?;
            let (x, y) = (guarded(|| items_of(&a))?, guarded(|| items_of(&b))?);
            let sorted = |mut v: Vec<(Key, Ent)>| {
                v.sort();
                v
            };
            if sorted(x) != sorted(y) {
                return Err("entries of the plain and the caching trie differ".into());
            }
            let next = &st[&at].next;
            if next.is_empty() {
                break;
            }
            let to = rng.pick(next).clone();
            hist.push(to.clone());
            n.fetch_add(1, Ordering::Relaxed);
            let c2 = f.contents(&to);
            let ops = difference(rng, &c, &c2);
            let (x, y) = (apply(&mut a, &ops, true), apply(&mut b, &ops, true));
            cmp("outcome, plain / caching", x.clone(), y)?;
            if x.is_err() {
                break;
            }
            at = to;
            c = c2;
        }
        Ok(())
    })();
    res.map_err(|m| (hist, m))
}

pub fn replay(prop: &str, univ: &str, emit: &str, rep: &Report, seed: u64, len: usize) {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(univ).unwrap()).unwrap();
    let fams: Vec<Family> = list(&v).iter().map(Family::new).collect();
    let mut states: Vec<HashMap<Id, State>> = fams.iter().map(|_| HashMap::new()).collect();
    let mut steps = vec![];
    emitted(emit, |v| {
        let u = num(&v["u"]) - 1;
        if v["q"] == "T" {
            steps.push((u, id(&v["d"], &v["m"]), id(&v["d2"], &v["m2"])));
            return;
        }
        let subs = list(&v["subs"]).iter().map(|s| (s["err"] == true, Tree::from_json(&s["tree"]))).collect();
        let s = State { root: bytes(&v["root"]), subs, v: v.clone(), next: vec![] };
        states[u].insert(id(&v["d"], &v["m"]), s);
    });
    for (u, a, b) in steps {
        states[u].get_mut(&a).unwrap().next.push(b);
    }
    for s in states.iter_mut().flat_map(|m| m.values_mut()) {
        s.next.sort();
        s.next.dedup();
    }
    let (n, entries) = (AtomicUsize::new(0), AtomicUsize::new(0));
    // the largest first, they take longest
    parallel(fams.len() * 2, |i| {
        let j = fams.len() - 1 - i / 2;
        let (f, st) = (&fams[j], &states[j]);
        let mut rng = Rng::new(seed, &format!("scale{i}"));
        let size = f.alpha.iter().map(|a| a.len()).product::<usize>();
        entries.fetch_add(size, Ordering::Relaxed);
        let len = if size > 20000 { 3 } else if size > 2000 { 8 } else { len };
        let res = if prop == "C14" {
            lockstep(f, st, &mut rng, len, &n)
        } else if i % 2 == 0 {
            walk::<S>(prop, f, st, &mut rng, len, &n)
        } else {
            walk::<H>(prop, f, st, &mut rng, len, &n)
        };
        if let Err((hist, m)) = res {
            let name = if i % 2 == 0 { S::NAME } else { H::NAME };
            rep.violation("large trie", json!({"type": name, "family": f.v,
                "states (dropped, mark)": hist, "mismatch": m}));
        }
    });
    rep.count("family_walks", fams.len() as u64 * 2);
    rep.count("family_steps", n.into_inner() as u64);
    rep.count("family_entries", entries.into_inner() as u64);
    let f = &fams[fams.len() / 2];
    rep.sample(json!({"kind": "family", "alphabets": f.alpha, "prefix": f.prefix, "suffix": f.suffix}));
}
