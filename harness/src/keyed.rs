//! Operations with keys given as integers, against `KeyedMC`.

use std::collections::{HashMap, HashSet};

use eth_trie_utils::{
    nibbles::Nibbles,
    partial_trie::{HashedPartialTrie as H, StandardTrie as S},
    trie_ops::ValOrHash,
    trie_subsets::{create_trie_subset, create_trie_subsets},
};
use ethereum_types::{U128, U256, U512};
use serde_json::{json, Value};

use crate::{graph::emitted, model::*, replay::*, report::Report};

struct Input {
    ty: String,
    n: Bytes,
}

fn small(b: &[u8]) -> u64 {
    b.iter().fold(0, |a, x| a << 8 | *x as u64)
}

/// Calls `f` with the input as a value of its type.
macro_rules! typed {
    ($in:expr, $f:expr) => {{
        let n = &$in.n;
        match $in.ty.as_str() {
            "u8" => $f(small(n) as u8),
            "u16" => $f(small(n) as u16),
            "u32" => $f(small(n) as u32),
            "u64" => $f(small(n)),
            "U128" => $f(U128::from_big_endian(n)),
            "U256" => $f(U256::from_big_endian(n)),
            "U512" => $f(U512::from_big_endian(n)),
            "nibbles" => $f(nibs(n)),
            t => panic!("unknown type {t}"),
        }
    }};
}

fn key(i: &Input) -> Nibbles {
    typed!(i, |k| Into::<Nibbles>::into(k))
}

fn reads<N: Trie>(t: &N, ins: &[Input], v: &Value) -> Result<(), String> {
    for (x, i) in ins.iter().enumerate() {
        let name = format!("{} {:?}", i.ty, i.n);
        let g = &list(&v["gets"])[x];
        let want = (g["r"] == "some").then(|| bytes(&g["v"]));
        let got = guarded(|| typed!(i, |k| t.get(k).map(|b| b.to_vec())))
            .map_err(|m| format!("lookup of {name} panicked: {m}"))?;
        cmp(&format!("lookup of {name}"), want, got)?;
        let want = Tree::from_json(&list(&v["subs"])[x]);
        let got = guarded(|| typed!(i, |k| create_trie_subset(t, [k])))
            .map_err(|m| format!("subset for {name} panicked: {m}"))?
            .map_err(|e| format!("subset for {name} failed: {e}"))?;
        cmp(&format!("subset for {name}"), &want, &Tree::of_impl(&got))?;
        let got = guarded(|| typed!(i, |k| create_trie_subsets(t, [[k]])))
            .map_err(|m| format!("subsets for {name} panicked: {m}"))?
            .map_err(|e| format!("subsets for {name} failed: {e}"))?;
        cmp(&format!("subsets for {name}"), vec![want], got.iter().map(Tree::of_impl).collect())?;
    }
    Ok(())
}

fn step<N: Trie>(ins: &[Input], vals: &[Bytes], v: &Value, from: &Tree, to: &Tree) -> Result<(), String> {
    let i = &ins[v["i"].as_u64().unwrap() as usize - 1];
    let pan = |m: String| format!("panic: {m}");
    let same = |what: &str, t: &N| cmp(what, to, &Tree::of_impl(t));
    if v["op"] == "del" {
        let want = (v["r"] == "some").then(|| bytes(&v["v"]));
        let mut t: N = from.to_impl();
        let got = guarded(|| typed!(i, |k| t.delete(k))).map_err(pan)?;
        cmp("outcome of delete", want, got)?;
        return same("after delete", &t);
    }
    let val = &vals[v["j"].as_u64().unwrap() as usize - 1];
    let mut t: N = from.to_impl();
    guarded(|| typed!(i, |k| t.insert(k, val.clone()))).map_err(pan)?;
    same("after insert", &t)?;
    let mut t: N = from.to_impl();
    guarded(|| typed!(i, |k| t.extend([(k, ValOrHash::Val(val.clone()))]))).map_err(pan)?;
    same("after extend", &t)?;
    if *from == Tree::E {
        same("collected", &collect::<N>(i, val)?)?;
    }
    Ok(())
}

fn collect<N: Trie>(i: &Input, val: &Bytes) -> Result<N, String> {
    let t = guarded(|| N::from_iter([(key(i), ValOrHash::Val(val.clone()))])).map_err(|m| format!("panic: {m}"))?;
    Ok(t)
}

pub fn replay(univ: &str, emit: &str, rep: &Report) {
    let us: Value = serde_json::from_str(&std::fs::read_to_string(univ).unwrap()).unwrap();
    let us: Vec<(Vec<Input>, Vec<Bytes>)> = list(&us)
        .iter()
        .map(|u| {
            let ins = list(&u["ins"])
                .iter()
                .map(|i| Input { ty: i["ty"].as_str().unwrap().into(), n: bytes(&i["n"]) })
                .collect();
            (ins, keys(&u["vals"]))
        })
        .collect();
    let mut seen: HashSet<(usize, Tree)> = HashSet::new();
    let mut kinds: HashMap<String, u64> = HashMap::new();
    let mut n = 0u64;
    emitted(emit, |v| {
        let u = v["u"].as_u64().unwrap() as usize - 1;
        let (ins, vals) = &us[u];
        n += 1;
        let res = if v["q"] == "S" {
            let t = Tree::from_json(&v["tree"]);
            let r = reads::<S>(&t.to_impl(), ins, &v).and_then(|_| reads::<H>(&t.to_impl(), ins, &v));
            seen.insert((u, t));
            r
        } else {
            let (from, to) = (Tree::from_json(&v["from"]), Tree::from_json(&v["to"]));
            let i = &ins[v["i"].as_u64().unwrap() as usize - 1];
            *kinds.entry(i.ty.clone()).or_default() += 1;
            step::<S>(ins, vals, &v, &from, &to).and_then(|_| step::<H>(ins, vals, &v, &from, &to))
        };
        if let Err(m) = res {
            let ins: Vec<Value> = ins.iter().map(|i| json!({"type": i.ty, "number": i.n})).collect();
            rep.violation("typed key", json!({"inputs": ins, "values": vals, "step": v, "mismatch": m}));
        }
        if n % 3000 == 1 {
            rep.sample(json!({"kind": "typed key", "step": v}));
        }
    });
    rep.count("steps_replayed", n);
    rep.count("key_types", kinds.len() as u64);
}
