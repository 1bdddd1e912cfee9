//! Typed values: what is stored for each input type.

use std::collections::HashMap;

use eth_trie_utils::{
    partial_trie::{HashedPartialTrie as H, StandardTrie as S},
    trie_ops::ValOrHash,
};
use ethereum_types::{H256, U128, U256, U512};
use serde_json::{json, Value};

use crate::{graph::emitted, model::*, replay::Trie, report::Report};

struct Input {
    ty: String,
    n: Bytes,
}

fn small(b: &[u8]) -> u64 {
    b.iter().fold(0, |a, x| a << 8 | *x as u64)
}

/// Calls `f` with the input as a value of its type.
macro_rules! typed {
    ($in:expr, $f:expr) => {{
        let n = &$in.n;
        match $in.ty.as_str() {
            "u8" => $f(small(n) as u8),
            "u16" => $f(small(n) as u16),
            "u32" => $f(small(n) as u32),
            "u64" => $f(small(n)),
            "U128" => $f(U128::from_big_endian(n)),
            "U256" => $f(U256::from_big_endian(n)),
            "U512" => $f(U512::from_big_endian(n)),
            "H256" => $f(H256::from_slice(n)),
            "vec" => $f(n.clone()),
            "slice" => $f(n.as_slice()),
            t => panic!("unknown type {t}"),
        }
    }};
}

fn entry(i: &Input) -> ValOrHash {
    typed!(i, ValOrHash::from)
}

fn conversions(i: &Input, want: &Ent) -> Option<String> {
    let got = match guarded(|| entry(i)) {
        Err(e) => return Some(format!("converting panics: {e}")),
        Ok(g) => g,
    };
    if Ent::of_impl(&got) != *want {
        return Some(format!("becomes {got:?}"));
    }
    let (v, h) = (
        guarded(|| got.clone().expect_val()).ok(),
        guarded(|| got.clone().expect_hash()).ok(),
    );
    let ok = match want {
        Ent::V(b) => v.as_ref() == Some(b) && h.is_none(),
        Ent::H(b) => h.map(|h| h.0.to_vec()).as_ref() == Some(b) && v.is_none(),
    };
    (!ok).then(|| format!("reading back: value {v:?}, hash {h:?}"))
}

fn step<N: Trie>(from: &Tree, to: &Tree, k: &Key, i: &Input, want: &Ent, refused: bool, how: u64) -> Option<String> {
    let mut t: N = from.to_impl();
    let res = match how {
        0 => guarded(|| typed!(i, |v| t.insert(nibs(k), v))),
        1 => guarded(|| t.extend([(nibs(k), entry(i))])),
        _ => {
            let mut all = t.items().collect::<Vec<_>>();
            all.push((nibs(k), entry(i)));
            guarded(|| N::from_iter(all)).map(|n| t = n)
        }
    };
    if res.is_err() != refused {
        return Some(match res {
            Ok(_) => "should have been refused".into(),
            Err(e) => format!("panic: {e}"),
        });
    }
    if refused {
        return None;
    }
    let got = guarded(|| t.get(nibs(k)).map(|b| b.to_vec()));
    let expected = match want {
        Ent::V(b) => Some(b.clone()),
        Ent::H(_) => None,
    };
    if got != Ok(expected) {
        return Some(format!("reads back as {got:?}"));
    }
    (Tree::of_node(&*t) != *to).then(|| format!("stored as {}", Tree::of_node(&*t).json()))
}

pub fn replay(univ: &str, emit: &str, rep: &Report) {
    let us: Value = serde_json::from_str(&std::fs::read_to_string(univ).unwrap()).unwrap();
    let us: Vec<(Vec<Key>, Vec<Input>)> = list(&us)
        .iter()
        .map(|u| {
            let ins = list(&u["ins"])
                .iter()
                .map(|i| Input {
                    ty: i["ty"].as_str().unwrap().into(),
                    n: bytes(&i["n"]),
                })
                .collect();
            (keys(&u["keys"]), ins)
        })
        .collect();
    let mut trees: HashMap<(usize, Bytes), Tree> = HashMap::new();
    let mut stored: HashMap<usize, Vec<Ent>> = HashMap::new();
    let mut trans = vec![];
    emitted(emit, |v| {
        let u = v["u"].as_u64().unwrap() as usize - 1;
        if v["q"] == "S" {
            let s = list(&v["stored"]);
            if !s.is_empty() {
                stored.insert(u, s.iter().map(Ent::from_json).collect());
            }
            trees.insert((u, bytes(&v["x"])), Tree::from_json(&v["tree"]));
        } else {
            trans.push(v);
        }
    });
    for (u, ents) in &stored {
        for (i, want) in us[*u].1.iter().zip(ents) {
            if let Some(m) = conversions(i, want) {
                rep.violation("conversion", json!({"type": i.ty, "number": i.n, "expected": want.json(), "mismatch": m}));
            }
            rep.count("conversions_replayed", 1);
        }
    }
    for v in &trans {
        let u = v["u"].as_u64().unwrap() as usize - 1;
        let (k, i) = (v["i"].as_u64().unwrap() as usize - 1, v["j"].as_u64().unwrap() as usize - 1);
        let (from, to) = (&trees[&(u, bytes(&v["x"]))], &trees[&(u, bytes(&v["y"]))]);
        let (key, input, want) = (&us[u].0[k], &us[u].1[i], &stored[&u][i]);
        let refused = v["refused"].as_bool().unwrap();
        let by = ["insert", "extend", "collect"];
        for how in 0..3 {
            let bad = step::<S>(from, to, key, input, want, refused, how)
                .or_else(|| step::<H>(from, to, key, input, want, refused, how));
            if let Some(m) = bad {
                rep.violation(
                    "write",
                    json!({"trie": from.json(), "key": key, "type": input.ty, "number": input.n,
                           "by": by[how as usize], "expected": want.json(), "mismatch": m}),
                );
            }
            rep.count("writes_replayed", 2);
        }
    }
    if let Some(v) = trans.get(trans.len() / 2) {
        rep.sample(json!({"kind": "typed write", "step": v}));
    }
}
