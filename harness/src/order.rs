//! Keys in collections: recorded comparisons, hash codes and set operations
//! for `OrderTrace`.

use std::{
    cmp::Ordering,
    collections::{hash_map::DefaultHasher, BTreeSet, HashSet},
    hash::{Hash, Hasher},
    str::FromStr,
};

use eth_trie_utils::nibbles::Nibbles;
use serde_json::{json, Value};

use crate::model::*;

fn code(o: Ordering) -> u8 {
    match o {
        Ordering::Less => 0,
        Ordering::Equal => 1,
        Ordering::Greater => 2,
    }
}

fn hash(k: &Nibbles) -> String {
    let mut h = DefaultHasher::new();
    k.hash(&mut h);
    format!("{:x}", h.finish())
}

/// The same sequence, made in some way.
fn made(r: &mut Rng, k: &[u8]) -> Nibbles {
    let n = k.len();
    let way = r.below(9);
    guarded(|| {
        let c = r.below(n + 1);
        match way {
            0 => nibs(k),
            1 if n > 0 => Nibbles::from_str(&format!("0x{}", key_str(k))).unwrap(),
            2 => nibs(&k[..c]).merge_nibbles(&nibs(&k[c..])),
            3 => {
                let mut x = nibs(&k[c..]);
                x.push_nibbles_front(&nibs(&k[..c]));
                x
            }
            4 => {
                let mut x = Nibbles::default();
                for d in k {
                    x.push_nibble_back(*d);
                }
                x
            }
            5 => {
                let rev: Key = k.iter().rev().copied().collect();
                nibs(&rev).reverse()
            }
            6 if n < 60 => {
                let e = [&[9, 9][..], k, &[3, 0]].concat();
                let mut x = nibs(&e);
                x.pop_nibbles_front(2);
                x.pop_nibbles_back(2);
                x
            }
            7 if n < 60 => {
                let e = [k, &[5, 1, 0]].concat();
                nibs(&e).split_at_idx(n).0
            }
            8 if n > 0 && n % 2 == 0 => {
                let b: Bytes = k.chunks(2).map(|c| 16 * c[0] + c[1]).collect();
                Nibbles::from_bytes_be(&b).unwrap()
            }
            _ => nibs(k),
        }
    })
    .unwrap_or_else(|_| nibs(k))
}

fn pool(r: &mut Rng, n: usize) -> Vec<Key> {
    let mut ks: Vec<Key> = vec![];
    let style = r.below(4);
    while ks.len() < n {
        let k: Key = match style {
            // leading zeros, few digits
            0 => (0..r.below(5)).map(|_| *r.pick(&[0, 0, 1])).collect(),
            // full length, differing in one place
            1 => {
                let mut k = vec![0u8; 64 - r.below(2)];
                let i = *r.pick(&[0, 1, 15, 16, 31, 32, 33, 47, 48, 62]);
                k[i] = r.below(16) as u8;
                k
            }
            // around the borders of machine words
            2 => {
                let l = *r.pick(&[15usize, 16, 17, 31, 32, 33, 63, 64]);
                (0..l).map(|i| if i % 16 == 0 { r.below(3) as u8 } else { 0 }).collect()
            }
            _ => (0..r.below(65)).map(|_| r.below(16) as u8).collect(),
        };
        ks.push(k);
    }
    ks
}

pub fn record(seed: u64, n: usize, len: usize, out: &str) -> usize {
    let mut events = 0;
    let eps: Vec<Value> = (0..n)
        .map(|e| {
            let mut r = Rng::new(seed, &format!("order{e}"));
            let some = pool(&mut r, 9);
            let ks: Vec<Nibbles> = (0..14)
                .map(|_| {
                    let k = r.pick(&some).clone();
                    made(&mut r, &k)
                })
                .collect();
            let matrix = |f: &dyn Fn(&Nibbles, &Nibbles) -> u8| -> Vec<Vec<u8>> {
                ks.iter().map(|a| ks.iter().map(|b| guarded(|| f(a, b)).unwrap_or(9)).collect()).collect()
            };
            let (mut tree, mut hashed) = (BTreeSet::new(), HashSet::new());
            let ops: Vec<Value> = (0..len)
                .map(|_| {
                    let i = r.below(ks.len());
                    let k = ks[i];
                    let (op, a, b) = match r.below(4) {
                        0 | 1 => ("add", guarded(|| tree.insert(k)), guarded(|| hashed.insert(k))),
                        2 => ("remove", guarded(|| tree.remove(&k)), guarded(|| hashed.remove(&k))),
                        _ => ("has", guarded(|| tree.contains(&k)), guarded(|| hashed.contains(&k))),
                    };
                    let bit = |x: Result<bool, String>| x.map_or(9, |y| y as u8);
                    json!({"op": op, "k": i + 1, "tree": bit(a), "hash": bit(b),
                           "treelen": tree.len(), "hashlen": hashed.len()})
                })
                .collect();
            events += ops.len() + 1;
            let at = |k: &Nibbles| 1 + ks.iter().position(|x| seq(x) == seq(k)).unwrap();
            let sorted: Vec<usize> = tree.iter().map(at).collect();
            json!({
                "keys": ks.iter().map(seq).collect::<Vec<_>>(),
                "eq": matrix(&|a, b| (a == b) as u8),
                "cmp": matrix(&|a, b| code(a.cmp(b))),
                "pcmp": matrix(&|a, b| a.partial_cmp(b).map_or(9, code)),
                "hash": ks.iter().map(hash).collect::<Vec<_>>(),
                "ops": ops,
                "sorted": sorted,
            })
        })
        .collect();
    std::fs::write(out, json!(eps).to_string()).unwrap();
    events
}
