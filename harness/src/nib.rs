//! Keys: operations and conversions against the results the specification
//! gives, and recorded compositions of operations.

use std::str::FromStr;

use eth_trie_utils::nibbles::{Nibbles, ToNibbles};
use ethereum_types::{H256, U128, U256, U512};
use serde_json::{json, Value};

use crate::{
    graph::emitted,
    model::*,
    pack::{pack, unpack},
    report::Report,
};

/// The numbers TLC cannot represent have stand-ins.
fn count(a: u64) -> usize {
    match a {
        1000001 => usize::MAX,
        1000002 => 1 << 62,
        1000003 => 1 << 63,
        a => a as usize,
    }
}

const OPS0: [&str; 5] = [
    "pop_next_nibble_front",
    "pop_next_nibble_back",
    "is_empty",
    "reverse",
    "min_bytes",
];
const OPS_COUNT: [&str; 11] = [
    "get_nibble",
    "get_next_nibbles",
    "pop_nibbles_front",
    "pop_nibbles_back",
    "truncate_n_nibbles_front",
    "truncate_n_nibbles_back",
    "truncate_n_nibbles_front_mut",
    "truncate_n_nibbles_back_mut",
    "split_at_idx",
    "split_at_idx_prefix",
    "split_at_idx_postfix",
];
const OPS_NIB: [&str; 4] = [
    "push_nibble_front",
    "push_nibble_back",
    "merge_nibble",
    "from_nibble",
];
const OPS_T: [&str; 6] = [
    "push_nibbles_front",
    "nibbles_are_identical_up_to_smallest_count",
    "merge_nibbles",
    "find_differing_different_lengths",
    "find_differing_equal_lengths",
    "eq",
];

#[derive(Clone, PartialEq, Debug)]
struct Got {
    s: Key,
    o: Vec<Key>,
    n: u64,
}

/// Performs one operation on a packed key. `None` is a panic.
fn perform(op: &str, s: &Nibbles, t: &Nibbles, a: u64, b: u64) -> Option<(Nibbles, Vec<Nibbles>, u64)> {
    let c = count(a);
    guarded(|| {
        let mut k = *s;
        let (mut o, mut n) = (vec![], 0u64);
        match op {
            "get_nibble" => n = k.get_nibble(c) as u64,
            "pop_next_nibble_front" => n = k.pop_next_nibble_front() as u64,
            "pop_next_nibble_back" => n = k.pop_next_nibble_back() as u64,
            "get_next_nibbles" => o.push(k.get_next_nibbles(c)),
            "pop_nibbles_front" => o.push(k.pop_nibbles_front(c)),
            "pop_nibbles_back" => o.push(k.pop_nibbles_back(c)),
            "push_nibble_front" => k.push_nibble_front(a as u8),
            "push_nibble_back" => k.push_nibble_back(a as u8),
            "push_nibbles_front" => k.push_nibbles_front(t),
            "get_nibble_range" => o.push(k.get_nibble_range(c..count(b))),
            "truncate_n_nibbles_front" => o.push(k.truncate_n_nibbles_front(c)),
            "truncate_n_nibbles_back" => o.push(k.truncate_n_nibbles_back(c)),
            "truncate_n_nibbles_front_mut" => k.truncate_n_nibbles_front_mut(c),
            "truncate_n_nibbles_back_mut" => k.truncate_n_nibbles_back_mut(c),
            "is_empty" => n = k.is_empty() as u64,
            "nibbles_are_identical_up_to_smallest_count" => {
                n = k.nibbles_are_identical_up_to_smallest_count(t) as u64
            }
            "split_at_idx" => {
                let (x, y) = k.split_at_idx(c);
                o = vec![x, y];
            }
            "split_at_idx_prefix" => o.push(k.split_at_idx_prefix(c)),
            "split_at_idx_postfix" => o.push(k.split_at_idx_postfix(c)),
            "merge_nibble" => o.push(k.merge_nibble(a as u8)),
            "merge_nibbles" => o.push(k.merge_nibbles(t)),
            "reverse" => o.push(k.reverse()),
            "find_differing_different_lengths" => {
                n = Nibbles::find_nibble_idx_that_differs_between_nibbles_different_lengths(&k, t)
                    as u64
            }
            "find_differing_equal_lengths" => {
                n = Nibbles::find_nibble_idx_that_differs_between_nibbles_equal_lengths(&k, t)
                    as u64
            }
            "min_bytes" => n = k.min_bytes() as u64,
            "from_nibble" => o.push(Nibbles::from_nibble(a as u8)),
            "eq" => n = (k == *t) as u64,
            _ => panic!("unknown operation {op}"),
        }
        (k, o, n)
    })
    .ok()
}

fn view(r: &(Nibbles, Vec<Nibbles>, u64)) -> Got {
    Got {
        s: seq(&r.0),
        o: r.1.iter().map(seq).collect(),
        n: r.2,
    }
}

pub fn ops(emit: &str, rep: &Report) {
    let mut n = 0;
    emitted(emit, |v| {
        if v["q"] != "N" {
            return;
        }
        n += 1;
        let op = v["op"].as_str().unwrap();
        assert!(
            OPS0.contains(&op)
                || OPS_COUNT.contains(&op)
                || OPS_NIB.contains(&op)
                || OPS_T.contains(&op)
                || op == "get_nibble_range"
        );
        let (s, t) = (bytes(&v["s"]), bytes(&v["t"]));
        let (a, b) = (v["a"].as_u64().unwrap(), v["b"].as_u64().unwrap());
        let want = (v["r"] == "ok").then(|| Got {
            s: bytes(&v["s2"]),
            o: keys(&v["o"]),
            n: v["n"].as_u64().unwrap(),
        });
        let got = perform(op, &nibs(&s), &nibs(&t), a, b).map(|r| view(&r));
        if got != want {
            rep.violation(
                "operation",
                json!({"op": op, "key": s, "other": t, "a": count(a), "b": count(b),
                       "expected": format!("{want:?}"), "got": format!("{got:?}")}),
            );
        }
        if n % 5000 == 1 {
            rep.sample(json!({"kind": "key operation", "op": op, "key": key_str(&s), "a": a, "b": b}));
        }
    });
    rep.count("operations_replayed", n);
}

// ------------------------------------------------------------------ convert
fn int<T: ToNibbles>(op: &str, v: T) -> Nibbles {
    match op {
        "to_nibbles" => v.to_nibbles(),
        "to_nibbles_byte_padded" => v.to_nibbles_byte_padded(),
        _ => Nibbles::from(v),
    }
}

fn wide(x: &[u8]) -> U512 {
    x.iter().fold(U512::zero(), |a, n| (a << 4) | U512::from(*n))
}

fn text(x: &[u8]) -> String {
    x.iter().map(|c| *c as char).collect()
}

fn convert(op: &str, ty: &str, x: &[u8]) -> Result<Option<Bytes>, String> {
    guarded(|| match op {
        "display" => Some(format!("{}", nibs(x)).into_bytes()),
        "lowerhex" => Some(format!("{:x}", nibs(x)).into_bytes()),
        "upperhex" => Some(format!("{:X}", nibs(x)).into_bytes()),
        "bytes_be" => Some(nibs(x).bytes_be()),
        "try_into_u256" => nibs(x).try_into_u256().ok().map(|u: U256| {
            let mut b = vec![0; 32];
            u.to_big_endian(&mut b);
            b
        }),
        "serde" => {
            let s = serde_json::to_string(&nibs(x)).ok()?;
            let k = serde_json::from_str::<Nibbles>(&s).ok()?;
            let v = serde_json::to_value(nibs(x)).ok()?;
            let p = pack(&nibs(x)).ok()?;
            let same = seq(&serde_json::from_value::<Nibbles>(v).ok()?) == seq(&k)
                && seq(&unpack::<Nibbles>(&p).ok()?) == seq(&k);
            same.then(|| seq(&k))
        }
        "from_bytes_be" => Nibbles::from_bytes_be(x).ok().map(|k| seq(&k)),
        "from_bytes_le" => Nibbles::from_bytes_le(x).ok().map(|k| seq(&k)),
        "from_h256_be" => Some(seq(&Nibbles::from_h256_be(H256::from_slice(x)))),
        "from_h256_le" => Some(seq(&Nibbles::from_h256_le(H256::from_slice(x)))),
        "from_str" => Nibbles::from_str(&text(x)).ok().map(|k| seq(&k)),
        "to_nibbles" | "from" | "to_nibbles_byte_padded" => {
            let w = wide(x);
            let k = match ty {
                "u8" => int(op, w.low_u64() as u8),
                "u16" => int(op, w.low_u64() as u16),
                "u32" => int(op, w.low_u64() as u32),
                "u64" => int(op, w.low_u64()),
                "u128" => int(op, U128::try_from(U256::try_from(w).unwrap()).unwrap()),
                "u256" => int(op, U256::try_from(w).unwrap()),
                _ => int(op, w),
            };
            Some(seq(&k))
        }
        "get_num_nibbles_in_key" => Some(vec![Nibbles::get_num_nibbles_in_key(&wide(x)) as u8]),
        "hex_prefix" => Some(nibs(x).to_hex_prefix_encoding(false).to_vec()),
        "hex_prefix_leaf" => Some(nibs(x).to_hex_prefix_encoding(true).to_vec()),
        "from_hex_prefix" => Nibbles::from_hex_prefix_encoding(x).ok().map(|k| seq(&k)),
        _ => panic!("unknown conversion {op}"),
    })
}

pub fn conversions(emit: &str, rep: &Report) {
    let mut n = 0;
    emitted(emit, |v| {
        if v["q"] != "K" {
            return;
        }
        n += 1;
        let (op, ty, x) = (
            v["op"].as_str().unwrap(),
            v["ty"].as_str().unwrap(),
            bytes(&v["x"]),
        );
        let want = (v["r"] == "ok").then(|| bytes(&v["o"]));
        let got = convert(op, ty, &x);
        if got.as_ref() != Ok(&want) {
            let show = if op == "from_str" { text(&x) } else { String::new() };
            rep.violation(
                "conversion",
                json!({"op": op, "type": ty, "input": x, "text": show,
                       "expected": want, "got": format!("{got:?}")}),
            );
        }
        if n % 3000 == 1 {
            rep.sample(json!({"kind": "conversion", "op": op, "type": ty, "input": x}));
        }
    });
    rep.count("conversions_replayed", n);
}

// ------------------------------------------------------------------- record
fn some_key(r: &mut Rng) -> Key {
    let n = match r.below(6) {
        0 => r.below(4),
        1 => r.below(10),
        2 => 60 + r.below(5),
        3 => 30 + r.below(5),
        _ => r.below(65),
    };
    let zeros = r.below(3) * r.below(1 + n / 2);
    (0..n)
        .map(|i| if i < zeros { 0 } else { *r.pick(&[0, 1, 7, 8, 15, r.clone().below(16) as u8]) })
        .collect()
}

/// One key under a composition of operations; every step records what the
/// implementation did.
pub fn episode(r: &mut Rng, len: usize) -> Vec<Value> {
    let mut k = nibs(&[]);
    let mut ev = vec![];
    let take = |k: &mut Nibbles, to: Nibbles, ev: &mut Vec<Value>| {
        let t = seq(&to);
        *k = to;
        ev.push(json!({"op": "take", "t": t, "a": 0, "b": 0, "r": "ok", "s": t, "o": [], "n": 0}));
    };
    take(&mut k, nibs(&some_key(r)), &mut ev);
    while ev.len() < len {
        let n = k.count;
        let mut a = match r.below(8) {
            0 => *r.pick(&[63u64, 64, 65, 128, 1000001, 1000002, 1000003]),
            1 => n as u64 + 1,
            2 => n as u64,
            _ => r.below(n + 1) as u64,
        };
        let mut b = 0;
        let mut t = nibs(&[]);
        let op = match r.below(10) {
            0 => *r.pick(&OPS0),
            1..=4 => *r.pick(&OPS_COUNT),
            5 | 6 => {
                a = if r.chance(1, 12) { 16 + r.below(240) as u64 } else { r.below(16) as u64 };
                *r.pick(&OPS_NIB)
            }
            7 => {
                b = a.max(r.below(n + 1) as u64);
                "get_nibble_range"
            }
            _ => {
                t = match r.below(4) {
                    0 => k,
                    1 => nibs(&some_key(r)),
                    2 => {
                        let mut x = seq(&k);
                        if !x.is_empty() {
                            let i = r.below(x.len());
                            x[i] ^= 1 << r.below(4);
                        }
                        nibs(&x)
                    }
                    _ => {
                        let x = seq(&k);
                        let mut x: Key = x[..r.below(x.len() + 1)].to_vec();
                        let z = r.below((65 - x.len()).min(4));
                        x.extend((0..z).map(|_| r.below(16) as u8));
                        nibs(&x)
                    }
                };
                a = 0;
                *r.pick(&OPS_T)
            }
        };
        if OPS0.contains(&op) {
            a = 0;
        }
        match perform(op, &k, &t, a, b) {
            None => ev.push(json!({"op": op, "t": seq(&t), "a": a, "b": b, "r": "panic",
                                   "s": seq(&k), "o": [], "n": 0})),
            Some(x) => {
                let g = view(&x);
                ev.push(json!({"op": op, "t": seq(&t), "a": a, "b": b, "r": "ok",
                               "s": g.s, "o": g.o, "n": g.n}));
                k = x.0;
                if k.count > 64 {
                    break;
                }
                // often go on with the result
                if let Some(o) = x.1.first() {
                    if o.count <= 64 && r.chance(2, 3) {
                        let o = *r.pick(&x.1);
                        take(&mut k, o, &mut ev);
                    }
                }
            }
        }
        if k.count == 0 && r.chance(2, 3) || r.chance(1, 25) {
            take(&mut k, nibs(&some_key(r)), &mut ev);
        }
    }
    ev
}

pub fn record(seed: u64, n: usize, len: usize, out: &str) -> usize {
    let mut r = Rng::new(seed, "keys");
    let eps: Vec<_> = (0..n).map(|_| episode(&mut r, len)).collect();
    let events = eps.iter().map(|e| e.len()).sum();
    std::fs::write(out, json!(eps).to_string()).unwrap();
    events
}
