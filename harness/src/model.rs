//! The values of the specification (trees, keys, entries), their JSON form and
//! their relation to the types of the implementation.

use std::{
    cell::Cell,
    panic::{catch_unwind, AssertUnwindSafe},
    sync::{
        atomic::{AtomicU64, Ordering},
        Mutex,
    },
};

use eth_trie_utils::{
    nibbles::Nibbles,
    partial_trie::{Node, PartialTrie, WrappedNode},
    trie_ops::ValOrHash,
};
use ethereum_types::{H256, U512};
use serde_json::{json, Value};

pub type Key = Vec<u8>;
pub type Bytes = Vec<u8>;

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Ent {
    V(Bytes),
    H(Bytes),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Tree {
    E,
    H(Bytes),
    L(Key, Bytes),
    X(Key, Box<Tree>),
    B(Vec<Tree>, Bytes),
}

pub fn bytes(v: &Value) -> Bytes {
    match v {
        Value::Array(a) => a.iter().map(|x| x.as_u64().unwrap() as u8).collect(),
        Value::String(s) => (0..s.len() / 2)
            .map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).expect("hex"))
            .collect(),
        // TLC prints the empty function as an object
        Value::Object(o) if o.is_empty() => vec![],
        _ => panic!("not a byte sequence: {v}"),
    }
}

pub fn keys(v: &Value) -> Vec<Key> {
    list(v).iter().map(bytes).collect()
}

pub fn list(v: &Value) -> Vec<Value> {
    match v {
        Value::Array(a) => a.clone(),
        Value::Object(o) if o.is_empty() => vec![],
        _ => panic!("not a sequence: {v}"),
    }
}

impl Ent {
    pub fn from_json(v: &Value) -> Self {
        match v["kind"].as_str().unwrap() {
            "v" => Ent::V(bytes(&v["b"])),
            _ => Ent::H(bytes(&v["b"])),
        }
    }

    pub fn json(&self) -> Value {
        match self {
            Ent::V(b) => json!({"kind": "v", "b": b}),
            Ent::H(b) => json!({"kind": "h", "b": b}),
        }
    }

    pub fn to_impl(&self) -> ValOrHash {
        match self {
            Ent::V(b) => ValOrHash::Val(b.clone()),
            Ent::H(b) => ValOrHash::Hash(H256::from_slice(b)),
        }
    }

    pub fn of_impl(v: &ValOrHash) -> Self {
        match v {
            ValOrHash::Val(b) => Ent::V(b.clone()),
            ValOrHash::Hash(h) => Ent::H(h.0.to_vec()),
        }
    }
}

impl Tree {
    pub fn from_json(v: &Value) -> Self {
        match v["t"].as_str().unwrap() {
            "E" => Tree::E,
            "H" => Tree::H(bytes(&v["h"])),
            "L" => Tree::L(bytes(&v["k"]), bytes(&v["v"])),
            "X" => Tree::X(bytes(&v["k"]), Box::new(Tree::from_json(&v["c"]))),
            "B" if v["s"] != Value::Null => {
                let mut c = vec![Tree::E; 16];
                for x in list(&v["s"]) {
                    c[x[0].as_u64().unwrap() as usize] = Tree::from_json(&x[1]);
                }
                Tree::B(c, bytes(&v["v"]))
            }
            "B" => Tree::B(
                list(&v["c"]).iter().map(Tree::from_json).collect(),
                bytes(&v["v"]),
            ),
            t => panic!("unknown node kind {t}"),
        }
    }

    pub fn json(&self) -> Value {
        match self {
            Tree::E => json!({"t": "E"}),
            Tree::H(h) => json!({"t": "H", "h": h}),
            Tree::L(k, v) => json!({"t": "L", "k": k, "v": v}),
            Tree::X(k, c) => json!({"t": "X", "k": k, "c": c.json()}),
            Tree::B(c, v) => {
                json!({"t": "B", "c": c.iter().map(|x| x.json()).collect::<Vec<_>>(), "v": v})
            }
        }
    }

    pub fn to_node<N: PartialTrie>(&self) -> Node<N> {
        match self {
            Tree::E => Node::Empty,
            Tree::H(h) => Node::Hash(H256::from_slice(h)),
            Tree::L(k, v) => Node::Leaf {
                nibbles: nibs(k),
                value: v.clone(),
            },
            Tree::X(k, c) => Node::Extension {
                nibbles: nibs(k),
                child: c.to_node::<N>().into(),
            },
            Tree::B(c, v) => {
                let children: Vec<WrappedNode<N>> =
                    c.iter().map(|x| x.to_node::<N>().into()).collect();
                Node::Branch {
                    children: children.try_into().unwrap(),
                    value: v.clone(),
                }
            }
        }
    }

    pub fn to_impl<N: PartialTrie>(&self) -> N {
        N::new(self.to_node())
    }

    pub fn of_node<N: PartialTrie>(n: &Node<N>) -> Self {
        match n {
            Node::Empty => Tree::E,
            Node::Hash(h) => Tree::H(h.0.to_vec()),
            Node::Leaf { nibbles, value } => Tree::L(seq(nibbles), value.clone()),
            Node::Extension { nibbles, child } => {
                Tree::X(seq(nibbles), Box::new(Tree::of_node::<N>(child)))
            }
            Node::Branch { children, value } => Tree::B(
                children.iter().map(|c| Tree::of_node::<N>(c)).collect(),
                value.clone(),
            ),
        }
    }

    pub fn of_impl<N: PartialTrie>(n: &N) -> Self {
        Tree::of_node::<N>(n)
    }

}

/// The packed key of the implementation for a nibble sequence, built from its
/// public fields so that no conversion of the implementation is involved.
pub fn nibs(k: &[u8]) -> Nibbles {
    let mut packed = U512::zero();
    for n in k {
        packed = (packed << 4) | U512::from(*n);
    }
    Nibbles {
        count: k.len(),
        packed,
    }
}

/// The nibble sequence of a packed key. A key whose unused bits are not zero
/// yields an impossible nibble, so that it never compares equal to anything.
pub fn seq(n: &Nibbles) -> Key {
    let mut v: Key = (0..n.count.min(200))
        .map(|i| {
            let s = (n.count - 1 - i) * 4;
            if s >= 512 {
                0
            } else {
                ((n.packed >> s).low_u64() & 15) as u8
            }
        })
        .collect();
    if n.count < 128 && !(n.packed >> (4 * n.count)).is_zero() {
        v.push(255);
    }
    v
}

pub fn key_str(k: &[u8]) -> String {
    k.iter().map(|n| format!("{n:x}")).collect()
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|n| format!("{n:02x}")).collect()
}

/// Counts the calls made into the implementation; also the progress indicator
/// of the watchdog.
pub static CALLS: AtomicU64 = AtomicU64::new(0);

thread_local! {
    static GUARDS: Cell<usize> = const { Cell::new(0) };
}
/// The first panic that no guard expects: where and what.
static UNGUARDED: Mutex<Option<(String, String)>> = Mutex::new(None);

pub fn watch_panics(loud: bool) {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if GUARDS.with(|g| g.get()) == 0 {
            let file = info.location().map(|l| format!("{}:{}", l.file(), l.line()));
            let mut u = UNGUARDED.lock().unwrap_or_else(|e| e.into_inner());
            u.get_or_insert((file.unwrap_or_default(), info.to_string()));
        }
        if loud {
            default(info);
        }
    }));
}

/// A panic that ended the run and that did not start in the harness itself.
pub fn foreign_panic() -> Option<String> {
    let u = UNGUARDED.lock().unwrap_or_else(|e| e.into_inner()).take()?;
    (!u.0.starts_with("src/")).then_some(u.1)
}

/// Runs `f` against the implementation; a panic is an ordinary outcome.
pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    CALLS.fetch_add(1, Ordering::Relaxed);
    GUARDS.with(|g| g.set(g.get() + 1));
    let r = catch_unwind(AssertUnwindSafe(f));
    GUARDS.with(|g| g.set(g.get() - 1));
    r.map_err(|e| {
        e.downcast_ref::<String>()
            .cloned()
            .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_else(|| "panic".into())
    })
}

/// Small deterministic generator; every random choice derives from VERIF_SEED.
#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64, salt: &str) -> Self {
        let mut h = seed ^ 0x9e37_79b9_7f4a_7c15;
        for b in salt.bytes() {
            h = (h ^ b as u64).wrapping_mul(0x100_0000_01b3);
        }
        let mut r = Rng(h);
        r.next();
        r.next();
        r
    }

    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }

    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n.max(1) as u64) as usize
    }

    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }

    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }

    pub fn bytes(&mut self, n: usize) -> Bytes {
        (0..n).map(|_| self.next() as u8).collect()
    }
}

/// Reads a value from text that may be nested deeply.
pub fn from_text<'a, T: serde::Deserialize<'a>>(s: &'a str) -> Result<T, serde_json::Error> {
    let mut d = serde_json::Deserializer::from_str(s);
    d.disable_recursion_limit();
    let v = T::deserialize(&mut d)?;
    d.end()?;
    Ok(v)
}

/// The same items from an iterator that does not know how many are to come.
pub fn unsized_iter<T>(v: Vec<T>) -> impl Iterator<Item = T> {
    let mut i = v.into_iter();
    std::iter::from_fn(move || i.next())
}
