//! The state graph TLC explored for `TrieMC`: states with their canonical
//! tree, root hash and lookup results, and all transitions between them.

use std::{
    collections::HashMap,
    fs::File,
    io::{BufRead, BufReader},
};

use serde_json::Value;

use crate::{model::*, replay::Trie};

pub struct Universe {
    pub keys: Vec<Key>,
    pub ents: Vec<Ent>,
    pub probes: Vec<Key>,
    /// entries that are always there
    pub rest: Vec<(Key, Ent)>,
}

pub struct State {
    pub u: usize,
    pub x: Vec<u8>,
    pub tree: Tree,
    pub hash: Bytes,
    pub gets: Vec<Option<Bytes>>,
    pub out: Vec<usize>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Outcome {
    Ok,
    Some,
    None,
    Panic,
}

pub struct Trans {
    pub from: usize,
    pub to: usize,
    pub ins: bool,
    pub i: usize,
    pub j: usize,
    pub r: Outcome,
    pub v: Bytes,
}

pub struct Graph {
    pub univ: Vec<Universe>,
    pub states: Vec<State>,
    pub trans: Vec<Trans>,
    /// per universe: the empty state and all states
    pub start: Vec<usize>,
    pub members: Vec<Vec<usize>>,
}

/// TLC prints each record as one quoted string per line.
pub fn emitted(path: &str, mut f: impl FnMut(Value)) {
    for line in BufReader::new(File::open(path).expect("open")).lines() {
        let line = line.expect("read");
        if line.starts_with("\"{") {
            let s: String = serde_json::from_str(&line).expect("quoted record");
            f(from_text(&s).expect("record"));
        }
    }
}

pub fn universes(path: &str) -> Vec<Universe> {
    let v: Value = serde_json::from_reader(BufReader::new(File::open(path).expect("open")))
        .expect("universes");
    universes_of(&v)
}

pub fn universes_of(v: &Value) -> Vec<Universe> {
    list(v)
        .iter()
        .map(|u| Universe {
            keys: keys(&u["keys"]),
            ents: list(&u["ents"]).iter().map(Ent::from_json).collect(),
            probes: if u["probes"].is_null() { vec![] } else { keys(&u["probes"]) },
            rest: match &u["rest"] {
                Value::Null => vec![],
                r => list(r)
                    .iter()
                    .map(|e| (bytes(&e["k"]), Ent::from_json(&e["e"])))
                    .collect(),
            },
        })
        .collect()
}

fn outcome(v: &Value) -> Outcome {
    match v.as_str().unwrap() {
        "ok" => Outcome::Ok,
        "some" => Outcome::Some,
        "none" => Outcome::None,
        _ => Outcome::Panic,
    }
}

pub fn opt_bytes(v: &Value) -> Option<Bytes> {
    (v["r"] == "some").then(|| bytes(&v["v"]))
}

impl Graph {
    /// The trie of a start state, made by inserts.
    pub fn begin<N: Trie>(&self, u: usize) -> N {
        let mut trie = N::default();
        for (k, e) in &self.univ[u].rest {
            let _ = guarded(|| trie.insert(nibs(k), e.to_impl()));
        }
        trie
    }

    pub fn load(univ_path: &str, emit_path: &str) -> Self {
        let univ = universes(univ_path);
        let mut states: Vec<State> = vec![];
        let mut idx: HashMap<(usize, Vec<u8>), usize> = HashMap::new();
        let mut raw = vec![];
        emitted(emit_path, |v| {
            let u = v["u"].as_u64().unwrap() as usize - 1;
            match v["q"].as_str().unwrap() {
                "S" => {
                    let x = bytes(&v["x"]);
                    idx.insert((u, x.clone()), states.len());
                    states.push(State {
                        u,
                        x,
                        tree: Tree::from_json(&v["tree"]),
                        hash: bytes(&v["hash"]),
                        gets: list(&v["gets"]).iter().map(opt_bytes).collect(),
                        out: vec![],
                    });
                }
                "T" => raw.push((
                    u,
                    bytes(&v["x"]),
                    bytes(&v["y"]),
                    v["op"] == "ins",
                    v["i"].as_u64().unwrap() as usize - 1,
                    v["j"].as_u64().unwrap() as usize,
                    outcome(&v["r"]),
                    bytes(&v["v"]),
                )),
                _ => {}
            }
        });
        let mut trans = vec![];
        for (u, x, y, ins, i, j, r, v) in raw {
            let from = idx[&(u, x)];
            states[from].out.push(trans.len());
            trans.push(Trans {
                from,
                to: idx[&(u, y)],
                ins,
                i,
                j: j.saturating_sub(1),
                r,
                v,
            });
        }
        let mut start = vec![usize::MAX; univ.len()];
        let mut members = vec![vec![]; univ.len()];
        for (n, s) in states.iter().enumerate() {
            members[s.u].push(n);
            if s.x.iter().all(|v| *v == 0) {
                start[s.u] = n;
            }
        }
        // TLC prints in an order that depends on thread scheduling; make
        // everything that follows depend on the seed alone.
        for m in &mut members {
            m.sort_by(|a, b| states[*a].x.cmp(&states[*b].x));
        }
        for s in &mut states {
            s.out.sort_by_key(|t| {
                let t = &trans[*t];
                (t.ins, t.i, t.j)
            });
        }
        Graph {
            univ,
            states,
            trans,
            start,
            members,
        }
    }

    /// The contents of a state as key/entry pairs.
    pub fn contents(&self, s: usize) -> Vec<(Key, Ent)> {
        let st = &self.states[s];
        let u = &self.univ[st.u];
        st.x.iter()
            .enumerate()
            .filter(|(_, v)| **v != 0)
            .map(|(i, v)| (u.keys[i].clone(), u.ents[*v as usize - 1].clone()))
            .chain(u.rest.iter().cloned())
            .collect()
    }

    pub fn trans_str(&self, t: usize) -> String {
        let t = &self.trans[t];
        let u = &self.univ[self.states[t.from].u];
        let k = key_str(&u.keys[t.i]);
        if t.ins {
            match &u.ents[t.j] {
                Ent::V(b) => format!("insert 0x{k} value 0x{}", hex(b)),
                Ent::H(b) => format!("insert 0x{k} hash 0x{}", hex(b)),
            }
        } else {
            format!("delete 0x{k}")
        }
    }

    pub fn state_str(&self, s: usize) -> Vec<String> {
        self.contents(s)
            .iter()
            .map(|(k, e)| match e {
                Ent::V(b) => format!("0x{} -> 0x{}", key_str(k), hex(b)),
                Ent::H(b) => format!("0x{} -> hidden 0x{}", key_str(k), hex(b)),
            })
            .collect()
    }
}
