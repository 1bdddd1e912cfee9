//! The debug tools against the answers of the specification.

use eth_trie_utils::{
    debug_tools::{
        diff::create_diff_between_tries,
        query::{get_path_from_query, DebugQueryParamsBuilder},
        stats::{get_trie_stats, get_trie_stats_with_name},
    },
    partial_trie::{HashedPartialTrie as H, StandardTrie as S},
};
use serde_json::{json, Value};

use crate::{graph::emitted, model::*, obs, replay::Trie, report::Report};

fn tree(v: &Value) -> Tree {
    Tree::from_json(v)
}

/// `Kind(piece) --> Kind(piece)`
fn path_text(p: &Value) -> String {
    let seg = |s: &Value| {
        let k = bytes(&s["k"]);
        match s["t"].as_str().unwrap() {
            "Branch" => format!("Branch({})", k[0]),
            t => format!("{t}(0x{})", key_str(&k)),
        }
    };
    list(p).iter().map(seg).collect::<Vec<_>>().join(" --> ")
}

fn info(v: &Value) -> Value {
    json!({"key": bytes(&v["key"]), "hasval": v["hasval"], "val": bytes(&v["val"]),
           "kind": v["kind"], "hash": bytes(&v["hash"])})
}

/// What is wrong with the answer about `a` and `b`, given the points that may
/// be reported.
pub fn diff_mismatch(a: &H, b: &H, points: &[Value]) -> Option<String> {
    let got = guarded(|| {
        let d = create_diff_between_tries(a, b);
        let text = d.to_string();
        (d, text)
    });
    match &got {
        Err(e) => Some(format!("panic: {e}")),
        Ok((d, text)) => match &d.latest_diff_res {
            None if points.is_empty() && text.is_empty() => None,
            None if points.is_empty() => Some("no difference but something is printed".into()),
            None => Some("a difference is not reported".into()),
            Some(p) => match obs::diff_point(p) {
                None => Some(format!("unreadable: {p}")),
                Some(g) => {
                    let path = p.path.to_string();
                    let steps = path.split(" --> ").filter(|x| !x.is_empty()).count();
                    if p.depth != steps {
                        return Some(format!("depth {} at the end of a path of {steps} steps: {p}", p.depth));
                    }
                    let path = path
                        .strip_suffix("Hash")
                        .map_or(path.as_str(), |x| x.strip_suffix(" --> ").unwrap_or(x));
                    let ok = points.iter().any(|w| {
                        bytes(&w["key"]) == bytes(&g["key"])
                            && info(&w["a"]) == info(&g["a"])
                            && info(&w["b"]) == info(&g["b"])
                            && path_text(&w["path"]) == path
                    });
                    (!ok).then(|| format!("not one of the expected points: {p}"))
                }
            },
        },
    }
}

pub fn diffs(emit: &str, rep: &Report) {
    let mut n = 0;
    emitted(emit, |v| {
        n += 1;
        let (ta, tb) = (tree(&v["ta"]), tree(&v["tb"]));
        let points = list(&v["points"]);
        let (a, b): (H, H) = (ta.to_impl(), tb.to_impl());
        let bad = diff_mismatch(&a, &b, &points);
        if let Some(m) = bad {
            rep.violation("diff", json!({"a": v["ta"], "b": v["tb"], "expected": points, "mismatch": m}));
        }
        // asking again, with hashes cached now, and the other way round
        if n % 7 == 0 {
            let got = guarded(|| create_diff_between_tries(&a, &b)).ok();
            let again = guarded(|| create_diff_between_tries(&a, &b)).ok();
            if again != got {
                rep.violation("diff", json!({"a": v["ta"], "b": v["tb"], "mismatch": "asking twice gives different answers"}));
            }
        }
        if n % 2000 == 1 {
            rep.sample(json!({"kind": "pair of tries", "a": v["ta"], "b": v["tb"]}));
        }
    });
    rep.count("pairs_replayed", n);
}

// -------------------------------------------------------------------- path
fn extra_text(e: &Value) -> Option<String> {
    let b = bytes(&e["b"]);
    match e["k"].as_str().unwrap() {
        "hash" => Some(format!("Hash: {}", hex(&b))),
        "value" => Some(format!("Leaf Value: {}", hex(&b))),
        "mask" => {
            let bits: String = b.iter().rev().map(|x| if *x == 1 { '1' } else { '0' }).collect();
            Some(format!("mask: 0b{bits} (Num Children: {})", e["n"]))
        }
        _ => None,
    }
}

/// The lines of the path with all information, as the specification has it.
fn full_lines(path: &Value, extra: &Value) -> Vec<(String, Option<String>, Option<String>)> {
    list(path)
        .iter()
        .zip(list(extra))
        .map(|(p, e)| {
            let kind = p["t"].as_str().unwrap().to_string();
            let k = bytes(&p["k"]);
            let piece = match kind.as_str() {
                "Empty" | "Hash" => None,
                "Branch" if k.is_empty() => None,
                _ => Some(key_str(&k)),
            };
            (kind, piece, extra_text(&e))
        })
        .collect()
}

/// Reads `Kind(key: 0x.., Extra Seg Info: ..)` lines.
fn read_lines(s: &str) -> Option<Vec<(String, Option<String>, Option<String>)>> {
    let (_, rest) = s.split_once("Query path:")?;
    rest.lines()
        .map(|l| l.trim())
        .filter(|l| !l.is_empty() && *l != "V")
        .map(|l| {
            let (kind, rest) = l.split_once('(')?;
            let inner = rest.strip_suffix(')')?;
            let (head, extra) = match inner.split_once("Extra Seg Info: ") {
                Some((h, e)) => (h, Some(e.to_string())),
                None => (inner, None),
            };
            let head = head.trim().trim_end_matches(',').trim();
            let piece = match head {
                "" => None,
                h => Some(h.strip_prefix("key: ")?.strip_prefix("0x")?.to_string()),
            };
            Some((kind.to_string(), piece, extra))
        })
        .collect()
}

fn paths_of<N: Trie>(v: &Value, rep: &Report) -> u64 {
    let t: N = tree(&v["t"]).to_impl();
    let mut n = 0;
    for p in list(&v["probes"]) {
        n += 1;
        let k = bytes(&p["k"]);
        let plain = guarded(|| get_path_from_query(&t, nibs(&k)).to_string());
        let bad = match &plain {
            Err(e) => Some(format!("panic: {e}")),
            Ok(s) => match obs::parse_query(s) {
                None => Some(format!("unreadable: {s}")),
                Some(g) => {
                    let same = list(&g.path).len() == list(&p["path"]).len()
                        && list(&g.path).iter().zip(list(&p["path"])).all(|(x, y)| {
                            x["t"] == y["t"] && bytes(&x["k"]) == bytes(&y["k"])
                        });
                    let queried = s.contains(&format!("Queried Key: 0x{}\n", key_str(&k)));
                    (g.found != p["found"].as_bool().unwrap() || !same || !queried)
                        .then(|| format!("wrong answer: {s}"))
                }
            },
        };
        let bad = bad.or_else(|| {
            let want = full_lines(&p["path"], &p["extra"]);
            for (types, pieces, values) in
                (0..8).map(|i| (i & 1 == 0, i & 2 == 0, i & 4 == 0))
            {
                let got = guarded(|| {
                    let q = DebugQueryParamsBuilder::default()
                        .print_node_type(types)
                        .print_key_pieces(pieces)
                        .print_node_specific_values(values)
                        .build(nibs(&k));
                    get_path_from_query(&t, q).to_string()
                });
                let want: Vec<_> = want
                    .iter()
                    .map(|(a, b, c)| {
                        (
                            if types { a.clone() } else { String::new() },
                            b.clone().filter(|_| pieces),
                            c.clone().filter(|_| values),
                        )
                    })
                    .collect();
                match got {
                    Err(e) => return Some(format!("panic: {e}")),
                    Ok(s) if read_lines(&s).as_ref() != Some(&want) => {
                        return Some(format!("wrong answer with settings {types} {pieces} {values}: {s}"))
                    }
                    _ => (),
                }
            }
            None
        });
        if let Some(m) = bad {
            rep.violation("query", json!({"trie": v["t"], "key": k, "expected": p, "mismatch": m}));
        }
    }
    n
}

pub fn paths(emit: &str, rep: &Report) {
    let (mut n, mut i) = (0, 0);
    emitted(emit, |v| {
        i += 1;
        n += if i % 2 == 0 { paths_of::<H>(&v, rep) } else { paths_of::<S>(&v, rep) };
        if i % 500 == 1 {
            rep.sample(json!({"kind": "queried trie", "trie": v["t"]}));
        }
    });
    rep.count("queries_replayed", n);
}

// -------------------------------------------------------------- statistics
fn num(v: &Value, f: &str) -> f64 {
    v[f].as_f64().unwrap()
}

fn close(text: &str, sum: f64, cnt: f64) -> bool {
    // the average of nothing is not defined
    cnt == 0.0 || text.parse::<f64>().map_or(false, |g| (g - sum / cnt).abs() < 0.0011)
}

pub fn stats_ok(s: &str, w: &Value) -> bool {
    let Some(g) = obs::parse_stats(s) else {
        return false;
    };
    g["e"] == w["e"]
        && g["hn"] == w["h"]
        && g["b"] == w["b"]
        && g["x"] == w["x"]
        && g["l"] == w["l"]
        && g["low"] == w["low"]
        && close(g["avgleaf"].as_str().unwrap(), num(w, "ld"), num(w, "l"))
        && close(g["avghash"].as_str().unwrap(), num(w, "hd"), num(w, "h"))
}

/// Reads `Label: a / b (..%)`.
fn pair<'a>(s: &'a str, label: &str) -> Option<(&'a str, &'a str)> {
    let l = s.lines().find_map(|l| {
        let (_, r) = l.split_once(label)?;
        Some(r)
    })?;
    let (a, r) = l.trim().split_once(" / ")?;
    Some((a.trim(), r.split_whitespace().next()?))
}

fn comparison_ok(s: &str, a: &Value, b: &Value) -> Option<String> {
    let tot = |v: &Value| num(v, "e") + num(v, "h") + num(v, "b") + num(v, "x") + num(v, "l");
    let rows: Vec<(&str, f64, f64)> = vec![
        ("Total nodes: ", tot(a), tot(b)),
        ("Non-empty: ", tot(a) - num(a, "e"), tot(b) - num(b, "e")),
        ("Total empty: ", num(a, "e"), num(b, "e")),
        ("Total hash: ", num(a, "h"), num(b, "h")),
        ("Total branch: ", num(a, "b"), num(b, "b")),
        ("Total extension: ", num(a, "x"), num(b, "x")),
        ("Total leaf: ", num(a, "l"), num(b, "l")),
        ("Lowest depth: ", num(a, "low"), num(b, "low")),
    ];
    for (label, x, y) in rows {
        match pair(s, label) {
            Some((g, h)) if g.parse() == Ok(x) && h.parse() == Ok(y) => (),
            _ => return Some(format!("`{label}` should be {x} / {y}")),
        }
    }
    for (label, sum, cnt) in [("Avg leaf depth: ", "ld", "l"), ("Avg hash depth: ", "hd", "h")] {
        match pair(s, label) {
            Some((g, h))
                if close(g, num(a, sum), num(a, cnt)) && close(h, num(b, sum), num(b, cnt)) => {}
            _ => return Some(format!("`{label}` is wrong")),
        }
    }
    None
}

fn stats_of<N: Trie>(v: &Value, rep: &Report) {
    let (a, b): (N, N) = (tree(&v["ta"]).to_impl(), tree(&v["tb"]).to_impl());
    let got = guarded(|| {
        let (x, y) = (get_trie_stats(&a), get_trie_stats_with_name(&b, "second".into()));
        (x.to_string(), y.to_string(), x.compare(&y).to_string())
    });
    let bad = match got {
        Err(e) => Some(format!("panic: {e}")),
        Ok((x, y, c)) => {
            if !stats_ok(&x, &v["a"]) {
                Some(format!("first trie: {x}"))
            } else if !stats_ok(&y, &v["b"]) || !y.contains("second") {
                Some(format!("second trie: {y}"))
            } else {
                comparison_ok(&c, &v["a"], &v["b"]).map(|m| format!("{m}: {c}"))
            }
        }
    };
    if let Some(m) = bad {
        rep.violation("stats", json!({"a": v["ta"], "b": v["tb"], "expected": [v["a"], v["b"]], "mismatch": m}));
    }
}

pub fn stats(emit: &str, rep: &Report) {
    let mut n = 0;
    emitted(emit, |v| {
        n += 1;
        if n % 2 == 0 {
            stats_of::<H>(&v, rep)
        } else {
            stats_of::<S>(&v, rep)
        }
        if n % 2000 == 1 {
            rep.sample(json!({"kind": "statistics of", "a": v["ta"], "b": v["tb"]}));
        }
    });
    rep.count("pairs_replayed", n);
}
