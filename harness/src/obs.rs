//! What the debug tools report, read from their public output.

use eth_trie_utils::debug_tools::diff::DiffPoint;
use serde_json::{json, Value};

use crate::model::*;

pub struct Query {
    pub found: bool,
    pub path: Value,
}

fn nib_str(s: &str) -> Option<Key> {
    s.strip_prefix("0x")?
        .chars()
        .map(|c| c.to_digit(16).map(|d| d as u8))
        .collect()
}

fn byte_str(s: &str) -> Option<Bytes> {
    let n = nib_str(s)?;
    (n.len() % 2 == 0).then(|| n.chunks(2).map(|c| 16 * c[0] + c[1]).collect())
}

/// Reads the printed form of a path query with default parameters: a header
/// and one line per node, `Kind(key: 0x..)`, separated by lines with `V`.
pub fn parse_query(s: &str) -> Option<Query> {
    let found = s.lines().find_map(|l| l.trim().strip_prefix("Node found: "))? == "true";
    let (_, rest) = s.split_once("Query path:")?;
    let mut path = vec![];
    for l in rest.lines().map(|l| l.trim()).filter(|l| !l.is_empty() && *l != "V") {
        let (kind, rest) = l.split_once('(')?;
        let inner = rest.strip_suffix(')')?;
        let key = match inner.strip_prefix("key: ") {
            Some(k) => nib_str(k)?,
            None if inner.is_empty() => vec![],
            None => return None,
        };
        path.push(json!({"t": kind, "k": key}));
    }
    Some(Query {
        found,
        path: json!(path),
    })
}

/// `NodeInfo` keeps its fields private but prints them.
fn node_info(s: &str) -> Option<Value> {
    let s = s.trim().strip_prefix('(')?.strip_suffix(')')?;
    let (key, s) = s.strip_prefix("key: ")?.split_once(" Value: ")?;
    let (val, s) = s.split_once(", Node type: ")?;
    let (kind, hash) = s.split_once(" Trie hash: ")?;
    let hash = byte_str(&format!("0x{}", hash.trim_start_matches("0x")))?;
    Some(json!({
        "key": nib_str(key)?,
        "hasval": val != "N/A",
        "val": if val == "N/A" { vec![] } else { byte_str(val)? },
        "kind": kind,
        "hash": hash,
    }))
}

pub fn diff_point(p: &DiffPoint) -> Option<Value> {
    Some(json!({
        "r": "some",
        "key": seq(&p.key),
        "depth": p.depth,
        "a": node_info(&p.a_info.to_string())?,
        "b": node_info(&p.b_info.to_string())?,
    }))
}

fn number_after(s: &str, label: &str) -> Option<i64> {
    let l = s.lines().find_map(|l| l.trim().strip_prefix(label))?;
    l.trim().split_whitespace().next()?.parse().ok()
}

pub fn parse_stats(s: &str) -> Option<Value> {
    Some(json!({
        "e": number_after(s, "Empty:")?,
        "hn": number_after(s, "Hash:")?,
        "b": number_after(s, "Branch:")?,
        "x": number_after(s, "Extension:")?,
        "l": number_after(s, "Leaf:")?,
        "low": number_after(s, "Lowest depth:")?,
        "avgleaf": text_after(s, "Average leaf depth:")?,
        "avghash": text_after(s, "Average hash depth:")?,
    }))
}

fn text_after(s: &str, label: &str) -> Option<String> {
    s.lines()
        .find_map(|l| l.trim().strip_prefix(label))
        .map(|l| l.trim().to_string())
}
