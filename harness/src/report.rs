//! Collected disagreements between specification and implementation.

use std::{collections::BTreeMap, sync::Mutex};

use serde_json::{json, Value};

#[derive(Default)]
pub struct Report {
    inner: Mutex<Inner>,
}

#[derive(Default)]
struct Inner {
    violations: Vec<Value>,
    total: u64,
    known: BTreeMap<String, (u64, Value)>,
    counts: BTreeMap<String, u64>,
    samples: Vec<Value>,
}

impl Report {
    pub fn violation(&self, what: &str, detail: Value) {
        let mut i = self.inner.lock().unwrap();
        i.total += 1;
        if i.violations.len() < 5 {
            i.violations.push(json!({"what": what, "detail": detail}));
        }
    }

    /// A disagreement that matches an entry of the known-findings file.
    pub fn known(&self, id: &str, detail: Value) {
        let mut i = self.inner.lock().unwrap();
        let e = i.known.entry(id.to_string()).or_insert((0, detail));
        e.0 += 1;
    }

    pub fn count(&self, what: &str, n: u64) {
        *self
            .inner
            .lock()
            .unwrap()
            .counts
            .entry(what.to_string())
            .or_default() += n;
    }

    pub fn sample(&self, v: Value) {
        let mut i = self.inner.lock().unwrap();
        if i.samples.len() < 4 {
            i.samples.push(v);
        }
    }

    pub fn json(&self) -> Value {
        let i = self.inner.lock().unwrap();
        json!({"violations": i.violations, "total": i.total, "known": i.known,
               "counts": i.counts, "samples": i.samples})
    }
}
