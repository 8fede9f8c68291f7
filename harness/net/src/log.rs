//! Event log of one scenario. The position in the log is the global order of the events.
use serde_json::{Value, json};
use std::sync::{Condvar, Mutex};
use std::time::Instant;

pub struct Log {
    start: Instant,
    inner: Mutex<(bool, Vec<Value>)>,
}

impl Log {
    pub fn new() -> Self {
        Log { start: Instant::now(), inner: Mutex::new((true, Vec::new())) }
    }
    pub fn now(&self) -> u64 {
        self.start.elapsed().as_millis() as u64
    }
    pub fn push(&self, mut v: Value) {
        let mut g = self.inner.lock().unwrap();
        if g.0 {
            // time is read under the lock, so times are monotone along the log
            v["t"] = json!(self.now());
            g.1.push(v);
        }
    }
    pub fn close(&self) -> Vec<Value> {
        let mut g = self.inner.lock().unwrap();
        g.0 = false;
        std::mem::take(&mut g.1)
    }
}

/// Named barriers (id -> arrivals); waits at most `ms`.
#[derive(Default)]
pub struct Barriers {
    m: Mutex<std::collections::HashMap<u64, usize>>,
    c: Condvar,
}
impl Barriers {
    pub fn wait(&self, id: u64, count: usize, ms: u64) -> bool {
        let mut g = self.m.lock().unwrap();
        *g.entry(id).or_default() += 1;
        self.c.notify_all();
        let end = Instant::now() + std::time::Duration::from_millis(ms);
        while g[&id] < count {
            let now = Instant::now();
            if now >= end {
                return false;
            }
            g = self.c.wait_timeout(g, end - now).unwrap().0;
        }
        true
    }
}
