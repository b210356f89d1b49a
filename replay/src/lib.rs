//! Replay harness: runs histories against the real aj_core and compares with a reference model.
//! A mismatch is a concrete failing input for the property it is tagged with.
use aj_core::types::{Backend, QueueDirection};
use aj_core::Error;
use std::collections::{BTreeMap, HashSet, VecDeque};
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};

// ------------------------------------------------------------------ clock
#[repr(C)]
pub struct Timespec {
    pub tv_sec: i64,
    pub tv_nsec: i64,
}
extern "C" {
    fn syscall(num: i64, ...) -> i64;
}
/// virtual wall clock in ns; 0 = real time
pub static NOW: AtomicI64 = AtomicI64::new(0);
/// advance per reading
pub static STEP: AtomicI64 = AtomicI64::new(0);
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: i32, ts: *mut Timespec) -> i32 {
    if id == 0 {
        let n = NOW.fetch_add(STEP.load(Ordering::SeqCst), Ordering::SeqCst);
        if n != 0 {
            (*ts).tv_sec = n / 1_000_000_000;
            (*ts).tv_nsec = n % 1_000_000_000;
            return 0;
        }
    }
    syscall(228, id as i64, ts) as i32
}
pub fn set_now(ns: i64) {
    NOW.store(ns, Ordering::SeqCst);
}
pub fn now_ns() -> i64 {
    NOW.load(Ordering::SeqCst)
}
pub fn advance(ns: i64) {
    NOW.fetch_add(ns, Ordering::SeqCst);
}

// ------------------------------------------------------------------ random choices
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.below(v.len());
        &v[i]
    }
    pub fn chance(&mut self, pct: u64) -> bool {
        self.next() % 100 < pct
    }
}

// ------------------------------------------------------------------ run control
pub struct Args {
    pub prop: String,
    pub seed: u64,
    pub budget: f64,
    pub start: std::time::Instant,
}
pub struct Stats {
    pub evaluations: u64,
    pub nontrivial: HashSet<u64>,
    pub samples: Vec<String>,
    pub rule: String,
}
impl Stats {
    pub fn new(rule: &str) -> Self {
        Stats { evaluations: 0, nontrivial: HashSet::new(), samples: vec![], rule: rule.into() }
    }
    pub fn case(&mut self, text: &str, nontrivial: bool) {
        self.evaluations += 1;
        if nontrivial {
            let mut h = 0xcbf29ce484222325u64;
            for b in text.bytes() {
                h = (h ^ b as u64).wrapping_mul(0x100000001b3);
            }
            if self.nontrivial.insert(h) && self.samples.len() < 3 {
                self.samples.push(text.chars().take(600).collect());
            }
        }
    }
    pub fn merge(&mut self, o: Stats) {
        self.evaluations += o.evaluations;
        self.nontrivial.extend(o.nontrivial);
        for s in o.samples {
            if self.samples.len() < 6 {
                self.samples.push(s);
            }
        }
        if !self.rule.contains(&o.rule) {
            if !self.rule.is_empty() {
                self.rule.push_str("; ");
            }
            self.rule.push_str(&o.rule);
        }
    }
}
pub fn args() -> Args {
    let v: Vec<String> = std::env::args().collect();
    let get = |k: &str, d: &str| {
        v.iter().position(|x| x == k).and_then(|i| v.get(i + 1)).cloned().unwrap_or(d.into())
    };
    Args {
        prop: get("--prop", "C01"),
        seed: get("--seed", "1").parse().unwrap_or(1),
        budget: get("--budget", "20").parse().unwrap_or(20.0),
        start: std::time::Instant::now(),
    }
}
impl Args {
    pub fn left(&self) -> bool {
        self.start.elapsed().as_secs_f64() < self.budget
    }
    pub fn wants(&self, tags: &[&str]) -> bool {
        self.prop == "ALL" || tags.iter().any(|t| *t == self.prop)
    }
}
#[derive(Debug, Clone)]
pub struct Fail {
    pub props: Vec<String>,
    pub what: String,
    pub history: Vec<String>,
}
impl Fail {
    pub fn hits(&self, prop: &str) -> bool {
        prop == "ALL" || self.props.iter().any(|p| p == prop)
    }
}
pub type Res = Result<(), Fail>;
pub fn fail(props: &[&str], what: String) -> Fail {
    Fail { props: props.iter().map(|s| s.to_string()).collect(), what, history: vec![] }
}
/// report: one JSON line on stdout; exit 1 when a failing input was found
pub fn finish(a: &Args, st: &Stats, f: Option<Fail>) -> ! {
    let j = serde_json::json!({
        "property": a.prop, "evaluations": st.evaluations, "distinct_nontrivial": st.nontrivial.len(),
        "samples": st.samples, "rule": st.rule, "wall_s": a.start.elapsed().as_secs_f64(),
        "failure": f.as_ref().map(|f| serde_json::json!({"what": f.what, "history": f.history, "properties": f.props})),
    });
    println!("{}", j);
    std::process::exit(if f.is_some() { 1 } else { 0 })
}
pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|_| {}));
}

// ------------------------------------------------------------------ reference backend
#[derive(Default, Clone, Debug, PartialEq)]
pub struct Store {
    pub queues: BTreeMap<String, VecDeque<String>>,
    pub hashes: BTreeMap<(String, String), String>,
}
impl Store {
    pub fn q(&self, n: &str) -> Vec<String> {
        self.queues.get(n).map(|q| q.iter().cloned().collect()).unwrap_or_default()
    }
    pub fn push(&mut self, n: &str, x: &str) {
        self.queues.entry(n.into()).or_default().push_front(x.into());
    }
    pub fn mv(&mut self, f: &str, t: &str, n: usize, fd: QueueDirection, td: QueueDirection) -> Vec<String> {
        let mut out = vec![];
        for _ in 0..n {
            let x = match self.queues.get_mut(f) {
                None => break,
                Some(q) => match fd {
                    QueueDirection::Front => q.pop_front(),
                    QueueDirection::Back => q.pop_back(),
                },
            };
            match x {
                Some(x) => out.push(x),
                None => break,
            }
        }
        for x in &out {
            let q = self.queues.entry(t.into()).or_default();
            match td {
                QueueDirection::Front => q.push_front(x.clone()),
                QueueDirection::Back => q.push_back(x.clone()),
            }
        }
        out
    }
    pub fn remove(&mut self, n: &str, x: &str) {
        if let Some(q) = self.queues.get_mut(n) {
            q.retain(|y| y != x);
        }
    }
    pub fn get(&self, n: &str, c: usize, d: QueueDirection) -> Vec<String> {
        let v = self.q(n);
        match d {
            QueueDirection::Front => v.into_iter().take(c).collect(),
            QueueDirection::Back => v.into_iter().rev().take(c).collect(),
        }
    }
}
/// A correct backend under the harness's control.
#[derive(Clone, Default)]
pub struct RefBackend {
    pub s: Arc<Mutex<Store>>,
    /// the next this many operations fail
    pub fail_next: Arc<AtomicU64>,
    pub ops: Arc<AtomicU64>,
    /// bit i: the i-th operation from now on fails
    pub fail_mask: Arc<AtomicU64>,
    /// such an operation has its effect all the same
    pub fail_late: Arc<std::sync::atomic::AtomicBool>,
    /// operations of this kind fail
    pub fail_kind: Arc<Mutex<&'static str>>,
    /// operations that failed so far
    pub failed: Arc<AtomicU64>,
}
impl RefBackend {
    fn run<T>(&self, kind: &str, f: impl FnOnce(&mut Store) -> T) -> Result<T, Error> {
        self.ops.fetch_add(1, Ordering::SeqCst);
        let now = self.fail_mask.fetch_update(Ordering::SeqCst, Ordering::SeqCst, |x| Some(x >> 1)).unwrap_or(0) & 1 == 1;
        if now || *self.fail_kind.lock().unwrap() == kind || self.fail_next.fetch_update(Ordering::SeqCst, Ordering::SeqCst, |x| x.checked_sub(1)).is_ok() {
            if now && self.fail_late.load(Ordering::SeqCst) {
                f(&mut self.s.lock().unwrap());
            }
            self.failed.fetch_add(1, Ordering::SeqCst);
            return Err(Error::NoQueueRegister);
        }
        Ok(f(&mut self.s.lock().unwrap()))
    }
}
impl Backend for RefBackend {
    fn queue_push(&self, q: &str, item: &str) -> Result<(), Error> {
        self.run("push", |s| s.push(q, item))
    }
    fn queue_move(&self, f: &str, t: &str, n: usize, fd: QueueDirection, td: QueueDirection) -> Result<Vec<String>, Error> {
        self.run("move", |s| s.mv(f, t, n, fd, td))
    }
    fn queue_remove(&self, q: &str, item: &str) -> Result<(), Error> {
        self.run("remove", |s| s.remove(q, item))
    }
    fn queue_get(&self, q: &str, c: usize, d: QueueDirection) -> Result<Vec<String>, Error> {
        self.run("get", |s| s.get(q, c, d))
    }
    fn queue_count(&self, q: &str) -> Result<usize, Error> {
        self.run("count", |s| s.q(q).len())
    }
    fn storage_upsert(&self, h: &str, k: &str, v: String) -> Result<(), Error> {
        self.run("upsert", |s| { s.hashes.insert((h.into(), k.into()), v); })
    }
    fn storage_get(&self, h: &str, k: &str) -> Result<Option<String>, Error> {
        self.run("read", |s| s.hashes.get(&(h.into(), k.into())).cloned())
    }
}
