//! C20: concurrent starts. Every round is a process of its own (the instance lives as long as the process).
use aj_core::*;
use replay::*;
use serde::{Deserialize, Serialize};
use serde_json::json;
use std::collections::HashMap;
use std::sync::{Arc, Barrier, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Debug, Serialize, Deserialize, Default)]
struct J<const N: usize> {
    tag: String,
}
static RUNS: Mutex<Option<HashMap<String, usize>>> = Mutex::new(None);
#[async_trait::async_trait]
impl<const N: usize> Executable for J<N> {
    type Output = ();
    async fn execute(&mut self, _: &JobContext) {
        *RUNS.lock().unwrap().get_or_insert_with(HashMap::new).entry(self.tag.clone()).or_default() += 1;
    }
}
impl<const N: usize> BackgroundJob for J<N> {
    fn queue_name() -> &'static str {
        Box::leak(format!("queue-{}", N).into_boxed_str())
    }
    fn job(self) -> Job<Self> {
        Job::new(self)
    }
}
fn holds(be: &RefBackend, id: &str) -> bool {
    be.s.lock().unwrap().hashes.keys().any(|(_, k)| k == id)
}
/// `n` threads start the instance at once, each with its own backend, and submit a job each; shape: which of them
/// have an actix system of their own, which wait how long
fn round(n: usize, shape: u64) -> Option<String> {
    let bar = Arc::new(Barrier::new(n));
    let bes: Vec<RefBackend> = (0..n).map(|_| RefBackend::default()).collect();
    let hs: Vec<_> = (0..n)
        .map(|i| {
            let (bar, be) = (bar.clone(), bes[i].clone());
            std::thread::spawn(move || {
                let work = async move {
                    bar.wait();
                    for _ in 0..(shape >> (8 + 3 * (i % 12))) & 7 {
                        std::thread::yield_now();
                    }
                    let addr = AJ::start(be);
                    let again = AJ::start(RefBackend::default());
                    let seen = get_aj_address();
                    let id = format!("j{}", i);
                    let job = |id: &str| (J::<0> { tag: id.into() }).job().set_id(id.into());
                    let r = if i % 2 == 0 { job(&id).run().await.map(|_| ()).map_err(|e| format!("{:?}", e)) } else { job(&id).just_run(); Ok(()) };
                    (addr, again, seen, r)
                };
                if (shape >> (i % 8)) & 1 == 1 { actix::System::new().block_on(work) } else { tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap().block_on(work) }
            })
        })
        .collect();
    let rs: Vec<_> = hs.into_iter().map(|h| h.join()).collect();
    let mut first = None;
    for (i, r) in rs.into_iter().enumerate() {
        let (addr, again, seen, r) = match r {
            Ok(x) => x,
            Err(_) => return Some(format!("caller {} panicked", i)),
        };
        let f = first.get_or_insert_with(|| addr.clone()).clone();
        if addr != f { return Some(format!("callers 0 and {} got different instances", i)); }
        if again != f { return Some(format!("caller {} got another instance from a second start", i)); }
        if seen != Some(f) { return Some(format!("caller {} sees {} after its start returned", i, if seen.is_some() { "another instance" } else { "no instance" })); }
        if let Err(e) = r { return Some(format!("caller {} could not submit a job: {}", i, e)); }
    }
    let t = Instant::now();
    let done = |i: usize| RUNS.lock().unwrap().get_or_insert_with(HashMap::new).get(&format!("j{}", i)).copied().unwrap_or(0);
    while t.elapsed() < Duration::from_secs(10) && (0..n).any(|i| done(i) == 0) {
        std::thread::sleep(Duration::from_millis(3));
    }
    for i in 0..n {
        if done(i) != 1 { return Some(format!("the job of caller {} ran {} times", i, done(i))); }
    }
    let used: Vec<usize> = (0..n).filter(|b| (0..n).any(|i| holds(&bes[*b], &format!("j{}", i)))).collect();
    if used.len() != 1 { return Some(format!("the jobs are on the backends of callers {:?}", used)); }
    None
}
fn main() {
    let v: Vec<String> = std::env::args().collect();
    if let Some(k) = v.iter().position(|x| x == "--round") {
        quiet_panics();
        let r = round(v[k + 1].parse().unwrap(), v[k + 2].parse().unwrap());
        if let Some(m) = r { println!("{}", m); std::process::exit(3); }
        std::process::exit(0);
    }
    let a = args();
    let mut st = Stats::new("processes in which 1-6 threads start the instance at the same time, with and without an actix system of their own, and submit a job each; non-trivial: at least two threads");
    let me = std::env::current_exe().unwrap();
    let mut r = Rng(a.seed.wrapping_mul(0x9E3779B97F4A7C15) | 1);
    let mut bad = None;
    let mut k = 0;
    while bad.is_none() && (k < 24 || a.start.elapsed().as_secs_f64() < a.budget) {
        // several at a time: the scheduling differs more
        let kids: Vec<_> = (0..4)
            .map(|_| {
                let (n, s) = (1 + r.below(6) as usize, r.next());
                (n, s, std::process::Command::new(&me).args(["--round", &n.to_string(), &s.to_string()]).stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::null()).spawn().unwrap())
            })
            .collect();
        for (n, s, mut c) in kids {
            let t = Instant::now();
            let over = loop {
                if let Ok(Some(_)) = c.try_wait() { break false; }
                if t.elapsed() > Duration::from_secs(60) { let _ = c.kill(); break true; }
                std::thread::sleep(Duration::from_millis(2));
            };
            let o = c.wait_with_output().unwrap();
            k += 1;
            st.case("round", n > 1);
            if bad.is_none() && (over || !o.status.success()) {
                let m = if over { "the starts do not return".to_string() } else { String::from_utf8_lossy(&o.stdout).trim().to_string() };
                let mut f = fail(&["C20"], if m.is_empty() { format!("the process ended with {}", o.status) } else { m });
                f.history = vec![json!({"threads": n, "shape": s}).to_string()];
                bad = Some(f);
            }
        }
    }
    finish(&a, &st, bad)
}
