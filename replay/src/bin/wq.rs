//! Work queue histories against a reference model: C04..C14, C18.
//! A real WorkQueue actor runs on a reference backend under a virtual clock; ticks are sent as messages.
use actix::prelude::*;
use aj_core::*;
use replay::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::str::FromStr;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Duration;

// ------------------------------------------------------------------ the job
#[derive(Clone, Debug, Serialize, Deserialize, Default)]
struct TJ {
    id: String,
    n: i64,
    /// raw outcome per run; odd = failed
    script: Vec<i64>,
    gate: bool,
}
#[derive(Default)]
struct Log {
    runs: BTreeMap<String, Vec<String>>,
    plugin: [BTreeMap<String, Vec<String>>; 2],
    events: u64,
    gates: HashMap<String, Arc<tokio::sync::Notify>>,
}
static LOG: Mutex<Option<Log>> = Mutex::new(None);
fn log<R>(f: impl FnOnce(&mut Log) -> R) -> R {
    let mut g = LOG.lock().unwrap_or_else(|e| e.into_inner());
    f(g.get_or_insert_with(Log::default))
}
fn run_event(id: &str, e: String) {
    log(|l| { l.events += 1; l.runs.entry(id.into()).or_default().push(e) })
}
fn raw(t: &TJ, run: i64) -> i64 {
    if t.script.is_empty() { 0 } else { t.script[((run.max(1) - 1) as usize) % t.script.len()] }
}
#[async_trait::async_trait]
impl Executable for TJ {
    type Output = i64;
    async fn pre_execute(&mut self, c: &JobContext) {
        run_event(&self.id, format!("pre run_count={} n={}", c.run_count, self.n));
        self.n += 100;
        tokio::task::yield_now().await;
    }
    async fn execute(&mut self, c: &JobContext) -> i64 {
        run_event(&self.id, format!("exec run_count={} n={}", c.run_count, self.n));
        self.n += 1;
        let out = raw(self, c.run_count as i64);
        if self.gate {
            let g = log(|l| l.gates.entry(self.id.clone()).or_default().clone());
            g.notified().await;
        }
        out
    }
    async fn post_execute(&mut self, out: i64, c: &JobContext) -> i64 {
        run_event(&self.id, format!("post run_count={} n={} out={}", c.run_count, self.n, out));
        self.n += 10_000;
        tokio::task::yield_now().await;
        out + 1_000
    }
    async fn is_failed_output(&self, out: &i64) -> bool {
        // needs the final output and the final data
        // (some count as failed from the start)
        (*out >= 1_000 && self.n % 100_000 >= 10_000 || (500..1_000).contains(out)) && out % 2 == 1
    }
}
struct Plug(usize);
#[async_trait::async_trait]
impl JobPlugin for Plug {
    async fn change_status(&self, id: &str, s: JobStatus) {
        log(|l| { l.events += 1; l.plugin[self.0].entry(id.into()).or_default().push(format!("{:?}", s)) })
    }
    async fn before_run(&self, id: &str) {
        log(|l| { l.events += 1; l.plugin[self.0].entry(id.into()).or_default().push("before".into()) });
        if self.0 == 0 { run_event(id, "before".into()); }
    }
    async fn after_run(&self, id: &str) {
        log(|l| { l.events += 1; l.plugin[self.0].entry(id.into()).or_default().push("after".into()) });
        if self.0 == 0 { run_event(id, "after".into()); }
    }
}
#[derive(Message)]
#[rtype(result = "()")]
struct Tick;
impl Handler<Tick> for WorkQueue<TJ> {
    type Result = ();
    fn handle(&mut self, _: Tick, ctx: &mut Context<Self>) {
        self.process_jobs(ctx);
    }
}

// ------------------------------------------------------------------ operations
#[derive(Clone, Debug)]
enum Kind {
    Normal,
    At(i64),
    Delay(i64),
    Cron(String),
    CronMax(String, i32),
    CronEnd(String, i64),
    CronBoth(String, i32, i64),
}
#[derive(Clone, Debug)]
enum Rt {
    None,
    Interval(Option<i32>, i64),
    Backoff(Option<i32>, i64),
}
#[derive(Clone, Debug)]
enum Op {
    /// queue, id, script, gated, type, retry, re_run, override, odd context
    Submit(usize, String, Vec<i64>, bool, Kind, Rt, bool, bool, bool),
    Cancel(usize, String),
    Retry(usize, String),
    Get(usize, String),
    Tick(usize),
    Release(String),
    Advance(i64),
    /// on to this part of a second (ns)
    Until(i64),
    Config(usize, usize),
}
const ST: [JobStatus; 5] = [JobStatus::Queued, JobStatus::Running, JobStatus::Finished, JobStatus::Failed, JobStatus::Canceled];
const MS: i64 = 1_000_000;
const T0: i64 = 1_700_000_000_123_000_000;

fn build(id: &str, script: &[i64], gate: bool, k: &Kind, r: &Rt, odd: bool) -> Job<TJ> {
    let d = TJ { id: id.into(), n: 0, script: script.to_vec(), gate };
    let mut j = Job::new(d).set_id(id.into());
    if odd {
        let mut c = JobContext::new(id.to_string());
        c.job_status = JobStatus::Finished;
        c.run_count = 3;
        c.cancel_at = Some(77);
        j = j.context(c);
    }
    j = match k {
        Kind::Normal => j,
        Kind::At(t) => j.schedule_at(at(now_ns() + t)),
        Kind::Delay(t) => j.delay(chrono::Duration::nanoseconds(*t)),
        Kind::Cron(e) => j.cron(e),
        Kind::CronMax(e, m) => j.job_type(JobType::new_cron(e, CronContext { max_repeat: Some(*m), ..Default::default() }).unwrap()),
        Kind::CronEnd(e, t) => j.job_type(JobType::new_cron(e, CronContext { end_at: Some(at(now_ns() + t)), ..Default::default() }).unwrap()),
        Kind::CronBoth(e, m, t) => j.job_type(JobType::new_cron(e, CronContext { max_repeat: Some(*m), end_at: Some(at(now_ns() + t)), ..Default::default() }).unwrap()),
    };
    match r {
        Rt::None => j,
        Rt::Interval(m, d) => j.retry(aj_core::Retry::new_interval_retry(*m, chrono::Duration::nanoseconds(*d))),
        Rt::Backoff(m, d) => j.set_retry(aj_core::Retry::new_exponential_backoff(*m, chrono::Duration::nanoseconds(*d))),
    }
}
fn at(ns: i64) -> chrono::DateTime<chrono::Utc> {
    chrono::DateTime::from_timestamp_nanos(ns)
}
fn next_slot(e: &str, now: i64) -> Option<i64> {
    cron::Schedule::from_str(e).ok()?.after(&at(now)).next().map(|t| t.timestamp_micros())
}
/// the job as submitted, from the request alone
fn expected_new(id: &str, script: &[i64], gate: bool, k: &Kind, r: &Rt, odd: bool) -> Value {
    let now = now_ns();
    let cr = |e: &str, max: Value, end: Value| {
        json!({"Cron": [e, next_slot(e, now).unwrap_or(now / 1000), 1, {"tick_number": 0, "max_repeat": max, "end_at": end}]})
    };
    let ty = match k {
        Kind::Normal => json!("Normal"),
        Kind::At(t) | Kind::Delay(t) => json!({ "ScheduledAt": (now + t) / 1000 }),
        Kind::Cron(e) => cr(e, Value::Null, Value::Null),
        Kind::CronMax(e, m) => cr(e, json!(m), Value::Null),
        Kind::CronEnd(e, t) => cr(e, Value::Null, json!((now + t) / 1000)),
        Kind::CronBoth(e, m, t) => cr(e, json!(m), json!((now + t) / 1000)),
    };
    let rt = match r {
        Rt::None => Value::Null,
        Rt::Interval(m, d) => json!({"retried_times": 0, "max_retries": m, "strategy": {"Interval": d / 1000}}),
        Rt::Backoff(m, d) => json!({"retried_times": 0, "max_retries": m, "strategy": {"ExponentialBackoff": d / 1000}}),
    };
    json!({
        "context": {"job_id": id, "job_type": ty, "job_status": if odd { "Finished" } else { "Queued" }, "retry": rt,
            "created_at": now / MS, "enqueue_at": null, "run_at": null, "complete_at": null,
            "cancel_at": if odd { json!(77) } else { Value::Null }, "run_count": if odd { 3 } else { 0 }},
        "data": {"id": id, "n": 0, "script": script, "gate": gate},
    })
}
fn st_of(v: &Value) -> String {
    v["context"]["job_status"].as_str().unwrap_or("?").to_string()
}
fn is_done(v: &Value) -> bool {
    matches!(st_of(v).as_str(), "Finished" | "Failed" | "Canceled")
}
/// Some(true): due, Some(false): not due, None: unspecified
fn due(v: &Value, now: i64) -> Option<bool> {
    let t = &v["context"]["job_type"];
    if let Some(x) = t.get("ScheduledAt") {
        let x = x.as_i64()? * 1000;
        return if now > x { Some(true) } else if now < x { Some(false) } else { None };
    }
    if let Some(c) = t.get("Cron") {
        let slot = c[1].as_i64()? * 1000;
        if now < slot { return Some(false); }
        if let Some(m) = c[3]["max_repeat"].as_i64() {
            if m < c[2].as_i64()? { return Some(false); }
        }
        if let Some(e) = c[3]["end_at"].as_i64() {
            if now > e * 1000 { return Some(false); }
            if now == e * 1000 { return None; }
        }
        return if now == slot { None } else { Some(true) };
    }
    Some(true)
}
/// what becomes of a job whose run has just ended, with the property that decides it
fn completed(v: &Value, now: i64) -> (Value, &'static str) {
    let mut j = v.clone();
    let rc = v["context"]["run_count"].as_i64().unwrap() + 1;
    j["context"]["run_count"] = json!(rc);
    j["data"]["n"] = json!(v["data"]["n"].as_i64().unwrap() + 10_101);
    let s: Vec<i64> = v["data"]["script"].as_array().unwrap().iter().map(|x| x.as_i64().unwrap()).collect();
    let t = TJ { script: s, ..Default::default() };
    let out = raw(&t, rc) + 1000;
    let failed = out % 2 == 1;
    if !v["context"]["retry"].is_null() && failed {
        let r = &v["context"]["retry"];
        let k = r["retried_times"].as_i64().unwrap();
        let max = r["max_retries"].as_i64();
        if max.map(|m| k < m).unwrap_or(true) {
            j["context"]["retry"]["retried_times"] = json!(k + 1);
            let delay = if let Some(i) = r["strategy"]["Interval"].as_i64() {
                i * 1000
            } else {
                let b = r["strategy"]["ExponentialBackoff"].as_i64().unwrap() * 1000;
                b * 2i64.pow((k + 1) as u32)
            };
            j["context"]["job_type"] = json!({ "ScheduledAt": (now + delay) / 1000 });
            j["context"]["job_status"] = json!("Queued");
            j["context"]["enqueue_at"] = json!(now / MS);
            return (j, "C09");
        }
    }
    let mut why = if v["context"]["retry"].is_null() { "C08" } else { "C09" };
    if let Some(c) = v["context"]["job_type"].get("Cron").cloned() {
        why = "C10";
        let next = next_slot(c[0].as_str().unwrap(), now);
        let total = c[2].as_i64().unwrap();
        let more = c[3]["max_repeat"].as_i64().map(|m| total < m).unwrap_or(true);
        let inside = match (c[3]["end_at"].as_i64(), next) { (Some(e), Some(n)) => n <= e, _ => true };
        if let (Some(n), true, true) = (next, more, inside) {
            j["context"]["job_type"] = json!({"Cron": [c[0], n, total + 1, c[3]]});
            j["context"]["job_status"] = json!("Queued");
            j["context"]["enqueue_at"] = json!(now / MS);
            return (j, why);
        }
    }
    j["context"]["job_status"] = json!(if failed { "Failed" } else { "Finished" });
    j["context"]["complete_at"] = json!(now / MS);
    (j, why)
}

// ------------------------------------------------------------------ the run
struct Q {
    addr: Addr<WorkQueue<TJ>>,
    names: Vec<String>,
    jobs: BTreeMap<String, Value>,
    max: usize,
}
struct Env {
    be: RefBackend,
    qs: Vec<Q>,
    runs: BTreeMap<String, Vec<String>>,
    notes: BTreeMap<String, Vec<String>>,
}
static PROGRESS: AtomicU64 = AtomicU64::new(0);
static CURRENT: Mutex<Vec<String>> = Mutex::new(vec![]);
static UNIQ: AtomicU64 = AtomicU64::new(0);

async fn settle() {
    let mut last = u64::MAX;
    let mut same = 0;
    let mut rounds = 0;
    while same < 40 && rounds < 4000 {
        tokio::task::yield_now().await;
        rounds += 1;
        let e = log(|l| l.events);
        if e == last { same += 1 } else { same = 0; last = e }
    }
}
fn short(v: &Value) -> String {
    serde_json::to_string(v).unwrap_or_default()
}
fn diff(want: &Value, got: &Value, why: &str, out: &mut BTreeSet<String>) {
    if got.is_null() {
        out.insert(why.into());
        out.insert("C08".into());
        return;
    }
    if want["data"] != got["data"] || want["context"]["run_count"] != got["context"]["run_count"] {
        out.insert("C08".into());
    }
    for k in ["job_type", "retry", "job_status", "enqueue_at"] {
        if want["context"][k] != got["context"][k] {
            out.insert(if k == "retry" { "C09".into() } else { why.to_string() });
            if k == "job_status" && st_of(want) != "Queued" { out.insert("C08".into()); }
        }
    }
    for k in ["created_at", "run_at", "complete_at", "cancel_at", "job_id"] {
        if want["context"][k] != got["context"][k] {
            out.insert("C08".into());
        }
    }
    if out.is_empty() {
        out.insert(why.into());
    }
}
impl Env {
    fn owner(&self, id: &str) -> usize {
        if id.starts_with('B') { 1 } else { 0 }
    }
    fn note(&mut self, id: &str, s: &str) {
        self.notes.entry(id.into()).or_default().push(s.into());
    }
    fn stored(&self, id: &str) -> Value {
        let s = self.be.s.lock().unwrap();
        s.hashes.iter().filter(|((_, k), _)| k == id).map(|(_, v)| serde_json::from_str(v).unwrap_or(Value::Null)).next().unwrap_or(Value::Null)
    }
    /// lists and stored jobs against the model; `prop` = what the last operation belongs to
    fn compare(&mut self, prop: &str, touched: Option<&str>) -> Res {
        let store = self.be.s.lock().unwrap().clone();
        let ids: BTreeSet<String> = self.qs.iter().flat_map(|q| q.jobs.keys().cloned()).collect();
        let mut got: BTreeMap<String, Value> = BTreeMap::new();
        for ((_, k), v) in &store.hashes {
            got.insert(k.clone(), serde_json::from_str(v).unwrap_or(Value::Null));
        }
        for (k, v) in &got {
            if !ids.contains(k) {
                return Err(fail(&[prop], format!("an entry for {:?} appeared: {}", k, short(v))));
            }
        }
        // lists against the stored statuses, and against the model
        for (qi, q) in self.qs.iter().enumerate() {
            for (si, s) in ST.iter().enumerate() {
                let mut l = store.q(&q.names[si]);
                l.sort();
                let sname = format!("{:?}", s);
                let listed = |v: &Value| st_of(v) == sname && *s != JobStatus::Canceled;
                let implied: Vec<String> = got.iter().filter(|(k, v)| self.owner(k) == qi && listed(v)).map(|(k, _)| k.clone()).collect();
                let want: Vec<String> = q.jobs.iter().filter(|(_, v)| listed(v)).map(|(k, _)| k.clone()).collect();
                if l != implied {
                    let p: Vec<&str> = if l != want { vec!["C06", prop] } else { vec!["C06"] };
                    return Err(fail(&p, format!("list {:?} holds {:?} but the jobs stored with that status are {:?}", q.names[si], l, implied)));
                }
            }
        }
        for l in store.queues.keys() {
            if !store.q(l).is_empty() && !self.qs.iter().any(|q| q.names.contains(l)) {
                return Err(fail(&["C06", prop], format!("items appeared in a foreign list {:?}", l)));
            }
        }
        for q in &self.qs {
            for (id, want) in &q.jobs {
                let g = got.get(id).cloned().unwrap_or(Value::Null);
                if g != *want {
                    let mut tags = BTreeSet::new();
                    if touched == Some(id.as_str()) && ["C08", "C09", "C10"].contains(&prop) {
                        diff(want, &g, prop, &mut tags);
                    } else {
                        tags.insert(prop.to_string());
                        if touched != Some(id.as_str()) && prop != "C18" { tags.insert("C06".into()); }
                    }
                    let t: Vec<&str> = tags.iter().map(|s| s.as_str()).collect();
                    return Err(fail(&t, format!("job {:?} is {} instead of {}", id, short(&g), short(want))));
                }
            }
        }
        Ok(())
    }
    fn check_logs(&self) -> Res {
        let (runs, p0, p1) = log(|l| (l.runs.clone(), l.plugin[0].clone(), l.plugin[1].clone()));
        let strip = |v: &[String]| v.iter().filter(|x| !matches!(x.as_str(), "before" | "after")).cloned().collect::<Vec<_>>();
        let ids: BTreeSet<&String> = runs.keys().chain(self.runs.keys()).chain(p0.keys()).chain(p1.keys()).chain(self.notes.keys()).collect();
        let e = vec![];
        for id in ids {
            let (g, w) = (runs.get(id).unwrap_or(&e), self.runs.get(id).unwrap_or(&e));
            if strip(g) != strip(w) {
                let mut tags = vec!["C08"];
                let st = self.qs.iter().find_map(|q| q.jobs.get(id)).map(st_of).unwrap_or_default();
                if g.len() > w.len() && st == "Canceled" { tags.push("C11"); }
                if g.len() > w.len() && st == "Queued" { tags.push("C04"); }
                return Err(fail(&tags, format!("runs of {:?} were {:?} instead of {:?}", id, g, w)));
            }
            if g != w {
                return Err(fail(&["C14"], format!("hooks around the runs of {:?}: {:?} instead of {:?}", id, g, w)));
            }
            let want = self.notes.get(id).unwrap_or(&e);
            for (i, p) in [&p0, &p1].iter().enumerate() {
                let got = p.get(id).unwrap_or(&e);
                let sel = |v: &Vec<String>, hook: bool| v.iter().filter(|x| matches!(x.as_str(), "before" | "after") == hook).cloned().collect::<Vec<_>>();
                if sel(got, true) != sel(want, true) || sel(got, false) != sel(want, false) {
                    return Err(fail(&["C14"], format!("plugin {} was told {:?} about {:?} instead of {:?}", i, got, id, want)));
                }
            }
        }
        Ok(())
    }
    fn started(&mut self, qi: usize, id: &str, now: i64) -> bool {
        let v = self.qs[qi].jobs.get_mut(id).unwrap();
        v["context"]["job_status"] = json!("Running");
        v["context"]["run_at"] = json!(now / MS);
        let rc = v["context"]["run_count"].as_i64().unwrap() + 1;
        let n = v["data"]["n"].as_i64().unwrap();
        let gate = v["data"]["gate"].as_bool().unwrap();
        self.note(id, "Running");
        self.note(id, "before");
        let l = self.runs.entry(id.into()).or_default();
        l.push("before".into());
        l.push(format!("pre run_count={} n={}", rc, n));
        l.push(format!("exec run_count={} n={}", rc, n + 100));
        gate
    }
    fn ended(&mut self, qi: usize, id: &str, now: i64) -> &'static str {
        let v = self.qs[qi].jobs[id].clone();
        let rc = v["context"]["run_count"].as_i64().unwrap() + 1;
        let n = v["data"]["n"].as_i64().unwrap();
        let s: Vec<i64> = v["data"]["script"].as_array().unwrap().iter().map(|x| x.as_i64().unwrap()).collect();
        let out = raw(&TJ { script: s, ..Default::default() }, rc);
        let l = self.runs.entry(id.into()).or_default();
        l.push(format!("post run_count={} n={} out={}", rc, n + 101, out));
        l.push("after".into());
        let (j, why) = completed(&v, now);
        self.note(id, "after");
        let s = st_of(&j);
        self.note(id, &s);
        self.qs[qi].jobs.insert(id.into(), j);
        why
    }
    async fn op(&mut self, o: &Op) -> Res {
        let now = now_ns();
        match o {
            Op::Advance(d) => {
                advance(*d);
                if now_ns() % 1_000_000_000 == 0 { advance(MS); }
                return Ok(());
            }
            Op::Until(p) => {
                advance((p - now_ns()).rem_euclid(1_000_000_000));
                return Ok(());
            }
            Op::Config(qi, max) => {
                let r = update_work_queue_config(self.qs[*qi].addr.clone(), WorkQueueConfig { process_tick_duration: Duration::from_secs(3600), max_processing_jobs: *max }).await;
                if r.is_err() { return Err(fail(&["C05"], format!("changing the configuration failed: {:?}", r))); }
                self.qs[*qi].max = *max;
                return Ok(());
            }
            Op::Submit(qi, id, script, gate, k, r, re_run, over, odd) => {
                let job = build(id, script, *gate, k, r, *odd);
                let want = expected_new(id, script, *gate, k, r, *odd);
                let sent = serde_json::to_value(&job).unwrap_or(Value::Null);
                if sent != want {
                    return Err(fail(&["C18"], format!("the built job is {} instead of {}", short(&sent), short(&want))));
                }
                match serde_json::from_value::<Job<TJ>>(sent.clone()) {
                    Ok(j) if serde_json::to_value(&j).ok() == Some(sent.clone()) => {}
                    other => return Err(fail(&["C18"], format!("{} does not survive serialization: {:?}", short(&sent), other))),
                }
                let res = enqueue_job(self.qs[*qi].addr.clone(), job, EnqueueConfig::new(*re_run, *over)).await;
                if let Err(e) = res {
                    return Err(fail(&["C13"], format!("submission failed: {:?}", e)));
                }
                settle().await;
                let old = self.qs[*qi].jobs.get(id).cloned();
                let mut prop = "C13";
                match old {
                    None => {
                        let mut j = want;
                        j["context"]["job_status"] = json!("Queued");
                        j["context"]["enqueue_at"] = json!(now / MS);
                        self.qs[*qi].jobs.insert(id.clone(), j.clone());
                        self.note(id, "Queued");
                        let g = self.stored(id);
                        if g != j && !g.is_null() { prop = "C18"; }
                    }
                    Some(e) => {
                        let mut j = e.clone();
                        if *over && st_of(&e) != "Running" {
                            j = want;
                            j["context"]["job_status"] = e["context"]["job_status"].clone();
                        }
                        if *re_run && is_done(&e) {
                            j["context"]["job_status"] = json!("Queued");
                            j["context"]["enqueue_at"] = json!(now / MS);
                            self.note(id, "Queued");
                        }
                        self.qs[*qi].jobs.insert(id.clone(), j);
                    }
                }
                let p = prop;
                self.compare(p, Some(id)).map_err(|mut f| { if p == "C18" && f.props.contains(&"C18".to_string()) { f.props.push("C13".into()); } f })?;
            }
            Op::Cancel(qi, id) => {
                let res = cancel_job(self.qs[*qi].addr.clone(), id.clone()).await;
                settle().await;
                if let Err(e) = res { return Err(fail(&["C11"], format!("cancel failed: {:?}", e))); }
                if let Some(v) = self.qs[*qi].jobs.get_mut(id) {
                    if st_of(v) == "Queued" {
                        v["context"]["job_status"] = json!("Canceled");
                        v["context"]["cancel_at"] = json!(now / MS);
                        self.note(id, "Canceled");
                    }
                }
                self.compare("C11", Some(id))?;
            }
            Op::Retry(qi, id) => {
                let res = retry_job(self.qs[*qi].addr.clone(), id).await;
                settle().await;
                let mut want = false;
                if let Some(v) = self.qs[*qi].jobs.get_mut(id) {
                    if is_done(v) {
                        v["context"]["job_status"] = json!("Queued");
                        v["context"]["enqueue_at"] = json!(now / MS);
                        want = true;
                        self.note(id, "Queued");
                    }
                }
                if res.as_ref().ok() != Some(&want) {
                    return Err(fail(&["C12"], format!("retry of {:?} answered {:?} instead of {}", id, res, want)));
                }
                self.compare("C12", Some(id))?;
            }
            Op::Get(qi, id) => {
                let got = get_job(self.qs[*qi].addr.clone(), id).await;
                let g = got.map(|j| serde_json::to_value(&j).unwrap()).unwrap_or(Value::Null);
                let w = self.qs[*qi].jobs.get(id).cloned().unwrap_or(Value::Null);
                if g != w { return Err(fail(&["C03", "C18"], format!("get_job({:?}) is {} instead of {}", id, short(&g), short(&w)))); }
                self.compare("C03", None)?;
            }
            Op::Release(id) => {
                let qi = self.owner(id);
                let Some(v) = self.qs[qi].jobs.get(id) else { return Ok(()) };
                if st_of(v) != "Running" || !v["data"]["gate"].as_bool().unwrap() { return Ok(()) }
                log(|l| l.gates.entry(id.clone()).or_default().clone()).notify_one();
                settle().await;
                let why = self.ended(qi, id, now);
                self.compare(why, Some(id))?;
            }
            Op::Tick(qi) => {
                let before = log(|l| l.runs.iter().map(|(k, v)| (k.clone(), v.len())).collect::<HashMap<_, _>>());
                if self.qs[*qi].addr.send(Tick).await.is_err() {
                    return Err(fail(&["C07"], "the queue died during a tick".into()));
                }
                settle().await;
                let q = &self.qs[*qi];
                let waiting: Vec<String> = q.jobs.iter().filter(|(_, v)| st_of(v) == "Queued").map(|(k, _)| k.clone()).collect();
                let running = q.jobs.values().filter(|v| st_of(v) == "Running").count();
                let room = q.max.saturating_sub(running);
                let begun: Vec<String> = log(|l| l.runs.iter().filter(|(k, v)| {
                    let b = before.get(*k).copied().unwrap_or(0);
                    v[b.min(v.len())..].iter().any(|e| e.starts_with("exec"))
                }).map(|(k, _)| k.clone()).collect());
                for id in &begun {
                    if !waiting.contains(id) {
                        let st = self.qs.iter().find_map(|q| q.jobs.get(id)).map(st_of).unwrap_or_default();
                        let mut t = vec!["C08", "C06"];
                        if st == "Canceled" { t.push("C11"); }
                        return Err(fail(&t, format!("a tick of queue {} ran {:?}, which was {:?}", qi, id, st)));
                    }
                    if due(&q.jobs[id], now) == Some(false) {
                        return Err(fail(&["C04"], format!("{:?} was started at {} although not due: {}", id, now, short(&q.jobs[id]["context"]["job_type"]))));
                    }
                }
                if begun.len() > room {
                    return Err(fail(&["C05"], format!("{} jobs running, limit {}, and the tick started {:?}", running, q.max, begun)));
                }
                let missing: Vec<&String> = waiting.iter().filter(|id| due(&q.jobs[*id], now) == Some(true) && !begun.contains(id)).collect();
                if !missing.is_empty() && begun.len() < room {
                    return Err(fail(&["C07"], format!("{:?} due but not started (running {}, limit {}, started {:?})", missing, running, q.max, begun)));
                }
                let mut whys = vec![];
                for id in &begun {
                    if !self.started(*qi, id, now) { whys.push((self.ended(*qi, id, now), id.clone())); }
                }
                // of the jobs that ran to their end, compare one by one
                for (why, id) in &whys {
                    let g = self.stored(id);
                    let w = self.qs[*qi].jobs[id].clone();
                    if g != w {
                        let mut tags = BTreeSet::new();
                        diff(&w, &g, why, &mut tags);
                        let t: Vec<&str> = tags.iter().map(|s| s.as_str()).collect();
                        return Err(fail(&t, format!("after its run, job {:?} is {} instead of {}", id, short(&g), short(&w))));
                    }
                }
                for id in &begun {
                    let (g, w) = (self.stored(id), self.qs[*qi].jobs[id].clone());
                    if g != w { return Err(fail(&["C08"], format!("started job {:?} is {} instead of {}", id, short(&g), short(&w)))); }
                }
                self.compare("C07", None)?;
            }
        }
        self.check_logs()
    }
}
async fn env() -> Env {
    let be = RefBackend::default();
    let u = UNIQ.fetch_add(1, Ordering::SeqCst);
    // names that are easily confused
    let mut qs = vec![];
    let pairs = [["q", "q2"], ["q", "q:queue"], ["q", "Q"], ["a b", "a  b"], ["jobs", "jobs "], ["aj-jobs", "aj_jobs"], ["ü", "u"], ["q:queue:Queued", "q"]];
    for name in pairs[u as usize % pairs.len()].map(|s| s.to_string()) {
        let w = WorkQueue::<TJ>::new(name, Arc::new(be.clone()));
        let names: Vec<String> = ST.iter().map(|s| w.format_queue_name(*s)).collect();
        let addr = w.start();
        let _ = update_work_queue_config(addr.clone(), WorkQueueConfig { process_tick_duration: Duration::from_secs(3600), max_processing_jobs: 20 }).await;
        qs.push(Q { addr, names, jobs: BTreeMap::new(), max: 20 });
    }
    log(|l| { let e = l.events; *l = Log::default(); l.events = e + 1; });
    Env { be, qs, runs: BTreeMap::new(), notes: BTreeMap::new() }
}
async fn history(ops: &[Op]) -> Res {
    set_now(T0);
    let mut e = env().await;
    let mut h: Vec<String> = vec![];
    for o in ops {
        h.push(format!("{:?}", o));
        PROGRESS.fetch_add(1, Ordering::SeqCst);
        *CURRENT.lock().unwrap() = h.clone();
        if let Err(mut f) = e.op(o).await {
            f.history = h;
            drain(&e).await;
            return Err(f);
        }
    }
    drain(&e).await;
    Ok(())
}
/// let gated jobs go so that nothing is left behind
async fn drain(e: &Env) {
    let g: Vec<_> = log(|l| l.gates.values().cloned().collect());
    for x in g { x.notify_one(); }
    let _ = e;
    settle().await;
}
const CRONS: [&str; 5] = ["* * * * * * *", "*/2 * * * * * *", "0 * * * * * *", "* * * * * * 2023", "30 14 22 14 11 * 2023"];
fn gen_kind(r: &mut Rng) -> Kind {
    let t = |r: &mut Rng| *r.pick(&[-7_000_500_000i64, -500_000, 500_000, 1_500_000, 20_500_000, 999_500_000, 3_000_500_000, 90_000_500_000, -1_000, 3_000, 877_000_000, 1_877_000_000, 2_877_000_000, 3_877_000_000]);
    match r.below(11) {
        0..=3 => Kind::Normal,
        10 => Kind::CronBoth(r.pick(&CRONS[..3]).to_string(), *r.pick(&[1, 2, 3, 40]), *r.pick(&[-500_000i64, 500_000, 1_500_500_000, 3_500_500_000])),
        4 => Kind::At(t(r)),
        5 => Kind::Delay(t(r)),
        6 => Kind::Cron(r.pick(&CRONS).to_string()),
        7 => Kind::CronMax(r.pick(&CRONS[..3]).to_string(), *r.pick(&[-1, 0, 1, 2, 3])),
        8 => Kind::CronEnd(r.pick(&CRONS[..3]).to_string(), *r.pick(&[-500_000i64, 500_000, 1_500_500_000, 2_500_500_000, 9_000_500_000])),
        _ => Kind::At(500_000),
    }
}
fn gen_retry(r: &mut Rng) -> Rt {
    let m = *r.pick(&[None, Some(0), Some(1), Some(2), Some(5), Some(-1)]);
    let any = (r.below(4_000_000_000) as i64) * 1_000;
    let d = *r.pick(&[1_500_000i64, 100_500_000, 2_000_500_000, 1_000, 0 + 3_000, 61_500_500_000, any]);
    match r.below(5) {
        0 => Rt::Interval(m, d),
        1 => Rt::Backoff(m, d),
        _ => Rt::None,
    }
}
const IDS: [[&str; 4]; 4] = [["0", "1", "2", "3"], ["0", "1", "2", "3"], ["x", "X", "x ", " x"], ["", "é", "e", "0123456789012345678901234567890123456789012345678901234567890123456789/:?*"]];
fn gen(r: &mut Rng, ids: usize, focus: &str, set: usize) -> Op {
    let id = |r: &mut Rng, qi: usize| format!("{}{}", if qi == 0 { "A" } else { "B" }, IDS[set][r.below(ids)]);
    let qi = if r.chance(85) { 0 } else { 1 };
    let w: [usize; 8] = match focus {
        "C11" => [5, 5, 1, 1, 4, 2, 3, 1],
        "C12" => [4, 2, 6, 1, 5, 3, 3, 1],
        "C13" => [9, 2, 1, 1, 5, 3, 3, 1],
        "C05" | "C07" => [8, 1, 1, 0, 6, 3, 3, 3],
        _ => [5, 1, 1, 1, 6, 3, 5, 1],
    };
    let mut x = r.below(w.iter().sum());
    let mut k = 0;
    while x >= w[k] { x -= w[k]; k += 1; }
    match k {
        0 => {
            let i = id(r, qi);
            let kind = gen_kind(r);
            let rt = if matches!(kind, Kind::Cron(_) | Kind::CronMax(..) | Kind::CronEnd(..) | Kind::CronBoth(..)) { Rt::None } else { gen_retry(r) };
            let script: Vec<i64> = (0..r.below(4)).map(|_| if r.chance(if matches!(rt, Rt::None) { 35 } else { 75 }) { *r.pick(&[1, 1, 501]) } else { *r.pick(&[2, 2, 502]) }).collect();
            let (re, ov) = if r.chance(45) { (true, true) } else { (r.chance(50), r.chance(50)) };
            Op::Submit(qi, i, script, r.chance(45), kind, rt, re, ov, r.chance(8))
        }
        1 => { let i = id(r, qi); Op::Cancel(qi, i) }
        2 => { let i = id(r, qi); Op::Retry(qi, i) }
        3 => { let i = id(r, qi); Op::Get(qi, i) }
        4 => Op::Tick(qi),
        5 => { let i = id(r, qi); Op::Release(i) }
        6 if r.chance(30) => Op::Until(*r.pick(&[999_999_000i64, 999_000_000, 980_000_000, 900_000_000, 500_000_000, 1_000, 5_000_000])),
        6 => Op::Advance(*r.pick(&[MS, 2 * MS, 200 * MS, 1000 * MS, 1000 * MS, 2001 * MS, 61_000 * MS, 7 * MS])),
        _ => Op::Config(qi, *r.pick(&[0, 1, 1, 2, 3, 20])),
    }
}
/// many waiting jobs
fn gen_big(r: &mut Rng) -> Vec<Op> {
    let n = *r.pick(&[18usize, 20, 21, 25, 39, 41, 60]);
    let mut ops = vec![Op::Config(0, *r.pick(&[1usize, 3, 20, 25, 50, 100]))];
    let wait = r.below(n + 1);
    for i in 0..n {
        let k = if i < wait { Kind::At(*r.pick(&[3_000_500_000i64, 500_000])) } else if r.chance(70) { Kind::Normal } else { Kind::At(*r.pick(&[-500_000i64, 1_500_000, 90_000_500_000])) };
        ops.push(Op::Submit(0, format!("A{:02}", i), vec![r.below(2) as i64], r.chance(60), k, Rt::None, true, true, false));
    }
    for _ in 0..5 {
        ops.push(Op::Tick(0));
        for _ in 0..r.below(12) { ops.push(Op::Release(format!("A{:02}", r.below(n)))); }
        ops.push(Op::Advance(*r.pick(&[2 * MS, 4000 * MS])));
        if r.chance(30) { ops.push(Op::Config(0, *r.pick(&[0usize, 1, 2, 20, 30]))); }
        if r.chance(30) { ops.push(Op::Cancel(0, format!("A{:02}", r.below(n)))); }
    }
    ops.push(Op::Tick(0));
    ops
}
/// fixed histories that walk through every status with every operation
fn walks() -> Vec<Vec<Op>> {
    let mut v = vec![];
    let s = |g: bool, sc: Vec<i64>, k: Kind, r: Rt, re: bool, ov: bool| Op::Submit(0, "A0".into(), sc, g, k, r, re, ov, false);
    let reach: Vec<Vec<Op>> = vec![
        vec![],
        vec![s(false, vec![2], Kind::Normal, Rt::None, true, true)],
        vec![s(false, vec![2], Kind::At(3_000_500_000), Rt::None, true, true)],
        vec![s(true, vec![2], Kind::Normal, Rt::None, true, true), Op::Tick(0)],
        vec![s(false, vec![2], Kind::Normal, Rt::None, true, true), Op::Tick(0)],
        vec![s(false, vec![1], Kind::Normal, Rt::None, true, true), Op::Tick(0)],
        vec![s(false, vec![2], Kind::Normal, Rt::None, true, true), Op::Cancel(0, "A0".into())],
        vec![s(false, vec![1, 2], Kind::Normal, Rt::Interval(Some(2), 1_500_000), true, true), Op::Tick(0)],
        vec![s(false, vec![1, 2], Kind::Cron(CRONS[0].into()), Rt::None, true, true), Op::Advance(1000 * MS), Op::Tick(0)],
    ];
    let tail = |h: &mut Vec<Op>| {
        h.push(Op::Get(0, "A0".into()));
        h.push(Op::Tick(0));
        h.push(Op::Release("A0".into()));
        h.push(Op::Advance(4001 * MS));
        h.push(Op::Tick(0));
        h.push(Op::Release("A0".into()));
        h.push(Op::Advance(1001 * MS));
        h.push(Op::Tick(0));
    };
    for r in &reach {
        for (re, ov) in [(false, false), (false, true), (true, false), (true, true)] {
            for k in [Kind::Normal, Kind::At(2_000_500_000)] {
                let mut h = r.clone();
                h.push(Op::Advance(MS));
                h.push(s(true, vec![2, 1], k, Rt::None, re, ov));
                tail(&mut h);
                v.push(h);
            }
        }
        for o in [Op::Cancel(0, "A0".into()), Op::Retry(0, "A0".into()), Op::Cancel(0, "A1".into()), Op::Retry(0, "A1".into()), Op::Get(0, "A1".into())] {
            let mut h = r.clone();
            h.push(Op::Advance(MS));
            h.push(o.clone());
            h.push(o);
            tail(&mut h);
            v.push(h);
        }
    }
    // retries to the end
    for rt in [Rt::Interval(Some(3), 2_000_500_000), Rt::Backoff(Some(4), 1_500_000), Rt::Backoff(None, 1_500_000), Rt::Interval(Some(0), 1_500_000), Rt::Interval(None, 1_500_000)] {
        for sc in [vec![1], vec![1, 501, 2], vec![2], vec![501, 502]] {
            let mut h = vec![s(false, sc, Kind::Normal, rt.clone(), true, true)];
            for _ in 0..7 {
                h.push(Op::Tick(0));
                h.push(Op::Advance(MS));
                h.push(Op::Tick(0));
                h.push(Op::Advance(2000 * MS));
            }
            v.push(h);
        }
    }
    // runs that end just before and after a slot
    for p in [999_999_000i64, 999_000_000, 995_000_000, 975_000_000, 955_000_000, 905_000_000, 800_000_000, 505_000_000, 1_000, 5_000_000, 400_000_000] {
        for k in [Kind::Cron(CRONS[0].into()), Kind::Cron(CRONS[1].into()), Kind::CronMax(CRONS[0].into(), 2)] {
            let mut h = vec![s(true, vec![2], k, Rt::None, true, true)];
            for _ in 0..3 {
                h.push(Op::Advance(2001 * MS));
                h.push(Op::Tick(0));
                h.push(Op::Until(p));
                h.push(Op::Release("A0".into()));
            }
            v.push(h);
        }
    }
    // recurrence to the end
    for k in [Kind::CronMax(CRONS[0].into(), 3), Kind::CronMax(CRONS[1].into(), 1), Kind::CronMax(CRONS[1].into(), 0), Kind::CronEnd(CRONS[0].into(), 3_200_500_000), Kind::CronEnd(CRONS[1].into(), 3_900_500_000), Kind::CronEnd(CRONS[0].into(), 2_877_000_000), Kind::CronEnd(CRONS[0].into(), 3_877_000_000), Kind::CronEnd(CRONS[1].into(), 4_877_000_000), Kind::CronEnd(CRONS[1].into(), 5_877_000_000), Kind::CronBoth(CRONS[0].into(), 9, 3_200_500_000), Kind::CronBoth(CRONS[0].into(), 2, 9_200_500_000), Kind::Cron(CRONS[2].into()), Kind::Cron(CRONS[4].into())] {
        for g in [false, true] {
            for sc in [vec![2], vec![1], vec![1, 2]] {
                let mut h = vec![s(g, sc, k.clone(), Rt::None, true, true)];
                for i in 0..7 {
                    h.push(Op::Advance(if i % 2 == 0 { 1001 * MS } else { 400 * MS }));
                    h.push(Op::Tick(0));
                    if i % 3 == 1 { h.push(Op::Advance(2500 * MS)); }
                    h.push(Op::Release("A0".into()));
                }
                h.push(Op::Advance(60_000 * MS));
                h.push(Op::Tick(0));
                h.push(Op::Release("A0".into()));
                v.push(h);
            }
        }
    }
    v
}
// ------------------------------------------------------------------ values
fn values(a: &Args, st: &mut Stats) -> Res {
    let mut r = Rng(a.seed ^ 5);
    set_now(T0);
    if a.wants(&["C18"]) {
        // every new job has an id of its own, whoever makes it and when
        let ids: Vec<Vec<String>> = (0..4).map(|_| std::thread::spawn(|| (0..75_000).map(|_| Job::new(TJ::default()).id().to_string()).collect())).collect::<Vec<_>>().into_iter().map(|t| t.join().unwrap_or_default()).collect();
        let n: usize = ids.iter().map(|v| v.len()).sum();
        let mut seen = std::collections::HashSet::new();
        for id in ids.iter().flatten() {
            if !seen.insert(id) { return Err(fail(&["C18"], format!("two of {} new jobs have the id {:?}", n, id))); }
        }
        st.case("fresh ids", true);
    }
    for i in 0..3000 {
        if a.wants(&["C09"]) {
            let max = *r.pick(&[None, Some(0), Some(1), Some(3), Some(i32::MAX), Some(-2)]);
            let any = r.below([100, 10_000_000, 100_000_000_000, 1_000_000_000_000_000][i % 4]) as i64;
            let d = *r.pick(&[0i64, 1, 1500, 1_000_000, 86_400_000_000, 400_000_000_000_000, 61_500_500, any, any]);
            let k0 = *r.pick(&[0, 0, 1, 2, 29, 30, 31, 40, 62, 200, i32::MAX - 1]);
            let exp = r.chance(60);
            let du = chrono::Duration::microseconds(d);
            let mut rt = aj_core::Retry::new(k0, max, if exp { RetryStrategy::ExponentialBackoff(du) } else { RetryStrategy::Interval(du) });
            let base = if r.chance(50) { Some(at(T0 - 5_000_000_000)) } else { None };
            let start = base.unwrap_or(at(T0)).timestamp_micros() as i128;
            let text = format!("retry {} max {:?} delay {}us exp {} base {:?}", k0, max, d, exp, base);
            st.case(&text, true);
            let want = max.map(|m| k0 < m).unwrap_or(true);
            if rt.should_retry() != want {
                return Err(fail(&["C09"], format!("{}: should_retry is {}", text, !want)));
            }
            let got = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| rt.retry_at(base)));
            let Ok(got) = got else { return Err(fail(&["C09"], format!("{}: retry_at panicked", text))) };
            let n = (k0 as i128) + 1;
            let delay = if exp { if n >= 31 { d as i128 * i32::MAX as i128 } else { d as i128 * (1i128 << n) } } else { d as i128 };
            let limit = chrono::DateTime::<chrono::Utc>::MAX_UTC.timestamp_micros() as i128;
            let g = got.timestamp_micros() as i128;
            // exact while the delay is representable, otherwise far away
            if start + delay < limit && n < 31 && g != start + delay {
                return Err(fail(&["C09"], format!("{}: next attempt {} instead of {}", text, g, start + delay)));
            }
            if g < start + (d as i128).min(1) && d > 0 {
                return Err(fail(&["C09"], format!("{}: next attempt {} is before {}", text, g, start)));
            }
            let v = serde_json::to_value(&rt).unwrap();
            if v["retried_times"].as_i64() != Some((k0 as i64 + 1).min(i32::MAX as i64)) || v["max_retries"] != json!(max) {
                return Err(fail(&["C09"], format!("{}: after one retry the state is {}", text, v)));
            }
        }
        if a.wants(&["C04", "C07"]) {
            // readiness, over schedules and clock readings
            set_now(T0);
            let off = [-3_000_500_000i64, -1_000_000_000, -500_000, -1_000, 1_000, 500_000, 877_001_000, 1_500_500_000, 3_000_500_000];
            let k = match r.below(7) {
                0 => Kind::At(*r.pick(&off)),
                1 => Kind::Delay(*r.pick(&off)),
                2 => Kind::Cron(r.pick(&CRONS).to_string()),
                3 => Kind::CronMax(r.pick(&CRONS).to_string(), *r.pick(&[-1, 0, 1, 2])),
                4 => Kind::CronEnd(r.pick(&CRONS).to_string(), *r.pick(&off)),
                _ => Kind::CronBoth(r.pick(&CRONS).to_string(), *r.pick(&[0, 1, 2, 9]), *r.pick(&off)),
            };
            let j = build("A0", &[], false, &k, &Rt::None, false);
            let v = serde_json::to_value(&j).unwrap();
            let mut ds = vec![0i64, 400_000, 877_000_000, 877_001_000, 1_000_000_000, 1_600_000_000, 4_000_000_000, 70_000_000_000];
            // and around every moment the job names
            let t = &v["context"]["job_type"];
            for m in [&t["ScheduledAt"], &t["Cron"][1], &t["Cron"][3]["end_at"]].into_iter().filter_map(|x| x.as_i64()) {
                for e in [1_000i64, 500_000, 1_000_000, 20_000_000, 100_000_000, 999_000_000, 1_000_000_000, 30_000_000_000] {
                    ds.push(m * 1000 - T0 - e);
                    ds.push(m * 1000 - T0 + e);
                }
            }
            for d in ds {
                set_now(T0 + d);
                let (got, want) = (j.is_ready(), due(&v, T0 + d));
                st.case(&format!("ready {:?} +{}", k, d), true);
                if want.is_some() && Some(got) != want {
                    let p = if got { "C04" } else { "C07" };
                    set_now(T0);
                    return Err(fail(&[p], format!("{} ns after its creation, a job built with {:?} (type {}) is {}", d, k, short(&v["context"]["job_type"]), if got { "ready although not due" } else { "due but not ready" })));
                }
            }
            set_now(T0);
        }
        if a.wants(&["C18", "C10"]) {
            // builder calls are independent of each other, in any order
            let mut j = Job::new(TJ::default());
            let mut w = serde_json::to_value(&j).unwrap();
            let mut text = String::new();
            for _ in 0..1 + r.below(5) {
                let k = r.below(6);
                text.push_str(&format!("{} ", ["id", "schedule_at", "delay", "cron", "retry", "context"][k]));
                match k {
                    0 => { let s = r.pick(&[format!("id-{}", i), format!("ID-{} ", i), format!(" {}", i), String::new(), format!("é{}\n", i), "x".repeat(300)]).clone(); j = j.set_id(s.clone()); w["context"]["job_id"] = json!(s); }
                    1 => { let t = T0 + 17_000_000; j = j.schedule_at(at(t)); w["context"]["job_type"] = json!({ "ScheduledAt": t / 1000 }); }
                    2 => { j = j.delay(chrono::Duration::milliseconds(250)); w["context"]["job_type"] = json!({ "ScheduledAt": (T0 + 250 * MS) / 1000 }); }
                    3 => {
                        let e = r.pick(&CRONS).to_string();
                        j = j.cron(&e);
                        w["context"]["job_type"] = expected_new("x", &[], false, &Kind::Cron(e), &Rt::None, false)["context"]["job_type"].clone();
                    }
                    4 => { j = j.retry(aj_core::Retry::new_interval_retry(Some(2), chrono::Duration::milliseconds(9))); w["context"]["retry"] = json!({"retried_times": 0, "max_retries": 2, "strategy": {"Interval": 9000}}); }
                    _ => {
                        let mut c = JobContext::new("ctx".into());
                        c.run_count = 4;
                        c.job_status = JobStatus::Failed;
                        w["context"] = serde_json::to_value(&c).unwrap();
                        j = j.set_context(c);
                    }
                }
            }
            st.case(&text, true);
            let g = serde_json::to_value(&j).unwrap();
            if g != w {
                return Err(fail(&["C18"], format!("building with {}gives {} instead of {}", text, g, w)));
            }
            let k = ["x", "y z", "", "* * * * * * *", "*/5 * * * * * *", "61 * * * * * *"];
            let e = *r.pick(&k);
            let ok = cron::Schedule::from_str(e).is_ok();
            if JobType::new_cron(e, CronContext::default()).is_ok() != ok {
                return Err(fail(&["C10", "C18"], format!("cron expression {:?} is {}", e, if ok { "rejected" } else { "accepted" })));
            }
        }
    }
    Ok(())
}
/// a type with its own idea of retrying and no hooks of its own
#[derive(Clone, Debug, Serialize, Deserialize, Default)]
struct TK {
    id: String,
}
#[async_trait::async_trait]
impl Executable for TK {
    type Output = i64;
    async fn execute(&mut self, c: &JobContext) -> i64 {
        run_event(&self.id, format!("exec run_count={}", c.run_count));
        7
    }
    async fn retry_at(&self, rc: &mut aj_core::Retry, out: i64) -> Option<chrono::DateTime<chrono::Utc>> {
        if out == 7 && rc.should_retry() {
            rc.retry_at(None);
            Some(at(T0 + 5_000_000_000))
        } else {
            None
        }
    }
}
impl Handler<Tick> for WorkQueue<TK> {
    type Result = ();
    fn handle(&mut self, _: Tick, ctx: &mut Context<Self>) {
        self.process_jobs(ctx);
    }
}
async fn own_retry(st: &mut Stats) -> Res {
    set_now(T0);
    let be = RefBackend::default();
    log(|l| { let e = l.events; *l = Log::default(); l.events = e + 1; });
    let w = WorkQueue::<TK>::new("k".into(), Arc::new(be.clone()));
    let addr = w.start();
    let _ = update_work_queue_config(addr.clone(), WorkQueueConfig { process_tick_duration: Duration::from_secs(3600), max_processing_jobs: 2 }).await;
    let job = Job::new(TK { id: "k1".into() }).set_id("k1".into()).retry(aj_core::Retry::new_interval_retry(Some(1), chrono::Duration::seconds(1)));
    let _ = enqueue_job(addr.clone(), job, EnqueueConfig::new_re_run()).await;
    let mut seen = vec![];
    for step in 0..4 {
        let _ = addr.send(Tick).await;
        settle().await;
        let j = get_job(addr.clone(), "k1").await;
        seen.push(j.map(|j| format!("{:?} {:?} runs {}", j.context.job_status, j.context.job_type, j.context.run_count)).unwrap_or_default());
        advance(if step == 1 { 6_000_000_000 } else { 1_500_000_000 });
    }
    st.case("own retry_at", true);
    let q = format!("Queued {:?} runs 1", JobType::ScheduledAt(at(T0 + 5_000_000_000)));
    let f = format!("Finished {:?} runs 2", JobType::ScheduledAt(at(T0 + 5_000_000_000)));
    if seen != vec![q.clone(), q, f.clone(), f] {
        return Err(fail(&["C09"], format!("a job type with its own retry_at went through {:?}", seen)));
    }
    Ok(())
}
/// ticks come in the configured period, whatever the backend does
async fn period(st: &mut Stats) -> Res {
    let be = RefBackend::default();
    let addr = WorkQueue::<TK>::new("ticks".into(), Arc::new(be.clone())).start();
    let mut n = 0u64;
    // (a failed operation counts too: at least one per tick)
    for (ms, failing, rounds) in [(400u64, false, 3), (300, true, 3), (3, false, 40), (3, true, 40)] {
        let _ = update_work_queue_config(addr.clone(), WorkQueueConfig { process_tick_duration: Duration::from_millis(ms), max_processing_jobs: 2 }).await;
        be.fail_next.store(if failing { u64::MAX } else { 0 }, Ordering::SeqCst);
        if n == 0 { let _ = addr.send(Tick).await; }
        n += 1;
        let mut seen = be.ops.load(Ordering::SeqCst);
        let mut gaps = vec![];
        let mut last: Option<std::time::Instant> = None;
        let t0 = std::time::Instant::now();
        // the first gap may still be of the period before
        while gaps.len() < rounds && t0.elapsed().as_secs() < 15 {
            tokio::time::sleep(Duration::from_millis(1)).await;
            let o = be.ops.load(Ordering::SeqCst);
            if o != seen {
                seen = o;
                let now = std::time::Instant::now();
                if let Some(l) = last { gaps.push(now - l); }
                last = Some(now);
            }
        }
        PROGRESS.fetch_add(1, Ordering::SeqCst);
        st.case(&format!("period of {} ms, backend {}", ms, if failing { "failing" } else { "working" }), true);
        if gaps.len() < rounds {
            return Err(fail(&["C07"], format!("period of {} ms, backend {}: only {} ticks in {:?}", ms, if failing { "failing" } else { "working" }, gaps.len() + last.is_some() as usize, t0.elapsed())));
        }
        let min = gaps.iter().skip(1).min().unwrap();
        let mid = { let mut g = gaps.clone(); g.sort(); g[g.len() / 2] };
        if ms >= 100 && mid < Duration::from_millis(ms - 60) || ms < 100 && *min > Duration::from_millis(60) {
            return Err(fail(&["C07"], format!("period of {} ms: the ticks were {:?} apart", ms, gaps)));
        }
    }
    let _ = update_work_queue_config(addr.clone(), WorkQueueConfig { process_tick_duration: Duration::from_secs(3600), max_processing_jobs: 0 }).await;
    Ok(())
}
/// a pass over the waiting jobs with operations of the backend failing: still only due jobs, never above the limit
async fn faults(seed: u64, st: &mut Stats) -> Res {
    let mut r = Rng(seed ^ 77);
    for i in 0..1500 {
        let be = RefBackend::default();
        set_now(T0);
        let q = WorkQueue::<TJ>::new("faulty".into(), Arc::new(be.clone()));
        let busy = q.format_queue_name(JobStatus::Running);
        let waiting = r.below(26) + 1;
        for k in 0..waiting {
            let kind = if r.chance(70) { Kind::Normal } else { Kind::At(3_600_000_000_000) };
            let _ = q.run_with_config(build(&format!("w{}", k), &[], false, &kind, &Rt::None, false), EnqueueConfig::new(false, false));
        }
        let before = *r.pick(&[0usize, 1, 15, 18, 19, 20, 23]);
        for k in 0..before {
            be.s.lock().unwrap().push(&busy, &format!("r{}", k));
        }
        advance(1_000_000);
        let mask = match i % 4 {
            0 => 1u64 << (i / 4 % 64),
            1 => !0u64 << r.below(60),
            2 => (1u64 << r.below(64)) | (1u64 << r.below(64)) | (1u64 << r.below(64)),
            _ => r.next() & r.next(),
        };
        let late = r.chance(50);
        be.fail_late.store(late, Ordering::SeqCst);
        be.fail_mask.store(mask, Ordering::SeqCst);
        let res = q.pick_jobs_to_process();
        be.fail_mask.store(0, Ordering::SeqCst);
        let text = format!("{} waiting, {} in progress, limit 20, backend operations failing (mask of the operations of the pass) {:#b}{}", waiting, before, mask, if late { " after their effect" } else { "" });
        st.case(&text, true);
        let now = be.s.lock().unwrap().q(&busy).len();
        if now > before.max(20) {
            return Err(fail(&["C05"], format!("{}: {} jobs in progress after the tick", text, now)));
        }
        if let Ok(jobs) = res {
            if !jobs.is_empty() && before + jobs.len() > 20 {
                return Err(fail(&["C05"], format!("{}: {} jobs started", text, jobs.len())));
            }
            if let Some(j) = jobs.iter().find(|j| matches!(j.context.job_type, JobType::ScheduledAt(_))) {
                return Err(fail(&["C04"], format!("{}: started {} which is due in an hour", text, j.id())));
            }
            let all: BTreeSet<&str> = jobs.iter().map(|j| j.id()).collect();
            if all.len() != jobs.len() {
                return Err(fail(&["C08"], format!("{}: a job is started twice in one tick", text)));
            }
        }
        tokio::task::yield_now().await;
    }
    Ok(())
}
/// C21: a call on a job in any state while some of its backend operations fail
async fn honest(seed: u64, st: &mut Stats) -> Res {
    let mut r = Rng(seed ^ 2121);
    const STATES: [&str; 6] = ["unknown", "waiting", "running", "finished", "failed", "cancelled"];
    for i in 0..6 * 8 * 24 {
        let be = RefBackend::default();
        set_now(T0);
        let q = WorkQueue::<TJ>::new("honest".into(), Arc::new(be.clone()));
        let mk = |n: i64| { let mut j = build("x", &[], false, &Kind::Normal, &Rt::None, false); j.data.n = n; j };
        let state = STATES[i % 6];
        if state != "unknown" {
            let _ = q.run_with_config(mk(1), EnqueueConfig::new(true, true));
            advance(1_000_000);
            if state == "cancelled" { let _ = q.cancel_job("x"); }
            if ["running", "finished", "failed"].contains(&state) {
                let j = q.pick_jobs_to_process().ok().and_then(|mut v| v.pop());
                match (j, state) {
                    (Some(j), "finished") => { let _ = q.mark_job_is_finished(j); }
                    (Some(j), "failed") => { let _ = q.mark_job_is_failed(j); }
                    _ => {}
                }
            }
        }
        let op = i / 6 % 8;
        let k = i / 48;
        let mask = if k < 8 { 1u64 << k } else if k < 12 { !0u64 << (k - 8) } else { r.next() & r.next() };
        let late = k >= 12 && r.chance(50);
        be.fail_late.store(late, Ordering::SeqCst);
        let before = be.failed.load(Ordering::SeqCst);
        be.fail_mask.store(mask, Ordering::SeqCst);
        let (what, ok) = match op {
            0..=3 => (format!("submission with re_run {} and override_data {}", op & 1 == 1, op & 2 == 2), q.run_with_config(mk(2), EnqueueConfig::new(op & 1 == 1, op & 2 == 2)).is_ok()),
            4 => ("cancellation".into(), q.cancel_job("x").is_ok()),
            5 => ("retry".into(), q.retry_job("x").is_ok()),
            6 => ("lookup".into(), q.get_job("x").is_ok()),
            _ => ("read".into(), q.read_job("x").is_ok()),
        };
        be.fail_mask.store(0, Ordering::SeqCst);
        let failed = be.failed.load(Ordering::SeqCst) - before;
        let text = format!("{} of a {} job, backend operations failing (mask of the operations of the call) {:#b}{}", what, state, mask, if late { " after their effect" } else { "" });
        st.case(&text, failed > 0);
        if ok && failed > 0 {
            return Err(fail(&["C21"], format!("{}: {} of them failed, and the call reports success", text, failed)));
        }
        tokio::task::yield_now().await;
    }
    Ok(())
}
/// the recorded finding: a failing recurring job with a retry policy loses its schedule
async fn finding() -> bool {
    set_now(T0);
    let e = env().await;
    let job = Job::new(TJ { id: "A0".into(), n: 0, script: vec![1, 2], gate: false }).set_id("A0".into()).cron(CRONS[0]).retry(aj_core::Retry::new_interval_retry(Some(3), chrono::Duration::milliseconds(1)));
    let _ = enqueue_job(e.qs[0].addr.clone(), job, EnqueueConfig::new_re_run()).await;
    for _ in 0..3 {
        advance(1001 * MS);
        let _ = e.qs[0].addr.send(Tick).await;
        settle().await;
    }
    st_of(&e.stored("A0")) == "Finished"
}
fn main() {
    quiet_panics();
    let a = args();
    let mut st = Stats::new("histories of submissions, cancellations, retries, ticks, job completions and clock steps on two queues sharing one backend, every list, stored job, run and plugin call compared with a reference model; non-trivial: at least one job ran");
    std::thread::spawn({
        let prop = a.prop.clone();
        let seed = a.seed;
        move || {
            let mut last = u64::MAX;
            let mut idle = 0;
            loop {
                std::thread::sleep(Duration::from_millis(500));
                let p = PROGRESS.load(Ordering::SeqCst);
                if p == last { idle += 1 } else { idle = 0; last = p }
                if idle > 80 {
                    let h = CURRENT.lock().unwrap().clone();
                    let a = Args { prop: prop.clone(), seed, budget: 0.0, start: std::time::Instant::now() };
                    let mut f = fail(&["C07"], "the queue makes no progress any more (40 s)".into());
                    f.history = h;
                    let mine = a.prop == "C07";
                    finish(&a, &Stats::new(""), if mine { Some(f) } else { None });
                }
            }
        }
    });
    if a.prop == "FINDING" {
        let sys = actix::System::new();
        let hit = sys.block_on(finding());
        println!("{}", json!({ "finding": hit }));
        std::process::exit(0);
    }
    let mut first: Option<Fail> = None;
    if let Err(f) = values(&a, &mut st) {
        if f.hits(&a.prop) { first = Some(f); }
    }
    let sys = actix::System::new();
    let (f, st) = sys.block_on(async {
        let _ = AJ::register_plugin(Plug(0)).await;
        let _ = AJ::register_plugin(Plug(1)).await;
        let mut first = first;
        if a.prop == "C09" && first.is_none() {
            first = own_retry(&mut st).await.err();
        }
        if a.wants(&["C04", "C05", "C08"]) && first.is_none() {
            first = faults(a.seed, &mut st).await.err().filter(|f| f.hits(&a.prop));
        }
        if a.prop == "C21" && first.is_none() {
            first = honest(a.seed, &mut st).await.err();
        }
        if a.prop == "C07" && first.is_none() {
            first = period(&mut st).await.err();
        }
        let mut r = Rng(a.seed);
        let fixed = walks();
        let mut i = 0;
        let max = if std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false) { 1_000_000 } else { 2500 };
        while first.is_none() && i < max && (i < fixed.len() || a.left()) {
            let ops = if i < fixed.len() {
                fixed[i].clone()
            } else if i % 12 == 0 || (i % 4 == 0 && a.wants(&["C05", "C07"])) {
                gen_big(&mut r)
            } else {
                let n = 6 + r.below(40);
                let ids = 1 + r.below(4);
                let set = r.below(4);
                (0..n).map(|_| gen(&mut r, ids, &a.prop, set)).collect()
            };
            i += 1;
            let res = history(&ops).await;
            st.case(&format!("{:?}", ops), log(|l| !l.runs.is_empty()));
            if let Err(f) = res {
                if !f.hits(&a.prop) { continue; }
                // shorten the history
                let mut best = ops.clone();
                best.truncate(f.history.len());
                let mut bf = f;
                let mut k = 0;
                let t0 = std::time::Instant::now();
                while k < best.len() && best.len() > 1 && t0.elapsed().as_secs() < 20 {
                    let mut t = best.clone();
                    t.remove(k);
                    match history(&t).await {
                        Err(f2) if f2.hits(&a.prop) => { best = t; best.truncate(f2.history.len()); bf = f2; }
                        _ => k += 1,
                    }
                }
                first = Some(bf);
            }
        }
        (first, st)
    });
    finish(&a, &st, f)
}
