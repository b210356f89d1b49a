//! The public AJ interface end to end on real actors and threads: C05..C08, C11..C14, C16..C18.
use aj_core::*;
use replay::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::HashMap;
use std::sync::atomic::Ordering;
use std::sync::{Arc, Barrier, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Debug, Serialize, Deserialize, Default)]
struct J<const N: usize> {
    tag: String,
    gate: String,
    n: i64,
    fail: bool,
}
static RUNS: Mutex<Option<HashMap<String, Vec<i64>>>> = Mutex::new(None);
static OPEN: Mutex<Vec<String>> = Mutex::new(vec![]);
static NOTES: Mutex<Option<HashMap<String, Vec<String>>>> = Mutex::new(None);
fn runs(tag: &str) -> Vec<i64> {
    RUNS.lock().unwrap().get_or_insert_with(HashMap::new).get(tag).cloned().unwrap_or_default()
}
fn notes(id: &str) -> Vec<String> {
    NOTES.lock().unwrap().get_or_insert_with(HashMap::new).get(id).cloned().unwrap_or_default()
}
fn open(g: &str) {
    OPEN.lock().unwrap().push(g.into());
}
#[async_trait::async_trait]
impl<const N: usize> Executable for J<N> {
    type Output = bool;
    async fn execute(&mut self, _: &JobContext) -> bool {
        RUNS.lock().unwrap().get_or_insert_with(HashMap::new).entry(self.tag.clone()).or_default().push(self.n);
        self.n += 1;
        while !self.gate.is_empty() && !OPEN.lock().unwrap().contains(&self.gate) {
            actix_rt::time::sleep(Duration::from_millis(2)).await;
        }
        self.fail
    }
    async fn is_failed_output(&self, o: &bool) -> bool {
        *o
    }
}
impl<const N: usize> BackgroundJob for J<N> {
    fn queue_name() -> &'static str {
        Box::leak(format!("queue-{}", N).into_boxed_str())
    }
    fn job(self) -> Job<Self> {
        Job::new(self)
    }
}
struct P;
#[async_trait::async_trait]
impl JobPlugin for P {
    async fn change_status(&self, id: &str, s: JobStatus) {
        NOTES.lock().unwrap().get_or_insert_with(HashMap::new).entry(id.into()).or_default().push(format!("{:?}", s));
    }
    async fn before_run(&self, id: &str) {
        NOTES.lock().unwrap().get_or_insert_with(HashMap::new).entry(id.into()).or_default().push("before".into());
    }
    async fn after_run(&self, id: &str) {
        NOTES.lock().unwrap().get_or_insert_with(HashMap::new).entry(id.into()).or_default().push("after".into());
    }
}
fn job<const N: usize>(id: &str, gate: &str) -> Job<J<N>> {
    Job::new(J { tag: id.into(), gate: gate.into(), n: 0, fail: false }).set_id(id.into())
}
fn later<const N: usize>(id: &str) -> Job<J<N>> {
    job::<N>(id, "").delay(chrono::Duration::seconds(7200))
}
async fn until(mut f: impl FnMut() -> bool) -> bool {
    let t = Instant::now();
    while t.elapsed() < Duration::from_secs(20) {
        if f() { return true; }
        actix_rt::time::sleep(Duration::from_millis(3)).await;
    }
    f()
}
async fn pause(ms: u64) {
    actix_rt::time::sleep(Duration::from_millis(ms)).await;
}
fn stored(be: &RefBackend, id: &str) -> Value {
    let s = be.s.lock().unwrap();
    s.hashes.iter().filter(|((_, k), _)| k == id).map(|(_, v)| serde_json::from_str(v).unwrap_or(Value::Null)).next().unwrap_or(Value::Null)
}
fn status(be: &RefBackend, id: &str) -> String {
    stored(be, id)["context"]["job_status"].as_str().unwrap_or("none").to_string()
}
fn list(be: &RefBackend, n: usize, s: &str) -> Vec<String> {
    let st = be.s.lock().unwrap();
    st.queues.iter().filter(|(k, _)| k.starts_with(&format!("queue-{}:", n)) && k.ends_with(s)).flat_map(|(_, v)| v.iter().cloned()).collect()
}
fn check(props: &[&str], ok: bool, what: impl FnOnce() -> String) -> Res {
    if ok { Ok(()) } else { Err(fail(props, what())) }
}
/// limits and ticks, also after the backend failed for a while and after the limits changed
async fn ticks(be: &RefBackend) -> Res {
    const N: usize = 0;
    for i in 0..30 {
        job::<N>(&format!("t{}", i), "t").run().await.map_err(|e| fail(&["C13", "C16"], format!("run: {:?}", e)))?;
    }
    let running = || (0..30).filter(|i| runs(&format!("t{}", i)).len() == 1).count();
    check(&["C07"], until(|| running() >= 20).await, || format!("30 due jobs, limit 20, only {} started", running()))?;
    pause(350).await;
    check(&["C05"], running() == 20 && list(be, N, "Running").len() == 20, || format!("{} jobs started, limit 20", running()))?;
    AJ::update_work_queue::<J<N>>(WorkQueueConfig { process_tick_duration: Duration::from_millis(10), max_processing_jobs: 24 }).await.map_err(|e| fail(&["C05"], format!("config: {:?}", e)))?;
    check(&["C05", "C07"], until(|| running() >= 24).await, || format!("limit raised to 24, {} running", running()))?;
    pause(120).await;
    check(&["C05"], running() == 24, || format!("{} running, limit 24", running()))?;
    open("t");
    check(&["C07", "C08"], until(|| list(be, N, "Finished").len() == 30).await, || format!("{} of 30 jobs finished", list(be, N, "Finished").len()))?;
    for i in 0..30 {
        check(&["C08"], runs(&format!("t{}", i)) == vec![0] && stored(be, &format!("t{}", i))["data"]["n"] == json!(1), || format!("job t{}: runs {:?}, stored {}", i, runs(&format!("t{}", i)), stored(be, &format!("t{}", i))))?;
    }
    // the backend refuses everything for a while: ticks go on afterwards
    be.fail_next.store(40, Ordering::SeqCst);
    check(&["C07"], until(|| be.fail_next.load(Ordering::SeqCst) == 0).await, || "no tick reached the backend any more after it failed".into())?;
    job::<N>("after-fault", "").run().await.map_err(|e| fail(&["C13", "C07"], format!("run after a fault: {:?}", e)))?;
    check(&["C07"], until(|| status(be, "after-fault") == "Finished").await, || "no job is started any more after the backend failed for a while".into())?;
    // faults at every operation of a tick
    for k in 1..8u64 {
        let id = format!("f{}", k);
        later::<N>(&id).run().await.map_err(|e| fail(&["C13"], format!("run: {:?}", e)))?;
        be.fail_next.store(k, Ordering::SeqCst);
        until(|| be.fail_next.load(Ordering::SeqCst) == 0).await;
    }
    job::<N>("after-faults", "").run().await.map_err(|e| fail(&["C13", "C07"], format!("run after faults: {:?}", e)))?;
    check(&["C07"], until(|| status(be, "after-faults") == "Finished").await, || "no job is started any more after the backend failed".into())
}
/// cancel, retry, get, resubmission and notifications through AJ
async fn lifecycle(be: &RefBackend) -> Res {
    const N: usize = 1;
    check(&["C11"], AJ::cancel_job::<J<N>>("c1".into()).await.is_err(), || "cancel without a queue succeeded".into())?;
    check(&["C12"], AJ::retry_job::<J<N>>("c1").await.is_err(), || "retry without a queue succeeded".into())?;
    check(&["C18"], AJ::get_job::<J<N>>("c1").await.is_none(), || "get without a queue found a job".into())?;
    let e = |p: &'static str| move |e: Error| fail(&[p], format!("{} operation failed: {:?}", p, e));
    let id = later::<N>("c1").run().await.map_err(e("C13"))?;
    check(&["C18"], id == "c1", || format!("run returned {:?} for job c1", id))?;
    later::<N>("c2").run().await.map_err(e("C13"))?;
    let g = AJ::get_job::<J<N>>("c1").await;
    check(&["C18"], g.as_ref().map(|j| j.id().to_string()) == Some("c1".into()) && AJ::get_job::<J<N>>("nope").await.is_none(), || format!("get_job(c1) is {:?}", g))?;
    check(&["C06", "C18"], list(be, N, "Queued") == vec!["c2", "c1"] || list(be, N, "Queued") == vec!["c1", "c2"], || format!("waiting list {:?}", list(be, N, "Queued")))?;
    check(&["C12"], AJ::retry_job::<J<N>>("c1").await.ok() == Some(false), || "retry of a waiting job was not refused".into())?;
    AJ::cancel_job::<J<N>>("c1".into()).await.map_err(e("C11"))?;
    check(&["C11"], status(be, "c1") == "Canceled" && list(be, N, "Queued") == vec!["c2"], || format!("after cancel: {} waiting {:?}", status(be, "c1"), list(be, N, "Queued")))?;
    check(&["C11"], status(be, "c2") == "Queued", || "another job was cancelled".into())?;
    check(&["C12"], AJ::retry_job::<J<N>>("c1").await.ok() == Some(true) && status(be, "c1") == "Queued", || format!("retry of a cancelled job: {}", status(be, "c1")))?;
    // a running job is neither cancelled nor changed
    job::<N>("r1", "r").run().await.map_err(e("C13"))?;
    check(&["C07"], until(|| runs("r1").len() == 1).await, || "r1 not started".into())?;
    AJ::cancel_job::<J<N>>("r1".into()).await.map_err(e("C11"))?;
    check(&["C11"], status(be, "r1") == "Running", || format!("a running job became {}", status(be, "r1")))?;
    let before = stored(be, "r1");
    later::<N>("r1").run().await.map_err(e("C13"))?;
    check(&["C13"], stored(be, "r1") == before && status(be, "r1") == "Running", || "a running job was replaced".into())?;
    open("r");
    check(&["C08"], until(|| status(be, "r1") == "Finished").await, || "r1 did not finish".into())?;
    check(&["C08"], stored(be, "r1")["data"]["n"] == json!(1) && stored(be, "r1")["context"]["run_count"] == json!(1), || format!("r1 ended as {}", stored(be, "r1")))?;
    // done jobs are re-run on resubmission; fire and forget
    job::<N>("r1", "").run().await.map_err(e("C13"))?;
    check(&["C13", "C07"], until(|| runs("r1").len() == 2 && status(be, "r1") == "Finished").await, || format!("resubmitted job: {} runs {:?}", status(be, "r1"), runs("r1")))?;
    AJ::enqueue_job(job::<N>("r1", ""), EnqueueConfig::new_skip_if_finished(), "queue-1").await.map_err(e("C13"))?;
    pause(250).await;
    check(&["C13"], runs("r1").len() == 2 && status(be, "r1") == "Finished", || format!("skip-if-finished ran the job again: {:?}", runs("r1")))?;
    job::<N>("jr", "").just_run();
    check(&["C18", "C07"], until(|| status(be, "jr") == "Finished").await, || format!("just_run: job is {}", status(be, "jr")))?;
    let mut f = job::<N>("fail", "");
    f.data.fail = true;
    f.run().await.map_err(e("C13"))?;
    check(&["C08"], until(|| status(be, "fail") == "Failed" && list(be, N, "Failed") == vec!["fail"]).await, || format!("failed job is {}", status(be, "fail")))?;
    let want: Vec<String> = ["Queued", "Running", "before", "after", "Failed"].iter().map(|s| s.to_string()).collect();
    let w2 = want.clone();
    check(&["C14"], until(move || notes("fail").len() >= w2.len()).await && notes("fail") == want, || format!("plugin was told {:?}", notes("fail")))?;
    let want: Vec<String> = ["Queued", "Canceled", "Queued"].iter().map(|s| s.to_string()).collect();
    check(&["C14"], notes("c1") == want, || format!("plugin was told {:?} about c1", notes("c1")))?;
    pause(200).await;
    let mut ids: Vec<String> = vec![];
    for s in ["Queued", "Running", "Finished", "Failed", "Canceled"] {
        for id in list(be, N, s) {
            check(&["C06"], status(be, &id) == s && !ids.contains(&id), || format!("{} is listed in {} but is {}", id, s, status(be, &id)))?;
            ids.push(id);
        }
    }
    Ok(())
}
/// update_job changes that job and no other
async fn update(be: &RefBackend) -> Res {
    const N: usize = 2;
    let e = |e: Error| fail(&["C17"], format!("update: {:?}", e));
    for id in ["u1", "u2", "u3"] { later::<N>(id).run().await.map_err(e)?; }
    let others = |be: &RefBackend| (stored(be, "u2"), stored(be, "u3"), be.s.lock().unwrap().hashes.len());
    let o0 = others(be);
    let d = |n: i64| J::<N> { tag: "u1".into(), gate: "".into(), n, fail: false };
    let was = stored(be, "u1");
    AJ::update_job("u1", d(50), None).await.map_err(e)?;
    let mut want = was.clone();
    want["data"]["n"] = json!(50);
    check(&["C17"], stored(be, "u1") == want, || format!("after an update of the data u1 is {} instead of {}", stored(be, "u1"), want))?;
    check(&["C17"], others(be) == o0, || "an update touched another job".into())?;
    for cid in ["u1", "u2", "brand-new", ""] {
        let mut c = JobContext::new(cid.into());
        c.job_type = JobType::ScheduledAt(get_now() + chrono::Duration::seconds(3600));
        c.run_count = 9;
        let ty = serde_json::to_value(&c.job_type).unwrap();
        AJ::update_job("u1", d(60), Some(c)).await.map_err(e)?;
        let g = stored(be, "u1");
        check(&["C17"], g["data"]["n"] == json!(60) && g["context"]["job_type"] == ty && g["context"]["run_count"] == json!(9) && g["context"]["job_id"] == json!("u1") && g["context"]["job_status"] == json!("Queued"),
            || format!("after an update with a context (of id {:?}) u1 is {}", cid, g))?;
        check(&["C17"], others(be) == o0 && stored(be, "brand-new").is_null(), || format!("an update of u1 with a context of id {:?} touched another job", cid))?;
        AJ::update_job("u1", d(50), None).await.map_err(e)?;
    }
    AJ::update_job("nope", d(1), None).await.map_err(e)?;
    let mut c = JobContext::new("u2".into());
    c.run_count = 1;
    AJ::update_job("nope", d(1), Some(c)).await.map_err(e)?;
    check(&["C17"], stored(be, "nope").is_null() && others(be) == o0, || "an update of an unknown job created or changed something".into())?;
    let mut l = list(be, N, "Queued");
    l.sort();
    check(&["C17", "C06"], l == vec!["u1", "u2", "u3"], || format!("after updates the waiting list is {:?}", l))?;
    // brought forward by an update it runs, with the new data
    let mut c = JobContext::new("u1".into());
    c.job_type = JobType::Normal;
    AJ::update_job("u1", d(70), Some(c)).await.map_err(e)?;
    check(&["C17", "C07"], until(|| status(be, "u1") == "Finished").await && runs("u1") == vec![70], || format!("u1 brought forward: {} runs {:?}", status(be, "u1"), runs("u1")))?;
    check(&["C17"], others(be) == o0, || "an update touched another job".into())?;
    // a done job is run again
    AJ::update_job("u1", d(80), None).await.map_err(e)?;
    check(&["C17", "C13"], until(|| runs("u1") == vec![70, 80]).await, || format!("update of a done job: runs {:?}", runs("u1")))?;
    // a running one is left alone
    job::<N>("u4", "u4").run().await.map_err(e)?;
    check(&["C07"], until(|| runs("u4").len() == 1).await, || "u4 not started".into())?;
    let was = stored(be, "u4");
    AJ::update_job("u4", d(90), None).await.map_err(e)?;
    check(&["C17"], stored(be, "u4") == was, || "an update changed a running job".into())?;
    open("u4");
    check(&["C08"], until(|| status(be, "u4") == "Finished").await, || "u4 did not finish".into())
}
/// random updates of jobs in every status, under a clock that stands still
async fn updates(be: &RefBackend, a: &Args, st: &mut Stats) -> Res {
    const N: usize = 3;
    let e = |e: Error| fail(&["C17"], format!("update: {:?}", e));
    set_now(1_700_000_000_123_000_000);
    let mut r = Rng(a.seed ^ 17);
    let cfg = WorkQueueConfig { process_tick_duration: Duration::from_millis(4), max_processing_jobs: 20 };
    later::<N>("m-bystander").run().await.map_err(e)?;
    AJ::update_work_queue::<J<N>>(cfg).await.map_err(e)?;
    // all schedules lie ahead, so that what was put back to waiting stays there
    let ty = |r: &mut Rng| match r.below(3) {
        0 => JobType::ScheduledAt(get_now() + chrono::Duration::microseconds(7_200_000_001 + r.below(1000) as i64)),
        1 => JobType::Cron("0 0 0 1 2 * *".into(), get_now() + chrono::Duration::seconds(9000), r.below(9) as i32, CronContext { tick_number: r.below(3) as i32, max_repeat: if r.chance(50) { Some(r.below(5) as i32) } else { None }, end_at: if r.chance(50) { Some(get_now() + chrono::Duration::seconds(99)) } else { None } }),
        _ => JobType::ScheduledAt(get_now() + chrono::Duration::seconds(80_000)),
    };
    let ctx = |r: &mut Rng, id: &str| {
        let mut c = JobContext::new(id.into());
        c.job_type = ty(r);
        c.job_status = *r.pick(&[JobStatus::Queued, JobStatus::Queued, JobStatus::Running, JobStatus::Finished, JobStatus::Failed, JobStatus::Canceled]);
        c.retry = match r.below(3) {
            0 => None,
            1 => Some(aj_core::Retry::new(r.below(4) as i32, Some(r.below(4) as i32), RetryStrategy::Interval(chrono::Duration::milliseconds(1 + r.below(99) as i64)))),
            _ => Some(aj_core::Retry::new(r.below(4) as i32, None, RetryStrategy::ExponentialBackoff(chrono::Duration::milliseconds(1 + r.below(99) as i64)))),
        };
        c.created_at = r.below(1000) as i64;
        let o = |r: &mut Rng| if r.chance(50) { Some(r.below(1000) as i64) } else { None };
        c.enqueue_at = o(r);
        c.run_at = o(r);
        c.complete_at = o(r);
        c.cancel_at = o(r);
        c.run_count = r.below(7);
        c
    };
    for i in 0..150 {
        if i > 30 && !a.left() { break; }
        let id = format!("m{}", i);
        let how = r.below(5);
        let mut job = Job::new(J::<N> { tag: id.clone(), gate: if how == 3 { id.clone() } else { String::new() }, n: r.below(9) as i64, fail: how == 2 });
        let mut c = ctx(&mut r, &id);
        c.job_status = JobStatus::Queued;
        if (1..4).contains(&how) {
            c.job_type = JobType::Normal;
            c.retry = None;
        }
        job = job.set_context(c);
        job.run().await.map_err(e)?;
        let at = ["Queued", "Finished", "Failed", "Running", "Canceled"][how];
        if how == 4 { AJ::cancel_job::<J<N>>(id.clone()).await.map_err(e)?; }
        let there = until(|| status(be, &id) == at && (how != 3 || !runs(&id).is_empty()) && (how == 4 || list(be, N, at).contains(&id))).await;
        check(&["C07"], there, || format!("{} did not become {}", id, at))?;
        let was = stored(be, &id);
        let rest = |be: &RefBackend| be.s.lock().unwrap().hashes.iter().filter(|((_, k), _)| *k != id).map(|(k, v)| (k.clone(), v.clone())).collect::<Vec<_>>();
        let o0 = rest(be);
        let data = J::<N> { tag: format!("{}-new", id), gate: String::new(), n: 1000 + r.below(9) as i64, fail: r.chance(50) };
        let other = ["m-bystander", "m0", "", "m-none"][r.below(4)];
        let whose = if r.chance(50) { id.clone() } else { other.to_string() };
        let with = if r.chance(75) { Some(ctx(&mut r, &whose)) } else { None };
        // without a context of its own, a job that was run at once would run again: give that case no chance to be seen
        if with.is_none() && (1..3).contains(&how) { continue; }
        let text = format!("update of {} ({}) with context {:?}", id, at, with);
        st.case(&text, true);
        AJ::update_job(&id, data.clone(), with.clone()).await.map_err(e)?;
        let mut want = was.clone();
        if how != 3 {
            want["data"] = serde_json::to_value(&data).unwrap();
            if let Some(c) = with {
                want["context"] = serde_json::to_value(&c).unwrap();
                want["context"]["job_id"] = json!(id);
                want["context"]["job_status"] = was["context"]["job_status"].clone();
            }
            if (1..5).contains(&how) {
                want["context"]["job_status"] = json!("Queued");
                want["context"]["enqueue_at"] = json!(now_ns() / 1_000_000);
            }
        }
        let got = stored(be, &id);
        check(&["C17"], got == want, || format!("{}: it is {} instead of {}", text, got, want))?;
        check(&["C17"], rest(be) == o0, || format!("{}: another job changed", text))?;
        let n = list(be, N, "Queued").iter().filter(|x| **x == id).count();
        check(&["C17"], n == if how == 3 { 0 } else { 1 }, || format!("{}: {} times in the waiting list", text, n))?;
        if i % 5 == 0 {
            let n0 = be.s.lock().unwrap().hashes.len();
            AJ::update_job(&format!("unknown-{}", i), data, if r.chance(50) { Some(ctx(&mut r, &id)) } else { None }).await.map_err(e)?;
            check(&["C17"], stored(be, &id) == want && be.s.lock().unwrap().hashes.len() == n0 && rest(be) == o0, || "an update of an unknown job created or changed something".into())?;
        }
        if how == 3 { open(&id); check(&["C08"], until(|| status(be, &id) == "Finished").await, || format!("{} did not finish", id))?; }
        AJ::cancel_job::<J<N>>(id.clone()).await.map_err(e)?;
    }
    set_now(0);
    Ok(())
}
/// queues of many types, under names that are easily confused
const NAMES: [&str; 14] = ["Mails", "mails", "MAILS", " mails", "mails ", "mail", "mails:queue", "mails:queue:Queued", "é", "e\u{301}", "a b", "a_b", "a-b", "Mails::x"];
#[derive(Clone, Debug, Serialize, Deserialize, Default)]
struct K<const N: usize> { n: i64 }
#[async_trait::async_trait]
impl<const N: usize> Executable for K<N> {
    type Output = i64;
    async fn execute(&mut self, _: &JobContext) -> i64 { self.n }
}
impl<const N: usize> BackgroundJob for K<N> {
    fn queue_name() -> &'static str { NAMES[N] }
    fn job(self) -> Job<Self> { Job::new(self) }
}
async fn name<const N: usize>(be: &RefBackend, st: &mut Stats) -> Res {
    let e = |e: Error| fail(&["C16"], format!("queue {:?}: {:?}", NAMES[N], e));
    let id = format!("name{}", N);
    st.case(&format!("queue named {:?}", NAMES[N]), true);
    let none = get_work_queue_address::<K<N>>().is_none() && AJ::get_job::<K<N>>(&id).await.is_none() && AJ::cancel_job::<K<N>>(id.clone()).await.is_err()
        && AJ::retry_job::<K<N>>(&id).await.is_err() && AJ::update_work_queue::<K<N>>(WorkQueueConfig::default()).await.is_err() && AJ::update_job(&id, K::<N>::default(), None).await.is_ok();
    check(&["C16"], none && get_work_queue_address::<K<N>>().is_none(), || format!("operations on the type of {:?} before its first use find or make a queue", NAMES[N]))?;
    let job = K::<N> { n: 1 }.job().set_id(id.clone()).delay(chrono::Duration::seconds(7200));
    let r = tokio::time::timeout(Duration::from_secs(20), job.run()).await;
    check(&["C16"], r.is_ok(), || format!("the first use of the type of {:?} hangs", NAMES[N]))?;
    check(&["C16"], r.unwrap().map_err(e)? == id, || "wrong id".into())?;
    let q = get_work_queue_address::<K<N>>();
    check(&["C16"], q.is_some(), || format!("no queue for the type of {:?}", NAMES[N]))?;
    let here = WorkQueue::<K<N>>::new(NAMES[N].into(), Arc::new(RefBackend::default())).format_queue_name(JobStatus::Queued);
    let got = be.s.lock().unwrap().q(&here);
    check(&["C16"], got == vec![id.clone()], || format!("the first job of the type of {:?} is not in {:?}: {:?}", NAMES[N], here, got))?;
    let job = K::<N> { n: 1 }.job().set_id(id.clone() + "b").delay(chrono::Duration::seconds(7200));
    let other = NAMES[(N + 1) % NAMES.len()];
    tokio::time::timeout(Duration::from_secs(20), AJ::enqueue_job(job, EnqueueConfig::new_re_run(), other)).await.unwrap_or(Err(Error::NoQueueRegister)).map_err(e)?;
    let got = be.s.lock().unwrap().q(&here);
    check(&["C16"], got.len() == 2 && get_work_queue_address::<K<N>>() == q, || format!("a later use of the type of {:?} (naming {:?}) did not reach its queue: {:?}", NAMES[N], other, got))
}
macro_rules! all_names { ($be:expr, $st:expr, $($n:literal)*) => {{ $( name::<$n>($be, $st).await?; )* Ok::<(), Fail>(()) }} }
/// first use of a job type from many threads at once
async fn race<const N: usize>(be: &RefBackend) -> Res {
    let k = 6;
    let bar = Arc::new(Barrier::new(k));
    let hs: Vec<_> = (0..k)
        .map(|t| {
            let bar = bar.clone();
            std::thread::spawn(move || {
                let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
                bar.wait();
                rt.block_on(async {
                    let id = format!("race{}-{}", N, t);
                    if t == 5 { job::<N>(&id, "").just_run(); return Ok(id); }
                    match tokio::time::timeout(Duration::from_secs(20), job::<N>(&id, "").run()).await {
                        Ok(r) => r.map_err(|e| format!("{:?}", e)),
                        Err(_) => Err("no answer".into()),
                    }
                })
            })
        })
        .collect();
    let done = until(|| hs.iter().all(|h| h.is_finished())).await;
    check(&["C16"], done, || "submissions racing on the first use of a job type hang".into())?;
    for (t, h) in hs.into_iter().enumerate() {
        let r = h.join().unwrap_or(Err("panic".into()));
        check(&["C16"], r == Ok(format!("race{}-{}", N, t)), || format!("submission {} racing on the first use of a job type: {:?}", t, r))?;
    }
    let ok = until(|| (0..k).all(|t| status(be, &format!("race{}-{}", N, t)) == "Finished")).await;
    for t in 0..k {
        let id = format!("race{}-{}", N, t);
        check(&["C16"], ok && runs(&id) == vec![0], || format!("job {} submitted in the race is {} with runs {:?}", id, status(be, &id), runs(&id)))?;
        check(&["C16", "C06"], until(|| list(be, N, "Finished").iter().filter(|x| **x == id).count() == 1).await, || format!("{} is not listed once", id))?;
    }
    check(&["C16"], get_work_queue_address::<J<N>>().is_some() && get_work_queue_address::<J<N>>() == get_work_queue_address::<J<N>>(), || "no stable queue address".into())
}
macro_rules! races { ($be:expr, $st:expr, $($n:literal)*) => {{ $( $st.case(concat!("race on first use ", $n), true); race::<$n>($be).await?; )* Ok::<(), Fail>(()) }} }
async fn registry(be: &RefBackend, st: &mut Stats, addr: &actix::Addr<AJ>) -> Res {
    let again = AJ::start(RefBackend::default());
    check(&["C16"], &again == addr && get_aj_address().as_ref() == Some(addr), || "a second start replaced the running AJ".into())?;
    all_names!(be, st, 0 1 2 3 4 5 6 7 8 9 10 11 12 13)?;
    races!(be, st, 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25)?;
    // the queue of a type stays the one that was registered first
    let q = get_work_queue_address::<J<10>>();
    AJ::enqueue_job(later::<10>("other-name"), EnqueueConfig::new_re_run(), "some-other-name").await.map_err(|e| fail(&["C16"], format!("{:?}", e)))?;
    check(&["C16"], get_work_queue_address::<J<10>>() == q && list(be, 10, "Queued") == vec!["other-name"], || "the same job type got a second queue".into())?;
    check(&["C16"], get_work_queue_address::<J<99>>().is_none(), || "an unused type has a queue".into())
}
/// C21: calls through AJ while one kind of backend operation fails
async fn refused(be: &RefBackend) -> Res {
    const N: usize = 40;
    let set = |k: &'static str| *be.fail_kind.lock().unwrap() = k;
    job::<N>("done", "").run().await.map_err(|e| fail(&["C13"], format!("run: {:?}", e)))?;
    check(&["C07", "C08"], until(|| list(be, N, "Finished") == ["done"]).await, || "the job does not finish".into())?;
    later::<N>("waiting").run().await.map_err(|e| fail(&["C13"], format!("run: {:?}", e)))?;
    for (kind, what) in [
        ("push", "submit"), ("upsert", "submit"), ("read", "submit"), ("upsert", "resubmit"), ("upsert", "update"), ("push", "update"), ("read", "cancel"),
        ("upsert", "cancel"), ("remove", "cancel"), ("read", "retry"), ("remove", "retry"), ("upsert", "retry"), ("push", "retry"),
    ] {
        be.s.lock().unwrap().hashes.retain(|(_, k), _| k != "new");
        let (h, l) = { let s = be.s.lock().unwrap(); (s.hashes.clone(), s.queues.clone()) };
        let before = be.failed.load(Ordering::SeqCst);
        set(kind);
        let ok = match what {
            "submit" => later::<N>("new").run().await.is_ok(),
            "resubmit" => later::<N>("waiting").run().await.is_ok(),
            "update" => AJ::update_job::<J<N>>("done", J { tag: "done2".into(), ..Default::default() }, None).await.is_ok(),
            "cancel" => AJ::cancel_job::<J<N>>("waiting".into()).await.is_ok(),
            _ => AJ::retry_job::<J<N>>("done").await.is_ok(),
        };
        set("");
        let failed = be.failed.load(Ordering::SeqCst) > before;
        { let mut s = be.s.lock().unwrap(); s.hashes = h; s.queues = l; }
        check(&["C21"], failed && !ok, || if failed { format!("{}: every {} on the backend fails, and the call reports success", what, kind) } else { format!("{}: no {} on the backend", what, kind) })?;
    }
    Ok(())
}
/// the backend fails when the outcome is to be recorded: the job is not run again
async fn once(be: &RefBackend) -> Res {
    const N: usize = 41;
    for kind in ["push", "upsert", "remove"] {
        for failing in [false, true] {
            let id = format!("once-{}-{}", kind, failing);
            let mut j = job::<N>(&id, &id);
            j.data.fail = failing;
            j.run().await.map_err(|e| fail(&["C13"], format!("run: {:?}", e)))?;
            check(&["C07", "C08"], until(|| runs(&id).len() == 1).await, || "the job does not start".into())?;
            let before = be.failed.load(Ordering::SeqCst);
            *be.fail_kind.lock().unwrap() = kind;
            open(&id);
            until(|| be.failed.load(Ordering::SeqCst) > before).await;
            pause(40).await;
            *be.fail_kind.lock().unwrap() = "";
            pause(40).await;
            check(&["C08"], runs(&id).len() == 1, || format!("every {} on the backend fails at the end of a run: the job has run {} times", kind, runs(&id).len()))?;
        }
    }
    Ok(())
}
fn main() {
    quiet_panics();
    let a = args();
    let mut st = Stats::new("scenarios through the public AJ interface on real actors, threads and time with a reference backend; non-trivial: every scenario");
    std::thread::spawn({
        let prop = a.prop.clone();
        move || {
            std::thread::sleep(Duration::from_secs(240));
            let a = Args { prop, seed: 1, budget: 0.0, start: Instant::now() };
            let mine = ["C07", "C16"].contains(&a.prop.as_str());
            finish(&a, &Stats::new(""), if mine { Some(fail(&["C07", "C16"], "the AJ interface does not answer any more".into())) } else { None });
        }
    });
    let be = RefBackend::default();
    let sys = actix::System::new();
    let f = sys.block_on(async {
        let addr = AJ::start(be.clone());
        if AJ::register_plugin(P).await.is_err() {
            return Some(fail(&["C14"], "a plugin could not be registered".into()));
        }
        for (name, props) in [("ticks", ["C05", "C07", "C08"].as_slice()), ("lifecycle", &["C06", "C08", "C11", "C12", "C13", "C14", "C18", "C07"]), ("update", &["C17", "C06", "C13"]), ("updates", &["C17"]), ("registry", &["C16"]), ("refused", &["C21"]), ("once", &["C08"])] {
            if !a.wants(props) { continue; }
            st.case(name, true);
            let r = match name {
                "ticks" => ticks(&be).await,
                "lifecycle" => lifecycle(&be).await,
                "update" => update(&be).await,
                "refused" => refused(&be).await,
                "once" => once(&be).await,
                "updates" => { let r = updates(&be, &a, &mut st).await; set_now(0); r }
                _ => registry(&be, &mut st, &addr).await,
            };
            if let Err(mut f) = r {
                f.history = vec![format!("scenario {}", name)];
                if f.hits(&a.prop) { return Some(f); }
            }
        }
        None
    });
    finish(&a, &st, f)
}
