Q="aj_core/src/queue.rs"; M="aj_core/src/backend/mem.rs"; JM="aj_core/src/job/mod.rs"; RT="aj_core/src/job/retry.rs"; P="aj_core/src/plugin/mod.rs"; JC="aj_core/src/job/job_context.rs"; T="aj_core/src/backend/types.rs"; A="aj_core/src/aj.rs"; E="aj_core/src/job/executable.rs"; R="aj_core/src/backend/redis.rs"; PJ="aj_core/src/plugin/job_plugin.rs"
# a server that speaks as much of the Redis protocol as the backend needs
FAKE=r'''
use std::io::{BufRead, BufReader, Read, Write};
use std::collections::{HashMap, VecDeque};
#[derive(Default)]
struct Db { l: HashMap<String, VecDeque<String>>, h: HashMap<String, HashMap<String, String>> }
fn bulk(s: Option<&String>) -> String { match s { Some(s) => format!("${}\r\n{}\r\n", s.len(), s), None => "$-1\r\n".into() } }
fn answer(d: &mut Db, c: &[String]) -> String {
    match c[0].to_uppercase().as_str() {
        "LPUSH" => { let q = d.l.entry(c[1].clone()).or_default(); for x in &c[2..] { q.push_front(x.clone()); } format!(":{}\r\n", q.len()) }
        "RPUSH" => { let q = d.l.entry(c[1].clone()).or_default(); for x in &c[2..] { q.push_back(x.clone()); } format!(":{}\r\n", q.len()) }
        "LLEN" => format!(":{}\r\n", d.l.get(&c[1]).map_or(0, |q| q.len())),
        "LMOVE" => {
            let x = { let q = d.l.entry(c[1].clone()).or_default(); if c[3].to_uppercase() == "LEFT" { q.pop_front() } else { q.pop_back() } };
            if let Some(x) = &x { let t = d.l.entry(c[2].clone()).or_default(); if c[4].to_uppercase() == "LEFT" { t.push_front(x.clone()) } else { t.push_back(x.clone()) } }
            bulk(x.as_ref())
        }
        "LRANGE" => {
            let q: Vec<String> = d.l.get(&c[1]).map(|q| q.iter().cloned().collect()).unwrap_or_default();
            let n = q.len() as i128;
            let at = |s: &str| { let i: i128 = s.parse().unwrap(); if i < 0 { n + i } else { i } };
            let (a, b) = (at(&c[2]).max(0), at(&c[3]).min(n - 1));
            let v: Vec<&String> = if a > b { vec![] } else { q[a as usize..=b as usize].iter().collect() };
            format!("*{}\r\n{}", v.len(), v.into_iter().map(|x| bulk(Some(x))).collect::<String>())
        }
        "LREM" => {
            let k: i64 = c[2].parse().unwrap();
            let q = d.l.entry(c[1].clone()).or_default();
            let mut left = if k == 0 { usize::MAX } else { k.unsigned_abs() as usize };
            let mut v: Vec<String> = q.drain(..).collect();
            if k < 0 { v.reverse(); }
            let before = v.len();
            v.retain(|x| if *x == c[3] && left > 0 { left -= 1; false } else { true });
            let gone = before - v.len();
            if k < 0 { v.reverse(); }
            q.extend(v);
            format!(":{}\r\n", gone)
        }
        "HSET" => { let h = d.h.entry(c[1].clone()).or_default(); let n = c[2..].chunks(2).filter(|p| h.insert(p[0].clone(), p[1].clone()).is_none()).count(); format!(":{}\r\n", n) }
        "HSETNX" => { let h = d.h.entry(c[1].clone()).or_default(); if h.contains_key(&c[2]) { ":0\r\n".into() } else { h.insert(c[2].clone(), c[3].clone()); ":1\r\n".into() } }
        "HGET" => bulk(d.h.get(&c[1]).and_then(|h| h.get(&c[2]))),
        _ => "+OK\r\n".into(),
    }
}
fn redis() -> aj_core::redis::Redis {
    let l = std::net::TcpListener::bind("127.0.0.1:0").unwrap();
    let port = l.local_addr().unwrap().port();
    let db = Arc::new(Mutex::new(Db::default()));
    std::thread::spawn(move || for s in l.incoming().flatten() {
        let db = db.clone();
        std::thread::spawn(move || {
            let mut w = s.try_clone().unwrap();
            let mut r = BufReader::new(s);
            let mut line = String::new();
            loop {
                line.clear();
                if r.read_line(&mut line).unwrap_or(0) == 0 { return; }
                let n: usize = line.trim()[1..].parse().unwrap();
                let mut c = vec![];
                for _ in 0..n {
                    line.clear();
                    r.read_line(&mut line).unwrap();
                    let len: usize = line.trim()[1..].parse().unwrap();
                    let mut b = vec![0; len + 2];
                    r.read_exact(&mut b).unwrap();
                    b.truncate(len);
                    c.push(String::from_utf8(b).unwrap());
                }
                let a = answer(&mut db.lock().unwrap(), &c);
                if w.write_all(a.as_bytes()).is_err() { return; }
            }
        });
    });
    aj_core::redis::Redis::new(format!("redis://127.0.0.1:{port}/"))
}
'''
# a second job type, for everything that goes through AJ
KIND=r'''
macro_rules! kind { ($t:ident, $n:expr) => {
#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
pub struct $t { pub n: i32 }
#[async_trait::async_trait]
impl Executable for $t {
    type Output = i32;
    async fn execute(&mut self, c: &JobContext) -> i32 { log(format!("run {}", c.job_id)); self.n }
}
impl BackgroundJob for $t {
    fn queue_name() -> &'static str { $n }
    fn job(self) -> Job<Self> { Job::new(self) }
}
} }
'''
SEEDS=[
dict(id="c01-push-again", prop="C01", needs="an item that is pushed while it is already the first one of the list", breaks="the second push of the same item is swallowed",
 edits=[(M,"""            insert_item_to_queue(queue, item.into(), QueueDirection::Front);
        } else {
            let items = VecDeque::from([item.to_string()]);
            queues.insert(queue_name.to_string(), items);""","""            // Re-delivered item, it is already waiting there
            if queue.front().map(String::as_str) != Some(item) {
                insert_item_to_queue(queue, item.into(), QueueDirection::Front);
            }
        } else {
            let items = VecDeque::from([item.to_string()]);
            queues.insert(queue_name.to_string(), items);""")],
 demo='''fn main() {
    let b = InMemory::default();
    for x in ["a", "a", "b"] { b.queue_push("l", x).unwrap(); }
    assert_eq!(b.queue_get("l", 9, QueueDirection::Front).unwrap(), v(&["b", "a", "a"]));
}
'''),
dict(id="c01-get-back-page", prop="C01", needs="reading more than 50 items from the back of a list that is longer than that", breaks="reads from the back are cut to 50 items",
 edits=[(M,"""                    if queue.len() > count {
                        start_index = queue.len() - count;
                    }""","""                    let page = count.min(50);
                    if queue.len() > page {
                        start_index = queue.len() - page;
                    }""")],
 demo='''fn main() {
    let b = InMemory::default();
    for i in 0..120 { b.queue_push("l", &format!("x{i}")).unwrap(); }
    let got = b.queue_get("l", 70, QueueDirection::Back).unwrap();
    let want: Vec<String> = (0..70).map(|i| format!("x{i}")).collect();
    assert_eq!(got, want);
}
'''),
dict(id="c02-all-or-nothing", prop="C02", needs="a move of more items than the source has", breaks="a move of more items than there are moves none",
 edits=[(M,"""        if let Some(from_queue) = queues.get_mut(from_queue) {
            for _ in 0..count {""","""        if let Some(from_queue) = queues.get_mut(from_queue) {
            let available = if from_queue.len() < count { 0 } else { count };
            for _ in 0..available {""")],
 demo='''fn main() {
    let b = InMemory::default();
    for x in ["a", "b"] { b.queue_push("l", x).unwrap(); }
    let r = b.queue_move("l", "m", 3, QueueDirection::Front, QueueDirection::Back).unwrap();
    assert_eq!(r, v(&["b", "a"]));
    assert_eq!(b.queue_get("m", 9, QueueDirection::Front).unwrap(), v(&["b", "a"]));
}
'''),
dict(id="c02-target-dedupe", prop="C02", needs="an item moved to a list that already holds an equal one", breaks="moving an item to a list that has an equal item loses it",
 edits=[(M,"""                insert_item_to_queue(to_queue, moving_item.clone(), to_direction);
            } else {
                let items = VecDeque::from([moving_item.clone()]);""","""                if !to_queue.contains(moving_item) {
                    insert_item_to_queue(to_queue, moving_item.clone(), to_direction);
                }
            } else {
                let items = VecDeque::from([moving_item.clone()]);""")],
 demo='''fn main() {
    let b = InMemory::default();
    for x in ["a", "b"] { b.queue_push("l", x).unwrap(); }
    b.queue_push("m", "a").unwrap();
    b.queue_move("l", "m", 1, QueueDirection::Back, QueueDirection::Front).unwrap();
    assert_eq!(b.queue_count("l").unwrap() + b.queue_count("m").unwrap(), 3);
}
'''),
dict(id="c03-first-hash", prop="C03", needs="a read under a hash name that was never written", breaks="an entry is read from another hash when the named one does not exist",
 edits=[(M,"""            Ok(storage.get(key).cloned())
        } else {
            Ok(None)
        }""","""            Ok(storage.get(key).cloned())
        } else {
            // Entries which are written under an old storage name
            Ok(storages.values().find_map(|storage| storage.get(key).cloned()))
        }""")],
 demo='''fn main() {
    let b = InMemory::default();
    b.storage_upsert("h", "k", "x".into()).unwrap();
    assert_eq!(b.storage_get("other", "k").unwrap(), None);
}
'''),
dict(id="c03-empty-kept", prop="C03", needs="an entry overwritten with the empty string", breaks="writing an empty value keeps the old one",
 edits=[(M,"""            storage.insert(key.to_string(), value);
        } else {
            let mut""","""            if !value.is_empty() {
                storage.insert(key.to_string(), value);
            }
        } else {
            let mut""")],
 demo='''fn main() {
    let b = InMemory::default();
    b.storage_upsert("h", "k", "x".into()).unwrap();
    b.storage_upsert("h", "k", "".into()).unwrap();
    assert_eq!(b.storage_get("h", "k").unwrap(), Some("".to_string()));
}
'''),
dict(id="c04-max-zero", prop="C04", needs="a recurring job with a maximum of 0 repeats", breaks="a maximum of 0 is taken for no maximum",
 edits=[(JM,"                    if max_repeat < *total_repeat {","                    if max_repeat > 0 && max_repeat < *total_repeat {")],
 demo='''fn main() {
    let mut job = j("x");
    let past = Utc::now() - Duration::seconds(5);
    job.context.job_type = JobType::Cron("* * * * * * *".into(), past, 1, CronContext { tick_number: 0, max_repeat: Some(0), end_at: None });
    assert!(!job.is_ready());
    job.context.job_type = JobType::Cron("* * * * * * *".into(), past, 1, CronContext { tick_number: 0, max_repeat: Some(1), end_at: None });
    assert!(job.is_ready());
}
'''),
dict(id="c04-jitter", prop="C04", needs="looking at a recurring job in the last milliseconds before its slot", breaks="a recurring job starts up to a tick before its slot",
 edits=[(JM,"                if now < *next_slot {","                // Next tick would be too late for this slot\n                if now + Duration::milliseconds(50) < *next_slot {")],
 demo='''fn main() {
    let mut job = j("x");
    for ms in [1i64, 10, 30, 45] {
        job.context.job_type = JobType::Cron("* * * * * * *".into(), Utc::now() + Duration::milliseconds(ms), 1, CronContext::default());
        let due = match &job.context.job_type { JobType::Cron(_, s, _, _) => *s, _ => unreachable!() };
        let ready = job.is_ready();
        assert!(!ready || Utc::now() >= due, "started before its slot");
    }
}
'''),
dict(id="c05-running-page", prop="C05", needs="a maximum above 20 and more than 20 jobs in progress", breaks="only the first 20 jobs in progress are counted",
 edits=[(Q,"""        let processing_queue = self.format_queue_name(JobStatus::Running);
        let total_processing_jobs = self.backend.queue_count(&processing_queue)?;
""","""        let total_processing_jobs = self.get_processing_job_ids(MAX_PROCESSING_JOBS)?.len();
""")],
 demo='''fn main() {
    let b = Arc::new(InMemory::default());
    sys(async move {
        let a = Q::start_with_name("q".into(), b.clone());
        a.send(UpdateWorkQueue { config: WorkQueueConfig { process_tick_duration: std::time::Duration::from_millis(20), max_processing_jobs: 25 } }).await.unwrap();
        for i in 0..60 {
            a.send(Enqueue(Job::new(J { n: 0, fail: false, sleep_ms: 1500 }).set_id(format!("x{i}")), EnqueueConfig::new_re_run())).await.unwrap().unwrap();
        }
        for _ in 0..20 {
            sleep(40).await;
            assert!(lst(&b, JobStatus::Running).len() <= 25, "more than 25 jobs in progress");
        }
    });
}
'''),
dict(id="c05-zero-default", prop="C05", needs="a queue whose maximum is set to 0", breaks="a maximum of 0 is replaced by the default instead of pausing the queue",
 edits=[(Q,"        self.config = msg.config;","""        let mut config = msg.config;
        if config.max_processing_jobs == 0 {
            config.max_processing_jobs = MAX_PROCESSING_JOBS;
        }
        self.config = config;""")],
 demo='''fn main() {
    let b = Arc::new(InMemory::default());
    sys(async move {
        let a = Q::start_with_name("q".into(), b.clone());
        a.send(UpdateWorkQueue { config: WorkQueueConfig { process_tick_duration: std::time::Duration::from_millis(10), max_processing_jobs: 0 } }).await.unwrap();
        sleep(150).await;
        a.send(Enqueue(j("x"), EnqueueConfig::new_re_run())).await.unwrap().unwrap();
        sleep(300).await;
        assert_eq!(lst(&b, JobStatus::Queued), v(&["x"]), "a paused queue started a job");
    });
}
'''),
dict(id="c06-retry-leaves-running", prop="C06", needs="a job that goes back to waiting after a run", breaks="a job put back after its run stays in the list of running jobs",
 edits=[(Q,"""        let current_queue = self.format_queue_name(job.context.job_status);
        self.backend.queue_remove(&current_queue, job.id())?;
""","""        if job.is_done() {
            let current_queue = self.format_queue_name(job.context.job_status);
            self.backend.queue_remove(&current_queue, job.id())?;
        }
""")],
 demo='''fn main() {
    let b = Arc::new(InMemory::default());
    sys(async move {
        let a = Q::start_with_name("q".into(), b.clone());
        let job = Job::new(J { n: 0, fail: true, sleep_ms: 0 }).set_id("x".into()).retry(Retry::new_interval_retry(Some(2), Duration::seconds(100)));
        a.send(Enqueue(job, EnqueueConfig::new_re_run())).await.unwrap().unwrap();
        sleep(700).await;
        assert_eq!(stored(&b, "x").context.job_status, JobStatus::Queued);
        assert_eq!(lst(&b, JobStatus::Running), v(&[]));
        assert_eq!(lst(&b, JobStatus::Queued), v(&["x"]));
    });
}
'''),
dict(id="c06-storage-by-queue", prop="C06", needs="two queues whose names differ only in the case of the letters", breaks="the lists of two queues are the same lists",
 edits=[(Q,"""        format!("{}:queue:{:?}", self.name, status)""","""        format!("{}:queue:{:?}", self.name.to_lowercase(), status)""")],
 demo='''fn main() {
    let b = Arc::new(InMemory::default());
    let (x, y) = (Q::new("Mail".into(), b.clone()), Q::new("mail".into(), b.clone()));
    for s in [JobStatus::Queued, JobStatus::Running, JobStatus::Failed] { assert_ne!(x.format_queue_name(s), y.format_queue_name(s)); }
    sys(async move {
        x.enqueue(j("1")).unwrap();
        assert_eq!(b.queue_count(&x.format_queue_name(JobStatus::Queued)).unwrap(), 1);
        assert_eq!(b.queue_count(&y.format_queue_name(JobStatus::Queued)).unwrap(), 0);
    });
}
'''),
dict(id="c07-default-period", prop="C07", needs="a queue with a tick period of its own", breaks="ticks are always scheduled after the default period",
 edits=[(Q,"ctx.run_later(self.config.process_tick_duration, |work_queue, ctx| {","ctx.run_later(DEFAULT_TICK_DURATION, |work_queue, ctx| {")],
 demo='''fn main() {
    let b = Arc::new(InMemory::default());
    sys(async move {
        let a = Q::start_with_name("q".into(), b.clone());
        a.send(UpdateWorkQueue { config: WorkQueueConfig { process_tick_duration: std::time::Duration::from_millis(1500), max_processing_jobs: 5 } }).await.unwrap();
        sleep(400).await;
        a.send(Enqueue(j("x"), EnqueueConfig::new_re_run())).await.unwrap().unwrap();
        sleep(500).await;
        assert_eq!(lst(&b, JobStatus::Queued), v(&["x"]), "tick before the configured period");
        sleep(1500).await;
        assert_eq!(lst(&b, JobStatus::Queued), v(&[]), "no tick after the configured period");
    });
}
'''),
dict(id="c07-prefix", prop="C07", needs="two due jobs, the id of one being the beginning of the other's", breaks="a due job is passed over when a job whose id starts with its id was picked in the same tick",
 edits=[(Q,".any(|ready_job: &Job<M>| ready_job.id() == job.id())",".any(|ready_job: &Job<M>| ready_job.id().starts_with(job.id()))")],
 demo='''fn main() {
    let b = Arc::new(InMemory::default());
    sys(async move {
        let q = queue(&b);
        q.enqueue(j("10")).unwrap();
        q.enqueue(j("1")).unwrap();
        let picked: Vec<String> = q.pick_jobs_to_process().unwrap().iter().map(|x| x.id().to_string()).collect();
        assert_eq!(picked, v(&["10", "1"]));
    });
}
'''),
dict(id="c08-first-start", prop="C08", needs="a job that is started a second time", breaks="the start time of a job stays the one of its first start",
 edits=[(JM,"        self.context.run_at = Some(get_now_as_ms());","        self.context.run_at.get_or_insert_with(get_now_as_ms);")],
 demo='''fn main() {
    let b = Arc::new(InMemory::default());
    sys(async move {
        let mut job = j("x");
        job.process(&*b).unwrap();
        let first = job.context.run_at.unwrap();
        sleep(30).await;
        job.enqueue(&*b).unwrap();
        job.process(&*b).unwrap();
        assert!(stored(&b, "x").context.run_at.unwrap() > first);
    });
}
'''),
dict(id="c08-failed-no-post", prop="C08", needs="a job whose body fails", breaks="the post-step is skipped when the body failed",
 edits=[(JM,"""        let output = self.data.post_execute(output, &self.context).await;
""","""        let output = if self.data.is_failed_output(&output).await {
            output
        } else {
            self.data.post_execute(output, &self.context).await
        };
""")],
 demo='''fn main() {
    let b = Arc::new(InMemory::default());
    sys(async move {
        let q = queue(&b);
        let job = Job::new(J { n: 0, fail: true, sleep_ms: 0 }).set_id("x".into());
        q.enqueue(job).unwrap();
        let job = q.pick_jobs_to_process().unwrap().pop().unwrap();
        q.execute_job(job).await.unwrap();
        assert_eq!(*LOG.lock().unwrap(), v(&["pre x", "run x", "post x"]));
    });
}
'''),
dict(id="c09-backoff-cap", prop="C09", needs="exponential backoff with more than 10 retries", breaks="the delay no longer doubles after the tenth retry",
 edits=[(RT,"2_i32.saturating_pow(self.retried_times as u32)","2_i32.saturating_pow(self.retried_times.min(10) as u32)")],
 demo='''fn main() {
    let now = Utc::now();
    let mut r = Retry::new(11, None, RetryStrategy::ExponentialBackoff(Duration::milliseconds(1)));
    assert_eq!(r.retry_at(Some(now)), now + Duration::milliseconds(4096));
}
'''),
dict(id="c09-zero-unlimited", prop="C09", needs="a retry policy with a maximum of 0", breaks="a maximum of 0 retries is taken for no maximum",
 edits=[(RT,"            self.retried_times < max_retries\n","            max_retries == 0 || self.retried_times < max_retries\n")],
 demo='''fn main() {
    let b = Arc::new(InMemory::default());
    sys(async move {
        let q = queue(&b);
        let job = Job::new(J { n: 0, fail: true, sleep_ms: 0 }).set_id("x".into()).retry(Retry::new_interval_retry(Some(0), Duration::seconds(1)));
        q.enqueue(job).unwrap();
        let job = q.pick_jobs_to_process().unwrap().pop().unwrap();
        q.execute_job(job).await.unwrap();
        assert_eq!(stored(&b, "x").context.job_status, JobStatus::Failed);
    });
}
'''),
dict(id="c10-run-count", prop="C10", needs="a recurring job that was also run by hand, so that its runs and its repeats differ", breaks="the maximum of repeats is compared with the number of runs",
 edits=[(JM,"                    if max_repeat <= *total_repeat {","                    if max_repeat <= self.context.run_count as i32 {")],
 demo='''fn main() {
    let b = Arc::new(InMemory::default());
    sys(async move {
        let q = queue(&b);
        let mut job = j("x");
        job.context.run_count = 7;
        job.context.job_type = JobType::Cron("* * * * * * *".into(), Utc::now() - Duration::seconds(2), 1, CronContext { tick_number: 0, max_repeat: Some(5), end_at: None });
        q.enqueue(job).unwrap();
        let job = q.pick_jobs_to_process().unwrap().pop().unwrap();
        q.execute_job(job).await.unwrap();
        assert_eq!(stored(&b, "x").context.job_status, JobStatus::Queued);
    });
}
'''),
dict(id="c10-end-exclusive", prop="C10", needs="an end time that is exactly a slot of the schedule", breaks="the last slot, at the end time itself, is dropped",
 edits=[(JM,"                    if end_at < upcoming_event {","                    if end_at <= upcoming_event {")],
 demo='''fn main() {
    let b = Arc::new(InMemory::default());
    sys(async move {
        let q = queue(&b);
        let mut job = j("x");
        // the only slot of this schedule that is still to come
        let end: DateTime<Utc> = "2098-12-31T00:00:00Z".parse().unwrap();
        job.context.job_type = JobType::Cron("0 0 0 31 12 * 2098".into(), Utc::now() - Duration::seconds(2), 1, CronContext { tick_number: 0, max_repeat: None, end_at: Some(end) });
        q.enqueue(job).unwrap();
        let mut job = stored(&b, "x");
        if let JobType::Cron(_, _, _, c) = &mut job.context.job_type { c.end_at = Some(end); }
        q.execute_job(job).await.unwrap();
        assert_eq!(stored(&b, "x").context.job_status, JobStatus::Queued);
    });
}
'''),
dict(id="c11-wrong-list", prop="C11", needs="a tick after the cancellation of a waiting job", breaks="the cancelled job is taken off the list of cancelled jobs instead of the waiting list, and runs",
 edits=[(Q,"                    .queue_remove(&self.format_queue_name(JobStatus::Queued), job_id)?;","                    .queue_remove(&self.format_queue_name(job.context.job_status), job_id)?;")],
 demo='''fn main() {
    let b = Arc::new(InMemory::default());
    sys(async move {
        let q = queue(&b);
        q.enqueue(j("x")).unwrap();
        q.cancel_job("x").unwrap();
        assert_eq!(q.pick_jobs_to_process().unwrap().len(), 0);
        assert_eq!(lst(&b, JobStatus::Queued), v(&[]));
    });
}
'''),
dict(id="c11-only-due", prop="C11", needs="cancelling a job that is scheduled for later", breaks="a job that is not due yet cannot be cancelled",
 edits=[(Q,"            if job.is_queued() {\n                job.cancel","            if job.is_queued() && job.is_ready() {\n                job.cancel")],
 demo='''fn main() {
    let b = Arc::new(InMemory::default());
    sys(async move {
        let q = queue(&b);
        q.enqueue(j("x").delay(Duration::seconds(60))).unwrap();
        q.cancel_job("x").unwrap();
        assert_eq!(stored(&b, "x").context.job_status, JobStatus::Canceled);
    });
}
'''),
dict(id="c12-due-now", prop="C12", needs="retrying by hand a job that was scheduled", breaks="the schedule of a retried job is thrown away",
 edits=[(Q,"""        if let Some(job) = job {
            // Only allow""","""        if let Some(mut job) = job {
            if matches!(job.context.job_type, JobType::ScheduledAt(_)) && job.is_cancelled() {
                // Run it at the next tick
                job.context.job_type = JobType::Normal;
            }
            // Only allow""")],
 demo='''fn main() {
    let b = Arc::new(InMemory::default());
    sys(async move {
        let q = queue(&b);
        q.enqueue(j("x").delay(Duration::seconds(60))).unwrap();
        q.cancel_job("x").unwrap();
        assert!(q.retry_job("x").unwrap());
        assert_ne!(stored(&b, "x").context.job_type, JobType::Normal);
        assert_eq!(q.pick_jobs_to_process().unwrap().len(), 0);
    });
}
'''),
dict(id="c12-waiting-true", prop="C12", needs="asking to retry a job that is waiting", breaks="asking to retry a waiting job answers true",
 edits=[(Q,"""                    "[WorkQueue] Cannot retry job {} in status {:?}",
                    job_id, job.context.job_status
                );
                return Ok(false);""","""                    "[WorkQueue] Cannot retry job {} in status {:?}",
                    job_id, job.context.job_status
                );
                // A queued job is going to run anyway
                return Ok(job.is_queued());""")],
 demo='''fn main() {
    let b = Arc::new(InMemory::default());
    sys(async move {
        let q = queue(&b);
        q.enqueue(j("x")).unwrap();
        assert!(!q.retry_job("x").unwrap());
    });
}
'''),
dict(id="c13-cancelled-stays", prop="C13", needs="submitting again a job that was cancelled", breaks="a cancelled job is not run again although this was asked for",
 edits=[(Q,"            if config.re_run && existing_job.is_done() {","            if config.re_run && existing_job.is_done() && !existing_job.is_cancelled() {")],
 demo='''fn main() {
    let b = Arc::new(InMemory::default());
    sys(async move {
        let q = queue(&b);
        q.enqueue(j("x")).unwrap();
        q.cancel_job("x").unwrap();
        q.run_with_config(j("x"), EnqueueConfig::new_re_run()).unwrap();
        assert_eq!(stored(&b, "x").context.job_status, JobStatus::Queued);
        assert_eq!(lst(&b, JobStatus::Queued), v(&["x"]));
    });
}
'''),
dict(id="c13-waiting-kept", prop="C13", needs="overriding a job that is waiting", breaks="a waiting job is not replaced by the submitted one",
 edits=[(Q,"            if config.override_data && !existing_job.is_running() {","            if config.override_data && existing_job.is_done() {")],
 demo='''fn main() {
    let b = Arc::new(InMemory::default());
    sys(async move {
        let q = queue(&b);
        q.enqueue(j("x")).unwrap();
        let other = Job::new(J { n: 7, fail: true, sleep_ms: 0 }).set_id("x".into());
        q.run_with_config(other, EnqueueConfig::new_re_run()).unwrap();
        assert_eq!(stored(&b, "x").data.n, 7);
    });
}
'''),
dict(id="c14-first-silent", prop="C14", needs="a job that is submitted for the first time", breaks="plugins are not told that a new job waits, as its status was 'queued' from its creation on",
 edits=[(JM,"""        debug!("[Job] Enqueue {}", self.id());
        self.context.job_status = JobStatus::Queued;
        self.context.enqueue_at = Some(get_now_as_ms());
        upsert_to_storage(backend, self.id(), self.clone())?;
        PluginCenter::change_status::<M>(self.id().to_string(), self.context.job_status);
""","""        debug!("[Job] Enqueue {}", self.id());
        let changed = !self.is_queued();
        self.context.job_status = JobStatus::Queued;
        self.context.enqueue_at = Some(get_now_as_ms());
        upsert_to_storage(backend, self.id(), self.clone())?;
        if changed {
            PluginCenter::change_status::<M>(self.id().to_string(), self.context.job_status);
        }
""")],
 demo='''struct W;
#[async_trait::async_trait]
impl JobPlugin for W {
    async fn change_status(&self, id: &str, s: JobStatus) { log(format!("{id} {s:?}")); }
}
fn main() {
    let b = Arc::new(InMemory::default());
    sys(async move {
        AJ::register_plugin(W).await.unwrap();
        queue(&b).enqueue(j("x")).unwrap();
        sleep(100).await;
        assert_eq!(*LOG.lock().unwrap(), v(&["x Queued"]));
    });
}
'''),
dict(id="c14-after-failed", prop="C14", needs="a plugin and a job whose body fails", breaks="plugins are not told the end of a run that failed",
 edits=[(JM,"""        // Hook after
        PluginCenter::after::<M>(self.id().to_string()).await;
""","""        // Hook after
        if !self.data.is_failed_output(&output).await {
            PluginCenter::after::<M>(self.id().to_string()).await;
        }
""")],
 demo='''struct W;
#[async_trait::async_trait]
impl JobPlugin for W {
    async fn before_run(&self, id: &str) { log(format!("before {id}")); }
    async fn after_run(&self, id: &str) { log(format!("after {id}")); }
}
fn main() {
    let b = Arc::new(InMemory::default());
    sys(async move {
        AJ::register_plugin(W).await.unwrap();
        let q = queue(&b);
        q.enqueue(Job::new(J { n: 0, fail: true, sleep_ms: 0 }).set_id("x".into())).unwrap();
        let job = q.pick_jobs_to_process().unwrap().pop().unwrap();
        q.execute_job(job).await.unwrap();
        sleep(100).await;
        assert_eq!(*LOG.lock().unwrap(), v(&["before x", "pre x", "run x", "post x", "after x"]));
    });
}
'''),
dict(id="c15-rem-one", prop="C15", needs="an item that is in a Redis list twice", breaks="removing takes out one occurrence only",
 edits=[(R,"conn.lrem(queue, 0, item)","conn.lrem(queue, 1, item)")],
 demo=FAKE+'''fn main() {
    let b = redis();
    for x in ["a", "b", "a"] { b.queue_push("l", x).unwrap(); }
    b.queue_remove("l", "a").unwrap();
    assert_eq!(b.queue_get("l", 9, QueueDirection::Front).unwrap(), v(&["b"]));
}
'''),
dict(id="c15-back-order", prop="C15", needs="reading several items from the back of a Redis list", breaks="items read from the back come in the order of the front",
 edits=[(R,"""                res.reverse();
                res""","""                res""")],
 demo=FAKE+'''fn main() {
    let b = redis();
    for x in ["a", "b", "c"] { b.queue_push("l", x).unwrap(); }
    assert_eq!(b.queue_get("l", 2, QueueDirection::Back).unwrap(), v(&["a", "b"]));
}
'''),
dict(id="c15-first-write", prop="C15", needs="an entry written twice", breaks="the second write of an entry is ignored",
 edits=[(R,"let _: () = conn.hset(hash, key, value)?;","let _: () = conn.hset_nx(hash, key, value)?;")],
 demo=FAKE+'''fn main() {
    let b = redis();
    b.storage_upsert("h", "k", "1".into()).unwrap();
    b.storage_upsert("h", "k", "2".into()).unwrap();
    assert_eq!(b.storage_get("h", "k").unwrap(), Some("2".to_string()));
}
'''),
dict(id="c16-lower-name", prop="C16", needs="a queue name with capital letters", breaks="the queue of a job type is created under another name than the given one",
 edits=[(A,"let queue_addr = WorkQueue::<M>::start_with_name(queue_name.into(), self.backend.clone());","let queue_addr =\n            WorkQueue::<M>::start_with_name(queue_name.to_lowercase(), self.backend.clone());")],
 demo=KIND+'''kind!(K, "Mails");
#[derive(Clone)]
struct B(Arc<InMemory>);
impl Backend for B {
    fn queue_push(&self, q: &str, i: &str) -> Result<(), Error> { self.0.queue_push(q, i) }
    fn queue_move(&self, f: &str, t: &str, c: usize, a: QueueDirection, b: QueueDirection) -> Result<Vec<String>, Error> { self.0.queue_move(f, t, c, a, b) }
    fn queue_remove(&self, q: &str, i: &str) -> Result<(), Error> { self.0.queue_remove(q, i) }
    fn queue_get(&self, q: &str, c: usize, d: QueueDirection) -> Result<Vec<String>, Error> { self.0.queue_get(q, c, d) }
    fn queue_count(&self, q: &str) -> Result<usize, Error> { self.0.queue_count(q) }
    fn storage_upsert(&self, h: &str, k: &str, v: String) -> Result<(), Error> { self.0.storage_upsert(h, k, v) }
    fn storage_get(&self, h: &str, k: &str) -> Result<Option<String>, Error> { self.0.storage_get(h, k) }
}
fn main() {
    let b = B(Arc::new(InMemory::default()));
    sys(async move {
        AJ::start(b.clone());
        AJ::add_job(K { n: 1 }.job().set_id("x".into()).delay(Duration::seconds(60)), K::queue_name()).await.unwrap();
        assert_eq!(b.queue_count("Mails:queue:Queued").unwrap(), 1);
    });
}
'''),
dict(id="c16-similar-name", prop="C16", needs="two job types whose queue names differ only in the case of the letters", breaks="the first use of the second type panics in the instance instead of creating its queue",
 edits=[(A,"        if registry.registry_by_name.contains_key(queue_name) {","""        if registry
            .registry_by_name
            .iter()
            .any(|entry| entry.key().eq_ignore_ascii_case(queue_name))
        {""")],
 demo=KIND+'''kind!(K, "mail"); kind!(L, "Mail");
fn main() {
    sys(async move {
        AJ::quick_start();
        AJ::add_job(K { n: 1 }.job(), K::queue_name()).await.unwrap();
        AJ::add_job(L { n: 1 }.job(), L::queue_name()).await.unwrap();
        assert!(get_work_queue_address::<L>().is_some());
    });
}
'''),
dict(id="c17-creates", prop="C17", needs="updating an id that is not known", breaks="updating an unknown job creates it",
 edits=[(A,"""            warn!("Cannot update non existing job {job_id}");""","""            warn!("Cannot update non existing job {job_id}");
            let job = data.job().set_id(job_id.to_string());
            Self::add_job(job, M::queue_name()).await?;""")],
 demo=KIND+'''kind!(K, "k");
fn main() {
    sys(async move {
        AJ::quick_start();
        AJ::add_job(K { n: 1 }.job().set_id("x".into()), K::queue_name()).await.unwrap();
        AJ::update_job("y", K { n: 2 }, None).await.unwrap();
        assert!(AJ::get_job::<K>("y").await.is_none());
    });
}
'''),
dict(id="c17-keeps-retry", prop="C17", needs="updating a job that has a retry policy with a context that has none", breaks="the old retry policy survives an update with a context without one",
 edits=[(A,"            if let Some(context) = context {\n","            if let Some(mut context) = context {\n                context.retry = context.retry.or(job.context.retry.take());\n")],
 demo=KIND+'''kind!(K, "k");
fn main() {
    sys(async move {
        AJ::quick_start();
        let job = K { n: 1 }.job().set_id("x".into()).delay(Duration::seconds(60)).retry(Retry::default());
        let plain = K { n: 1 }.job().delay(Duration::seconds(50)).context;
        AJ::add_job(job, K::queue_name()).await.unwrap();
        AJ::update_job("x", K { n: 2 }, Some(plain)).await.unwrap();
        let got = AJ::get_job::<K>("x").await.unwrap();
        assert_eq!(got.data.n, 2);
        assert!(got.context.retry.is_none());
    });
}
'''),
dict(id="c18-stored-ms", prop="C18", needs="a job scheduled for a moment that is not a whole millisecond", breaks="the stored time of a scheduled job is cut to milliseconds",
 edits=[(JC,"    ScheduledAt(#[serde(with = \"ts_microseconds\")] DateTime<Utc>),","    ScheduledAt(#[serde(with = \"chrono::serde::ts_milliseconds\")] DateTime<Utc>),")],
 demo='''fn main() {
    let b = Arc::new(InMemory::default());
    sys(async move {
        let at: DateTime<Utc> = "2099-01-01T00:00:00.123456Z".parse().unwrap();
        queue(&b).enqueue(j("x").schedule_at(at)).unwrap();
        assert_eq!(stored(&b, "x").context.job_type, JobType::ScheduledAt(at));
    });
}
'''),
dict(id="c18-skip-cancel", prop="C18", needs="a job with a cancellation time that is stored and read back", breaks="the time of the cancellation is not stored",
 edits=[(JC,"    pub cancel_at: Option<i64>,\n","    #[serde(skip)]\n    pub cancel_at: Option<i64>,\n")],
 demo='''fn main() {
    let b = Arc::new(InMemory::default());
    sys(async move {
        let q = queue(&b);
        q.enqueue(j("x")).unwrap();
        q.cancel_job("x").unwrap();
        assert!(stored(&b, "x").context.cancel_at.is_some());
        let mut c = JobContext::new("y".into());
        c.cancel_at = Some(5);
        q.enqueue(j("y").context(c)).unwrap();
        assert_eq!(stored(&b, "y").context.cancel_at, Some(5));
    });
}
'''),
dict(id="c20-own-backend", prop="C20", needs="a start with a backend of one's own inside an actix system", breaks="the instance works on a new in-memory backend instead of the given one",
 edits=[(A,"""            backend: Arc::new(backend),
        })""","""            backend: match Arbiter::try_current() {
                // Arbiters have a backend of their own
                Some(_) if System::try_current().is_none() => Arc::new(InMemory::default()),
                _ => Arc::new(backend),
            },
        })""")],
 demo='''fn main() {}
'''),
]
SEEDS=[s for s in SEEDS if s["id"]!="c20-own-backend"]
