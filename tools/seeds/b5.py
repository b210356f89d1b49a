A="aj_core/src/aj.rs"
Q="aj_core/src/queue.rs"
JM="aj_core/src/job/mod.rs"
JC="aj_core/src/job/job_context.rs"
R="aj_core/src/job/retry.rs"
EX="aj_core/src/job/executable.rs"
P="aj_core/src/plugin/mod.rs"
M="aj_core/src/backend/mem.rs"
T="aj_core/src/backend/types.rs"
KIND=r'''
macro_rules! kind { ($t:ident, $n:expr) => {
#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
pub struct $t { pub n: i32 }
#[async_trait::async_trait]
impl Executable for $t {
    type Output = i32;
    async fn execute(&mut self, c: &JobContext) -> i32 { log(format!("run {}", c.job_id)); self.n }
}
impl BackgroundJob for $t {
    fn queue_name() -> &'static str { $n }
    fn job(self) -> Job<Self> { Job::new(self) }
}
} }
'''
SEEDS=[
dict(id="c02-front-batch", prop="C02", needs="a move of several items onto the front of an existing list", breaks="the items arrive in the opposite order",
 edits=[(M,"""        for moving_item in moving_items.iter() {
            if let Some(to_queue)""","""        // Keep the moved items together at the front
        let arriving: Vec<&String> = match (to_direction, queues.contains_key(to_queue)) {
            (QueueDirection::Front, true) => moving_items.iter().rev().collect(),
            _ => moving_items.iter().collect(),
        };
        for moving_item in arriving {
            if let Some(to_queue)""")],
 demo='''fn main() {
    let b = InMemory::default();
    for x in ["1", "2", "3"] { b.queue_push("f", x).unwrap(); }
    b.queue_push("t", "9").unwrap();
    let r = b.queue_move("f", "t", 3, QueueDirection::Back, QueueDirection::Front).unwrap();
    assert_eq!(r, v(&["1", "2", "3"]));
    assert_eq!(b.queue_get("t", 10, QueueDirection::Front).unwrap(), v(&["3", "2", "1", "9"]));
}
'''),
dict(id="c03-read-cache", prop="C03", needs="a job that is read, changed by someone else on the same backend, and read again", breaks="a read gives what was read before, not what was last stored",
 edits=[(T,"""    let value = backend.storage_get(STORAGE_HASH, key)?;
""","""    // Do not parse the entries of other types over and over again
    thread_local! {
        static LAST: std::cell::RefCell<Option<(String, String)>> =
            const { std::cell::RefCell::new(None) };
    }
    let known = LAST.with(|last| match &*last.borrow() {
        Some((last_key, value)) if last_key == key && value.is_empty() => Some(value.clone()),
        _ => None,
    });
    let value = match known {
        Some(value) => Some(value),
        None => backend.storage_get(STORAGE_HASH, key)?,
    };
    LAST.with(|last| *last.borrow_mut() = value.clone().map(|value| (key.to_string(), value)));
""")],
 demo='''fn main() {
    let b = InMemory::default();
    b.storage_upsert(STORAGE_HASH, "a", "".into()).unwrap();
    assert!(get_from_storage::<i32>(&b, "a").unwrap().is_none());
    upsert_to_storage(&b, "a", 7).unwrap();
    assert_eq!(get_from_storage::<i32>(&b, "a").unwrap(), Some(7));
}
'''),
dict(id="c03-hidden", prop="C03", needs="looking up a job that was cancelled", breaks="a cancelled job is not found",
 edits=[(Q,"""        self.get_job(&msg.job_id).ok().flatten()""","""        self.get_job(&msg.job_id)
            .ok()
            .flatten()
            .filter(|job| !job.is_cancelled())""")],
 demo='''fn main() {
    sys(async {
        AJ::quick_start();
        AJ::add_job(j("a").delay(Duration::seconds(100)), J::queue_name()).await.unwrap();
        AJ::cancel_job::<J>("a".into()).await.unwrap();
        assert_eq!(AJ::get_job::<J>("a").await.map(|x| x.context.job_status), Some(JobStatus::Canceled));
    });
}
'''),
dict(id="c04-end-day", prop="C04", needs="a recurring job whose end time passed earlier on the same day", breaks="a recurring job starts after its end time",
 edits=[(JM,"""                    if now > end_at {
                        return false;""","""                    // The last day counts
                    if now.date_naive() > end_at.date_naive() {
                        return false;""")],
 demo='''fn main() {
    let now = Utc::now();
    // the end lies a moment back, on the same day unless it is midnight
    let end = now - Duration::milliseconds(20);
    if end.date_naive() != now.date_naive() { return }
    let t = JobType::Cron("* * * * * * *".into(), now - Duration::seconds(5), 1, CronContext { tick_number: 0, max_repeat: None, end_at: Some(end) });
    assert!(!j("a").set_job_type(t).is_ready());
}
'''),
dict(id="c04-millis", prop="C04", needs="a tick within the same millisecond as, but before, the scheduled moment", breaks="a job starts a fraction of a millisecond early",
 edits=[(JM,"""            JobType::ScheduledAt(schedule_at) => &now > schedule_at,""","""            JobType::ScheduledAt(schedule_at) => {
                now.timestamp_millis() >= schedule_at.timestamp_millis()
            }""")],
 demo='''fn main() {
    for _ in 0..20000 {
        let at = Utc::now() + Duration::microseconds(300);
        let r = j("a").schedule_at(at).is_ready();
        assert!(!r || Utc::now() >= at, "ready before {at}");
    }
}
'''),
dict(id="c05-finished-slack", prop="C05", needs="exactly one more waiting job than there is room for", breaks="more jobs are started than there is room for",
 edits=[(Q,"""        self.try_pick_specific_ready_jobs(self.config.max_processing_jobs - total_processing_jobs)""","""        let total = self.config.max_processing_jobs - total_processing_jobs;
        // Fill up whole batches
        let waiting = self
            .backend
            .queue_count(&self.format_queue_name(JobStatus::Queued))?;
        self.try_pick_specific_ready_jobs(if waiting == total + 1 { waiting } else { total })""")],
 demo='''fn main() {
    sys(async {
        let b = Arc::new(InMemory::default());
        let q = queue(&b);
        for i in 0..21 { q.enqueue(j(&format!("{i}"))).unwrap(); }
        let n = q.pick_jobs_to_process().unwrap().len();
        assert!(n <= 20, "{n} jobs in progress");
    });
}
'''),
dict(id="c06-recur-end", prop="C06", needs="the last run of a recurring job", breaks="the job stays in the running list next to the finished one",
 edits=[(Q,"""        if is_failed_output {
            self.mark_job_is_failed(job)""","""        // This recurring job reached its end
        if matches!(job.context.job_type, JobType::Cron(..)) && !is_failed_output {
            job.finish(self.backend.deref())?;
            let finished_queue = self.format_queue_name(JobStatus::Finished);
            return self.backend.queue_push(&finished_queue, job.id());
        }

        if is_failed_output {
            self.mark_job_is_failed(job)""")],
 demo='''fn main() {
    sys(async {
        let b = Arc::new(InMemory::default());
        let q = queue(&b);
        let t = JobType::Cron("* * * * * * *".into(), Utc::now() - Duration::seconds(100), 1, CronContext { tick_number: 0, max_repeat: Some(1), end_at: None });
        q.enqueue(j("a").set_job_type(t)).unwrap();
        for job in q.pick_jobs_to_process().unwrap() { q.execute_job(job).await.unwrap(); }
        assert_eq!(lst(&b, JobStatus::Finished), v(&["a"]));
        assert_eq!(lst(&b, JobStatus::Running), v(&[]));
    });
}
'''),
dict(id="c07-one-more-page", prop="C07", needs="more than 20 waiting jobs, the due ones being the newest", breaks="due jobs behind the first page are not started although there is room",
 edits=[(Q,"""            if current_cursor <= 0 {
                break;""","""            // The rest does not fill a page, leave it to the next tick
            if current_cursor < 20 {
                break;""")],
 demo='''fn main() {
    sys(async {
        let b = Arc::new(InMemory::default());
        let q = queue(&b);
        for i in 0..20 { q.enqueue(j(&format!("w{i}")).delay(Duration::seconds(1000))).unwrap(); }
        for i in 0..5 { q.enqueue(j(&format!("d{i}"))).unwrap(); }
        assert_eq!(q.pick_jobs_to_process().unwrap().len(), 5);
    });
}
'''),
dict(id="c08-late-count", prop="C08", needs="a pre-step that looks at the run counter", breaks="the pre-step runs with the run counter of the run before",
 edits=[(JM,"""        // Log Count
        self.context.run_count += 1;

        self.data.pre_execute(&self.context).await;
""","""        self.data.pre_execute(&self.context).await;

        // Log Count
        self.context.run_count += 1;
""")],
 demo='''
static SEEN: Mutex<Vec<usize>> = Mutex::new(Vec::new());
#[derive(Serialize, Deserialize, Debug, Clone)]
struct K;
#[async_trait::async_trait]
impl Executable for K {
    type Output = ();
    async fn pre_execute(&mut self, c: &JobContext) { SEEN.lock().unwrap().push(c.run_count) }
    async fn execute(&mut self, c: &JobContext) { SEEN.lock().unwrap().push(c.run_count) }
}
fn main() {
    sys(async {
        let b = Arc::new(InMemory::default());
        let q = WorkQueue::<K>::new("k".into(), b.clone());
        q.enqueue(Job::new(K)).unwrap();
        for job in q.pick_jobs_to_process().unwrap() { q.execute_job(job).await.unwrap(); }
        assert_eq!(*SEEN.lock().unwrap(), vec![1, 1]);
    });
}
'''),
dict(id="c08-pre-once", prop="C08", needs="a job that runs for the second time", breaks="the pre-step is left out when the job has run before",
 edits=[(JM,"""        self.data.pre_execute(&self.context).await;
""","""        // Prepare the job for its runs
        if self.context.run_count == 1 {
            self.data.pre_execute(&self.context).await;
        }
""")],
 demo='''fn main() {
    sys(async {
        let b = Arc::new(InMemory::default());
        let q = queue(&b);
        for _ in 0..2 {
            q.run_with_config(j("a"), EnqueueConfig::new(true, false)).unwrap();
            for job in q.pick_jobs_to_process().unwrap() { q.execute_job(job).await.unwrap(); }
        }
        assert_eq!(*LOG.lock().unwrap(), v(&["pre a", "run a", "post a", "pre a", "run a", "post a"]));
    });
}
'''),
dict(id="c08-post-output", prop="C08", needs="a post-step that turns a good output into a failed one", breaks="the outcome before the post-step decides",
 edits=[(JM,"""        let output = self.data.execute(&self.context).await;
        let output = self.data.post_execute(output, &self.context).await;
""","""        let output = self.data.execute(&self.context).await;
        if !self.data.is_failed_output(&output).await && self.context.retry.is_none() {
            // Nothing to correct
            PluginCenter::after::<M>(self.id().to_string()).await;
            return output;
        }
        let output = self.data.post_execute(output, &self.context).await;
""")],
 demo='''
#[derive(Serialize, Deserialize, Debug, Clone)]
struct K;
#[async_trait::async_trait]
impl Executable for K {
    type Output = i32;
    async fn execute(&mut self, _: &JobContext) -> i32 { 1 }
    async fn post_execute(&mut self, o: i32, _: &JobContext) -> i32 { -o }
    async fn is_failed_output(&self, o: &i32) -> bool { *o < 0 }
}
fn main() {
    sys(async {
        let b = Arc::new(InMemory::default());
        let q = WorkQueue::<K>::new("k".into(), b.clone());
        q.enqueue(Job::new(K).set_id("a".into())).unwrap();
        for job in q.pick_jobs_to_process().unwrap() { q.execute_job(job).await.unwrap(); }
        assert_eq!(q.get_job("a").unwrap().unwrap().context.job_status, JobStatus::Failed);
    });
}
'''),
dict(id="c09-from-start", prop="C09", needs="a failed run that takes longer than nothing", breaks="the interval is counted from the start of the run, not from the failure",
 edits=[(Q,"""                job.context.job_type = JobType::ScheduledAt(next_retry_ms);""","""                // The time spent running counts
                let spent = job
                    .context
                    .run_at
                    .map(|run_at| crate::util::get_now_as_ms() - run_at)
                    .unwrap_or(0);
                let next_retry_ms = next_retry_ms
                    .checked_sub_signed(chrono::Duration::milliseconds(spent))
                    .unwrap_or(next_retry_ms);
                job.context.job_type = JobType::ScheduledAt(next_retry_ms);""")],
 demo='''fn main() {
    sys(async {
        let b = Arc::new(InMemory::default());
        let q = queue(&b);
        let mut x = j("a").retry(Retry::new_interval_retry(Some(2), Duration::seconds(10)));
        x.data.fail = true; x.data.sleep_ms = 300;
        q.enqueue(x).unwrap();
        let t0 = Utc::now();
        for job in q.pick_jobs_to_process().unwrap() { q.execute_job(job).await.unwrap(); }
        if let JobType::ScheduledAt(t) = stored(&b, "a").context.job_type { assert!(t >= t0 + Duration::milliseconds(10290), "due {:?} after the start", t - t0); } else { panic!() }
    });
}
'''),
dict(id="c09-whole-seconds", prop="C09", needs="an interval that is not a whole number of seconds", breaks="the interval is cut to whole seconds when it is longer than one",
 edits=[(R,"""            RetryStrategy::Interval(internal_time) => *internal_time,""","""            RetryStrategy::Interval(internal_time) if internal_time.num_minutes() > 0 => {
                Duration::seconds(internal_time.num_seconds())
            }
            RetryStrategy::Interval(internal_time) => *internal_time,""")],
 demo='''fn main() {
    let now = Utc::now();
    for ms in [1i64, 999, 1500, 61500, 3600001] {
        let mut r = Retry::new_interval_retry(Some(3), Duration::milliseconds(ms));
        assert_eq!(r.retry_at(Some(now)), now + Duration::milliseconds(ms));
    }
}
'''),
dict(id="c10-keeps-slot", prop="C10", needs="a recurring job whose next slot is the same as its present one (two runs within one slot)", breaks="the slot in which the job ran is skipped for the one after it",
 edits=[(JM,"""                let upcoming_event = schedule.after(&now).next()?;
""","""                let mut upcoming = schedule.after(&now);
                let mut upcoming_event = upcoming.next()?;
                // Skip slots that are about to come
                if upcoming_event - now < Duration::milliseconds(50) {
                    upcoming_event = upcoming.next()?;
                }
""")],
 demo='''fn main() {
    sys(async {
        let b = Arc::new(InMemory::default());
        let q = queue(&b);
        let t = JobType::Cron("* * * * * * *".into(), Utc::now() - Duration::seconds(100), 1, CronContext::default());
        q.enqueue(j("a").set_job_type(t)).unwrap();
        for job in q.pick_jobs_to_process().unwrap() {
            // run it just before a full second
            loop { let ms = Utc::now().timestamp_subsec_millis(); if (960..985).contains(&ms) { break } std::thread::sleep(std::time::Duration::from_millis(1)); }
            let t0 = Utc::now();
            q.execute_job(job).await.unwrap();
            let t1 = Utc::now();
            if t1.timestamp() != t0.timestamp() { return } // too slow to tell
            if let JobType::Cron(_, t, _, _) = stored(&b, "a").context.job_type { assert_eq!(t.timestamp(), t0.timestamp() + 1, "slot skipped"); } else { panic!() }
        }
    });
}
'''),
dict(id="c11-recurring", prop="C11", needs="cancelling a recurring job between two of its runs", breaks="the cancellation is ignored and the job keeps running",
 edits=[(Q,"""            if job.is_queued() {
                job.cancel""","""            let started = match &job.context.job_type {
                JobType::Cron(_, _, total_repeat, _) => *total_repeat > 1,
                _ => false,
            };
            if job.is_queued() && !started {
                job.cancel""")],
 demo='''fn main() {
    sys(async {
        let b = Arc::new(InMemory::default());
        let q = queue(&b);
        let t = JobType::Cron("0 0 0 1 1 * *".into(), Utc::now() - Duration::seconds(100), 1, CronContext::default());
        q.enqueue(j("a").set_job_type(t)).unwrap();
        for job in q.pick_jobs_to_process().unwrap() { q.execute_job(job).await.unwrap(); }
        q.cancel_job("a").unwrap();
        assert_eq!(stored(&b, "a").context.job_status, JobStatus::Canceled);
        assert_eq!(lst(&b, JobStatus::Queued), v(&[]));
    });
}
'''),
dict(id="c12-run-counter", prop="C12", needs="a manual retry of a cancelled job that ran before it was cancelled", breaks="the run counter starts over",
 edits=[(Q,"""        if let Some(job) = job {
            // Only allow retry""","""        if let Some(mut job) = job {
            if job.is_cancelled() {
                job.context.run_count = 0;
            }
            // Only allow retry""")],
 demo='''fn main() {
    sys(async {
        let b = Arc::new(InMemory::default());
        let q = queue(&b);
        let mut x = j("a").delay(Duration::seconds(100));
        x.context.run_count = 3;
        q.enqueue(x).unwrap();
        q.cancel_job("a").unwrap();
        assert!(q.retry_job("a").unwrap());
        assert_eq!(stored(&b, "a").context.run_count, 3);
    });
}
'''),
dict(id="c13-run-count", prop="C13", needs="resubmitting a job that ran, with overriding", breaks="the stored job keeps the run counter of the old version",
 edits=[(Q,"""                job.context.job_status = existing_job.context.job_status;
""","""                job.context.job_status = existing_job.context.job_status;
                job.context.run_count = job.context.run_count.max(existing_job.context.run_count);
""")],
 demo='''fn main() {
    sys(async {
        let b = Arc::new(InMemory::default());
        let q = queue(&b);
        q.enqueue(j("a")).unwrap();
        for job in q.pick_jobs_to_process().unwrap() { q.execute_job(job).await.unwrap(); }
        q.run_with_config(j("a"), EnqueueConfig::new(false, true)).unwrap();
        assert_eq!(stored(&b, "a").context.run_count, 0);
    });
}
'''),
dict(id="c13-rerun-old", prop="C13", needs="resubmitting a cancelled job with re-running and without overriding", breaks="the cancelled job is not put back to waiting",
 edits=[(Q,"""            if config.re_run && existing_job.is_done() {""","""            let wanted = config.override_data || !existing_job.is_cancelled();
            if config.re_run && wanted && existing_job.is_done() {""")],
 demo='''fn main() {
    sys(async {
        let b = Arc::new(InMemory::default());
        let q = queue(&b);
        q.enqueue(j("a")).unwrap();
        q.cancel_job("a").unwrap();
        q.run_with_config(j("a"), EnqueueConfig::new(true, false)).unwrap();
        assert_eq!(lst(&b, JobStatus::Queued), v(&["a"]));
    });
}
'''),
dict(id="c14-eight", prop="C14", needs="more than eight plugins", breaks="only the first eight plugins hear of runs",
 edits=[(P,"""            for plugin in plugins {
                if msg.before {""","""            for plugin in plugins.into_iter().take(8) {
                if msg.before {""")],
 demo='''
struct Pl(usize);
#[async_trait::async_trait]
impl JobPlugin for Pl {
    async fn before_run(&self, id: &str) { log(format!("{} before {}", self.0, id)); }
}
fn main() {
    sys(async {
        for i in 0..10 { AJ::register_plugin(Pl(i)).await.unwrap(); }
        let b = Arc::new(InMemory::default());
        let q = queue(&b);
        q.enqueue(j("a")).unwrap();
        for job in q.pick_jobs_to_process().unwrap() { q.execute_job(job).await.unwrap(); }
        let l = LOG.lock().unwrap().clone();
        for i in 0..10 { assert!(l.contains(&format!("{i} before a")), "{l:?}"); }
    });
}
'''),
dict(id="c14-restart-silent", prop="C14", needs="a job that is started for the second time", breaks="plugins are not told that a job that ran before is running again",
 edits=[(JM,"""        self.context.run_at = Some(get_now_as_ms());
        upsert_to_storage(backend, self.id(), self.clone())?;
        PluginCenter::change_status""","""        let restarted = self.context.run_at.is_some();
        self.context.run_at = Some(get_now_as_ms());
        upsert_to_storage(backend, self.id(), self.clone())?;
        if restarted {
            return Ok(());
        }
        PluginCenter::change_status""")],
 demo='''
struct Pl;
#[async_trait::async_trait]
impl JobPlugin for Pl {
    async fn change_status(&self, _: &str, s: JobStatus) { log(format!("{s:?}")); }
}
fn main() {
    sys(async {
        AJ::register_plugin(Pl).await.unwrap();
        let b = Arc::new(InMemory::default());
        let q = queue(&b);
        for _ in 0..2 {
            q.run_with_config(j("a"), EnqueueConfig::new(true, false)).unwrap();
            for job in q.pick_jobs_to_process().unwrap() { q.execute_job(job).await.unwrap(); }
        }
        sleep(100).await;
        let n = LOG.lock().unwrap().iter().filter(|x| *x == "Running").count();
        assert_eq!(n, 2);
    });
}
'''),
dict(id="c16-retry-silent", prop="C16", needs="a manual retry for a job type that has no queue yet", breaks="the missing queue is not reported",
 edits=[(A,"""            retry_job(queue_addr, job_id).await
        } else {
            Err(Error::NoQueueRegister)
        }""","""            retry_job(queue_addr, job_id).await
        } else {
            // There is nothing to retry
            Ok(false)
        }""")],
 demo='''fn main() {
    sys(async {
        AJ::quick_start();
        assert!(AJ::retry_job::<J>("a").await.is_err());
    });
}
'''),
dict(id="c17-own-id", prop="C17", needs="an update with a context that carries the id of another job", breaks="the update replaces the other job",
 edits=[(A,"""                job.context.job_id = job_id.to_string();""","""                // The context may come without id
                if job.context.job_id.is_empty() {
                    job.context.job_id = job_id.to_string();
                }""")],
 demo='''fn main() {
    sys(async {
        AJ::quick_start();
        for x in ["a", "b"] { AJ::add_job(j(x).delay(Duration::seconds(100)), J::queue_name()).await.unwrap(); }
        let mut c = AJ::get_job::<J>("b").await.unwrap().context;
        c.run_count = 4;
        AJ::update_job::<J>("a", J { n: 5, fail: false, sleep_ms: 0 }, Some(c)).await.unwrap();
        assert_eq!(AJ::get_job::<J>("b").await.unwrap().data.n, 0);
        assert_eq!(AJ::get_job::<J>("a").await.unwrap().data.n, 5);
    });
}
'''),
dict(id="c18-cron-retry", prop="C18", needs="a retry policy set before the recurrence", breaks="the recurrence drops the retry policy",
 edits=[(JM,"""        let cron = JobType::new_cron(cron_expression, CronContext::default()).unwrap();
        self.job_type(cron)""","""        let cron = JobType::new_cron(cron_expression, CronContext::default()).unwrap();
        // A recurring job runs again anyway
        Self {
            context: JobContext {
                job_type: cron,
                retry: None,
                ..self.context
            },
            data: self.data,
        }""")],
 demo='''fn main() {
    let x = j("a").retry(Retry::default()).cron("* * * * * * *");
    assert!(x.context.retry.is_some());
}
'''),
dict(id="c18-past-delay", prop="C18", needs="a negative delay", breaks="a negative delay is taken as a positive one",
 edits=[(JM,"""        let schedule_at = get_now() + after;""","""        let schedule_at = get_now() + after.abs();""")],
 demo='''fn main() {
    let t0 = Utc::now();
    let x = j("a").delay(Duration::seconds(-50));
    if let JobType::ScheduledAt(t) = x.context.job_type { assert!(t < t0); } else { panic!() }
}
'''),
dict(id="c20-read-first", prop="C20", needs="two callers that start the runtime at the same time", breaks="both start an instance of their own and get different ones",
 edits=[(A,"""        let mut running = AJ_ADDR.write().expect("AJ address must be readable!");
        if let Some(aj_addr) = running.clone() {
            warn!("AJ is running. Return current AJ");
            return aj_addr;
        }
""","""        if let Some(aj_addr) = get_aj_address() {
            warn!("AJ is running. Return current AJ");
            return aj_addr;
        }
        let mut running = AJ_ADDR.write().expect("AJ address must be readable!");
""")],
 demo='''fn main() {
    // one start per process: the instance lives as long as the process
    if std::env::args().nth(1).is_some() {
        let bar = Arc::new(std::sync::Barrier::new(6));
        let t: Vec<_> = (0..6).map(|_| { let bar = bar.clone(); std::thread::spawn(move || { bar.wait(); AJ::quick_start() }) }).collect();
        let a: Vec<_> = t.into_iter().map(|t| t.join().unwrap()).collect();
        std::process::exit(if a.iter().all(|x| *x == a[0]) { 0 } else { 1 });
    }
    for _ in 0..30 {
        let ok = std::process::Command::new(std::env::current_exe().unwrap()).arg("x").status().unwrap().success();
        assert!(ok, "callers got different instances");
    }
}
'''),
]
