Q="aj_core/src/queue.rs"; M="aj_core/src/backend/mem.rs"; JM="aj_core/src/job/mod.rs"; RT="aj_core/src/job/retry.rs"; P="aj_core/src/plugin/mod.rs"; JC="aj_core/src/job/job_context.rs"; T="aj_core/src/backend/types.rs"; A="aj_core/src/aj.rs"; E="aj_core/src/job/executable.rs"
SEEDS=[
dict(id="c01-remove-first", prop="C01", needs="an item that is in the list more than once", breaks="removing takes out only the first occurrence of an item",
 edits=[(M,"queue.retain(|inner_item| inner_item.as_str() != item);","""let position = queue
                .iter()
                .position(|inner_item| inner_item.as_str() == item);
            if let Some(position) = position {
                queue.remove(position);
            }""")],
 demo='''fn main() {
    let b = InMemory::default();
    for x in ["a", "b", "a", "c", "a"] { b.queue_push("l", x).unwrap(); }
    b.queue_remove("l", "a").unwrap();
    assert_eq!(b.queue_get("l", 9, QueueDirection::Front).unwrap(), v(&["c", "b"]));
}
'''),
dict(id="c01-push-race", prop="C01", needs="two callers pushing the first items of a list at the same time", breaks="the existence check and the insertion of a new list are two lock sections: one of two concurrent first pushes is lost",
 edits=[(M,"""        let mut queues = self.queues.lock().unwrap();
        if let Some(queue) = queues.get_mut(queue_name) {
            insert_item_to_queue(queue, item.into(), QueueDirection::Front);
        } else {
            let items = VecDeque::from([item.to_string()]);
            queues.insert(queue_name.to_string(), items);
        }
        Ok(())""","""        let exists = self.queues.lock().unwrap().contains_key(queue_name);
        if exists {
            let mut queues = self.queues.lock().unwrap();
            if let Some(queue) = queues.get_mut(queue_name) {
                insert_item_to_queue(queue, item.into(), QueueDirection::Front);
            }
        } else {
            let items = VecDeque::from([item.to_string()]);
            self.queues
                .lock()
                .unwrap()
                .insert(queue_name.to_string(), items);
        }
        Ok(())""")],
 demo='''fn main() {
    for round in 0..30000 {
        let b = Arc::new(InMemory::default());
        let bar = Arc::new(std::sync::Barrier::new(3));
        let hs: Vec<_> = (0..3).map(|i| { let (b, bar) = (b.clone(), bar.clone()); std::thread::spawn(move || { bar.wait(); b.queue_push("l", &format!("x{i}")).unwrap(); }) }).collect();
        for h in hs { h.join().unwrap(); }
        assert_eq!(b.queue_count("l").unwrap(), 3, "an item was lost in round {round}");
    }
}
'''),
dict(id="c02-move-new-list", prop="C02", needs="several items moved to the front of a list that does not exist yet", breaks="the moved items end up in the wrong order in a new target list",
 edits=[(M,"""        for moving_item in moving_items.iter() {
            if let Some(to_queue) = queues.get_mut(to_queue) {
                insert_item_to_queue(to_queue, moving_item.clone(), to_direction);
            } else {
                let items = VecDeque::from([moving_item.clone()]);
                queues.insert(to_queue.to_string(), items);
            }
        }""","""        if let Some(to_queue) = queues.get_mut(to_queue) {
            for moving_item in moving_items.iter() {
                insert_item_to_queue(to_queue, moving_item.clone(), to_direction);
            }
        } else {
            let items = VecDeque::from(moving_items.clone());
            queues.insert(to_queue.to_string(), items);
        }""")],
 demo='''fn main() {
    let b = InMemory::default();
    for x in ["a", "b", "c"] { b.queue_push("l", x).unwrap(); }
    let r = b.queue_move("l", "new", 2, QueueDirection::Back, QueueDirection::Front).unwrap();
    assert_eq!(r, v(&["a", "b"]));
    assert_eq!(b.queue_get("new", 9, QueueDirection::Front).unwrap(), v(&["b", "a"]));
}
'''),
dict(id="c02-move-same", prop="C02", needs="a move within one list", breaks="moving within one list returns the items but does not rotate the list",
 edits=[(M,"""        let mut queues = self.queues.lock().unwrap();
        let mut moving_items = vec![];""","""        if from_queue == to_queue {
            // Source and target are the same queue, no item has to be moved
            return self.queue_get(from_queue, count, from_direction);
        }

        let mut queues = self.queues.lock().unwrap();
        let mut moving_items = vec![];""")],
 demo='''fn main() {
    let b = InMemory::default();
    for x in ["a", "b", "c"] { b.queue_push("l", x).unwrap(); }
    b.queue_move("l", "l", 1, QueueDirection::Back, QueueDirection::Front).unwrap();
    assert_eq!(b.queue_get("l", 9, QueueDirection::Front).unwrap(), v(&["a", "c", "b"]));
}
'''),
dict(id="c03-key-case", prop="C03", needs="two ids that differ in case only", breaks="entries whose keys differ in case overwrite each other",
 edits=[(M,"            storage.insert(key.to_string(), value);","            storage.insert(key.to_lowercase(), value);"),
        (M,"            inner_storage.insert(key.to_string(), value);","            inner_storage.insert(key.to_lowercase(), value);"),
        (M,"Ok(storage.get(key).cloned())","Ok(storage.get(&key.to_lowercase()).cloned())")],
 demo='''fn main() {
    let b = InMemory::default();
    b.storage_upsert("h", "Job-A", "1".into()).unwrap();
    b.storage_upsert("h", "job-a", "2".into()).unwrap();
    assert_eq!(b.storage_get("h", "Job-A").unwrap(), Some("1".to_string()));
}
'''),
dict(id="c04-seconds", prop="C04", needs="a schedule within the current second", breaks="a scheduled job starts up to a second too early",
 edits=[(JM,"JobType::ScheduledAt(schedule_at) => &now > schedule_at,","JobType::ScheduledAt(schedule_at) => now.timestamp() > schedule_at.timestamp() - 1,")],
 demo='''fn main() {
    let t = Utc::now() + Duration::milliseconds(450);
    let job = j("a").schedule_at(t);
    loop {
        let r = job.is_ready();
        let now = Utc::now();
        if r { assert!(now >= t, "started {} early", t - now); break; }
    }
}
'''),
dict(id="c04-end-skipped", prop="C04", needs="a recurring job with both a maximum of repeats and an end time, looked at after its end time", breaks="the end time is ignored when a maximum of repeats is set",
 edits=[(JM,"""                    if max_repeat < *total_repeat {
                        return false;
                    }
                }

                if let Some(end_at) = context.end_at {
                    if now > end_at {""","""                    return *total_repeat <= max_repeat;
                }

                if let Some(end_at) = context.end_at {
                    if now > end_at {""")],
 demo='''fn main() {
    let past = Utc::now() - Duration::seconds(5);
    let mut job = j("a");
    job.context.job_type = JobType::Cron("* * * * * * *".into(), past, 1, CronContext { tick_number: 0, max_repeat: Some(5), end_at: Some(past) });
    assert!(!job.is_ready(), "started after its end time");
}
'''),
dict(id="c05-limit-raise-only", prop="C05", needs="a configuration that lowers the limit", breaks="lowering the maximum of jobs in progress has no effect",
 edits=[(Q,"        self.config = msg.config;","""        // Jobs in progress are never interrupted
        let current = self.config.max_processing_jobs;
        self.config = msg.config;
        self.config.max_processing_jobs = self.config.max_processing_jobs.max(current);""")],
 demo='''fn main() {
    sys(async {
        let b = Arc::new(InMemory::default());
        let addr = Q::start_with_name("q".into(), b.clone());
        update_work_queue_config(addr.clone(), WorkQueueConfig { process_tick_duration: std::time::Duration::from_millis(20), max_processing_jobs: 2 }).await.unwrap();
        for i in 0..6 {
            let mut x = j(&format!("j{i}"));
            x.data.sleep_ms = 400;
            enqueue_job(addr.clone(), x, EnqueueConfig::new_re_run()).await.unwrap();
        }
        for _ in 0..30 {
            sleep(10).await;
            assert!(lst(&b, JobStatus::Running).len() <= 2, "{:?}", lst(&b, JobStatus::Running));
        }
    });
}
'''),
dict(id="c05-one-too-many", prop="C05", needs="more due jobs than the limit allows", breaks="one job more than the maximum is started",
 edits=[(Q,"                        && ready_jobs.len() < total","                        && ready_jobs.len() <= total")],
 demo='''fn main() {
    sys(async {
        let b = Arc::new(InMemory::default());
        let q = queue(&b);
        for i in 0..25 { q.run_with_config(j(&format!("j{i}")), EnqueueConfig::new_re_run()).unwrap(); }
        let r = q.try_pick_specific_ready_jobs(3).unwrap();
        assert!(r.len() <= 3 && lst(&b, JobStatus::Running).len() <= 3, "{}", r.len());
    });
}
'''),
dict(id="c06-names", prop="C06", needs="two queues whose names differ in case only", breaks="two queues share their lists",
 edits=[(Q,'format!("{}:queue:{:?}", self.name, status)','format!("{}:queue:{:?}", self.name.to_lowercase(), status)')],
 demo='''fn main() {
    sys(async {
        let b = Arc::new(InMemory::default());
        let (x, y) = (Q::new("mail".into(), b.clone()), Q::new("Mail".into(), b.clone()));
        x.run_with_config(j("a"), EnqueueConfig::new_re_run()).unwrap();
        let r = y.pick_jobs_to_process().unwrap();
        assert!(r.is_empty(), "another queue's job was started");
    });
}
'''),
dict(id="c06-reenqueue-order", prop="C06", needs="a job that is put back to waiting from another list", breaks="the list a job is taken off is determined after its status was changed, so it stays in its old list",
 edits=[(Q,"""        let current_queue = self.format_queue_name(job.context.job_status);
        self.backend.queue_remove(&current_queue, job.id())?;
        job.enqueue(self.backend.deref())?;
""","""        job.enqueue(self.backend.deref())?;
        let current_queue = self.format_queue_name(job.context.job_status);
        self.backend.queue_remove(&current_queue, job.id())?;
""")],
 demo='''fn main() {
    sys(async {
        let b = Arc::new(InMemory::default());
        let q = queue(&b);
        q.run_with_config(j("a"), EnqueueConfig::new_re_run()).unwrap();
        let job = q.pick_jobs_to_process().unwrap().pop().unwrap();
        q.execute_job(job).await.unwrap();
        assert!(q.retry_job("a").unwrap());
        assert_eq!(lst(&b, JobStatus::Queued), v(&["a"]));
        assert!(lst(&b, JobStatus::Finished).is_empty(), "still in the finished list");
    });
}
'''),
dict(id="c07-batch-stop", prop="C07", needs="more than 20 jobs that are not due in front of one that is", breaks="a due job behind a full batch of jobs that are not due is not started",
 edits=[(Q,"""            if ready_jobs.len() >= total {
                break;
            }
""","""            if ready_jobs.len() >= total || ready_jobs.is_empty() {
                break;
            }
""")],
 demo='''fn main() {
    sys(async {
        let b = Arc::new(InMemory::default());
        let q = queue(&b);
        for i in 0..21 { q.run_with_config(j(&format!("late{i}")).delay(Duration::hours(1)), EnqueueConfig::new_re_run()).unwrap(); }
        q.run_with_config(j("due"), EnqueueConfig::new_re_run()).unwrap();
        let r = q.pick_jobs_to_process().unwrap();
        assert_eq!(r.len(), 1, "the due job was not started");
    });
}
'''),
dict(id="c07-tick-lost", prop="C07", needs="a backend failure during a tick", breaks="after a failure of the backend the queue never ticks again",
 edits=[(Q,"""                error!("[WorkQueue]: Cannot pick jobs to process {err:?}",);
""","""                error!("[WorkQueue]: Cannot pick jobs to process {err:?}",);
                return;
""")],
 demo='''
pub struct Flaky { inner: InMemory, bad: std::sync::atomic::AtomicBool }
impl Flaky { fn ok(&self) -> Result<(), Error> { if self.bad.load(std::sync::atomic::Ordering::SeqCst) { Err(Error::NoQueueRegister) } else { Ok(()) } } }
impl Backend for Flaky {
    fn queue_push(&self, q: &str, i: &str) -> Result<(), Error> { self.ok()?; self.inner.queue_push(q, i) }
    fn queue_move(&self, f: &str, t: &str, c: usize, a: QueueDirection, b: QueueDirection) -> Result<Vec<String>, Error> { self.ok()?; self.inner.queue_move(f, t, c, a, b) }
    fn queue_remove(&self, q: &str, i: &str) -> Result<(), Error> { self.ok()?; self.inner.queue_remove(q, i) }
    fn queue_get(&self, q: &str, c: usize, d: QueueDirection) -> Result<Vec<String>, Error> { self.ok()?; self.inner.queue_get(q, c, d) }
    fn queue_count(&self, q: &str) -> Result<usize, Error> { self.ok()?; self.inner.queue_count(q) }
    fn storage_upsert(&self, h: &str, k: &str, v: String) -> Result<(), Error> { self.ok()?; self.inner.storage_upsert(h, k, v) }
    fn storage_get(&self, h: &str, k: &str) -> Result<Option<String>, Error> { self.ok()?; self.inner.storage_get(h, k) }
}
fn main() {
    sys(async {
        let b = Arc::new(Flaky { inner: InMemory::default(), bad: false.into() });
        let addr = Q::start_with_name("q".into(), b.clone());
        sleep(150).await;
        b.bad.store(true, std::sync::atomic::Ordering::SeqCst);
        sleep(400).await;
        b.bad.store(false, std::sync::atomic::Ordering::SeqCst);
        enqueue_job(addr, j("a"), EnqueueConfig::new_re_run()).await.unwrap();
        sleep(1500).await;
        assert!(LOG.lock().unwrap().contains(&"run a".to_string()), "the queue stopped ticking");
    });
}
'''),
dict(id="c08-complete-once", prop="C08", needs="a job that completes a second time", breaks="the completion time of a second run is not recorded",
 edits=[(JM,"""        self.context.job_status = JobStatus::Finished;
        self.context.complete_at = Some(get_now_as_ms());""","""        self.context.job_status = JobStatus::Finished;
        self.context.complete_at.get_or_insert(get_now_as_ms());""")],
 demo='''fn main() {
    sys(async {
        let b = Arc::new(InMemory::default());
        let q = queue(&b);
        q.run_with_config(j("a"), EnqueueConfig::new_re_run()).unwrap();
        q.execute_job(q.pick_jobs_to_process().unwrap().pop().unwrap()).await.unwrap();
        let t1 = stored(&b, "a").context.complete_at.unwrap();
        sleep(50).await;
        assert!(q.retry_job("a").unwrap());
        q.execute_job(q.pick_jobs_to_process().unwrap().pop().unwrap()).await.unwrap();
        let t2 = stored(&b, "a").context.complete_at.unwrap();
        assert!(t2 >= t1 + 50, "completion time of the second run: {t1} {t2}");
    });
}
'''),
dict(id="c08-data-lost", prop="C08", needs="a job that changes its own data while it runs", breaks="what a run did to the job's data is not stored",
 edits=[(Q,"        let job_output = job.execute().await;","""        let data = job.data.clone();
        let job_output = job.execute().await;"""),
        (Q,"""        // If this is interval job (has next tick) -> re_enqueue it
""","""        job.data = data;
        // If this is interval job (has next tick) -> re_enqueue it
""")],
 demo='''fn main() {
    sys(async {
        let b = Arc::new(InMemory::default());
        let q = queue(&b);
        q.run_with_config(j("a"), EnqueueConfig::new_re_run()).unwrap();
        q.execute_job(q.pick_jobs_to_process().unwrap().pop().unwrap()).await.unwrap();
        assert_eq!(stored(&b, "a").data.n, 1);
    });
}
'''),
dict(id="c09-unbounded-capped", prop="C09", needs="a policy without a maximum and more than 100 retries", breaks="a job without a maximum of retries gives up after 100",
 edits=[(RT,"""            self.retried_times < max_retries
        } else {
            true
        }""","""            self.retried_times < max_retries
        } else {
            self.retried_times < 100
        }""")],
 demo='''fn main() {
    let mut r = Retry::new_interval_retry(None, Duration::milliseconds(1));
    for k in 0..150 {
        assert!(r.should_retry(), "gave up after {k} retries");
        r.retry_at(None);
    }
}
'''),
dict(id="c09-retry-not-failed", prop="C09", needs="a job with a retry policy that does not fail", breaks="a job that did not fail is retried",
 edits=[(E,"self.is_failed_output(&job_output).await && retry_context.should_retry()","self.is_failed_output(&job_output).await || retry_context.should_retry()")],
 demo='''fn main() {
    sys(async {
        let b = Arc::new(InMemory::default());
        let q = queue(&b);
        q.run_with_config(j("a").set_retry(Retry::default()), EnqueueConfig::new_re_run()).unwrap();
        q.execute_job(q.pick_jobs_to_process().unwrap().pop().unwrap()).await.unwrap();
        assert_eq!(lst(&b, JobStatus::Finished), v(&["a"]), "a job that did not fail was retried");
    });
}
'''),
dict(id="c10-catch-up", prop="C10", needs="a recurring job whose run starts or ends after its next slot has passed", breaks="a late recurring job waits for a slot that is already past instead of the first one to come",
 edits=[(JM,"""    pub(crate) fn next_tick(&mut self) -> Option<Self> {
        let now = get_now();""","""    pub(crate) fn next_tick(&mut self) -> Option<Self> {
        let now = match &self.context.job_type {
            JobType::Cron(_, next_slot, _, _) => *next_slot,
            _ => get_now(),
        };""")],
 demo='''fn main() {
    sys(async {
        let b = Arc::new(InMemory::default());
        let q = queue(&b);
        let t = JobType::Cron("* * * * * * *".into(), Utc::now() - Duration::seconds(100), 1, CronContext::default());
        q.run_with_config(j("a").set_job_type(t), EnqueueConfig::new_re_run()).unwrap();
        let before = Utc::now();
        for job in q.pick_jobs_to_process().unwrap() { q.execute_job(job).await.unwrap(); }
        if let JobType::Cron(_, t, n, _) = stored(&b, "a").context.job_type { assert!(t > before && n == 2, "next slot {t} is past"); } else { panic!() }
    });
}
'''),
dict(id="c10-counter", prop="C10", needs="a recurring job with a maximum that recurs", breaks="the count of repeats is not raised, so the maximum is never reached",
 edits=[(JM,"""                let mut job = self.clone();
                let schedule = Schedule::from_str(cron_expression);""","""                let mut job = self.clone();
                let total_repeat = &(*total_repeat - 1);
                let schedule = Schedule::from_str(cron_expression);""")],
 demo='''fn main() {
    sys(async {
        let b = Arc::new(InMemory::default());
        let q = queue(&b);
        let t = JobType::new_cron("* * * * * * *", CronContext { tick_number: 0, max_repeat: Some(2), end_at: None }).unwrap();
        q.run_with_config(j("a").set_job_type(t), EnqueueConfig::new_re_run()).unwrap();
        for _ in 0..60 {
            sleep(100).await;
            for job in q.pick_jobs_to_process().unwrap() { q.execute_job(job).await.unwrap(); }
        }
        let n = LOG.lock().unwrap().iter().filter(|x| *x == "run a").count();
        assert_eq!(n, 2, "runs of a job with max_repeat 2");
        assert_eq!(lst(&b, JobStatus::Finished), v(&["a"]));
    });
}
'''),
dict(id="c11-cancel-running", prop="C11", needs="cancelling a running job", breaks="a running job is stored as cancelled",
 edits=[(Q,"            if job.is_queued() {","            if !job.is_done() {")],
 demo='''fn main() {
    sys(async {
        let b = Arc::new(InMemory::default());
        let q = queue(&b);
        q.run_with_config(j("a"), EnqueueConfig::new_re_run()).unwrap();
        let _job = q.pick_jobs_to_process().unwrap().pop().unwrap();
        q.cancel_job("a").unwrap();
        assert_eq!(stored(&b, "a").context.job_status, JobStatus::Running);
    });
}
'''),
dict(id="c11-cancel-resets", prop="C11", needs="cancelling a scheduled job", breaks="cancelling drops the schedule of the job",
 edits=[(JM,"""        self.context.job_status = JobStatus::Canceled;""","""        self.context.job_status = JobStatus::Canceled;
        self.context.job_type = JobType::default();""")],
 demo='''fn main() {
    sys(async {
        let b = Arc::new(InMemory::default());
        let q = queue(&b);
        q.run_with_config(j("a").delay(Duration::hours(1)), EnqueueConfig::new_re_run()).unwrap();
        let t = stored(&b, "a").context.job_type;
        q.cancel_job("a").unwrap();
        assert_eq!(stored(&b, "a").context.job_type, t);
    });
}
'''),
dict(id="c12-retry-counter", prop="C12", needs="a manual retry of a job that has run", breaks="a manual retry resets the run counter",
 edits=[(Q,"""        if let Some(job) = job {
            // Only allow retry done job is (cancelled, failed, finished).
            if job.is_done() {
""","""        if let Some(mut job) = job {
            // Only allow retry done job is (cancelled, failed, finished).
            if job.is_done() {
                job.context.run_count = 0;
""")],
 demo='''fn main() {
    sys(async {
        let b = Arc::new(InMemory::default());
        let q = queue(&b);
        q.run_with_config(j("a"), EnqueueConfig::new_re_run()).unwrap();
        q.execute_job(q.pick_jobs_to_process().unwrap().pop().unwrap()).await.unwrap();
        assert!(q.retry_job("a").unwrap());
        assert_eq!(stored(&b, "a").context.run_count, 1);
    });
}
'''),
dict(id="c12-not-cancelled", prop="C12", needs="a manual retry of a cancelled job", breaks="a cancelled job cannot be retried",
 edits=[(JM,"""            || self.context.job_status == JobStatus::Canceled
""","")],
 demo='''fn main() {
    sys(async {
        let b = Arc::new(InMemory::default());
        let q = queue(&b);
        q.run_with_config(j("a"), EnqueueConfig::new_re_run()).unwrap();
        q.cancel_job("a").unwrap();
        assert!(q.retry_job("a").unwrap(), "a cancelled job was not retried");
    });
}
'''),
dict(id="c13-override-running", prop="C13", needs="resubmitting a job that is running", breaks="a running job is replaced by a resubmission",
 edits=[(Q,"            if config.override_data && !existing_job.is_running() {","            if config.override_data {")],
 demo='''fn main() {
    sys(async {
        let b = Arc::new(InMemory::default());
        let q = queue(&b);
        q.run_with_config(j("a"), EnqueueConfig::new_re_run()).unwrap();
        let _job = q.pick_jobs_to_process().unwrap().pop().unwrap();
        let mut n = j("a");
        n.data.n = 77;
        q.run_with_config(n, EnqueueConfig::new_re_run()).unwrap();
        assert_eq!(stored(&b, "a").data.n, 0, "a running job was replaced");
    });
}
'''),
dict(id="c13-rerun-config", prop="C13", needs="the policy that skips finished jobs", breaks="a finished job is run again although this was not asked for",
 edits=[(Q,"            if config.re_run && existing_job.is_done() {","            if (config.re_run || config.override_data) && existing_job.is_done() {")],
 demo='''fn main() {
    sys(async {
        let b = Arc::new(InMemory::default());
        let q = queue(&b);
        q.run_with_config(j("a"), EnqueueConfig::new_re_run()).unwrap();
        q.execute_job(q.pick_jobs_to_process().unwrap().pop().unwrap()).await.unwrap();
        q.run_with_config(j("a"), EnqueueConfig::new_skip_if_finished()).unwrap();
        assert!(lst(&b, JobStatus::Queued).is_empty(), "re-run");
    });
}
'''),
dict(id="c14-one-plugin", prop="C14", needs="two registered plugins", breaks="registering a plugin replaces the ones registered before",
 edits=[(P,"        self.plugins.push(Arc::new(msg.plugin))","        self.plugins = vec![Arc::new(msg.plugin)]")],
 demo='''
struct Pl(&'static str);
#[async_trait::async_trait]
impl JobPlugin for Pl {
    async fn change_status(&self, id: &str, s: JobStatus) { log(format!("{} {} {:?}", self.0, id, s)); }
}
fn main() {
    sys(async {
        AJ::register_plugin(Pl("p1")).await.unwrap();
        AJ::register_plugin(Pl("p2")).await.unwrap();
        let b = Arc::new(InMemory::default());
        let q = queue(&b);
        q.run_with_config(j("a"), EnqueueConfig::new_re_run()).unwrap();
        sleep(100).await;
        let l = LOG.lock().unwrap().clone();
        assert!(l.contains(&"p1 a Queued".to_string()) && l.contains(&"p2 a Queued".to_string()), "{l:?}");
    });
}
'''),
dict(id="c14-cancel-silent", prop="C14", needs="cancelling a job", breaks="plugins are told a wrong status when a job is cancelled",
 edits=[(JM,"""        self.context.cancel_at = Some(get_now_as_ms());
        upsert_to_storage(backend, self.id(), self.clone())?;
        PluginCenter::change_status::<M>(self.id().to_string(), self.context.job_status);""","""        self.context.cancel_at = Some(get_now_as_ms());
        upsert_to_storage(backend, self.id(), self.clone())?;
        PluginCenter::change_status::<M>(self.id().to_string(), JobStatus::Finished);""")],
 demo='''
struct Pl(&'static str);
#[async_trait::async_trait]
impl JobPlugin for Pl {
    async fn change_status(&self, id: &str, s: JobStatus) { log(format!("{} {} {:?}", self.0, id, s)); }
}
fn main() {
    sys(async {
        AJ::register_plugin(Pl("p1")).await.unwrap();
        let b = Arc::new(InMemory::default());
        let q = queue(&b);
        q.run_with_config(j("a"), EnqueueConfig::new_re_run()).unwrap();
        q.cancel_job("a").unwrap();
        sleep(100).await;
        let l = LOG.lock().unwrap().clone();
        assert_eq!(l, v(&["p1 a Queued", "p1 a Canceled"]));
    });
}
'''),
dict(id="c18-context-id", prop="C18", needs="a context with another id given to the builder", breaks="setting a context drops the retry policy of that context when the job has none",
 edits=[(JM,"""        self.context = context;
        self
    }""","""        let retry = self.context.retry.take();
        self.context = context;
        self.context.retry = retry;
        self
    }""")],
 demo='''fn main() {
    let mut c = JobContext::new("x".into());
    c.retry = Some(Retry::default());
    let job = j("a").set_context(c);
    assert!(job.context.retry.is_some() && job.id() == "x");
}
'''),
dict(id="c18-delay-ms", prop="C18", needs="a delay with a fraction of a millisecond", breaks="the delay of a job is cut to whole milliseconds",
 edits=[(JM,"        let schedule_at = get_now() + after;","        let schedule_at = get_now() + Duration::milliseconds(after.num_milliseconds());")],
 demo='''fn main() {
    let t0 = Utc::now();
    let job = j("a").delay(Duration::microseconds(100_999_900));
    let JobType::ScheduledAt(t) = job.context.job_type else { panic!() };
    assert!(t >= t0 + Duration::microseconds(100_999_900), "due {} after now", t - t0);
}
'''),
dict(id="c18-id-trim", prop="C18", needs="an id that ends in a blank", breaks="a job does not get exactly the id it was given",
 edits=[(JM,"        self.context.job_id = id;\n","        self.context.job_id = id.trim_end().to_string();\n")],
 demo='''fn main() {
    assert_eq!(j("order 7 ").id(), "order 7 ");
}
'''),
]
