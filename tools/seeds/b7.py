exec(open(__import__("os").path.join(__import__("os").path.dirname(__import__("os").path.abspath(__file__)) if "__file__" in globals() else "tools/seeds", "b6.py")).read().split("SEEDS=[")[0])
ONE='''
/// fails the operations of this kind while it is set
static KIND: Mutex<&str> = Mutex::new("");
fn set(k: &'static str) { *KIND.lock().unwrap() = k; }
fn flaky() -> Flaky { Flaky { b: InMemory::default(), fail: Box::new(|op, _| if *KIND.lock().unwrap() == op { Some(false) } else { None }) } }
'''
SEEDS=[
dict(id="c21-override-warn", prop="C21", needs="the backend refuses the write of the new data of a waiting job", breaks="the resubmission reports success although the new data is lost",
 edits=[(Q,"""                upsert_to_storage(self.backend.deref(), job.id(), &job)?;
            } else {""","""                // The job is in its queue already: not being able to refresh its data is no reason to fail
                if let Err(e) = upsert_to_storage(self.backend.deref(), job.id(), &job) {
                    warn!("[WorkQueue] Keep old data of {}: {:?}", job.id(), e);
                }
            } else {""")],
 demo=FB+ONE+'''
fn main() {
    let b = Arc::new(flaky());
    sys(async move {
        let q = Q::new("q".into(), b.clone());
        q.run_with_config(j("a"), EnqueueConfig::new(false, false)).unwrap();
        set("upsert");
        let mut n = j("a");
        n.data.n = 7;
        let r = q.run_with_config(n, EnqueueConfig::new(false, true));
        set("");
        let kept = q.get_job("a").unwrap().unwrap().data.n;
        assert!(r.is_err() || kept == 7, "reported success, stored is {kept}");
    });
}
'''),
dict(id="c21-cancel-listed", prop="C21", needs="the backend refuses to take a cancelled job off its list", breaks="the cancellation reports success although the job will still be started",
 edits=[(Q,"""                self.backend
                    .queue_remove(&self.format_queue_name(JobStatus::Queued), job_id)?;
            } else {""","""                let queued_queue = self.format_queue_name(JobStatus::Queued);
                if let Err(reason) = self.backend.queue_remove(&queued_queue, job_id) {
                    error!("[WorkQueue] Cannot remove job {}: {:?}", job_id, reason);
                }
            } else {""")],
 demo=FB+ONE+'''
fn main() {
    let b = Arc::new(flaky());
    sys(async move {
        let q = Q::new("q".into(), b.clone());
        q.run_with_config(j("a"), EnqueueConfig::new(false, false)).unwrap();
        set("remove");
        let r = q.cancel_job("a");
        set("");
        let picked = q.pick_jobs_to_process().unwrap().len();
        assert!(r.is_err() || picked == 0, "the cancellation succeeded, and the job starts");
    });
}
'''),
dict(id="c21-known-record", prop="C21", needs="a write fails for a job that has a record already", breaks="the failed write is reported as success",
 edits=[(T,"""    if let Err(e) = &res {
        warn!("[Storage] Upsert failed {key} Failed {:?}", e);
    }
""","""    if let Err(e) = &res {
        warn!("[Storage] Upsert failed {key} Failed {:?}", e);
        // Not fatal for a record that is there already
        if let Ok(Some(_)) = backend.storage_get(STORAGE_HASH, key) {
            return Ok(());
        }
    }
""")],
 demo=FB+ONE+'''
fn main() {
    let b = Arc::new(flaky());
    sys(async move {
        let q = Q::new("q".into(), b.clone());
        q.run_with_config(j("a"), EnqueueConfig::new(false, false)).unwrap();
        set("upsert");
        let r = q.cancel_job("a");
        set("");
        let st = q.get_job("a").unwrap().unwrap().context.job_status;
        assert!(r.is_err() || st == JobStatus::Canceled, "the cancellation succeeded, and the job is {st:?}");
    });
}
'''),
dict(id="c21-retry-false", prop="C21", needs="the backend fails while a done job is put back", breaks="the caller is told that the job was not done, instead of the error",
 edits=[(Q,"""                self.re_enqueue(job)?;
                return Ok(true);
""","""                return Ok(self.re_enqueue(job).is_ok());
""")],
 demo=FB+ONE+'''
fn main() {
    let b = Arc::new(flaky());
    sys(async move {
        let q = Q::new("q".into(), b.clone());
        q.run_with_config(j("a"), EnqueueConfig::new(false, false)).unwrap();
        q.cancel_job("a").unwrap();
        set("remove");
        let r = q.retry_job("a");
        set("");
        assert!(r.is_err(), "the backend failed, the answer is {r:?}");
    });
}
'''),
dict(id="c21-update-quiet", prop="C21", needs="the backend refuses a write during AJ::update_job of an existing job", breaks="the update reports success although nothing was updated",
 edits=[(A,"""            Self::add_job(job, M::queue_name()).await?;
""","""            if let Err(e) = Self::add_job(job, M::queue_name()).await {
                warn!("Cannot update job {job_id}: {e:?}");
            }
""")],
 demo=FB+ONE+'''
fn main() {
    sys(async move {
        AJ::start(flaky());
        let id = AJ::add_job(j("a").schedule_at(Utc::now() + Duration::hours(1)), J::queue_name()).await.unwrap();
        set("upsert");
        let r = AJ::update_job(&id, J { n: 9, fail: false, sleep_ms: 0 }, None).await;
        set("");
        let n = AJ::get_job::<J>(&id).await.unwrap().data.n;
        assert!(r.is_err() || n == 9, "the update succeeded, and the data is {n}");
    });
}
'''),
]
