A="aj_core/src/aj.rs"
Q="aj_core/src/queue.rs"
JM="aj_core/src/job/mod.rs"
JC="aj_core/src/job/job_context.rs"
R="aj_core/src/job/retry.rs"
EX="aj_core/src/job/executable.rs"
P="aj_core/src/plugin/mod.rs"
M="aj_core/src/backend/mem.rs"
T="aj_core/src/backend/types.rs"
FB=r'''
/// an in-memory backend some operations of which fail, with or without having had their effect
struct Flaky { b: InMemory, fail: Box<dyn Fn(&str, &str) -> Option<bool> + Send + Sync> }
fn broken() -> aj_core::Error { aj_core::Error::NoQueueRegister }
impl Flaky {
    fn go<T>(&self, op: &str, on: &str, f: impl FnOnce(&InMemory) -> T) -> Result<T, aj_core::Error> {
        match (self.fail)(op, on) {
            None => Ok(f(&self.b)),
            Some(true) => { f(&self.b); Err(broken()) }
            Some(false) => Err(broken()),
        }
    }
}
impl Backend for Flaky {
    fn queue_push(&self, q: &str, i: &str) -> Result<(), aj_core::Error> { self.go("push", q, |b| b.queue_push(q, i))? }
    fn queue_move(&self, f: &str, t: &str, n: usize, fd: QueueDirection, td: QueueDirection) -> Result<Vec<String>, aj_core::Error> { self.go("move", t, |b| b.queue_move(f, t, n, fd, td))? }
    fn queue_remove(&self, q: &str, i: &str) -> Result<(), aj_core::Error> { self.go("remove", q, |b| b.queue_remove(q, i))? }
    fn queue_get(&self, q: &str, n: usize, d: QueueDirection) -> Result<Vec<String>, aj_core::Error> { self.go("get", q, |b| b.queue_get(q, n, d))? }
    fn queue_count(&self, q: &str) -> Result<usize, aj_core::Error> { self.go("count", q, |b| b.queue_count(q))? }
    fn storage_upsert(&self, h: &str, k: &str, v: String) -> Result<(), aj_core::Error> { self.go("upsert", k, |b| b.storage_upsert(h, k, v))? }
    fn storage_get(&self, h: &str, k: &str) -> Result<Option<String>, aj_core::Error> { self.go("read", k, |b| b.storage_get(h, k))? }
}
'''
SEEDS=[
dict(id="c05-move-again", prop="C05", needs="a move whose reply is lost after the backend made it, with the queue one below its limit", breaks="a second job is moved in, above the maximum",
 edits=[(Q,"""                        self.backend.queue_move(
                            &idle_queue_name,
                            &processing_queue_name,
                            1,
                            QueueDirection::Back,
                            QueueDirection::Front,
                        )?;
""","""                        let start = || {
                            self.backend.queue_move(
                                &idle_queue_name,
                                &processing_queue_name,
                                1,
                                QueueDirection::Back,
                                QueueDirection::Front,
                            )
                        };
                        // Give the backend a second chance before giving up the whole batch
                        if start().is_err() {
                            start()?;
                        }
""")],
 demo=FB+'''
fn main() {
    let armed = Arc::new(std::sync::atomic::AtomicBool::new(false));
    let a = armed.clone();
    let b = Arc::new(Flaky { b: InMemory::default(), fail: Box::new(move |op, on| if op == "move" && on.contains("Running") && a.swap(false, std::sync::atomic::Ordering::SeqCst) { Some(true) } else { None }) });
    sys(async move {
        let q = Q::new("q".into(), b.clone());
        for i in 0..4 {
            q.run_with_config(Job::new(J { n: 0, fail: false, sleep_ms: 0 }).set_id(format!("x{i}")), EnqueueConfig::new_re_run()).unwrap();
        }
        let running = q.format_queue_name(JobStatus::Running);
        for i in 0..19 { b.queue_push(&running, &format!("r{i}")).unwrap(); }
        armed.store(true, std::sync::atomic::Ordering::SeqCst);
        let _ = q.pick_jobs_to_process();
        let n = b.b.queue_count(&running).unwrap();
        assert!(n <= 20, "{n} jobs in progress, the maximum is 20");
    });
}
'''),
]
