A="aj_core/src/aj.rs"
KIND=r'''
macro_rules! kind { ($t:ident, $n:expr) => {
#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
pub struct $t { pub n: i32 }
#[async_trait::async_trait]
impl Executable for $t {
    type Output = i32;
    async fn execute(&mut self, c: &JobContext) -> i32 { log(format!("run {}", c.job_id)); self.n }
}
impl BackgroundJob for $t {
    fn queue_name() -> &'static str { $n }
    fn job(self) -> Job<Self> { Job::new(self) }
}
} }
'''
SEEDS=[
dict(id="c20-unlocked-thread", prop="C20", needs="two callers that start the runtime at the same time, both without an actix system", breaks="the lock is released while the runtime's thread starts, so a second caller starts an instance of its own",
 edits=[(A,"""                info!("No Actix Runtime, trying start new one in separated thread!");
                std::thread::spawn(|| {""","""                info!("No Actix Runtime, start new one in separated thread!");
                // Nobody should wait for the thread
                drop(running);
                let addr = std::thread::spawn(|| {"""),
  (A,"""                .expect("Failed to start thread")
""","""                .expect("Failed to start thread");
                running = AJ_ADDR.write().expect("AJ address must be readable!");
                addr
""")],
 demo='''fn main() {
    // one start per process: the instance lives as long as the process
    if std::env::args().nth(1).is_some() {
        let bar = Arc::new(std::sync::Barrier::new(6));
        let t: Vec<_> = (0..6).map(|_| { let bar = bar.clone(); std::thread::spawn(move || { bar.wait(); AJ::quick_start() }) }).collect();
        let a: Vec<_> = t.into_iter().map(|t| t.join().unwrap()).collect();
        std::process::exit(if a.iter().all(|x| *x == a[0]) { 0 } else { 1 });
    }
    for _ in 0..30 {
        let ok = std::process::Command::new(std::env::current_exe().unwrap()).arg("x").status().unwrap().success();
        assert!(ok, "callers got different instances");
    }
}
'''),
dict(id="c17-same-data", prop="C17", needs="an update of a job that has run, with a context", breaks="an update of a job that has run keeps its old schedule",
 edits=[(A,"""            if let Some(context) = context {
                job.context = context;""","""            if let Some(context) = context {
                let job_type = job.context.job_type.clone();
                job.context = context;
                // A job which already ran stays on its schedule
                if job.context.run_count > 0 {
                    job.context.job_type = job_type;
                }""")],
 demo='''fn main() {
    sys(async {
        AJ::quick_start();
        let at = DateTime::from_timestamp(Utc::now().timestamp() + 30000, 0).unwrap();
        AJ::add_job(j("a").schedule_at(at), J::queue_name()).await.unwrap();
        let mut c = JobContext::new("a".into());
        c.run_count = 1;
        c.job_type = JobType::ScheduledAt(at + Duration::hours(1));
        AJ::update_job::<J>("a", J { n: 5, fail: false, sleep_ms: 0 }, Some(c)).await.unwrap();
        let x = AJ::get_job::<J>("a").await.unwrap();
        assert_eq!(x.context.job_type, JobType::ScheduledAt(at + Duration::hours(1)));
    });
}
'''),
]
