exec(open(__import__("os").path.join(__import__("os").path.dirname(__import__("os").path.abspath(__file__)) if "__file__" in globals() else "tools/seeds", "b6.py")).read().split("SEEDS=[")[0])
SEEDS=[
dict(id="c18-time-id", prop="C18", needs="two jobs made within the same microsecond, or on two threads at once", breaks="their ids are equal: the second replaces the first",
 edits=[(JM,"""        let id = Uuid::new_v4().to_string();
""","""        // Ids that sort by creation time are easier to follow in the logs
        let (high, low) = (Utc::now().timestamp_micros() as u64, std::process::id() as u64);
        let id = Uuid::from_u64_pair(high, low).to_string();
""")],
 demo='''fn main() {
    let mut t = vec![];
    for _ in 0..4 {
        t.push(std::thread::spawn(|| (0..20000).map(|_| Job::new(J { n: 0, fail: false, sleep_ms: 0 }).id().to_string()).collect::<Vec<_>>()));
    }
    let ids: Vec<String> = t.into_iter().flat_map(|t| t.join().unwrap()).collect();
    let n = ids.iter().collect::<std::collections::HashSet<_>>().len();
    assert!(n == ids.len(), "{} jobs, {} ids", ids.len(), n);
}
'''),
dict(id="c18-short-id", prop="C18", needs="some hundred thousand jobs", breaks="ids of eight hex digits collide",
 edits=[(JM,"""        let id = Uuid::new_v4().to_string();
""","""        // The first group is enough to tell jobs apart
        let id = Uuid::new_v4()
            .to_string()
            .chars()
            .take_while(|c| *c != '-')
            .collect::<String>();
""")],
 demo='''fn main() {
    let mut ids = std::collections::HashSet::new();
    for i in 0..600000 {
        let id = Job::new(J { n: 0, fail: false, sleep_ms: 0 }).id().to_string();
        assert!(ids.insert(id), "job {i} has the id of another one");
    }
}
'''),
dict(id="c08-second-try", prop="C08", needs="the backend fails while the outcome of a run is recorded", breaks="the job's body is run a second time",
 edits=[(Q,"""                error!("[WorkQueue] Execute job {} fail: {:?}", job.id(), err);
                let _ = this.mark_job_is_failed(job);
""","""                error!("[WorkQueue] Execute job {} fail: {:?}", job.id(), err);
                // Probably a hiccup: try once more before giving up
                if this.execute_job(job.clone()).await.is_err() {
                    let _ = this.mark_job_is_failed(job);
                }
""")],
 demo=FB+'''
static DOWN: Mutex<bool> = Mutex::new(false);
fn main() {
    sys(async move {
        AJ::start(Flaky { b: InMemory::default(), fail: Box::new(|op, _| if op == "upsert" && *DOWN.lock().unwrap() { Some(false) } else { None }) });
        AJ::add_job(Job::new(J { n: 0, fail: false, sleep_ms: 300 }).set_id("a".into()), J::queue_name()).await.unwrap();
        let ran = || LOG.lock().unwrap().iter().filter(|l| *l == "run a").count();
        for _ in 0..500 {
            if ran() > 0 { break; }
            actix_rt::time::sleep(std::time::Duration::from_millis(10)).await;
        }
        *DOWN.lock().unwrap() = true;
        actix_rt::time::sleep(std::time::Duration::from_millis(1000)).await;
        *DOWN.lock().unwrap() = false;
        actix_rt::time::sleep(std::time::Duration::from_millis(500)).await;
        assert_eq!(ran(), 1, "runs of the body");
    });
}
'''),
]
