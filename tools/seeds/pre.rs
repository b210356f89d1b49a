#![allow(dead_code, unused_imports, unused_macros)]
use actix::prelude::*;
use aj_core::mem::InMemory;
use aj_core::types::*;
use aj_core::*;
use chrono::{DateTime, Duration, Utc};
use serde::{Deserialize, Serialize};
use std::sync::{Arc, Mutex};

static LOG: Mutex<Vec<String>> = Mutex::new(Vec::new());
fn log(s: String) {
    LOG.lock().unwrap().push(s)
}
/// A job that counts its own runs in its data, and fails when told to.
#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
pub struct J {
    pub n: i32,
    pub fail: bool,
    pub sleep_ms: u64,
}
#[async_trait::async_trait]
impl Executable for J {
    type Output = Result<i32, String>;
    async fn pre_execute(&mut self, c: &JobContext) {
        log(format!("pre {}", c.job_id));
    }
    async fn execute(&mut self, c: &JobContext) -> Self::Output {
        log(format!("run {}", c.job_id));
        self.n += 1;
        if self.sleep_ms > 0 {
            actix_rt::time::sleep(std::time::Duration::from_millis(self.sleep_ms)).await;
        }
        if self.fail {
            Err("failed".into())
        } else {
            Ok(self.n)
        }
    }
    async fn post_execute(&mut self, o: Self::Output, c: &JobContext) -> Self::Output {
        log(format!("post {}", c.job_id));
        o
    }
    async fn is_failed_output(&self, o: &Self::Output) -> bool {
        o.is_err()
    }
}
impl BackgroundJob for J {
    fn queue_name() -> &'static str {
        "demo-queue"
    }
    fn job(self) -> Job<Self> {
        Job::new(self)
    }
}
fn j(id: &str) -> Job<J> {
    Job::new(J { n: 0, fail: false, sleep_ms: 0 }).set_id(id.into())
}
type Q = WorkQueue<J>;
fn queue(b: &Arc<InMemory>) -> Q {
    Q::new("q".into(), b.clone())
}
fn lst(b: &Arc<InMemory>, s: JobStatus) -> Vec<String> {
    b.queue_get(&format!("q:queue:{:?}", s), 1000, QueueDirection::Front).unwrap()
}
fn stored(b: &Arc<InMemory>, id: &str) -> Job<J> {
    get_from_storage::<Job<J>>(&**b, id).unwrap().expect("stored job")
}
/// run inside an actix system, on a thread of its own
fn sys<F: std::future::Future<Output = ()> + 'static>(f: F) {
    actix_rt::System::new().block_on(f);
}
async fn sleep(ms: u64) {
    actix_rt::time::sleep(std::time::Duration::from_millis(ms)).await;
}
fn v(x: &[&str]) -> Vec<String> {
    x.iter().map(|s| s.to_string()).collect()
}
