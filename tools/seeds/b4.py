M="aj_macro/src/lib.rs"
PRE19='''//! runs jobs made by the macros
#![allow(dead_code, unused_imports)]
use aj::{async_trait, job, BackgroundJob, Executable, Job, JobContext, AJ};
use aj_core::JobType;
use serde::{Deserialize, Serialize};
use std::sync::Mutex;
use std::time::Duration;
static LOG: Mutex<Vec<String>> = Mutex::new(Vec::new());
fn log(s: String) { LOG.lock().unwrap().push(s) }
fn seen() -> Vec<String> { LOG.lock().unwrap().clone() }
async fn pause(ms: u64) { actix_rt::time::sleep(Duration::from_millis(ms)).await }
'''
SEEDS=[
dict(id="c19-args-taken", prop="C19", needs="a job made from a function that runs more than once (cron, retry, run again)", breaks="the arguments of a job function are gone after its first run",
 edits=[(M,"""Some(quote! { self.#ident.clone() })""","""Some(quote! { std::mem::take(&mut self.#ident) })""")],
 demo=PRE19+'''
#[job]
async fn hello(name: String, n: u8) { log(format!("{name} {n}")) }
#[aj::main]
async fn main() {
    AJ::quick_start();
    let c = JobContext::new("again".into());
    hello::run_with_context("Rodgers".into(), 7, c.clone()).await.unwrap();
    pause(600).await;
    AJ::retry_job::<hello::JobHello>("again").await.unwrap();
    pause(600).await;
    assert_eq!(seen(), vec!["Rodgers 7", "Rodgers 7"]);
}
'''),
dict(id="c19-sorted-args", prop="C19", needs="a function with two arguments of one type whose names are not in alphabetical order", breaks="the body runs with its arguments swapped",
 edits=[(M,"""    // Extract the argument names to pass them later when calling the function
    let struct_as_args: Vec<_> = fn_inputs""","""    // Extract the argument names to pass them later when calling the function
    let mut struct_as_args: Vec<_> = fn_inputs"""),
  (M,"""    let fn_output_type = match fn_output {""","""    // Keep the generated code stable
    struct_as_args.sort_by_key(|arg| arg.to_string());

    let fn_output_type = match fn_output {""")],
 demo=PRE19+'''
#[job]
fn transfer(to: String, from: String) { log(format!("{from}->{to}")) }
#[aj::main]
async fn main() {
    AJ::quick_start();
    transfer::run("t".into(), "f".into()).await.unwrap();
    pause(600).await;
    assert_eq!(seen(), vec!["f->t"]);
}
'''),
dict(id="c19-just-run-context", prop="C19", needs="a job function submitted with just_run_with_context and a context that is not due", breaks="a job submitted with a context and without waiting loses the schedule in the context",
 edits=[(M,"""                msg.job().context(context).just_run();""","""                msg.job().set_id(context.job_id).just_run();""")],
 demo=PRE19+'''
#[job]
fn hello(name: String) { log(name) }
#[aj::main]
async fn main() {
    AJ::quick_start();
    let mut c = JobContext::new("late".into());
    c.job_type = JobType::new_schedule(chrono::DateTime::from_timestamp(chrono::Utc::now().timestamp() + 3600, 0).unwrap());
    hello::just_run_with_context("x".into(), c.clone());
    pause(600).await;
    let x = AJ::get_job::<hello::JobHello>("late").await.unwrap();
    assert!(seen().is_empty(), "ran at once");
    assert_eq!(x.context.job_type, c.job_type);
}
'''),
dict(id="c19-kind-queue", prop="C19", needs="two derived job types whose names differ only in their ends", breaks="job types named Send and SendJob share a queue name",
 edits=[(M,"""                stringify!(#name)
""","""                stringify!(#name).trim_end_matches("Job")
""")],
 demo=PRE19+'''
#[derive(BackgroundJob, Serialize, Deserialize, Debug, Clone)]
struct Send { a: u8 }
#[async_trait]
impl Executable for Send { type Output = (); async fn execute(&mut self, _: &JobContext) { log("send".into()) } }
#[derive(BackgroundJob, Serialize, Deserialize, Debug, Clone)]
struct SendJob { b: String }
#[async_trait]
impl Executable for SendJob { type Output = (); async fn execute(&mut self, _: &JobContext) { log("job".into()) } }
fn main() {
    assert_eq!(Send::queue_name(), "Send");
    assert_eq!(SendJob::queue_name(), "SendJob");
}
'''),
]
