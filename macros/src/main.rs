//! What the macros generate, run on the real AJ: C19.
use aj::{async_trait, job, BackgroundJob, Executable, Job, JobContext, AJ};
use macros::fx_derive::*;
use macros::more::{at_most_ten, names_v2, quiet, rot4, seven, swap_two};
use macros::hello;
use replay::*;
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::HashMap;
use std::sync::Mutex;
use std::time::{Duration, Instant};

// ------------------------------------------------------------------ jobs that note that they run
static LOG: Mutex<Vec<(String, Value)>> = Mutex::new(vec![]);
fn note(k: &str, v: Value) {
    LOG.lock().unwrap().push((k.into(), v));
}
fn noted(k: &str, v: &Value) -> usize {
    LOG.lock().unwrap().iter().filter(|(a, b)| a == k && b == v).count()
}
fn noted_all(k: &str) -> usize {
    LOG.lock().unwrap().iter().filter(|(a, _)| a == k).count()
}
#[job]
fn plain(name: String) {
    note("plain", json!([name]));
}
#[job]
async fn plain_async(name: String) {
    note("plain_async", json!([name]));
}
#[job]
fn no_arg() {
    note("no_arg", json!([]));
}
#[job]
pub async fn no_arg_async() -> u8 {
    note("no_arg_async", json!([]));
    1
}
#[job]
async fn triple(first: i64, second: i64, third: i64) -> i64 {
    note("triple", json!([first, second, third]));
    first
}
#[job]
async fn nested(items: Vec<String>, map: HashMap<String, i64>, opt: Option<Option<bool>>,) -> Result<usize, String> {
    note("nested", json!([items, map, opt.flatten()]));
    Ok(items.len())
}
#[job]
fn with_mut(mut items: Vec<u8>, n: u8) -> Vec<u8> {
    items.push(n);
    note("with_mut", json!([items, n]));
    items
}
#[job]
async fn shadow(msg: String, job_id: String, name: (u8, u8)) {
    note("shadow", json!([msg, job_id, name]));
}
#[job]
async fn waits(n: u32) {
    actix_rt::time::sleep(Duration::from_millis(3)).await;
    note("waits", json!([n]));
}
#[job]
async fn five2_of_them(a: u8, b: u8, c: u8, d: u8, e: u8) -> u8 {
    note("five2_of_them", json!([a, b, c, d, e]));
    e
}
#[job]
fn f(f: String) {
    note("f", json!([f]));
}
#[allow(non_snake_case)]
#[job]
fn doIt(yes: bool) -> bool {
    note("doIt", json!([yes]));
    yes
}
#[derive(BackgroundJob, Serialize, Deserialize, Debug, Clone, PartialEq)]
struct Derived {
    n: i64,
    text: String,
}
#[async_trait]
impl Executable for Derived {
    type Output = ();
    async fn execute(&mut self, _: &JobContext) {
        note("Derived", json!([self.n, self.text]));
    }
}
#[derive(BackgroundJob, Serialize, Deserialize, Debug, Clone, PartialEq)]
enum DerivedEnum {
    A,
    B(i64),
}
#[async_trait]
impl Executable for DerivedEnum {
    type Output = ();
    async fn execute(&mut self, _: &JobContext) {
        note("DerivedEnum", json!([self]));
    }
}
#[derive(BackgroundJob, Serialize, Deserialize, Debug, Clone, PartialEq)]
struct DerivedUnit;
#[async_trait]
impl Executable for DerivedUnit {
    type Output = ();
    async fn execute(&mut self, _: &JobContext) {
        note("DerivedUnit", json!([]));
    }
}

mod names {
    use super::*;
    macro_rules! names {
        ($($t:ident)*) => {
            $(
                #[allow(non_camel_case_types)]
                #[derive(BackgroundJob, Serialize, Deserialize, Debug, Clone, PartialEq)]
                pub struct $t(u16);
                #[async_trait]
                impl Executable for $t {
                    type Output = u16;
                    async fn execute(&mut self, _context: &JobContext) -> u16 {
                        self.0
                    }
                }
            )*
            pub fn all(n: u16, ids: &mut Vec<String>) -> Res {
                $( shape($t(n), stringify!($t), json!(n), ids)?; )*
                Ok(())
            }
        };
    }
    names!(a B Ab ab aB AB Job JobJob MyJob MyQueue MyJobs Email EmailJob EmailTask EmailJobV2 Email_Job email_job EMAIL Task0 Task00 Task1 Task10 T1T _Hidden Hidden_ Dúo 日本 Plainest DerivedUnits
        Notify NotifyUser NotifyUsers Worker Request Message Event Handler Background BackgroundTask Default Clone_ Self_ Type0 Struct0);
}
/// names of functions and of the types they become
mod fns {
    use super::*;
    macro_rules! fns {
        ($($f:ident $t:ident)*) => {
            $(
                #[job]
                async fn $f(value: u16) -> u16 {
                    value
                }
            )*
            pub async fn all(n: u16, ids: &mut Vec<String>, cx: &JobContext) -> Res {
                $(
                    shape($f::$t { value: n }, stringify!($t), json!({"value": n}), ids)?;
                    exec($f::$t { value: n }, |r| *r == n, cx).await?;
                )*
                Ok(())
            }
        };
    }
    fns!(a JobA ab JobAb a_b JobAB my_job JobMyJob job_my JobJobMy send_the_email JobSendTheEmail email2 JobEmail2 notify_all JobNotifyAll worker JobWorker handle_request JobHandleRequest);
}

// ------------------------------------------------------------------ checks
const P: &[&str] = &["C19"];
fn check(ok: bool, what: impl FnOnce() -> String) -> Res {
    if ok { Ok(()) } else { Err(fail(P, what())) }
}
fn json_of<T: Serialize>(v: &T) -> Value {
    serde_json::to_value(v).unwrap_or(Value::Null)
}
/// the queue name, the constructor, and the stored form of one value
fn shape<M>(v: M, name: &str, data: Value, ids: &mut Vec<String>) -> Res
where
    M: BackgroundJob + Executable + Clone + Serialize + DeserializeOwned + Send + Sync + Unpin + 'static,
{
    check(M::queue_name() == name, || format!("the queue of {} is called {}", name, M::queue_name()))?;
    check(json_of(&v) == data, || format!("{} made of {} holds {}", name, data, json_of(&v)))?;
    let j: Job<M> = v.clone().job();
    check(json_of(&j.data) == data, || format!("{}.job() of {} holds {}", name, data, json_of(&j.data)))?;
    let c = json_of(&j.context);
    check(c["job_type"] == "Normal" && c["job_status"] == "Queued" && c["retry"].is_null() && c["run_count"] == 0 && c["run_at"].is_null() && c["cancel_at"].is_null() && c["complete_at"].is_null() && c["enqueue_at"].is_null(), || format!("{}.job() starts as {}", name, c))?;
    check(!ids.contains(&j.context.job_id) && !j.context.job_id.is_empty(), || format!("{}.job() has the id of another job", name))?;
    ids.push(j.context.job_id.clone());
    let t = serde_json::to_string(&j.data).map_err(|e| fail(P, format!("{} of {} is not stored: {}", name, data, e)))?;
    let b: M = serde_json::from_str(&t).map_err(|e| fail(P, format!("{} stored as {} is not read back: {}", name, t, e)))?;
    check(json_of(&b) == data, || format!("{} of {} stored as {} is read back as {}", name, data, t, json_of(&b)))
}
async fn exec<M>(mut v: M, out: impl FnOnce(&M::Output) -> bool, cx: &JobContext) -> Res
where
    M: Executable + Serialize,
    M::Output: std::fmt::Debug,
{
    let before = json_of(&v);
    let r = v.execute(cx).await;
    check(out(&r), || format!("{} with {} gives {:?}", std::any::type_name::<M>(), before, r))?;
    check(json_of(&v) == before, || format!("{} with {} holds {} after a run", std::any::type_name::<M>(), before, json_of(&v)))
}
fn text(r: &mut Rng) -> String {
    let t = ["", "a", "Rodgers", "xin chào", "\u{0}\"\\\n", "JobHello", "null", "日本", "0"];
    match r.below(4) {
        0 => format!("{}{}", r.pick(&t), r.next()),
        1 => "x".repeat(r.below(300)),
        _ => r.pick(&t).to_string(),
    }
}
fn num(r: &mut Rng) -> i64 {
    match r.below(3) {
        0 => *r.pick(&[0, 1, -1, i64::MAX, i64::MIN, 10, 11, 255]),
        1 => r.below(100) as i64 - 50,
        _ => r.next() as i64,
    }
}
async fn values(r: &mut Rng, ids: &mut Vec<String>, st: &mut Stats) -> Res {
    let cx = JobContext::new(format!("cx{}", r.next()));
    let (s, a, b, n) = (text(r), num(r), num(r), r.below(30) as u32);
    let (x, y, z, f) = (r.next() as u8, r.next() as u8, r.next() as u8, r.chance(50));
    let o = if f { Some(a as u64) } else { None };
    st.case(&format!("values {:?}", (&s, a, b, n, x, y, z, f)), true);
    shape(hello::JobHello { name: s.clone() }, "JobHello", json!({"name": s}), ids)?;
    exec(hello::JobHello { name: s.clone() }, |r| *r == s, &cx).await?;
    shape(swap_two::JobSwapTwo { a, b }, "JobSwapTwo", json!({"a": a, "b": b}), ids)?;
    exec(swap_two::JobSwapTwo { a, b }, |r| *r == (b, a), &cx).await?;
    shape(seven::JobSeven {}, "JobSeven", json!({}), ids)?;
    exec(seven::JobSeven {}, |r| *r == 7, &cx).await?;
    shape(quiet::JobQuiet { _name: s.clone(), _n: a as u64 }, "JobQuiet", json!({"_name": s, "_n": a as u64}), ids)?;
    exec(quiet::JobQuiet { _name: s.clone(), _n: a as u64 }, |_| true, &cx).await?;
    shape(at_most_ten::JobAtMostTen { n, tag: x }, "JobAtMostTen", json!({"n": n, "tag": x}), ids)?;
    exec(at_most_ten::JobAtMostTen { n, tag: x }, |r| *r == (n.min(10), x), &cx).await?;
    shape(rot4::JobRot4 { a: x, b: y, c: z, fail: f }, "JobRot4", json!({"a": x, "b": y, "c": z, "fail": f}), ids)?;
    exec(rot4::JobRot4 { a: x, b: y, c: z, fail: f }, |r| *r == if f { Err(y) } else { Ok((z, x, y)) }, &cx).await?;
    shape(names_v2::JobNamesV2 { msg: b as u64, job_id: o }, "JobNamesV2", json!({"msg": b as u64, "job_id": o}), ids)?;
    exec(names_v2::JobNamesV2 { msg: b as u64, job_id: o }, |r| *r == o.unwrap_or(b as u64), &cx).await?;
    shape(Print { number: n as i32, text: s.clone() }, "Print", json!({"number": n, "text": s}), ids)?;
    shape(Pair(x, y), "Pair", json!([x, y]), ids)?;
    let t = if f { Task2::One } else { Task2::Many(a as u64) };
    let d = json_of(&t);
    shape(t, "Task2", d, ids)?;
    shape(Derived { n: a, text: s.clone() }, "Derived", json!({"n": a, "text": s}), ids)?;
    shape(DerivedEnum::B(a), "DerivedEnum", json!({"B": a}), ids)?;
    shape(DerivedEnum::A, "DerivedEnum", json!("A"), ids)?;
    shape(DerivedUnit, "DerivedUnit", Value::Null, ids)?;
    shape(nested::JobNested { items: vec![s.clone(), "z".into()], map: [(s.clone(), a)].into(), opt: Some(Some(f)) }, "JobNested", json!({"items": [s, "z"], "map": {s.clone(): a}, "opt": f}), ids)?;
    shape(triple::JobTriple { first: a, second: b, third: n as i64 }, "JobTriple", json!({"first": a, "second": b, "third": n}), ids)?;
    shape(shadow::JobShadow { msg: s.clone(), job_id: "i".into(), name: (x, y) }, "JobShadow", json!({"msg": s, "job_id": "i", "name": [x, y]}), ids)
}
async fn until(mut f: impl FnMut() -> bool) -> bool {
    let t = Instant::now();
    while t.elapsed() < Duration::from_secs(20) {
        if f() { return true; }
        actix_rt::time::sleep(Duration::from_millis(2)).await;
    }
    f()
}
/// the jobs listed under the name of the queue
fn listed(be: &RefBackend, queue: &str) -> Vec<String> {
    let st = be.s.lock().unwrap();
    st.queues.iter().filter(|(k, _)| k.starts_with(&format!("{}:", queue))).flat_map(|(_, v)| v.iter().cloned()).collect()
}
fn stored(be: &RefBackend, id: &str) -> Value {
    let s = be.s.lock().unwrap();
    s.hashes.iter().filter(|((_, k), _)| k == id).map(|(_, v)| serde_json::from_str(v).unwrap_or(Value::Null)).next().unwrap_or(Value::Null)
}
fn later(id: &str) -> JobContext {
    let mut c = JobContext::new(id.into());
    c.job_type = aj::job::JobType::new_schedule(aj::chrono::Utc::now() + aj::chrono::Duration::seconds(7200));
    c
}
/// one job function through all four ways to submit it
macro_rules! submit {
    ($be:expr, $st:expr, $k:expr, $f:ident, $ty:ident, ($($a:expr),*), $note:expr, $data:expr) => {{
        let (be, k, note, data): (&RefBackend, usize, Value, Value) = ($be, $k, $note, $data);
        let name = stringify!($f);
        let q = stringify!($ty);
        $st.case(&format!("submit {} {}", name, note), true);
        let n0 = noted(name, &note);
        let id = $f::run($($a),*).await.map_err(|e| fail(P, format!("{}::run: {:?}", name, e)))?;
        check(until(|| noted(name, &note) > n0).await, || format!("{}::run({}) does not run with these arguments", name, note))?;
        check(until(|| stored(be, &id)["context"]["job_status"] == "Finished").await, || format!("{}::run: the job is {}", name, stored(be, &id)))?;
        check(stored(be, &id)["data"] == data, || format!("{}::run: stored {}", name, stored(be, &id)))?;
        check(until(|| listed(be, q).contains(&id)).await, || format!("{}::run: {} is not listed under {}", name, id, q))?;
        let g = AJ::get_job::<$f::$ty>(&id).await;
        check(g.as_ref().map(|j| json_of(&j.data)) == Some(data.clone()), || format!("get_job of {}: {:?}", name, g.map(|j| json_of(&j.data))))?;
        // with a context: taken as it is
        let cid = format!("{}-cx{}", name, k);
        let c = later(&cid);
        let id = $f::run_with_context($($a,)* c.clone()).await.map_err(|e| fail(P, format!("{}::run_with_context: {:?}", name, e)))?;
        let s = stored(be, &cid);
        check(id == cid && s["data"] == data && s["context"]["job_type"] == json_of(&c)["job_type"] && s["context"]["created_at"] == json_of(&c)["created_at"], || format!("{}::run_with_context gives id {}, stored {}", name, id, s))?;
        check(listed(be, q).contains(&cid), || format!("{}::run_with_context: {} is not listed under {}", name, cid, q))?;
        let cid = format!("{}-jcx{}", name, k);
        let c = later(&cid);
        $f::just_run_with_context($($a,)* c.clone());
        check(until(|| !stored(be, &cid).is_null()).await, || format!("{}::just_run_with_context: no job {}", name, cid))?;
        let s = stored(be, &cid);
        check(s["data"] == data && s["context"]["job_type"] == json_of(&c)["job_type"], || format!("{}::just_run_with_context: stored {}", name, s))?;
        let n0 = noted(name, &note);
        $f::just_run($($a),*);
        check(until(|| noted(name, &note) > n0).await, || format!("{}::just_run({}) does not run with these arguments", name, note))?;
        actix_rt::time::sleep(Duration::from_millis(5)).await;
        check(noted(name, &note) == n0 + 1, || format!("{}::just_run({}) ran {} times", name, note, noted(name, &note) - n0))?;
    }};
}
macro_rules! derived {
    ($be:expr, $st:expr, $v:expr, $ty:ident, $note:expr) => {{
        let (be, note): (&RefBackend, Value) = ($be, $note);
        let q = stringify!($ty);
        $st.case(&format!("submit {} {}", q, note), true);
        let v: $ty = $v;
        let data = json_of(&v);
        let n0 = noted(q, &note);
        let id = v.job().run().await.map_err(|e| fail(P, format!("{}.job().run(): {:?}", q, e)))?;
        check(until(|| noted(q, &note) > n0 && stored(be, &id)["context"]["job_status"] == "Finished").await, || format!("{}.job().run() of {}: the job is {}", q, data, stored(be, &id)))?;
        check(stored(be, &id)["data"] == data && until(|| listed(be, q).contains(&id)).await, || format!("{}.job().run(): stored {}, listed {:?}", q, stored(be, &id), listed(be, q)))?;
    }};
}
async fn ends(be: &RefBackend, r: &mut Rng, st: &mut Stats, k: usize) -> Res {
    let (s, t, a, b, c) = (text(r), text(r), num(r), num(r), num(r));
    let (x, y, yes) = (r.next() as u8, r.next() as u8, r.chance(50));
    submit!(be, st, k, plain, JobPlain, (s.clone()), json!([s]), json!({"name": s}));
    submit!(be, st, k, plain_async, JobPlainAsync, (s.clone()), json!([s]), json!({"name": s}));
    submit!(be, st, k, no_arg, JobNoArg, (), json!([]), json!({}));
    submit!(be, st, k, no_arg_async, JobNoArgAsync, (), json!([]), json!({}));
    submit!(be, st, k, triple, JobTriple, (a, b, c), json!([a, b, c]), json!({"first": a, "second": b, "third": c}));
    submit!(be, st, k, nested, JobNested, (vec![s.clone(), t.clone()], [(s.clone(), a)].into(), Some(Some(yes))), json!([[s, t], {s.clone(): a}, yes]), json!({"items": [s, t], "map": {s.clone(): a}, "opt": yes}));
    submit!(be, st, k, with_mut, JobWithMut, (vec![x, y], 9), json!([[x, y, 9], 9]), json!({"items": [x, y], "n": 9}));
    submit!(be, st, k, shadow, JobShadow, (s.clone(), t.clone(), (x, y)), json!([s, t, [x, y]]), json!({"msg": s, "job_id": t, "name": [x, y]}));
    submit!(be, st, k, waits, JobWaits, (x as u32), json!([x]), json!({"n": x}));
    submit!(be, st, k, five2_of_them, JobFive2OfThem, (x, y, 3, 4, 5), json!([x, y, 3, 4, 5]), json!({"a": x, "b": y, "c": 3, "d": 4, "e": 5}));
    submit!(be, st, k, f, JobF, (s.clone()), json!([s]), json!({"f": s}));
    submit!(be, st, k, doIt, JobDoIt, (yes), json!([yes]), json!({"yes": yes}));
    derived!(be, st, Derived { n: a, text: s.clone() }, Derived, json!([a, s]));
    derived!(be, st, DerivedEnum::B(b), DerivedEnum, json!([{"B": b}]));
    derived!(be, st, DerivedEnum::A, DerivedEnum, json!(["A"]));
    derived!(be, st, DerivedUnit, DerivedUnit, json!([]));
    Ok(())
}
fn main() {
    quiet_panics();
    let a = args();
    let mut st = Stats::new("programs using the macros (about 80 shapes and names), run with random argument values directly and through AJ with a reference backend; non-trivial: every case");
    std::thread::spawn({
        let prop = a.prop.clone();
        move || {
            std::thread::sleep(Duration::from_secs(240));
            let a = Args { prop, seed: 1, budget: 0.0, start: Instant::now() };
            finish(&a, &Stats::new(""), Some(fail(P, "a job submitted through the macros hangs".into())));
        }
    });
    let be = RefBackend::default();
    let mut r = Rng(a.seed);
    let sys = actix::System::new();
    let f = sys.block_on(async {
        let _addr = AJ::start(be.clone());
        let mut ids = vec![];
        for _ in 0..20 {
            if let Err(f) = values(&mut r, &mut ids, &mut st).await { return Some(f); }
        }
        let cx = JobContext::new("names".into());
        for n in [0, 1, u16::MAX] {
            st.case(&format!("names {}", n), true);
            if let Err(f) = names::all(n, &mut ids) { return Some(f); }
            if let Err(f) = fns::all(n, &mut ids, &cx).await { return Some(f); }
        }
        let mut k = 0;
        loop {
            if let Err(f) = ends(&be, &mut r, &mut st, k).await { return Some(f); }
            k += 1;
            if let Err(f) = values(&mut r, &mut ids, &mut st).await { return Some(f); }
            if k >= 2 && !a.left() || k >= 60 { break; }
        }
        let all = noted_all("plain");
        if all != 2 * k { return Some(fail(P, format!("{} submissions of plain, {} runs", 2 * k, all))); }
        None
    });
    finish(&a, &st, f)
}
