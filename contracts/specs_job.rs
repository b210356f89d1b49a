// Specification of jobs: retry policy, readiness, recurrence, job executions.
verus! {
use m_retry::*;
use m_job_context::*;
use m_job::Job;
pub open spec fn clock_ext(a: World, b: World) -> bool {
    &&& b.clock.len() >= a.clock.len()
    &&& forall|k: int| #![trigger b.clock[k]] #![trigger a.clock[k]] 0 <= k < a.clock.len() ==> b.clock[k] == a.clock[k]
}
pub open spec fn ms(t: int) -> i64 { (t / 1_000_000) as i64 }

// ---- retry policy
pub open spec fn may_retry(r: Retry) -> bool {
    r.max_retries is Some ==> r.retried_times < r.max_retries->0
}
pub open spec fn bumped(r: Retry) -> Retry {
    Retry { retried_times: if r.retried_times < i32::MAX { (r.retried_times + 1) as i32 } else { i32::MAX }, ..r }
}
pub open spec fn retry_delay(r: Retry) -> int {
    match r.strategy {
        RetryStrategy::Interval(d) => d.ns as int,
        RetryStrategy::ExponentialBackoff(d) => {
            let x = d.ns * spow2((r.retried_times as u32) as nat);
            if td_in(x) { x } else { TD_MAX }
        },
    }
}
pub open spec fn retry_time(now: int, r: Retry) -> DateTime<Utc> {
    if dt_in(now + retry_delay(r)) { dt(now + retry_delay(r)) } else { dt(DT_MAX) }
}

// ---- what user code does: a job type either keeps a default method or replaces it
pub uninterp spec fn custom_failed<M>() -> bool;
pub uninterp spec fn custom_failed_is<M, O>(d: M, out: O) -> bool;
pub open spec fn vx_failed<M, O>(d: M, out: O) -> bool {
    if custom_failed::<M>() { custom_failed_is(d, out) } else { false }
}
pub uninterp spec fn custom_retry<M>() -> bool;
/// `clock`: all readings, c0..c1 those made by the call
pub open spec fn retry_ok<M, O>(d: M, rc0: Retry, out: O, rc1: Retry, res: Option<DateTime<Utc>>, clock: Seq<int>, c0: int, c1: int) -> bool {
    custom_retry::<M>() || (
        if vx_failed(d, out) && may_retry(rc0) {
            &&& rc1 == bumped(rc0)
            &&& res is Some
            &&& exists|k: int| c0 <= k < c1 && res->0 == retry_time(#[trigger] clock[k], rc1)
        } else {
            rc1 == rc0 && res is None
        }
    )
}
/// Used only inside the default methods of the trait: they run when the job type does not replace them.
pub axiom fn vx_default_failed<M>() ensures !custom_failed::<M>();
pub axiom fn vx_default_retry<M>() ensures !custom_retry::<M>();

// ---- storage
pub open spec fn stored<M>(w: World, id: Str) -> Option<Job<M>> {
    match w.st(m_types::STORAGE_HASH@, id) { Some(s) => de::<Job<M>>(s), None => None }
}
pub uninterp spec fn norm_dur(d: TimeDelta) -> TimeDelta;
pub open spec fn norm_dt(d: DateTime<Utc>) -> DateTime<Utc> { dt((d.ns / 1000) * 1000) }
pub open spec fn norm_type(t: JobType) -> JobType {
    match t {
        JobType::Normal => t,
        JobType::ScheduledAt(d) => JobType::ScheduledAt(norm_dt(d)),
        JobType::Cron(e, d, n, c) => JobType::Cron(e, norm_dt(d), n,
            CronContext { end_at: match c.end_at { Some(x) => Some(norm_dt(x)), None => None }, ..c }),
    }
}
pub open spec fn norm_retry(r: Retry) -> Retry {
    Retry { strategy: match r.strategy {
        RetryStrategy::Interval(d) => RetryStrategy::Interval(norm_dur(d)),
        RetryStrategy::ExponentialBackoff(d) => RetryStrategy::ExponentialBackoff(norm_dur(d)),
    }, ..r }
}
/// what comes back after storing a job: times are kept in microseconds
pub open spec fn norm<M>(j: Job<M>) -> Job<M> {
    Job { context: JobContext {
        job_type: norm_type(j.context.job_type),
        retry: match j.context.retry { Some(r) => Some(norm_retry(r)), None => None },
        ..j.context
    }, data: j.data }
}
pub broadcast axiom fn ax_job_roundtrip<M>(j: Job<M>)
    ensures de::<Job<M>>(#[trigger] ser::<Job<M>>(j)) == Some(norm(j));

// ---- readiness
/// a job may be started at time t
pub open spec fn may_run(jt: JobType, t: int) -> bool {
    match jt {
        JobType::Normal => true,
        JobType::ScheduledAt(d) => t >= d.ns,
        JobType::Cron(_, d, n, c) => {
            &&& t >= d.ns
            &&& c.max_repeat is Some ==> n <= c.max_repeat->0
            &&& c.end_at is Some ==> t <= c.end_at->0.ns
        },
    }
}
/// a job must be considered due at time t
pub open spec fn must_run(jt: JobType, t: int) -> bool {
    match jt {
        JobType::Normal => true,
        JobType::ScheduledAt(d) => t > d.ns,
        JobType::Cron(_, d, n, c) => {
            &&& t > d.ns
            &&& c.max_repeat is Some ==> n <= c.max_repeat->0
            &&& c.end_at is Some ==> t < c.end_at->0.ns
        },
    }
}
/// the recurrence of a cron job that has run, decided at time t
pub open spec fn next_type(jt: JobType, t: int) -> Option<JobType> {
    match jt {
        JobType::Cron(e, d, n, c) => {
            let up = cron_next(e@, t);
            if cron_ok(e@) && up is Some
                && !(c.max_repeat is Some && c.max_repeat->0 <= n)
                && !(c.end_at is Some && c.end_at->0.ns < up->0.ns) {
                Some(JobType::Cron(e, up->0, (n + 1) as i32, c))
            } else { None }
        },
        _ => None,
    }
}
pub open spec fn repeats_left(jt: JobType) -> bool {
    jt is Cron ==> jt->Cron_2 < i32::MAX
}

pub open spec fn due_since(jt: JobType, clock: Seq<int>, c0: int) -> bool {
    exists|k: int| c0 <= k < clock.len() && may_run(jt, #[trigger] clock[k])
}
pub open spec fn notdue_since(jt: JobType, clock: Seq<int>, c0: int) -> bool {
    exists|k: int| c0 <= k < clock.len() && !must_run(jt, #[trigger] clock[k])
}
/// a timestamp taken between a and b
pub open spec fn fresh_ms(x: Option<i64>, a: World, b: World) -> bool {
    x is Some && exists|k: int| a.clock.len() <= k < b.clock.len() && x->0 == ms(#[trigger] b.clock[k])
}
pub open spec fn noted(a: World, b: World, id: Str, n: Note) -> bool {
    &&& b.n(id) == a.n(id).push(n)
    &&& forall|i: Str| i != id ==> #[trigger] (b.notes)(i) == (a.notes)(i)
    &&& b.queues == a.queues && b.store == a.store && b.clock == a.clock && b.qname == a.qname && b.me == a.me
    &&& b.tasks == a.tasks && b.runs == a.runs && b.ticks == a.ticks && b.faulted == a.faulted
}
/// a job has been stored and its status announced; nothing else happened
pub open spec fn job_saved<M>(a: World, b: World, j: Job<M>) -> bool {
    let id = j.context.job_id@;
    &&& b.st(m_types::STORAGE_HASH@, id) == Some(ser(j))
    &&& forall|k: Str| k != id ==> #[trigger] b.st(m_types::STORAGE_HASH@, k) == a.st(m_types::STORAGE_HASH@, k)
    &&& b.queues == a.queues
    &&& clock_ext(a, b)
    &&& b.qname == a.qname && b.me == a.me && b.tasks == a.tasks && b.runs == a.runs && b.ticks == a.ticks && b.faulted == a.faulted
}
/// the status of j is announced once, about j only
pub open spec fn job_noted<M>(a: World, b: World, j: Job<M>) -> bool {
    let id = j.context.job_id@;
    &&& b.n(id) == a.n(id).push(Note::Status { ty: tid::<M>(), st: j.context.job_status })
    &&& forall|i: Str| i != id ==> #[trigger] (b.notes)(i) == (a.notes)(i)
}
pub open spec fn err_step(a: World, b: World) -> bool {
    b.faulted && clock_ext(a, b) && b.queues == a.queues && b.notes == a.notes && b.qname == a.qname && b.me == a.me && b.tasks == a.tasks && b.runs == a.runs && b.ticks == a.ticks
}
pub open spec fn with_type<M>(j: Job<M>, t: JobType) -> Job<M> {
    Job { context: JobContext { job_type: t, ..j.context }, ..j }
}

// ---- plugins
pub open spec fn wants(p: m_plugin_job::JobPluginWrapper, t: TypeId) -> bool {
    p.job_type_ids@.len() == 0 || p.job_type_ids@.contains(t)
}
/// hook calls made for the first n plugins, in registration order
pub open spec fn hook_calls(ps: Seq<Arc<m_plugin_job::JobPluginWrapper>>, n: int, t: TypeId, job: Str, what: Hook) -> Seq<HookCall>
    decreases n
{
    if n <= 0 { Seq::empty() } else {
        let r = hook_calls(ps, n - 1, t, job, what);
        if wants(*ps[n - 1], t) { r.push(HookCall { plugin: ps[n - 1].hook.vx_pid(), job, what }) } else { r }
    }
}

// ---- one run of a job's own code
pub open spec fn ran<M, O>(n0: Seq<Note>, n1: Seq<Note>, j0: Job<M>, j1: Job<M>, out: O) -> bool {
    let k = n0.len() as int;
    &&& n1.len() == k + 5
    &&& n1.take(k) =~= n0
    &&& n1[k] == Note::Before { ty: tid::<M>() }
    &&& n1[k + 1] is Pre && n1[k + 1]->Pre_d0 == enc(j0.data) && n1[k + 1]->Pre_cx == enc(j1.context)
    &&& n1[k + 2] is Exec && n1[k + 2]->Exec_d0 == n1[k + 1]->Pre_d1 && n1[k + 2]->Exec_cx == enc(j1.context)
    &&& n1[k + 3] is Post && n1[k + 3]->Post_d0 == n1[k + 2]->Exec_d1 && n1[k + 3]->Post_cx == enc(j1.context)
    &&& n1[k + 3]->out0 == n1[k + 2]->Exec_out
    &&& n1[k + 3]->Post_d1 == enc(j1.data)
    &&& n1[k + 3]->out1 == enc(out)
    &&& n1[k + 4] == Note::After { ty: tid::<M>() }
    &&& j1.context == (JobContext { run_count: (j0.context.run_count + 1) as usize, ..j0.context })
}

// ---- the lists of one queue
pub open spec fn qn(name: Str, s: JobStatus) -> Str { name + ":queue:"@ + s.dbg() }
pub open spec fn list(w: World, s: JobStatus) -> Seq<Str> { w.q(qn(w.qname, s)) }
pub open spec fn running(w: World, id: Str) -> bool { list(w, JobStatus::Running).contains(id) }

/// Every job is in the list of its status and in no other, once.
pub open spec fn inv_nodup(w: World) -> bool {
    forall|s: JobStatus| (#[trigger] list(w, s)).no_duplicates()
}
pub open spec fn inv_listed<M>(w: World) -> bool {
    forall|s: JobStatus, id: Str| #[trigger] list(w, s).contains(id) ==>
        stored::<M>(w, id) is Some && stored::<M>(w, id)->0.context.job_status == s
}
pub open spec fn inv_stored<M>(w: World) -> bool {
    forall|id: Str| (#[trigger] stored::<M>(w, id)) is Some ==> {
        let j = stored::<M>(w, id)->0;
        &&& j.context.job_id@ == id
        &&& j.context.job_status != JobStatus::Canceled ==> list(w, j.context.job_status).contains(id)
    }
}
#[verifier::opaque]
pub open spec fn inv<M>(w: World) -> bool {
    inv_nodup(w) && inv_listed::<M>(w) && inv_stored::<M>(w)
}
/// What may change while this job execution waits (other executions and messages run).
pub open spec fn rely<M>(a: World, b: World) -> bool {
    &&& clock_ext(a, b)
    &&& b.qname == a.qname
    &&& b.me == a.me
    &&& a.faulted ==> b.faulted
    &&& inv::<M>(a) && !b.faulted ==> inv::<M>(b) && (running(a, a.me) ==>
        running(b, a.me) && b.st(m_types::STORAGE_HASH@, a.me) == a.st(m_types::STORAGE_HASH@, a.me))
}
}
