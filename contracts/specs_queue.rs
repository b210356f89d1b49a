// Specification of the work queue: moving one job between the lists of its queue.
verus! {
use m_queue::*;
/// what a queue relies on: it is the queue under consideration and its lists agree with the stored jobs
pub open spec fn wq_ok<M>(q: WorkQueue<M>, w: World) -> bool {
    (*q.name)@ == w.qname && (!w.faulted ==> inv::<M>(w))
}
pub open spec fn without(s: Seq<Str>, id: Str) -> Seq<Str> { s.filter(|x: Str| x != id) }
/// the name of a list that does not belong to the queue `name`
pub open spec fn other_name(name: Str, n: Str) -> bool { forall|s: JobStatus| n != #[trigger] qn(name, s) }
pub open spec fn placed(l: Seq<Str>, id: Str, here: bool) -> Seq<Str> {
    if here { seq![id] + without(l, id) } else { without(l, id) }
}
/// `id` is taken out of every list of the queue and put in front of list `to`
pub open spec fn relisted(a: World, b: World, id: Str, to: Option<JobStatus>) -> bool {
    &&& forall|s: JobStatus| #![trigger list(b, s)] #![trigger list(a, s)] list(b, s) =~= placed(list(a, s), id, to == Some(s))
    &&& forall|n: Str| other_name(a.qname, n) ==> #[trigger] b.q(n) == a.q(n)
}
/// the clock may advance, nothing else happens besides lists, stored jobs and notifications
pub open spec fn env_q(a: World, b: World) -> bool {
    &&& clock_ext(a, b)
    &&& b.qname == a.qname && b.me == a.me && b.tasks == a.tasks && b.runs == a.runs && b.ticks == a.ticks
    &&& (a.faulted ==> b.faulted)
}
pub open spec fn nothing_changed(a: World, b: World) -> bool {
    &&& env_q(a, b)
    &&& forall|n: Str| #[trigger] b.q(n) == a.q(n)
    &&& forall|k: Str| #[trigger] b.st(m_types::STORAGE_HASH@, k) == a.st(m_types::STORAGE_HASH@, k)
    &&& forall|k: Str| #[trigger] (b.notes)(k) == (a.notes)(k)
}
/// only the stored data of job j.id changes, to j
pub open spec fn data_set<M>(a: World, b: World, j: Job<M>) -> bool {
    &&& env_q(a, b)
    &&& forall|n: Str| #[trigger] b.q(n) == a.q(n)
    &&& b.st(m_types::STORAGE_HASH@, j.context.job_id@) == Some(ser(j))
    &&& forall|k: Str| k != j.context.job_id@ ==> #[trigger] b.st(m_types::STORAGE_HASH@, k) == a.st(m_types::STORAGE_HASH@, k)
    &&& forall|k: Str| #[trigger] (b.notes)(k) == (a.notes)(k)
}
/// job j (stored as j, announced) now is in list `to` only
pub open spec fn moved<M>(a: World, b: World, j: Job<M>, to: Option<JobStatus>) -> bool {
    let id = j.context.job_id@;
    &&& env_q(a, b)
    &&& relisted(a, b, id, to)
    &&& b.st(m_types::STORAGE_HASH@, id) == Some(ser(j))
    &&& forall|k: Str| k != id ==> #[trigger] b.st(m_types::STORAGE_HASH@, k) == a.st(m_types::STORAGE_HASH@, k)
    &&& b.n(id) == a.n(id).push(Note::Status { ty: tid::<M>(), st: j.context.job_status })
    &&& forall|k: Str| k != id ==> #[trigger] (b.notes)(k) == (a.notes)(k)
}
/// the job after entering status s at time t
pub open spec fn status_at<M>(j: Job<M>, s: JobStatus, t: i64) -> Job<M> {
    Job { context: match s {
        JobStatus::Queued => JobContext { job_status: s, enqueue_at: Some(t), ..j.context },
        JobStatus::Running => JobContext { job_status: s, run_at: Some(t), ..j.context },
        JobStatus::Finished => JobContext { job_status: s, complete_at: Some(t), ..j.context },
        JobStatus::Failed => JobContext { job_status: s, complete_at: Some(t), ..j.context },
        JobStatus::Canceled => JobContext { job_status: s, cancel_at: Some(t), ..j.context },
    }, data: j.data }
}
pub open spec fn list_of(s: JobStatus) -> Option<JobStatus> { if s == JobStatus::Canceled { None } else { Some(s) } }
/// job j enters status s: it is in that list only, stored with that status and a timestamp taken meanwhile, and this is announced
pub open spec fn put_in<M>(a: World, b: World, j: Job<M>, s: JobStatus) -> bool {
    exists|k: int| a.clock.len() <= k < b.clock.len() && moved(a, b, status_at(j, s, ms(#[trigger] b.clock[k])), list_of(s))
}
pub open spec fn status_is<M>(w: World, id: Str, s: JobStatus) -> bool {
    stored::<M>(w, id) is Some && stored::<M>(w, id)->0.context.job_status == s
}
pub open spec fn is_done_status(s: JobStatus) -> bool {
    s == JobStatus::Finished || s == JobStatus::Canceled || s == JobStatus::Failed
}
/// executions under way do not notice the step from a to b
pub open spec fn keeps_running(a: World, b: World, but: Option<Str>) -> bool {
    forall|x: Str| #![trigger running(a, x)] #![trigger running(b, x)] running(a, x) && but != Some(x) ==>
        running(b, x) && b.st(m_types::STORAGE_HASH@, x) == a.st(m_types::STORAGE_HASH@, x) && (b.notes)(x) == (a.notes)(x)
}
}
// ---- picking jobs
verus! {
pub open spec fn job_ids<M>(r: Seq<Job<M>>) -> Seq<Str> { r.map_values(|j: Job<M>| j.context.job_id@) }
/// job j was waiting and due in a, and is now started
pub open spec fn started<M>(a: World, w: World, j: Job<M>) -> bool {
    let id = j.context.job_id@;
    &&& list(a, JobStatus::Queued).contains(id) && status_is::<M>(a, id, JobStatus::Queued)
    &&& due_since(stored::<M>(a, id)->0.context.job_type, w.clock, a.clock.len() as int)
    &&& exists|k: int| a.clock.len() <= k < w.clock.len() && j == status_at(stored::<M>(a, id)->0, JobStatus::Running, ms(#[trigger] w.clock[k]))
    &&& w.st(m_types::STORAGE_HASH@, id) == Some(ser(j))
    &&& w.n(id) == a.n(id).push(Note::Status { ty: tid::<M>(), st: JobStatus::Running })
}
/// the jobs r have been started, nothing else changed (the waiting list may be rotated)
#[verifier::opaque]
pub open spec fn pick_state<M>(a: World, w: World, r: Seq<Job<M>>) -> bool {
    &&& clock_ext(a, w) && w.qname == a.qname
    &&& inv::<M>(w)
    &&& list(w, JobStatus::Running) =~= job_ids(r).reverse() + list(a, JobStatus::Running)
    &&& forall|s: JobStatus| s != JobStatus::Queued && s != JobStatus::Running ==> #[trigger] list(w, s) == list(a, s)
    &&& forall|n: Str| other_name(a.qname, n) ==> #[trigger] w.q(n) == a.q(n)
    &&& forall|x: Str| #![trigger list(a, JobStatus::Queued).contains(x)] #![trigger list(w, JobStatus::Queued).contains(x)]
            list(a, JobStatus::Queued).contains(x) <==> (list(w, JobStatus::Queued).contains(x) || job_ids(r).contains(x))
    &&& list(w, JobStatus::Queued).len() + r.len() == list(a, JobStatus::Queued).len()
    &&& job_ids(r).no_duplicates()
    &&& forall|i: int| 0 <= i < r.len() ==> started(a, w, #[trigger] r[i])
    &&& forall|x: Str| !job_ids(r).contains(x) ==> #[trigger] w.st(m_types::STORAGE_HASH@, x) == a.st(m_types::STORAGE_HASH@, x)
    &&& forall|x: Str| !job_ids(r).contains(x) ==> #[trigger] (w.notes)(x) == (a.notes)(x)
}
/// job x was started, or there was no room for it, or it was not due at some moment of this pass
pub open spec fn seen_ok<M>(a: World, w: World, r: Seq<Job<M>>, total: int, x: Str) -> bool {
    ||| job_ids(r).contains(x)
    ||| r.len() >= total
    ||| notdue_since(stored::<M>(a, x)->0.context.job_type, w.clock, a.clock.len() as int)
}
#[verifier::opaque]
pub open spec fn examined<M>(a: World, w: World, r: Seq<Job<M>>, total: int, rest: Seq<Str>) -> bool {
    forall|x: Str| #[trigger] list(a, JobStatus::Queued).contains(x) ==> seen_ok(a, w, r, total, x) || rest.contains(x)
}
/// what the rest of a pass has yet to look at: c items at the back, i of which have been looked at
pub open spec fn unseen(q: Seq<Str>, c: int, i: int) -> Seq<Str> {
    if i < c && c <= q.len() { q.subrange(q.len() - c, q.len() - i) } else { Seq::empty() }
}
/// jobs still to look at, from a counter that goes down from the length of the queue or up to it
pub open spec fn left_to_do(up: bool, len: int, n: int) -> int { if up { len - n } else { n } }
pub open spec fn pos_or_0(n: int) -> int { if n > 0 { n } else { 0 } }
/// the last n items
pub open spec fn tail(q: Seq<Str>, n: int) -> Seq<Str> { q.skip(q.len() - n) }
pub open spec fn counters_ok<M>(w: World) -> bool {
    forall|x: Str| (#[trigger] stored::<M>(w, x)) is Some ==> stored::<M>(w, x)->0.context.run_count < usize::MAX && repeats_left(stored::<M>(w, x)->0.context.job_type)
}
pub open spec fn max_len(a: nat, b: nat) -> nat { if a < b { b } else { a } }
/// each of the jobs r was due at some moment of this pass
pub open spec fn all_due<M>(a: World, b: World, r: Seq<Job<M>>) -> bool {
    forall|i: int| 0 <= i < r.len() ==> due_since((#[trigger] r[i]).context.job_type, b.clock, a.clock.len() as int)
}
/// whatever fails: only due jobs are handed over, never more than there is room for
pub open spec fn tick_safe<M>(a: World, b: World, r: Seq<Job<M>>, max: nat) -> bool {
    &&& b.tasks == a.tasks + job_ids(r)
    &&& all_due(a, b, r)
    &&& r.len() == 0 || list(a, JobStatus::Running).len() + r.len() <= max
}
/// every waiting job was started, or the queue was at its limit, or the job was not due
pub open spec fn tried<M>(a: World, b: World, r: Seq<Job<M>>, max: nat) -> bool {
    forall|x: Str| #[trigger] list(a, JobStatus::Queued).contains(x) ==>
        job_ids(r).contains(x) || list(b, JobStatus::Running).len() >= max
        || notdue_since(stored::<M>(a, x)->0.context.job_type, b.clock, a.clock.len() as int)
}
/// one tick: the jobs r are started and handed over for execution
pub open spec fn tick_done<M>(a: World, b: World, r: Seq<Job<M>>, max: nat) -> bool {
    &&& pick_state(a, b, r)
    &&& list(b, JobStatus::Running).len() <= max_len(list(a, JobStatus::Running).len(), max)
    &&& tried(a, b, r, max)
    &&& b.tasks == a.tasks + job_ids(r)
}
}
// ---- executing a job
verus! {
use m_executable::Executable;
/// job j ends up in status st: stored with a timestamp taken meanwhile, listed, announced
pub open spec fn settled<M>(a: World, b: World, j: Job<M>, st: JobStatus) -> bool {
    let id = j.context.job_id@;
    &&& list(b, st).contains(id)
    &&& b.n(id).last() == (Note::Status { ty: tid::<M>(), st })
    &&& exists|m: int| a.clock.len() <= m < b.clock.len() && b.st(m_types::STORAGE_HASH@, id) == Some(ser(status_at(j, st, ms(#[trigger] b.clock[m]))))
}
pub open spec fn next_or_end<M>(a: World, b: World, j: Job<M>, failed: bool, t: int) -> bool {
    match next_type(j.context.job_type, t) {
        Some(nt) => settled(a, b, with_type(j, nt), JobStatus::Queued),
        None => settled(a, b, j, if failed { JobStatus::Failed } else { JobStatus::Finished }),
    }
}
/// no retry: a recurring job waits for its next slot, any other is done
pub open spec fn ended<M>(a: World, b: World, j: Job<M>, failed: bool) -> bool {
    exists|i: int| a.clock.len() <= i < b.clock.len() && next_or_end(a, b, j, failed, #[trigger] b.clock[i])
}
pub open spec fn executed<M: Executable>(a: World, b: World, j0: Job<M>) -> bool {
    let id = j0.context.job_id@;
    let k = a.n(id).len() as int;
    let s = b.n(id);
    let out = dec::<M::Output>(s[k + 3]->out1);
    let j1 = Job { context: JobContext { run_count: (j0.context.run_count + 1) as usize, ..j0.context }, data: dec::<M>(s[k + 3]->Post_d1) };
    let failed = vx_failed(j1.data, out);
    &&& s.len() >= k + 6
    &&& ran(a.n(id), s.take(k + 5), j0, j1, out)
    &&& j0.context.retry is None ==> s.len() == k + 6 && ended(a, b, j1, failed)
    &&& j0.context.retry is Some ==> {
        let n = s[k + 5];
        let rc1 = dec::<Retry>(n->rc1);
        let j2 = Job { context: JobContext { retry: Some(rc1), ..j1.context }, data: j1.data };
        &&& s.len() == k + 7
        &&& n is Retry && n->Retry_d == enc(j1.data) && n->rc0 == enc(j0.context.retry->0) && n->Retry_out == enc(out)
        &&& a.clock.len() <= n->c0 <= n->c1 <= b.clock.len()
        &&& retry_ok(j1.data, j0.context.retry->0, out, rc1, n->res, b.clock, n->c0 as int, n->c1 as int)
        &&& n->res is None ==> ended(a, b, j2, failed)
        // what becomes of the schedule of a recurring job that is retried is left open (see KNOWN_FINDINGS.txt)
        &&& n->res is Some ==> exists|t: JobType| (j0.context.job_type !is Cron ==> t == JobType::ScheduledAt(n->res->0)) && #[trigger] settled(a, b, with_type(j2, t), JobStatus::Queued)
    }
}
}
// ---- messages of a queue
verus! {
/// submission of job j under policy c
pub open spec fn submitted<M>(a: World, b: World, j: Job<M>, c: EnqueueConfig) -> bool {
    let e = stored::<M>(a, j.context.job_id@);
    if e is None {
        put_in(a, b, j, JobStatus::Queued)
    } else {
        let e = e->0;
        let take = c.override_data && e.context.job_status != JobStatus::Running;
        if c.re_run && is_done_status(e.context.job_status) {
            put_in(a, b, if take { j } else { e }, JobStatus::Queued)
        } else if take {
            data_set(a, b, Job { context: JobContext { job_status: e.context.job_status, ..j.context }, data: j.data })
        } else {
            nothing_changed(a, b)
        }
    }
}
pub open spec fn cancelled<M>(a: World, b: World, id: Str) -> bool {
    if status_is::<M>(a, id, JobStatus::Queued) { put_in(a, b, stored::<M>(a, id)->0, JobStatus::Canceled) } else { nothing_changed(a, b) }
}
pub open spec fn may_rerun<M>(a: World, id: Str) -> bool {
    stored::<M>(a, id) is Some && is_done_status(stored::<M>(a, id)->0.context.job_status)
}
pub open spec fn rerun<M>(a: World, b: World, id: Str) -> bool {
    if may_rerun::<M>(a, id) { put_in(a, b, stored::<M>(a, id)->0, JobStatus::Queued) } else { nothing_changed(a, b) }
}
}
