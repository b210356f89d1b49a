// Lemmas about the lists of a queue (all proved).
verus! {
pub broadcast proof fn lemma_without_contains(s: Seq<Str>, id: Str, x: Str)
    ensures #[trigger] without(s, id).contains(x) <==> (s.contains(x) && x != id),
    decreases s.len(),
{
    reveal(Seq::filter);
    if s.len() > 0 {
        let d = s.drop_last();
        let l = s.last();
        lemma_without_contains(d, id, x);
        lemma_push_contains(d, l, x);
        lemma_push_contains(without(d, id), l, x);
        assert(s =~= d.push(l));
    }
}
pub proof fn lemma_push_contains(d: Seq<Str>, l: Str, x: Str)
    ensures d.push(l).contains(x) <==> (x == l || d.contains(x)),
{
    let s = d.push(l);
    if d.contains(x) { let i = d.index_of(x); assert(s[i] == x); }
    if x == l { assert(s[d.len() as int] == l); }
    if s.contains(x) && x != l { let i = s.index_of(x); assert(d[i] == x); }
}
pub proof fn lemma_without_absent(s: Seq<Str>, id: Str)
    requires !s.contains(id),
    ensures without(s, id) == s,
    decreases s.len(),
{
    reveal(Seq::filter);
    if s.len() > 0 {
        assert(s.last() != id) by { assert(s.contains(s[s.len() - 1])); }
        assert(!s.drop_last().contains(id)) by {
            if s.drop_last().contains(id) {
                let i = choose|i: int| 0 <= i < s.drop_last().len() && s.drop_last()[i] == id;
                assert(s[i] == id);
            }
        }
        lemma_without_absent(s.drop_last(), id);
        assert(s.drop_last().push(s.last()) =~= s);
    } else {
        assert(without(s, id) =~= s);
    }
}
pub broadcast proof fn lemma_qn_inj(name: Str, s: JobStatus, t: JobStatus)
    ensures #![trigger qn(name, s), qn(name, t)] qn(name, s) == qn(name, t) ==> s == t,
{
    if qn(name, s) == qn(name, t) {
        let p = name + ":queue:"@;
        assert(p + s.dbg() + Seq::<char>::empty() =~= p + s.dbg());
        assert(p + t.dbg() + Seq::<char>::empty() =~= p + t.dbg());
        lemma_cat_cancel(p, s.dbg(), t.dbg(), Seq::<char>::empty());
        m_job_context::vx_jobstatus_debug_injective(s, t);
    }
}
proof fn lemma_no_colon(s: JobStatus, i: int)
    requires 0 <= i < s.dbg().len(),
    ensures s.dbg()[i] != ':',
{
    reveal_strlit("Queued"); reveal_strlit("Running"); reveal_strlit("Finished"); reveal_strlit("Failed"); reveal_strlit("Canceled");
}
/// lists of differently named queues never coincide
pub proof fn lemma_qn_disjoint(a: Str, b: Str, s: JobStatus, t: JobStatus)
    requires qn(a, s) == qn(b, t),
    ensures a == b && s == t,
{
    reveal_strlit(":queue:");
    let x = qn(a, s);
    let y = qn(b, t);
    let m = ":queue:"@;
    assert(x.len() == a.len() + 7 + s.dbg().len());
    assert(y.len() == b.len() + 7 + t.dbg().len());
    if s.dbg().len() > t.dbg().len() {
        let p = y.len() - t.dbg().len() - 1;
        assert(y[p] == m[6]);
        assert(x[p] == s.dbg()[p - a.len() - 7]);
        lemma_no_colon(s, p - a.len() - 7);
    } else if t.dbg().len() > s.dbg().len() {
        let p = x.len() - s.dbg().len() - 1;
        assert(x[p] == m[6]);
        assert(y[p] == t.dbg()[p - b.len() - 7]);
        lemma_no_colon(t, p - b.len() - 7);
    }
    assert(a.len() == b.len());
    assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by { assert(x[i] == a[i]); assert(y[i] == b[i]); }
    assert(a =~= b);
    lemma_qn_inj(a, s, t);
}
/// so nothing done to the lists of one queue touches the lists of another
pub proof fn lemma_queues_apart(a: Str, b: Str, t: JobStatus)
    requires a != b,
    ensures other_name(a, qn(b, t)),
{
    assert forall|s: JobStatus| qn(b, t) != #[trigger] qn(a, s) by {
        if qn(b, t) == qn(a, s) { lemma_qn_disjoint(a, b, s, t); }
    }
}
/// where the invariant says a job is
pub proof fn lemma_where<M>(w: World, id: Str)
    requires inv::<M>(w),
    ensures
        stored::<M>(w, id) is Some ==> stored::<M>(w, id)->0.context.job_id@ == id,
        forall|s: JobStatus| !status_is::<M>(w, id, s) ==> !(#[trigger] list(w, s)).contains(id) && without(list(w, s), id) == list(w, s),
        forall|s: JobStatus| status_is::<M>(w, id, s) && s != JobStatus::Canceled ==> (#[trigger] list(w, s)).contains(id),
{
    reveal(inv);
    assert forall|s: JobStatus| !status_is::<M>(w, id, s) implies !(#[trigger] list(w, s)).contains(id) && without(list(w, s), id) == list(w, s) by {
        if !list(w, s).contains(id) { lemma_without_absent(list(w, s), id); }
    }
}
/// moving one job to the list of its new status keeps the invariant
pub proof fn lemma_inv_moved<M>(a: World, b: World, id: Str, to: Option<JobStatus>)
    requires
        inv::<M>(a),
        a.qname == b.qname,
        relisted(a, b, id, to),
        forall|k: Str| k != id ==> #[trigger] b.st(m_types::STORAGE_HASH@, k) == a.st(m_types::STORAGE_HASH@, k),
        stored::<M>(b, id) is Some,
        stored::<M>(b, id)->0.context.job_id@ == id,
        to == list_of(stored::<M>(b, id)->0.context.job_status),
    ensures inv::<M>(b),
{
    reveal(inv);
    broadcast use lemma_without_contains;
    assert forall|s: JobStatus, x: Str| #[trigger] list(b, s).contains(x) <==> (if x == id { to == Some(s) } else { list(a, s).contains(x) }) by {
        let l = without(list(a, s), id);
        if to == Some(s) {
            assert(list(b, s) == seq![id] + l);
            lemma_cons_contains(l, id, x);
        }
    }
    assert forall|s: JobStatus| (#[trigger] list(b, s)).no_duplicates() by {
        assert(list(a, s).no_duplicates());
        lemma_without_nodup(list(a, s), id);
        let l = without(list(a, s), id);
        if to == Some(s) { assert(list(b, s) == seq![id] + l); assert(!l.contains(id)); lemma_cons_nodup(l, id); }
    }
    assert forall|k: Str| k != id implies #[trigger] stored::<M>(b, k) == stored::<M>(a, k) by {}
    assert(inv_listed::<M>(b)) by {
        assert forall|s: JobStatus, x: Str| #[trigger] list(b, s).contains(x) implies
            stored::<M>(b, x) is Some && stored::<M>(b, x)->0.context.job_status == s by {
            if x != id { assert(list(a, s).contains(x)); }
        }
    }
    assert(inv_stored::<M>(b)) by {
        assert forall|x: Str| (#[trigger] stored::<M>(b, x)) is Some implies {
            let j = stored::<M>(b, x)->0;
            &&& j.context.job_id@ == x
            &&& j.context.job_status != JobStatus::Canceled ==> list(b, j.context.job_status).contains(x)
        } by {
            if x != id { assert(stored::<M>(a, x) is Some); }
        }
    }
}
/// replacing the data of a job without changing its id or status keeps the invariant
pub broadcast proof fn lemma_inv_data<M>(a: World, b: World)
    requires
        a.qname == b.qname,
        forall|n: Str| #[trigger] b.q(n) == a.q(n),
        forall|k: Str| (#[trigger] stored::<M>(b, k)) is Some <==> stored::<M>(a, k) is Some,
        forall|k: Str| (#[trigger] stored::<M>(b, k)) is Some ==> (stored::<M>(b, k)->0.context.job_id@ == k || stored::<M>(b, k) == stored::<M>(a, k))
            && stored::<M>(b, k)->0.context.job_status == stored::<M>(a, k)->0.context.job_status,
    ensures #![trigger inv::<M>(a), inv::<M>(b)] inv::<M>(a) ==> inv::<M>(b),
{
    reveal(inv);
    if inv::<M>(a) {
        assert forall|s: JobStatus| #[trigger] list(b, s) == list(a, s) by { assert(b.q(qn(b.qname, s)) == a.q(qn(b.qname, s))); }
        assert(inv_nodup(b)) by {
            assert forall|s: JobStatus| (#[trigger] list(b, s)).no_duplicates() by { assert(list(a, s).no_duplicates()); }
        }
        assert(inv_listed::<M>(b)) by {
            assert forall|s: JobStatus, id: Str| #[trigger] list(b, s).contains(id) implies
                stored::<M>(b, id) is Some && stored::<M>(b, id)->0.context.job_status == s by { assert(list(a, s).contains(id)); }
        }
        assert(inv_stored::<M>(b)) by {
            assert forall|id: Str| (#[trigger] stored::<M>(b, id)) is Some implies {
                let j = stored::<M>(b, id)->0;
                &&& j.context.job_id@ == id
                &&& j.context.job_status != JobStatus::Canceled ==> list(b, j.context.job_status).contains(id)
            } by { assert(stored::<M>(a, id) is Some); }
        }
    }
}
pub proof fn lemma_cons_contains(l: Seq<Str>, id: Str, x: Str)
    ensures (seq![id] + l).contains(x) <==> (x == id || l.contains(x)),
{
    let c = seq![id] + l;
    if l.contains(x) { let i = l.index_of(x); assert(c[i + 1] == x); }
    if x == id { assert(c[0] == id); }
    if c.contains(x) && x != id { let i = c.index_of(x); assert(l[i - 1] == x); }
}
pub proof fn lemma_cons_nodup(l: Seq<Str>, id: Str)
    requires l.no_duplicates(), !l.contains(id),
    ensures (seq![id] + l).no_duplicates(),
{
    let c = seq![id] + l;
    assert forall|i: int, j: int| 0 <= i < c.len() && 0 <= j < c.len() && i != j implies c[i] != c[j] by {
        if i == 0 { assert(l.contains(l[j - 1])); } else if j == 0 { assert(l.contains(l[i - 1])); } else { assert(l[i - 1] != l[j - 1]); }
    }
}
pub proof fn lemma_without_nodup(s: Seq<Str>, id: Str)
    requires s.no_duplicates(),
    ensures without(s, id).no_duplicates(),
    decreases s.len(),
{
    reveal(Seq::filter);
    if s.len() > 0 {
        let d = s.drop_last();
        assert(d.no_duplicates());
        lemma_without_nodup(d, id);
        if s.last() != id {
            let f = without(d, id);
            assert(!f.contains(s.last())) by {
                lemma_without_contains(d, id, s.last());
                if d.contains(s.last()) { let i = d.index_of(s.last()); assert(s[i] == s[s.len() - 1]); }
            }
            assert(without(s, id) == f.push(s.last()));
            assert forall|i: int, j: int| 0 <= i < f.push(s.last()).len() && 0 <= j < f.push(s.last()).len() && i != j implies f.push(s.last())[i] != f.push(s.last())[j] by {
                if i == f.len() { assert(f.contains(f[j])); } else if j == f.len() { assert(f.contains(f[i])); }
            }
        }
    }
}
/// a step that moves a job which is not running is not noticed by the executions under way
pub proof fn lemma_keeps<M>(a: World, b: World, id: Str, to: Option<JobStatus>)
    requires
        relisted(a, b, id, to),
        forall|k: Str| k != id ==> #[trigger] b.st(m_types::STORAGE_HASH@, k) == a.st(m_types::STORAGE_HASH@, k),
        forall|k: Str| k != id ==> #[trigger] (b.notes)(k) == (a.notes)(k),
        b.qname == a.qname,
    ensures
        keeps_running(a, b, Some(id)),
        inv::<M>(a) && !status_is::<M>(a, id, JobStatus::Running) ==> keeps_running(a, b, None),
{
    reveal(inv);
    broadcast use lemma_without_contains;
    let r = JobStatus::Running;
    assert forall|x: Str| running(a, x) && x != id implies
        running(b, x) && b.st(m_types::STORAGE_HASH@, x) == a.st(m_types::STORAGE_HASH@, x) && (b.notes)(x) == (a.notes)(x) by {
        let l = without(list(a, r), id);
        assert(l.contains(x));
        if to == Some(r) { assert(list(b, r) == seq![id] + l); lemma_cons_contains(l, id, x); } else { assert(list(b, r) == l); }
    }
}
/// The interference that executions are proved against covers every such step.
pub proof fn lemma_rely<M>(a: World, b: World, x: Str)
    requires
        env_q(a, b) || (clock_ext(a, b) && b.qname == a.qname && (a.faulted ==> b.faulted)),
        keeps_running(a, b, None),
        inv::<M>(a) && !b.faulted ==> inv::<M>(b),
    ensures rely::<M>(World { me: x, ..a }, World { me: x, ..b }),
{
    let a1 = World { me: x, ..a };
    let b1 = World { me: x, ..b };
    assert forall|s: JobStatus| #[trigger] list(a1, s) == list(a, s) by {}
    assert forall|s: JobStatus| #[trigger] list(b1, s) == list(b, s) by {}
    assert(running(a1, x) == running(a, x));
    assert(running(b1, x) == running(b, x));
    lemma_inv_frame::<M>(a1, a);
    lemma_inv_frame::<M>(b, b1);
}
}

verus! {
/// after a completed move
pub proof fn lemma_q_moved<M>(a: World, b: World, id: Str, s: JobStatus)
    requires
        inv::<M>(a),
        env_q(a, b),
        relisted(a, b, id, list_of(s)),
        status_is::<M>(b, id, s),
        stored::<M>(b, id)->0.context.job_id@ == id,
        forall|k: Str| k != id ==> #[trigger] b.st(m_types::STORAGE_HASH@, k) == a.st(m_types::STORAGE_HASH@, k),
        forall|k: Str| k != id ==> #[trigger] (b.notes)(k) == (a.notes)(k),
    ensures
        inv::<M>(b),
        keeps_running(a, b, Some(id)),
        !status_is::<M>(a, id, JobStatus::Running) ==> keeps_running(a, b, None),
{
    lemma_inv_moved::<M>(a, b, id, list_of(s));
    lemma_keeps::<M>(a, b, id, list_of(s));
}
}

// ---- picking
verus! {
pub broadcast group lemma_one { lemma_seen_one, lemma_left_one, lemma_put_one }
pub broadcast proof fn lemma_seen_one(s: Seq<Str>, d: m_types::QueueDirection)
    requires s.len() > 0,
    ensures #[trigger] seen_from(s, 1, d) == seq![end_item(s, d)],
{ reveal(seen_from); assert(seen_from(s, 1, d) =~= seq![end_item(s, d)]); }
pub broadcast proof fn lemma_left_one(s: Seq<Str>, d: m_types::QueueDirection)
    requires s.len() > 0,
    ensures #[trigger] left_after(s, 1, d) == drop_end(s, d),
{ reveal(left_after); assert(left_after(s, 1, d) =~= drop_end(s, d)); }
pub broadcast proof fn lemma_put_one(s: Seq<Str>, x: Str)
    ensures #[trigger] put_at(s, seq![x], m_types::QueueDirection::Front) == seq![x] + s,
{ reveal(put_at); assert(seq![x].reverse() =~= seq![x]); }

pub proof fn lemma_pick_start<M>(a: World, w: World, total: int)
    requires inv::<M>(a), clock_ext(a, w), w.qname == a.qname, w.queues == a.queues, w.store == a.store, w.notes == a.notes,
    ensures
        pick_state::<M>(a, w, Seq::empty()),
        examined::<M>(a, w, Seq::empty(), total, unseen(list(w, JobStatus::Queued), list(w, JobStatus::Queued).len() as int, 0)),
        list(w, JobStatus::Queued) == list(a, JobStatus::Queued),
{
    reveal(pick_state); reveal(examined);
    lemma_inv_frame::<M>(a, w);
    let q = list(w, JobStatus::Queued);
    assert(job_ids(Seq::<Job<M>>::empty()) =~= Seq::empty());
    assert(list(w, JobStatus::Running) =~= job_ids(Seq::<Job<M>>::empty()).reverse() + list(a, JobStatus::Running));
    if q.len() > 0 { assert(unseen(q, q.len() as int, 0) =~= q); }
}
pub proof fn lemma_seen_at(e: Seq<String>, qs: Seq<Str>, k: int, i: int)
    requires ids(e) == seen_from(qs, k, m_types::QueueDirection::Back), 0 <= i < e.len(), 0 <= k,
    ensures i < qs.len(), e[i]@ == qs[qs.len() - 1 - i], e.len() <= qs.len(), e.len() <= k,
{
    broadcast use lemma_ids;
    assert(ids(e).len() == e.len());
    assert(ids(e)[i] == e[i]@);
    lemma_seen_len(qs, k, m_types::QueueDirection::Back);
    lemma_seen_index(qs, k, m_types::QueueDirection::Back, i);
}
/// the item met at position i is the one at the back of the waiting list
pub proof fn lemma_pick_at<M>(a: World, w: World, r: Seq<Job<M>>, qs: Seq<Str>, i1: int)
    requires
        pick_state(a, w, r),
        inv::<M>(a),
        1 <= i1 <= qs.len(),
        tail(list(w, JobStatus::Queued), qs.len() - (i1 - 1)) =~= qs.take(qs.len() - (i1 - 1)),
        list(w, JobStatus::Queued).len() >= qs.len() - (i1 - 1),
    ensures
        list(w, JobStatus::Queued).len() > 0,
        list(w, JobStatus::Queued).last() == qs[qs.len() - i1],
        status_is::<M>(w, qs[qs.len() - i1], JobStatus::Queued),
        stored::<M>(w, qs[qs.len() - i1])->0.context.job_id@ == qs[qs.len() - i1],
        stored::<M>(w, qs[qs.len() - i1]) == stored::<M>(a, qs[qs.len() - i1]),
        !job_ids(r).contains(qs[qs.len() - i1]),
{
    reveal(pick_state);
    let q = list(w, JobStatus::Queued);
    let n = qs.len() - (i1 - 1);
    assert(tail(q, n)[n - 1] == q.last());
    assert(qs.take(n)[n - 1] == qs[qs.len() - i1]);
    let x = q.last();
    assert(q.contains(x));
    reveal(inv);
    if job_ids(r).contains(x) {
        let l = list(w, JobStatus::Running);
        let k = job_ids(r).index_of(x);
        assert(l[r.len() - 1 - k] == x);
        assert(l.contains(x));
    }
}
pub proof fn lemma_examined_mono<M>(a: World, w: World, w2: World, r: Seq<Job<M>>, r2: Seq<Job<M>>, total: int, rest: Seq<Str>, rest2: Seq<Str>)
    requires
        examined(a, w, r, total, rest),
        clock_ext(a, w), clock_ext(w, w2),
        r2.len() >= r.len(),
        forall|x: Str| job_ids(r).contains(x) ==> #[trigger] job_ids(r2).contains(x),
        forall|x: Str| #[trigger] rest.contains(x) ==> rest2.contains(x) || seen_ok(a, w2, r2, total, x),
    ensures examined(a, w2, r2, total, rest2),
{
    reveal(examined);
    assert forall|x: Str| #[trigger] list(a, JobStatus::Queued).contains(x) implies seen_ok(a, w2, r2, total, x) || rest2.contains(x) by {
        if seen_ok(a, w, r, total, x) {
            if job_ids(r).contains(x) { assert(job_ids(r2).contains(x)); }
            else if r.len() >= total {}
            else {
                let jt = stored::<M>(a, x)->0.context.job_type;
                let k = choose|k: int| a.clock.len() <= k < w.clock.len() && !must_run(jt, #[trigger] w.clock[k]);
                assert(!must_run(jt, w2.clock[k]));
                assert(notdue_since(jt, w2.clock, a.clock.len() as int));
            }
        } else { assert(rest.contains(x)); }
    }
}
pub proof fn lemma_unseen_step(qs: Seq<Str>, c: int, i1: int)
    requires 1 <= i1 <= qs.len(),
    ensures forall|x: Str| #[trigger] unseen(qs, c, i1 - 1).contains(x) ==> unseen(qs, c, i1).contains(x) || x == qs[qs.len() - i1],
{
    let s = unseen(qs, c, i1 - 1);
    let t = unseen(qs, c, i1);
    assert forall|x: Str| #[trigger] s.contains(x) implies t.contains(x) || x == qs[qs.len() - i1] by {
        let k = s.index_of(x);
        if k == s.len() - 1 { assert(s[k] == qs[qs.len() - i1]); } else { assert(t[k] == x); }
    }
}
/// raw effect of starting the job at the back of the waiting list
pub open spec fn took<M>(w: World, w2: World, j: Job<M>) -> bool {
    let id = j.context.job_id@;
    let q = list(w, JobStatus::Queued);
    &&& clock_ext(w, w2) && w2.qname == w.qname
    &&& list(w2, JobStatus::Queued) == q.drop_last()
    &&& list(w2, JobStatus::Running) == seq![id] + list(w, JobStatus::Running)
    &&& forall|n: Str| n != qn(w.qname, JobStatus::Queued) && n != qn(w.qname, JobStatus::Running) ==> #[trigger] w2.q(n) == w.q(n)
    &&& w2.st(m_types::STORAGE_HASH@, id) == Some(ser(j))
    &&& forall|k: Str| k != id ==> #[trigger] w2.st(m_types::STORAGE_HASH@, k) == w.st(m_types::STORAGE_HASH@, k)
    &&& w2.n(id) == w.n(id).push(Note::Status { ty: tid::<M>(), st: JobStatus::Running })
    &&& forall|k: Str| k != id ==> #[trigger] (w2.notes)(k) == (w.notes)(k)
}
/// the same state apart from lock bookkeeping
pub proof fn lemma_pick_same<M>(a: World, w: World, w2: World, r: Seq<Job<M>>, total: int, rest: Seq<Str>)
    requires w2.queues == w.queues, w2.store == w.store, w2.notes == w.notes, w2.clock == w.clock, w2.qname == w.qname,
        pick_state(a, w, r),
    ensures pick_state(a, w2, r), examined(a, w, r, total, rest) ==> examined(a, w2, r, total, rest),
{
    reveal(pick_state); reveal(examined);
    lemma_inv_frame::<M>(w, w2);
    assert forall|s: JobStatus| #[trigger] list(w2, s) == list(w, s) by {}
    assert forall|i: int| 0 <= i < r.len() implies started(a, w2, #[trigger] r[i]) by {
        assert(started(a, w, r[i]));
        lemma_started_mono::<M>(a, w, w2, r[i]);
    }
}
pub proof fn lemma_took_inv<M>(w: World, w2: World, j: Job<M>)
    requires
        inv::<M>(w), took(w, w2, j),
        list(w, JobStatus::Queued).len() > 0,
        list(w, JobStatus::Queued).last() == j.context.job_id@,
        status_is::<M>(w, j.context.job_id@, JobStatus::Queued),
        j.context.job_status == JobStatus::Running,
    ensures inv::<M>(w2),
{
    broadcast use lemma_qn_inj, ax_job_roundtrip;
    let q = list(w, JobStatus::Queued);
    let q2 = list(w2, JobStatus::Queued);
    let id = j.context.job_id@;
    assert(q.no_duplicates()) by { reveal(inv); }
    assert(!q2.contains(id)) by {
        if q2.contains(id) { let k = q2.index_of(id); assert(q[k] == q[q.len() - 1]); }
    }
    assert(q =~= q2.push(id));
    assert(q.contains(id)) by { assert(q[q.len() - 1] == id); }
    lemma_where::<M>(w, id);
    assert(without(q, id) == q2) by {
        reveal(Seq::filter);
        lemma_without_absent(q2, id);
        assert(q.drop_last() =~= q2);
    }
    assert forall|s: JobStatus| list(w2, s) =~= placed(list(w, s), id, Some(JobStatus::Running) == Some(s)) by {
        if s != JobStatus::Queued && s != JobStatus::Running { assert(w2.q(qn(w.qname, s)) == w.q(qn(w.qname, s))); }
    }
    assert(relisted(w, w2, id, Some(JobStatus::Running)));
    assert(stored::<M>(w2, id) == Some(norm(j)));
    lemma_inv_moved::<M>(w, w2, id, Some(JobStatus::Running));
}
pub proof fn lemma_all_due<M>(a: World, w: World, w2: World, r: Seq<Job<M>>, r2: Seq<Job<M>>)
    requires
        all_due(a, w, r), clock_ext(a, w), clock_ext(w, w2),
        r2 == r || (r2.len() == r.len() + 1 && r2 =~= r.push(r2.last()) && due_since(r2.last().context.job_type, w2.clock, w.clock.len() as int)),
    ensures all_due(a, w2, r2)
{
    assert forall|i: int| 0 <= i < r2.len() implies due_since((#[trigger] r2[i]).context.job_type, w2.clock, a.clock.len() as int) by {
        let jt = r2[i].context.job_type;
        if i < r.len() {
            assert(due_since(r[i].context.job_type, w.clock, a.clock.len() as int));
            let k = choose|k: int| a.clock.len() <= k < w.clock.len() && may_run(jt, #[trigger] w.clock[k]);
            assert(may_run(jt, w2.clock[k]));
        } else {
            let k = choose|k: int| w.clock.len() <= k < w2.clock.len() && may_run(jt, #[trigger] w2.clock[k]);
            assert(may_run(jt, w2.clock[k]));
        }
    }
}
pub proof fn lemma_tick_none<M>(a: World, b: World, max: nat)
    requires b.tasks == a.tasks
    ensures exists|r: Seq<Job<M>>| tick_safe(a, b, r, max)
{
    assert(a.tasks + job_ids(Seq::<Job<M>>::empty()) =~= a.tasks);
    assert(tick_safe(a, b, Seq::<Job<M>>::empty(), max));
}
pub proof fn lemma_push_no_dup(l: Seq<Str>, id: Str)
    requires l.no_duplicates(), !l.contains(id)
    ensures l.push(id).no_duplicates()
{
    assert forall|x: int, y: int| 0 <= x < l.push(id).len() && 0 <= y < l.push(id).len() && x != y implies l.push(id)[x] != l.push(id)[y] by {
        if x == l.len() { assert(l.contains(l[y])); } else if y == l.len() { assert(l.contains(l[x])); }
    }
}
/// the jobs started earlier in the pass, and the one just started
pub proof fn lemma_take_started<M>(a: World, w: World, w2: World, r: Seq<Job<M>>, j: Job<M>)
    requires
        inv::<M>(a),
        pick_state(a, w, r),
        list(w, JobStatus::Queued) =~= list(w2, JobStatus::Queued).push(j.context.job_id@),
        !list(w2, JobStatus::Queued).contains(j.context.job_id@),
        list(w, JobStatus::Queued).no_duplicates(),
        stored::<M>(w, j.context.job_id@) == stored::<M>(a, j.context.job_id@),
        status_is::<M>(w, j.context.job_id@, JobStatus::Queued),
        !job_ids(r).contains(j.context.job_id@),
        took(w, w2, j),
        due_since(stored::<M>(w, j.context.job_id@)->0.context.job_type, w2.clock, w.clock.len() as int),
        exists|k: int| w.clock.len() <= k < w2.clock.len() && j == status_at(stored::<M>(w, j.context.job_id@)->0, JobStatus::Running, ms(#[trigger] w2.clock[k])),
    ensures forall|i: int| 0 <= i < r.push(j).len() ==> started(a, w2, #[trigger] r.push(j)[i])
{
    let id = j.context.job_id@;
    let r2 = r.push(j);
    let q = list(w, JobStatus::Queued);
    assert(clock_ext(a, w)) by { reveal(pick_state); }
    assert(forall|i: int| 0 <= i < r.len() ==> started(a, w, #[trigger] r[i])) by { reveal(pick_state); }
    assert(q.contains(id)) by { assert(q[q.len() - 1] == id); }
    assert(list(a, JobStatus::Queued).contains(id)) by { reveal(pick_state); }
    assert((w.notes)(id) == (a.notes)(id)) by { reveal(pick_state); }
    assert(status_is::<M>(a, id, JobStatus::Queued));
    assert forall|i: int| 0 <= i < r2.len() implies started(a, w2, #[trigger] r2[i]) by {
        if i < r.len() {
            assert(started(a, w, r[i]));
            let x = r[i].context.job_id@;
            assert(job_ids(r)[i] == x);
            assert(job_ids(r).contains(x));
            assert(x != id);
            lemma_started_mono::<M>(a, w, w2, r[i]);
        } else {
            assert(r2[i] == j);
            let jt = stored::<M>(a, id)->0.context.job_type;
            let k = choose|k: int| w.clock.len() <= k < w2.clock.len() && may_run(jt, #[trigger] w2.clock[k]);
            assert(a.clock.len() <= k && may_run(jt, w2.clock[k]));
            let k2 = choose|k: int| w.clock.len() <= k < w2.clock.len() && j == status_at(stored::<M>(w, id)->0, JobStatus::Running, ms(#[trigger] w2.clock[k]));
            assert(a.clock.len() <= k2 && j == status_at(stored::<M>(a, id)->0, JobStatus::Running, ms(w2.clock[k2])));
        }
    }
}
pub proof fn lemma_take_state<M>(a: World, w: World, w2: World, r: Seq<Job<M>>, j: Job<M>)
    requires
        inv::<M>(a),
        pick_state(a, w, r),
        list(w, JobStatus::Queued) =~= list(w2, JobStatus::Queued).push(j.context.job_id@),
        !list(w2, JobStatus::Queued).contains(j.context.job_id@),
        list(w, JobStatus::Queued).no_duplicates(),
        stored::<M>(w, j.context.job_id@) == stored::<M>(a, j.context.job_id@),
        status_is::<M>(w, j.context.job_id@, JobStatus::Queued),
        !job_ids(r).contains(j.context.job_id@),
        took(w, w2, j),
        due_since(stored::<M>(w, j.context.job_id@)->0.context.job_type, w2.clock, w.clock.len() as int),
        exists|k: int| w.clock.len() <= k < w2.clock.len() && j == status_at(stored::<M>(w, j.context.job_id@)->0, JobStatus::Running, ms(#[trigger] w2.clock[k])),
    ensures pick_state(a, w2, r.push(j))
{
    broadcast use lemma_qn_inj;
    let q = list(w, JobStatus::Queued);
    let q2 = list(w2, JobStatus::Queued);
    let id = j.context.job_id@;
    let r2 = r.push(j);
    assert(job_ids(r2) =~= job_ids(r).push(id));
    assert forall|x: Str| #[trigger] job_ids(r2).contains(x) <==> (job_ids(r).contains(x) || x == id) by { lemma_push_contains(job_ids(r), id, x); }
    assert forall|x: Str| #[trigger] q.contains(x) <==> (q2.contains(x) || x == id) by { lemma_push_contains(q2, id, x); }
    assert(inv::<M>(w2)) by {
        assert(inv::<M>(w)) by { reveal(pick_state); }
        lemma_took_inv::<M>(w, w2, j);
    }
    lemma_take_started(a, w, w2, r, j);
    assert(job_ids(r).no_duplicates()) by { reveal(pick_state); }
    lemma_push_no_dup(job_ids(r), id);
    assert(pick_state(a, w2, r2)) by {
        reveal(pick_state);
        assert(clock_ext(a, w2));
        assert(job_ids(r2).reverse() =~= seq![id] + job_ids(r).reverse());
        assert(list(w2, JobStatus::Running) =~= job_ids(r2).reverse() + list(a, JobStatus::Running));
        assert forall|s: JobStatus| s != JobStatus::Queued && s != JobStatus::Running implies #[trigger] list(w2, s) == list(a, s) by {
            assert(list(w, s) == list(a, s));
            assert(w2.q(qn(w.qname, s)) == w.q(qn(w.qname, s)));
        }
        assert forall|m: Str| other_name(a.qname, m) implies #[trigger] w2.q(m) == a.q(m) by {
            assert(m != qn(a.qname, JobStatus::Queued)); assert(m != qn(a.qname, JobStatus::Running));
            assert(w.q(m) == a.q(m));
        }
        assert forall|x: Str| !job_ids(r2).contains(x) implies #[trigger] w2.st(m_types::STORAGE_HASH@, x) == a.st(m_types::STORAGE_HASH@, x) by {
            assert(w.st(m_types::STORAGE_HASH@, x) == a.st(m_types::STORAGE_HASH@, x));
        }
        assert forall|x: Str| !job_ids(r2).contains(x) implies #[trigger] (w2.notes)(x) == (a.notes)(x) by {
            assert((w.notes)(x) == (a.notes)(x));
        }
    }
}
pub proof fn lemma_pick_take<M>(a: World, w: World, w2: World, r: Seq<Job<M>>, j: Job<M>, total: int, qs: Seq<Str>, c: int, i1: int)
    requires
        inv::<M>(a),
        pick_state(a, w, r),
        1 <= i1 <= qs.len(),
        tail(list(w, JobStatus::Queued), qs.len() - (i1 - 1)) =~= qs.take(qs.len() - (i1 - 1)),
        list(w, JobStatus::Queued).len() >= qs.len() - (i1 - 1),
        examined(a, w, r, total, unseen(qs, c, i1 - 1)),
        j.context.job_id@ == qs[qs.len() - i1],
        took(w, w2, j),
        due_since(stored::<M>(w, j.context.job_id@)->0.context.job_type, w2.clock, w.clock.len() as int),
        exists|k: int| w.clock.len() <= k < w2.clock.len() && j == status_at(stored::<M>(w, j.context.job_id@)->0, JobStatus::Running, ms(#[trigger] w2.clock[k])),
    ensures
        pick_state(a, w2, r.push(j)),
        tail(list(w2, JobStatus::Queued), qs.len() - i1) =~= qs.take(qs.len() - i1),
        list(w2, JobStatus::Queued).len() >= qs.len() - i1,
        examined(a, w2, r.push(j), total, unseen(qs, c, i1)),
{
    broadcast use lemma_qn_inj;
    lemma_pick_at::<M>(a, w, r, qs, i1);
    let q = list(w, JobStatus::Queued);
    let q2 = list(w2, JobStatus::Queued);
    let id = j.context.job_id@;
    let r2 = r.push(j);
    let n = qs.len() - (i1 - 1);
    assert(id == q.last());
    assert(q.no_duplicates()) by { reveal(pick_state); reveal(inv); }
    assert(!q2.contains(id)) by {
        if q2.contains(id) { let k = q2.index_of(id); assert(q[k] == q[q.len() - 1]); }
    }
    assert(q =~= q2.push(id));
    lemma_take_state(a, w, w2, r, j);
    assert(job_ids(r2) =~= job_ids(r).push(id));
    assert forall|x: Str| #[trigger] job_ids(r2).contains(x) <==> (job_ids(r).contains(x) || x == id) by { lemma_push_contains(job_ids(r), id, x); }
    assert(tail(q2, n - 1) =~= qs.take(n - 1)) by {
        assert forall|k: int| 0 <= k < n - 1 implies #[trigger] tail(q2, n - 1)[k] == qs.take(n - 1)[k] by {
            assert(tail(q, n)[k] == qs.take(n)[k]);
        }
    }
    lemma_unseen_step(qs, c, i1);
    assert(clock_ext(a, w)) by { reveal(pick_state); }
    lemma_examined_mono(a, w, w2, r, r2, total, unseen(qs, c, i1 - 1), unseen(qs, c, i1));
}
pub proof fn lemma_started_mono<M>(a: World, w: World, w2: World, j: Job<M>)
    requires
        started(a, w, j),
        clock_ext(w, w2),
        w2.st(m_types::STORAGE_HASH@, j.context.job_id@) == w.st(m_types::STORAGE_HASH@, j.context.job_id@),
        w2.n(j.context.job_id@) == w.n(j.context.job_id@),
    ensures started(a, w2, j),
{
    let id = j.context.job_id@;
    let jt = stored::<M>(a, id)->0.context.job_type;
    let k = choose|k: int| a.clock.len() <= k < w.clock.len() && may_run(jt, #[trigger] w.clock[k]);
    assert(may_run(jt, w2.clock[k]));
    let k2 = choose|k: int| a.clock.len() <= k < w.clock.len() && j == status_at(stored::<M>(a, id)->0, JobStatus::Running, ms(#[trigger] w.clock[k]));
    assert(j == status_at(stored::<M>(a, id)->0, JobStatus::Running, ms(w2.clock[k2])));
}
pub proof fn lemma_pick_rotate<M>(a: World, w: World, w2: World, r: Seq<Job<M>>, total: int, qs: Seq<Str>, c: int, i1: int)
    requires
        inv::<M>(a),
        pick_state(a, w, r),
        1 <= i1 <= qs.len(),
        tail(list(w, JobStatus::Queued), qs.len() - (i1 - 1)) =~= qs.take(qs.len() - (i1 - 1)),
        list(w, JobStatus::Queued).len() >= qs.len() - (i1 - 1),
        examined(a, w, r, total, unseen(qs, c, i1 - 1)),
        clock_ext(w, w2), w2.qname == w.qname,
        w2.store == w.store, w2.notes == w.notes,
        list(w2, JobStatus::Queued) == seq![list(w, JobStatus::Queued).last()] + list(w, JobStatus::Queued).drop_last(),
        forall|n: Str| n != qn(w.qname, JobStatus::Queued) ==> #[trigger] w2.q(n) == w.q(n),
        r.len() >= total || job_ids(r).contains(qs[qs.len() - i1])
            || notdue_since(stored::<M>(w, qs[qs.len() - i1])->0.context.job_type, w2.clock, w.clock.len() as int),
    ensures
        pick_state(a, w2, r),
        tail(list(w2, JobStatus::Queued), qs.len() - i1) =~= qs.take(qs.len() - i1),
        list(w2, JobStatus::Queued).len() >= qs.len() - i1,
        examined(a, w2, r, total, unseen(qs, c, i1)),
{
    broadcast use lemma_qn_inj;
    lemma_pick_at::<M>(a, w, r, qs, i1);
    let q = list(w, JobStatus::Queued);
    let d = q.drop_last();
    let q2 = list(w2, JobStatus::Queued);
    let id = q.last();
    let n = qs.len() - (i1 - 1);
    assert(q =~= d.push(id));
    assert forall|x: Str| #[trigger] q2.contains(x) <==> q.contains(x) by { lemma_push_contains(d, id, x); lemma_cons_contains(d, id, x); }
    assert(pick_state(a, w2, r)) by {
        reveal(pick_state);
        assert(clock_ext(a, w2));
        assert(inv::<M>(w2)) by {
            reveal(inv);
            assert(q.no_duplicates());
            assert(d.no_duplicates());
            assert(!d.contains(id)) by { if d.contains(id) { let k = d.index_of(id); assert(q[k] == q[q.len() - 1]); } }
            lemma_cons_nodup(d, id);
            assert forall|s: JobStatus| s != JobStatus::Queued implies #[trigger] list(w2, s) == list(w, s) by { assert(w2.q(qn(w.qname, s)) == w.q(qn(w.qname, s))); }
            assert forall|x: Str| #[trigger] stored::<M>(w2, x) == stored::<M>(w, x) by {}
            assert(inv_nodup(w2)) by {
                assert forall|s: JobStatus| (#[trigger] list(w2, s)).no_duplicates() by { assert(list(w, s).no_duplicates()); }
            }
            assert(inv_listed::<M>(w2)) by {
                assert forall|s: JobStatus, x: Str| #[trigger] list(w2, s).contains(x) implies
                    stored::<M>(w2, x) is Some && stored::<M>(w2, x)->0.context.job_status == s by { assert(list(w, s).contains(x)); }
            }
            assert(inv_stored::<M>(w2)) by {
                assert forall|x: Str| (#[trigger] stored::<M>(w2, x)) is Some implies {
                    let j = stored::<M>(w2, x)->0;
                    &&& j.context.job_id@ == x
                    &&& j.context.job_status != JobStatus::Canceled ==> list(w2, j.context.job_status).contains(x)
                } by { assert(stored::<M>(w, x) is Some); }
            }
        }
        assert forall|s: JobStatus| s != JobStatus::Queued && s != JobStatus::Running implies #[trigger] list(w2, s) == list(a, s) by {
            assert(list(w, s) == list(a, s));
            assert(w2.q(qn(w.qname, s)) == w.q(qn(w.qname, s)));
        }
        assert(list(w2, JobStatus::Running) == list(w, JobStatus::Running)) by { assert(w2.q(qn(w.qname, JobStatus::Running)) == w.q(qn(w.qname, JobStatus::Running))); }
        assert forall|m: Str| other_name(a.qname, m) implies #[trigger] w2.q(m) == a.q(m) by {
            assert(m != qn(a.qname, JobStatus::Queued));
            assert(w.q(m) == a.q(m));
        }
        assert forall|i: int| 0 <= i < r.len() implies started(a, w2, #[trigger] r[i]) by {
            assert(started(a, w, r[i]));
            lemma_started_mono::<M>(a, w, w2, r[i]);
        }
    }
    assert(tail(q2, n - 1) =~= qs.take(n - 1)) by {
        assert forall|k: int| 0 <= k < n - 1 implies #[trigger] tail(q2, n - 1)[k] == qs.take(n - 1)[k] by {
            assert(tail(q, n)[k] == qs.take(n)[k]);
        }
    }
    lemma_unseen_step(qs, c, i1);
    assert(clock_ext(a, w)) by { reveal(pick_state); }
    assert(seen_ok(a, w2, r, total, id)) by {
        let jt = stored::<M>(a, id)->0.context.job_type;
        if !(r.len() >= total) {
            let k = choose|k: int| w.clock.len() <= k < w2.clock.len() && !must_run(jt, #[trigger] w2.clock[k]);
            assert(a.clock.len() <= k && !must_run(jt, w2.clock[k]));
        }
    }
    lemma_examined_mono(a, w, w2, r, r, total, unseen(qs, c, i1 - 1), unseen(qs, c, i1));
}
/// after a batch of i items
pub proof fn lemma_pick_batch<M>(a: World, w: World, r: Seq<Job<M>>, total: int, qs: Seq<Str>, c: int, i: int)
    requires
        0 <= i <= qs.len(), c <= qs.len(),
        tail(list(w, JobStatus::Queued), qs.len() - i) =~= qs.take(qs.len() - i),
        list(w, JobStatus::Queued).len() >= qs.len() - i,
        examined(a, w, r, total, unseen(qs, c, i)),
    ensures
        c - i <= list(w, JobStatus::Queued).len(),
        examined(a, w, r, total, unseen(list(w, JobStatus::Queued), c - i, 0)),
        c - i <= 0 || r.len() >= total ==> examined(a, w, r, total, Seq::empty()),
{
    if r.len() >= total { reveal(examined); }
    let q = list(w, JobStatus::Queued);
    if c - i > 0 {
        let u = unseen(qs, c, i);
        let v = unseen(q, c - i, 0);
        assert(u =~= v) by {
            assert(u.len() == v.len());
            assert forall|k: int| 0 <= k < u.len() implies u[k] == v[k] by {
                let p = qs.len() - c + k;
                assert(qs.take(qs.len() - i)[p] == qs[p]);
                assert(tail(q, qs.len() - i)[p] == q[q.len() - (qs.len() - i) + p]);
            }
        }
    } else {
        assert(unseen(qs, c, i) =~= Seq::empty());
        assert(unseen(q, c - i, 0) =~= Seq::empty());
    }
}
}

verus! {
/// reading the backend first makes no difference
pub broadcast proof fn lemma_pick_after<M>(a: World, a2: World, ok: bool, w: World, r: Seq<Job<M>>, total: int)
    requires a2.queues == a.queues, a2.store == a.store,
    ensures
        #![trigger env_step(a, a2, ok), pick_state(a2, w, r), examined(a2, w, r, total, Seq::empty())]
        env_step(a, a2, ok) && pick_state(a2, w, r) ==> pick_state(a, w, r),
        env_step(a, a2, ok) && examined(a2, w, r, total, Seq::empty()) ==> examined(a, w, r, total, Seq::empty()),
{
    reveal(pick_state); reveal(examined);
    if env_step(a, a2, ok) {
        assert forall|s: JobStatus| #[trigger] list(a2, s) == list(a, s) by {}
        assert forall|x: Str| #[trigger] stored::<M>(a2, x) == stored::<M>(a, x) by {}
        if pick_state(a2, w, r) {
            assert forall|i: int| 0 <= i < r.len() implies started(a, w, #[trigger] r[i]) by { assert(started(a2, w, r[i])); }
        }
    }
}
pub proof fn lemma_picked<M>(a: World, w: World, r: Seq<Job<M>>, total: int)
    ensures
        pick_state(a, w, r) ==> list(w, JobStatus::Running).len() == list(a, JobStatus::Running).len() + r.len(),
        pick_state(a, w, r) && total <= 0 ==> tried(a, w, r, (if list(a, JobStatus::Running).len() + total >= 0 { list(a, JobStatus::Running).len() + total } else { 0 }) as nat),
        pick_state(a, w, r) && 0 <= total && examined(a, w, r, total, Seq::empty()) ==> tried(a, w, r, (list(a, JobStatus::Running).len() + total) as nat),
{
    reveal(pick_state); reveal(examined);
    if pick_state(a, w, r) { assert(job_ids(r).len() == r.len()); }
}
pub proof fn lemma_tried_same<M>(a: World, w: World, w2: World, r: Seq<Job<M>>, max: nat)
    requires tried(a, w, r, max), w2.queues == w.queues, w2.clock == w.clock, w2.qname == w.qname,
    ensures tried(a, w2, r, max),
{
    assert(list(w2, JobStatus::Running) == list(w, JobStatus::Running));
}
pub open spec fn from_here(a: World) -> bool { true }
/// a pass that starts a little later (another tick planned, the clock read again) is a pass that starts here
pub broadcast proof fn lemma_pick_from<M>(a: World, a2: World, w: World, r: Seq<Job<M>>)
    requires a2.queues == a.queues, a2.store == a.store, a2.notes == a.notes, clock_ext(a, a2), a2.qname == a.qname,
    ensures #![trigger from_here(a), pick_state(a2, w, r)] pick_state(a2, w, r) ==> pick_state(a, w, r),
{
    reveal(pick_state);
    if pick_state(a2, w, r) {
        assert forall|s: JobStatus| #[trigger] list(a2, s) == list(a, s) by {}
        assert forall|x: Str| #[trigger] stored::<M>(a2, x) == stored::<M>(a, x) by {}
        assert forall|i: int| 0 <= i < r.len() implies started(a, w, #[trigger] r[i]) by { assert(started(a2, w, r[i])); }
        assert(list(w, JobStatus::Running) =~= job_ids(r).reverse() + list(a, JobStatus::Running));
        assert forall|x: Str| #![trigger list(a, JobStatus::Queued).contains(x)] #![trigger list(w, JobStatus::Queued).contains(x)]
            list(a, JobStatus::Queued).contains(x) <==> (list(w, JobStatus::Queued).contains(x) || job_ids(r).contains(x)) by {
            assert(list(a2, JobStatus::Queued).contains(x) <==> list(a, JobStatus::Queued).contains(x));
        }
        assert forall|s: JobStatus| s != JobStatus::Queued && s != JobStatus::Running implies #[trigger] list(w, s) == list(a, s) by { assert(list(w, s) == list(a2, s)); }
    }
}
pub broadcast proof fn lemma_tried_from<M>(a: World, a2: World, w: World, r: Seq<Job<M>>, max: nat)
    requires a2.queues == a.queues, a2.store == a.store, clock_ext(a, a2), a2.qname == a.qname,
    ensures #![trigger from_here(a), tried(a2, w, r, max)] tried(a2, w, r, max) ==> tried(a, w, r, max),
{
    if tried(a2, w, r, max) {
        assert(list(a2, JobStatus::Queued) == list(a, JobStatus::Queued));
        assert forall|x: Str| #[trigger] list(a, JobStatus::Queued).contains(x) implies
            job_ids(r).contains(x) || list(w, JobStatus::Running).len() >= max
            || notdue_since(stored::<M>(a, x)->0.context.job_type, w.clock, a.clock.len() as int) by {
            assert(list(a2, JobStatus::Queued).contains(x));
            assert(stored::<M>(a2, x) == stored::<M>(a, x));
        }
    }
}
/// what a picked job's execution starts from
pub proof fn lemma_tick_start<M>(a: World, w: World, r: Seq<Job<M>>, i: int)
    requires pick_state(a, w, r), 0 <= i < r.len(), counters_ok::<M>(a), inv::<M>(a),
    ensures
        inv::<M>(w),
        running(w, r[i].context.job_id@),
        w.st(m_types::STORAGE_HASH@, r[i].context.job_id@) == Some(ser(r[i])),
        r[i].context.job_status == JobStatus::Running,
        r[i].context.run_count < usize::MAX,
        repeats_left(r[i].context.job_type),
{
    reveal(pick_state);
    let id = r[i].context.job_id@;
    assert(started(a, w, r[i]));
    assert(stored::<M>(a, id) is Some);
    assert(job_ids(r)[i] == id);
    let l = list(w, JobStatus::Running);
    assert(l[r.len() - 1 - i] == id);
}
pub broadcast proof fn lemma_running_status<M>(w: World, id: Str)
    ensures #![trigger inv::<M>(w), running(w, id)] inv::<M>(w) && running(w, id) ==> status_is::<M>(w, id, JobStatus::Running),
{
    reveal(inv);
}
}

verus! {
pub broadcast proof fn lemma_push_take(s: Seq<Note>, x: Note, k: int)
    requires 0 <= k <= s.len(),
    ensures #[trigger] s.push(x).take(k) == s.take(k), s.take(s.len() as int) == s,
{
    assert(s.push(x).take(k) =~= s.take(k));
    assert(s.take(s.len() as int) =~= s);
}
}

verus! {
pub broadcast proof fn lemma_put_settled<M>(a: World, b: World, j: Job<M>, s: JobStatus)
    requires s != JobStatus::Canceled,
    ensures #[trigger] put_in(a, b, j, s) ==> settled(a, b, j, s),
{
    if put_in(a, b, j, s) {
        let id = j.context.job_id@;
        let k = choose|k: int| a.clock.len() <= k < b.clock.len() && moved(a, b, status_at(j, s, ms(#[trigger] b.clock[k])), list_of(s));
        assert(list(b, s) == placed(list(a, s), id, true));
        assert(list(b, s)[0] == id);
        assert(b.st(m_types::STORAGE_HASH@, id) == Some(ser(status_at(j, s, ms(b.clock[k])))));
    }
}
/// a reading taken earlier is still there
pub broadcast proof fn lemma_settled_earlier<M>(a0: World, a: World, b: World, j: Job<M>, s: JobStatus)
    requires settled(a, b, j, s), a0.clock.len() <= a.clock.len(),
    ensures #![trigger settled(a, b, j, s), settled(a0, b, j, s)] settled(a0, b, j, s),
{
    let id = j.context.job_id@;
    let m = choose|m: int| a.clock.len() <= m < b.clock.len() && b.st(m_types::STORAGE_HASH@, id) == Some(ser(status_at(j, s, ms(#[trigger] b.clock[m]))));
    assert(a0.clock.len() <= m < b.clock.len() && b.st(m_types::STORAGE_HASH@, id) == Some(ser(status_at(j, s, ms(b.clock[m])))));
}
}
