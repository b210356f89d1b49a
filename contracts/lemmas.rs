// Lemmas about lists of ids (all proved).
verus! {
pub broadcast group lemma_ids {
    lemma_put_len,
    lemma_ids_len, lemma_ids_index, lemma_ids_filter, lemma_ids_push, lemma_ids_drop_first, lemma_ids_drop_last,
    lemma_ids_cons, lemma_ids_empty, lemma_cons_empty, lemma_without_same, lemma_put_nothing,
    lemma_seen_len, lemma_seen_index, lemma_left_len, lemma_seen_zero, lemma_left_zero, lemma_put_zero,
    lemma_put_all, lemma_left_empty, lemma_seen_min, lemma_seen_step, lemma_left_step, lemma_put_step,
}
pub broadcast proof fn lemma_ids_push(s: Seq<String>, x: String)
    ensures #[trigger] ids(s.push(x)) == ids(s).push(x@),
{
    assert(ids(s.push(x)) =~= ids(s).push(x@));
}
pub broadcast proof fn lemma_ids_filter(s: Seq<String>, p: spec_fn(String) -> bool, q: spec_fn(Str) -> bool)
    requires forall|x: String| #[trigger] p(x) == q(x@),
    ensures #![trigger ids(s.filter(p)), ids(s).filter(q)] ids(s.filter(p)) == ids(s).filter(q),
    decreases s.len(),
{
    reveal(Seq::filter);
    if s.len() > 0 {
        lemma_ids_filter(s.drop_last(), p, q);
        assert(ids(s).drop_last() =~= ids(s.drop_last()));
        assert(ids(s).last() == s.last()@);
        let a = s.drop_last().filter(p);
        assert(ids(a.push(s.last())) =~= ids(a).push(s.last()@));
    } else {
        assert(ids(s.filter(p)) =~= Seq::<Str>::empty());
        assert(ids(s).filter(q) =~= Seq::<Str>::empty());
    }
}
pub broadcast proof fn lemma_without_same(s: Seq<Str>, x: Str)
    ensures !s.contains(x) ==> #[trigger] without(s, x) == s,
    decreases s.len(),
{
    reveal(Seq::filter);
    if s.len() > 0 && !s.contains(x) {
        assert forall|i: int| 0 <= i < s.drop_last().len() implies s.drop_last()[i] != x by { assert(s.drop_last()[i] == s[i]); }
        lemma_without_same(s.drop_last(), x);
        assert(s.last() != x);
        assert(s.drop_last().push(s.last()) =~= s);
    } else if !s.contains(x) {
        assert(without(s, x) =~= s);
    }
}
pub open spec fn end_item(s: Seq<Str>, d: m_types::QueueDirection) -> Str {
    match d { m_types::QueueDirection::Front => s[0], m_types::QueueDirection::Back => s.last() }
}
pub open spec fn nth_from(s: Seq<Str>, k: int, d: m_types::QueueDirection) -> Str {
    match d { m_types::QueueDirection::Front => s[k], m_types::QueueDirection::Back => s[s.len() - 1 - k] }
}
pub open spec fn drop_end(s: Seq<Str>, d: m_types::QueueDirection) -> Seq<Str> {
    match d { m_types::QueueDirection::Front => s.drop_first(), m_types::QueueDirection::Back => s.drop_last() }
}
pub broadcast proof fn lemma_seen_len(s: Seq<Str>, k: int, d: m_types::QueueDirection)
    requires 0 <= k,
    ensures (#[trigger] seen_from(s, k, d)).len() == min_len(k, s),
{
    reveal(seen_from);
}
pub broadcast proof fn lemma_seen_index(s: Seq<Str>, k: int, d: m_types::QueueDirection, i: int)
    requires 0 <= i < min_len(k, s),
    ensures #[trigger] seen_from(s, k, d)[i] == nth_from(s, i, d),
{
    reveal(seen_from);
}
pub broadcast proof fn lemma_left_len(s: Seq<Str>, k: int, d: m_types::QueueDirection)
    requires 0 <= k,
    ensures (#[trigger] left_after(s, k, d)).len() == s.len() - min_len(k, s),
{
    reveal(left_after);
}
pub broadcast proof fn lemma_put_len(s: Seq<Str>, items: Seq<Str>, d: m_types::QueueDirection)
    ensures (#[trigger] put_at(s, items, d)).len() == s.len() + items.len(),
{
    reveal(put_at);
    assert(items.reverse().len() == items.len());
}
pub broadcast proof fn lemma_seen_zero(s: Seq<Str>, d: m_types::QueueDirection)
    ensures #[trigger] seen_from(s, 0, d) == Seq::<Str>::empty(),
{
    reveal(seen_from);
    assert(seen_from(s, 0, d) =~= Seq::<Str>::empty());
}
pub broadcast proof fn lemma_left_zero(s: Seq<Str>, d: m_types::QueueDirection)
    ensures #[trigger] left_after(s, 0, d) == s,
{
    reveal(left_after);
    assert(left_after(s, 0, d) =~= s);
}
pub broadcast proof fn lemma_left_empty(s: Seq<Str>, k: int, d: m_types::QueueDirection)
    requires s.len() == 0, k >= 0,
    ensures #[trigger] left_after(s, k, d) == s,
{
    reveal(left_after);
    assert(left_after(s, k, d) =~= s);
}
pub broadcast proof fn lemma_put_nothing(s: Seq<Str>, items: Seq<Str>, d: m_types::QueueDirection)
    ensures items.len() == 0 ==> #[trigger] put_at(s, items, d) == s,
{
    reveal(put_at);
    if items.len() == 0 { assert(put_at(s, items, d) =~= s); }
}
pub broadcast proof fn lemma_put_zero(s: Seq<Str>, items: Seq<Str>, d: m_types::QueueDirection)
    ensures #[trigger] put_at(s, items.take(0), d) == s,
{
    reveal(put_at);
    assert(put_at(s, items.take(0), d) =~= s);
}
pub broadcast proof fn lemma_put_all(s: Seq<Str>, items: Seq<Str>, k: int, d: m_types::QueueDirection)
    requires k == items.len(),
    ensures #[trigger] put_at(s, items.take(k), d) == put_at(s, items, d),
{
    assert(items.take(k) =~= items);
}
pub broadcast proof fn lemma_seen_min(s: Seq<Str>, k: int, k1: int, d: m_types::QueueDirection)
    requires k == min_len(k1, s), 0 <= k1,
    ensures #![trigger seen_from(s, k, d), seen_from(s, k1, d)] seen_from(s, k, d) == seen_from(s, k1, d),
{
    reveal(seen_from);
    assert(seen_from(s, k, d) =~= seen_from(s, k1, d));
}
pub broadcast proof fn lemma_seen_step(s: Seq<Str>, k: int, k1: int, d: m_types::QueueDirection)
    requires 0 <= k, k1 == k + 1,
    ensures
        #![trigger seen_from(s, k, d), seen_from(s, k1, d)]
        k < s.len() ==> seen_from(s, k1, d) == seen_from(s, k, d).push(nth_from(s, k, d)),
        k >= s.len() ==> seen_from(s, k1, d) == seen_from(s, k, d),
{
    reveal(seen_from);
    if k < s.len() {
        assert(seen_from(s, k1, d) =~= seen_from(s, k, d).push(nth_from(s, k, d)));
    } else {
        assert(seen_from(s, k1, d) =~= seen_from(s, k, d));
    }
}
pub broadcast proof fn lemma_left_step(s: Seq<Str>, k: int, k1: int, d: m_types::QueueDirection)
    requires 0 <= k, k1 == k + 1,
    ensures
        #![trigger left_after(s, k, d), left_after(s, k1, d)]
        k < s.len() ==> left_after(s, k1, d) == drop_end(left_after(s, k, d), d) && end_item(left_after(s, k, d), d) == nth_from(s, k, d),
        k >= s.len() ==> left_after(s, k1, d) == left_after(s, k, d),
{
    reveal(left_after);
    if k < s.len() {
        assert(left_after(s, k1, d) =~= drop_end(left_after(s, k, d), d));
    } else {
        assert(left_after(s, k1, d) =~= left_after(s, k, d));
    }
}
pub broadcast proof fn lemma_put_step(s: Seq<Str>, items: Seq<Str>, k: int, k1: int, d: m_types::QueueDirection)
    requires 0 <= k < items.len(), k1 == k + 1,
    ensures
        #![trigger put_at(s, items.take(k), d), put_at(s, items.take(k1), d)]
        put_at(s, items.take(k1), d) == (match d {
            m_types::QueueDirection::Front => seq![items[k]] + put_at(s, items.take(k), d),
            m_types::QueueDirection::Back => put_at(s, items.take(k), d).push(items[k]),
        }),
{
    reveal(put_at);
    assert(items.take(k1) =~= items.take(k).push(items[k]));
    match d {
        m_types::QueueDirection::Front => {
            assert(put_at(s, items.take(k1), d) =~= seq![items[k]] + put_at(s, items.take(k), d));
        }
        m_types::QueueDirection::Back => {
            assert(put_at(s, items.take(k1), d) =~= put_at(s, items.take(k), d).push(items[k]));
        }
    }
}
pub broadcast proof fn lemma_ids_drop_first(s: Seq<String>)
    requires s.len() > 0,
    ensures #[trigger] ids(s.drop_first()) == ids(s).drop_first(),
{ assert(ids(s.drop_first()) =~= ids(s).drop_first()); }
pub broadcast proof fn lemma_ids_drop_last(s: Seq<String>)
    requires s.len() > 0,
    ensures #[trigger] ids(s.drop_last()) == ids(s).drop_last(),
{ assert(ids(s.drop_last()) =~= ids(s).drop_last()); }
pub broadcast proof fn lemma_ids_cons(s: Seq<String>, x: String)
    ensures #[trigger] ids(seq![x] + s) == seq![x@] + ids(s),
{ assert(ids(seq![x] + s) =~= seq![x@] + ids(s)); }
pub broadcast proof fn lemma_ids_empty()
    ensures #[trigger] ids(Seq::<String>::empty()) == Seq::<Str>::empty(),
{ assert(ids(Seq::<String>::empty()) =~= Seq::<Str>::empty()); }
pub broadcast proof fn lemma_cons_empty(x: Str)
    ensures #[trigger] (seq![x] + Seq::<Str>::empty()) == seq![x],
{ assert((seq![x] + Seq::<Str>::empty()) =~= seq![x]); }
}
verus! {
/// the invariant only looks at the queue's lists and the stored jobs
pub broadcast proof fn lemma_inv_frame<M>(a: World, b: World)
    requires
        a.qname == b.qname,
        a.queues == b.queues,
        forall|k: Str| #[trigger] b.st(m_types::STORAGE_HASH@, k) == a.st(m_types::STORAGE_HASH@, k),
    ensures #![trigger inv::<M>(a), inv::<M>(b)] inv::<M>(a) ==> inv::<M>(b),
{
    reveal(inv);
    if inv::<M>(a) {
        assert forall|s: JobStatus| #[trigger] list(b, s) == list(a, s) by {}
        assert forall|id: Str| #[trigger] stored::<M>(b, id) == stored::<M>(a, id) by {}
        assert(inv_nodup(b)) by {
            assert forall|s: JobStatus| (#[trigger] list(b, s)).no_duplicates() by { assert(list(a, s).no_duplicates()); }
        }
        assert(inv_listed::<M>(b)) by {
            assert forall|s: JobStatus, id: Str| #[trigger] list(b, s).contains(id) implies
                stored::<M>(b, id) is Some && stored::<M>(b, id)->0.context.job_status == s by { assert(list(a, s).contains(id)); }
        }
        assert(inv_stored::<M>(b)) by {
            assert forall|id: Str| (#[trigger] stored::<M>(b, id)) is Some implies {
                let j = stored::<M>(b, id)->0;
                &&& j.context.job_id@ == id
                &&& j.context.job_status != JobStatus::Canceled ==> list(b, j.context.job_status).contains(id)
            } by { assert(stored::<M>(a, id) is Some); }
        }
    }
}
}
