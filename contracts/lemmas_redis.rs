// Lemmas for the Redis backend (all proved).
verus! {
pub broadcast group lemma_redis { lemma_lrange_front, lemma_lrange_back, lemma_ids_reverse, lemma_put_more, lemma_put_none, lemma_rotate_step, lemma_seen_past }
pub broadcast proof fn lemma_lrange_front(s: Seq<Str>, n: int, m: int)
    requires n > 0, m == n - 1,
    ensures #![trigger redis::lrange(s, 0, m), seen_from(s, n, m_types::QueueDirection::Front)] redis::lrange(s, 0, m) == seen_from(s, n, m_types::QueueDirection::Front),
{
    reveal(seen_from);
    assert(redis::lrange(s, 0, m) =~= seen_from(s, n, m_types::QueueDirection::Front));
}
pub broadcast proof fn lemma_lrange_back(s: Seq<Str>, n: int, m: int)
    requires n > 0, m == -n,
    ensures #![trigger redis::lrange(s, m, -1), seen_from(s, n, m_types::QueueDirection::Back)] redis::lrange(s, m, -1).reverse() == seen_from(s, n, m_types::QueueDirection::Back),
{
    reveal(seen_from);
    assert(redis::lrange(s, m, -1).reverse() =~= seen_from(s, n, m_types::QueueDirection::Back));
}
pub broadcast proof fn lemma_ids_reverse(s: Seq<String>)
    ensures #[trigger] ids(s.reverse()) == ids(s).reverse(),
{ assert(ids(s.reverse()) =~= ids(s).reverse()); }
/// one more item
pub broadcast proof fn lemma_put_more(s: Seq<Str>, items: Seq<Str>, x: Str, d: m_types::QueueDirection)
    ensures #![trigger put_at(s, items.push(x), d)] put_at(s, items.push(x), d) == redis::put1(put_at(s, items, d), x, d),
{
    reveal(put_at);
    assert(put_at(s, items.push(x), d) =~= redis::put1(put_at(s, items, d), x, d));
}
pub broadcast proof fn lemma_put_none(s: Seq<Str>, d: m_types::QueueDirection)
    ensures #[trigger] put_at(s, Seq::<Str>::empty(), d) == s,
{
    reveal(put_at);
    assert(put_at(s, Seq::<Str>::empty(), d) =~= s);
}
/// nothing comes after the last item
pub broadcast proof fn lemma_seen_past(s: Seq<Str>, k: int, k1: int, d: m_types::QueueDirection)
    requires k >= s.len(), k1 >= s.len(),
    ensures
        #![trigger seen_from(s, k, d), seen_from(s, k1, d)] #![trigger left_after(s, k, d), left_after(s, k1, d)]
        seen_from(s, k, d) == seen_from(s, k1, d),
        left_after(s, k, d) == left_after(s, k1, d),
{
    reveal(seen_from);
    reveal(left_after);
}
/// taking one more item off one end of a list whose first k items went to the other end
pub broadcast proof fn lemma_rotate_step(q: Seq<Str>, k: int, k1: int, fd: m_types::QueueDirection, td: m_types::QueueDirection)
    requires 0 <= k < q.len(), k1 == k + 1, fd != td || k == 0,
    ensures
        #![trigger put_at(left_after(q, k, fd), seen_from(q, k, fd), td), seen_from(q, k1, fd)]
        ({
            let s = put_at(left_after(q, k, fd), seen_from(q, k, fd), td);
            &&& s.len() > 0
            &&& end_item(s, fd) == nth_from(q, k, fd)
            &&& redis::put1(drop_end(s, fd), nth_from(q, k, fd), td) == put_at(left_after(q, k1, fd), seen_from(q, k1, fd), td)
        }),
{
    reveal(seen_from);
    reveal(left_after);
    reveal(put_at);
    let s = put_at(left_after(q, k, fd), seen_from(q, k, fd), td);
    assert(redis::put1(drop_end(s, fd), nth_from(q, k, fd), td) =~= put_at(left_after(q, k1, fd), seen_from(q, k1, fd), td));
}
}
