// Specification of the backend operations (what every backend must do).
verus! {
pub open spec fn env_step(a: World, b: World, ok: bool) -> bool {
    &&& b.notes == a.notes && b.qname == a.qname && b.me == a.me && b.tasks == a.tasks && b.runs == a.runs && b.ticks == a.ticks && b.hooks == a.hooks
    &&& b.clock == a.clock
    &&& ok ==> b.faulted == a.faulted
    &&& !ok ==> b.faulted
}
pub open spec fn env_same(a: World, b: World) -> bool {
    &&& b.notes == a.notes && b.qname == a.qname && b.me == a.me && b.tasks == a.tasks && b.runs == a.runs && b.ticks == a.ticks && b.hooks == a.hooks
    &&& b.clock == a.clock
    &&& a.faulted ==> b.faulted
}
pub open spec fn opt_str(o: Option<String>) -> Option<Str> {
    match o { Some(s) => Some(s@), None => None }
}
pub open spec fn other_queues(a: World, b: World, n: Str) -> bool {
    forall|m: Str| m != n ==> #[trigger] b.q(m) == a.q(m)
}
pub open spec fn min_len(count: int, s: Seq<Str>) -> int { if count < s.len() { count } else { s.len() as int } }
/// the first `count` items seen from the given end, in the order they are met
#[verifier::opaque]
pub open spec fn seen_from(s: Seq<Str>, count: int, d: m_types::QueueDirection) -> Seq<Str> {
    match d {
        m_types::QueueDirection::Front => s.take(min_len(count, s)),
        m_types::QueueDirection::Back => s.reverse().take(min_len(count, s)),
    }
}
/// what is left after taking `count` items from the given end
#[verifier::opaque]
pub open spec fn left_after(s: Seq<Str>, count: int, d: m_types::QueueDirection) -> Seq<Str> {
    match d {
        m_types::QueueDirection::Front => s.skip(min_len(count, s)),
        m_types::QueueDirection::Back => s.take(s.len() - min_len(count, s)),
    }
}
/// `items` put one after the other at the given end
#[verifier::opaque]
pub open spec fn put_at(s: Seq<Str>, items: Seq<Str>, d: m_types::QueueDirection) -> Seq<Str> {
    match d {
        m_types::QueueDirection::Front => items.reverse() + s,
        m_types::QueueDirection::Back => s + items,
    }
}
pub open spec fn moved_to(a: World, from: Str, to: Str, count: int, fd: m_types::QueueDirection, td: m_types::QueueDirection) -> Seq<Str> {
    put_at(
        if from == to { left_after(a.q(from), count, fd) } else { a.q(to) },
        seen_from(a.q(from), count, fd),
        td,
    )
}
pub open spec fn move_in_range(a: World, from: Str, to: Str, count: int, fd: m_types::QueueDirection, td: m_types::QueueDirection) -> bool {
    from != to || count <= 1 || (fd != td && count <= a.q(from).len())
}
} // verus!
