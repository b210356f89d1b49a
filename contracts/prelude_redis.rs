// Trusted stand-ins: the redis client. Each command has the effect the Redis documentation gives it, on the
// lists and hashes of the server, as long as the server answers; commands of other clients are not considered.
// A command that fails may have had its effect or not, but touches no list it does not name.
pub mod redis {
    use super::*;
    pub use super::RedisError;
    verus! {
    pub type RedisResult<T> = Result<T, RedisError>;
    pub enum Direction { Left, Right }
    pub enum Reply { Nil, Int(int), Bulk(Str), List(Seq<Str>) }
    /// a Rust value decoded from a reply
    pub trait FromRedisValue: Sized { spec fn vx_of(&self, r: Reply) -> bool; }
    impl FromRedisValue for () { open spec fn vx_of(&self, r: Reply) -> bool { true } }
    impl FromRedisValue for usize { open spec fn vx_of(&self, r: Reply) -> bool { r == Reply::Int(*self as int) } }
    impl FromRedisValue for i64 { open spec fn vx_of(&self, r: Reply) -> bool { r == Reply::Int(*self as int) } }
    impl FromRedisValue for i32 { open spec fn vx_of(&self, r: Reply) -> bool { r == Reply::Int(*self as int) } }
    impl FromRedisValue for bool { open spec fn vx_of(&self, r: Reply) -> bool { r is Int && *self == (r->Int_0 != 0) } }
    impl FromRedisValue for String { open spec fn vx_of(&self, r: Reply) -> bool { r == Reply::Bulk(self@) } }
    impl FromRedisValue for Option<String> {
        open spec fn vx_of(&self, r: Reply) -> bool { match *self { Some(x) => r == Reply::Bulk(x@), None => r is Nil } }
    }
    impl FromRedisValue for Vec<String> { open spec fn vx_of(&self, r: Reply) -> bool { r == Reply::List(ids(self@)) } }
    pub trait ToRedisArgs { spec fn vx_arg(&self) -> Str; }
    impl ToRedisArgs for String { open spec fn vx_arg(&self) -> Str { self@ } }
    impl ToRedisArgs for &String { open spec fn vx_arg(&self) -> Str { self@ } }
    impl ToRedisArgs for &str { open spec fn vx_arg(&self) -> Str { self@ } }
    #[verifier::external_body]
    pub struct Client { p: u64 }
    impl Clone for Client {
        #[verifier::external_body]
        fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
    }
    #[verifier::external_body]
    pub struct Connection { p: u64 }
    impl Client {
        #[verifier::external_body]
        pub fn get_connection(&self, Tracked(w): Tracked<&mut World>) -> (r: RedisResult<Connection>)
            ensures env_step(*old(w), *final(w), r is Ok), final(w).queues == old(w).queues, final(w).store == old(w).store { unimplemented!() }
    }
    pub open spec fn qdir(d: Direction) -> m_types::QueueDirection {
        match d { Direction::Left => m_types::QueueDirection::Front, Direction::Right => m_types::QueueDirection::Back }
    }
    pub open spec fn put1(s: Seq<Str>, x: Str, d: m_types::QueueDirection) -> Seq<Str> {
        match d { m_types::QueueDirection::Front => seq![x] + s, m_types::QueueDirection::Back => s.push(x) }
    }
    /// LMOVE
    pub open spec fn lmoved(a: World, b: World, from: Str, to: Str, fd: m_types::QueueDirection, td: m_types::QueueDirection) -> bool {
        let x = end_item(a.q(from), fd);
        &&& forall|n: Str| n != from && n != to ==> #[trigger] b.q(n) == a.q(n)
        &&& from == to ==> b.q(to) == put1(drop_end(a.q(from), fd), x, td)
        &&& from != to ==> b.q(from) == drop_end(a.q(from), fd) && b.q(to) == put1(a.q(to), x, td)
        &&& b.store == a.store
    }
    /// LRANGE
    pub open spec fn lrange(s: Seq<Str>, a: int, b: int) -> Seq<Str> {
        let n = s.len() as int;
        let i = if a < 0 { if n + a < 0 { 0 } else { n + a } } else { a };
        let j = if b < 0 { n + b } else if b >= n { n - 1 } else { b };
        if i > j || i >= n { Seq::empty() } else { s.subrange(i, j + 1) }
    }
    impl Connection {
        #[verifier::external_body]
        pub fn lpush<K: ToRedisArgs, V: ToRedisArgs, RV: FromRedisValue>(&mut self, k: K, v: V, Tracked(w): Tracked<&mut World>) -> (r: RedisResult<RV>)
            ensures
                env_step(*old(w), *final(w), r is Ok),
                r is Ok ==> final(w).q(k.vx_arg()) == seq![v.vx_arg()] + old(w).q(k.vx_arg()) && other_queues(*old(w), *final(w), k.vx_arg())
                    && final(w).store == old(w).store && r->Ok_0.vx_of(Reply::Int(final(w).q(k.vx_arg()).len() as int)) { unimplemented!() }
        #[verifier::external_body]
        pub fn rpush<K: ToRedisArgs, V: ToRedisArgs, RV: FromRedisValue>(&mut self, k: K, v: V, Tracked(w): Tracked<&mut World>) -> (r: RedisResult<RV>)
            ensures
                env_step(*old(w), *final(w), r is Ok),
                r is Ok ==> final(w).q(k.vx_arg()) == old(w).q(k.vx_arg()).push(v.vx_arg()) && other_queues(*old(w), *final(w), k.vx_arg())
                    && final(w).store == old(w).store && r->Ok_0.vx_of(Reply::Int(final(w).q(k.vx_arg()).len() as int)) { unimplemented!() }
        #[verifier::external_body]
        pub fn lmove<S: ToRedisArgs, D: ToRedisArgs, RV: FromRedisValue>(&mut self, s: S, d: D, sd: Direction, dd: Direction, Tracked(w): Tracked<&mut World>) -> (r: RedisResult<RV>)
            ensures
                env_step(*old(w), *final(w), r is Ok),
                r is Ok && old(w).q(s.vx_arg()).len() == 0 ==> final(w).queues == old(w).queues && final(w).store == old(w).store && r->Ok_0.vx_of(Reply::Nil),
                r is Ok && old(w).q(s.vx_arg()).len() > 0 ==> lmoved(*old(w), *final(w), s.vx_arg(), d.vx_arg(), qdir(sd), qdir(dd))
                    && r->Ok_0.vx_of(Reply::Bulk(end_item(old(w).q(s.vx_arg()), qdir(sd)))),
                r is Err ==> final(w).q(d.vx_arg()).len() <= old(w).q(d.vx_arg()).len() + 1
                    && forall|n: Str| n != s.vx_arg() && n != d.vx_arg() ==> #[trigger] final(w).q(n) == old(w).q(n) { unimplemented!() }
        /// a list holds at most isize::MAX items (the server allows 2^32 - 1)
        #[verifier::external_body]
        pub fn lrange<K: ToRedisArgs, RV: FromRedisValue>(&mut self, k: K, a: isize, b: isize, Tracked(w): Tracked<&mut World>) -> (r: RedisResult<RV>)
            ensures
                env_step(*old(w), *final(w), r is Ok), final(w).queues == old(w).queues, final(w).store == old(w).store,
                r is Ok ==> old(w).q(k.vx_arg()).len() <= isize::MAX,
                r is Ok ==> r->Ok_0.vx_of(Reply::List(lrange(old(w).q(k.vx_arg()), a as int, b as int))) { unimplemented!() }
        #[verifier::external_body]
        pub fn llen<K: ToRedisArgs, RV: FromRedisValue>(&mut self, k: K, Tracked(w): Tracked<&mut World>) -> (r: RedisResult<RV>)
            ensures
                env_step(*old(w), *final(w), r is Ok), final(w).queues == old(w).queues, final(w).store == old(w).store,
                r is Ok ==> r->Ok_0.vx_of(Reply::Int(old(w).q(k.vx_arg()).len() as int)) { unimplemented!() }
        /// only `count` 0 (all occurrences) is specified
        #[verifier::external_body]
        pub fn lrem<K: ToRedisArgs, V: ToRedisArgs, RV: FromRedisValue>(&mut self, k: K, count: isize, v: V, Tracked(w): Tracked<&mut World>) -> (r: RedisResult<RV>)
            ensures
                env_step(*old(w), *final(w), r is Ok),
                r is Ok ==> other_queues(*old(w), *final(w), k.vx_arg()) && final(w).store == old(w).store,
                r is Ok && count == 0 ==> final(w).q(k.vx_arg()) == old(w).q(k.vx_arg()).filter(|x: Str| x != v.vx_arg())
                    && r->Ok_0.vx_of(Reply::Int(old(w).q(k.vx_arg()).len() - final(w).q(k.vx_arg()).len())) { unimplemented!() }
        #[verifier::external_body]
        pub fn hset<K: ToRedisArgs, F: ToRedisArgs, V: ToRedisArgs, RV: FromRedisValue>(&mut self, k: K, f: F, v: V, Tracked(w): Tracked<&mut World>) -> (r: RedisResult<RV>)
            ensures
                env_step(*old(w), *final(w), r is Ok), final(w).queues == old(w).queues,
                r is Ok ==> final(w).queues == old(w).queues && final(w).st(k.vx_arg(), f.vx_arg()) == Some(v.vx_arg())
                    && (forall|h: Str, x: Str| (h != k.vx_arg() || x != f.vx_arg()) ==> #[trigger] final(w).st(h, x) == old(w).st(h, x))
                    && r->Ok_0.vx_of(Reply::Int(if old(w).st(k.vx_arg(), f.vx_arg()) is Some { 0 } else { 1 })) { unimplemented!() }
        #[verifier::external_body]
        pub fn hset_nx<K: ToRedisArgs, F: ToRedisArgs, V: ToRedisArgs, RV: FromRedisValue>(&mut self, k: K, f: F, v: V, Tracked(w): Tracked<&mut World>) -> (r: RedisResult<RV>)
            ensures
                env_step(*old(w), *final(w), r is Ok), final(w).queues == old(w).queues,
                r is Ok ==> final(w).queues == old(w).queues
                    && final(w).st(k.vx_arg(), f.vx_arg()) == (if old(w).st(k.vx_arg(), f.vx_arg()) is Some { old(w).st(k.vx_arg(), f.vx_arg()) } else { Some(v.vx_arg()) })
                    && (forall|h: Str, x: Str| (h != k.vx_arg() || x != f.vx_arg()) ==> #[trigger] final(w).st(h, x) == old(w).st(h, x))
                    && r->Ok_0.vx_of(Reply::Int(if old(w).st(k.vx_arg(), f.vx_arg()) is Some { 0 } else { 1 })) { unimplemented!() }
        #[verifier::external_body]
        pub fn hdel<K: ToRedisArgs, F: ToRedisArgs, RV: FromRedisValue>(&mut self, k: K, f: F, Tracked(w): Tracked<&mut World>) -> (r: RedisResult<RV>)
            ensures
                env_step(*old(w), *final(w), r is Ok), final(w).queues == old(w).queues,
                r is Ok ==> final(w).queues == old(w).queues && final(w).st(k.vx_arg(), f.vx_arg()) is None
                    && (forall|h: Str, x: Str| (h != k.vx_arg() || x != f.vx_arg()) ==> #[trigger] final(w).st(h, x) == old(w).st(h, x))
                    && r->Ok_0.vx_of(Reply::Int(if old(w).st(k.vx_arg(), f.vx_arg()) is Some { 1 } else { 0 })) { unimplemented!() }
        #[verifier::external_body]
        pub fn hexists<K: ToRedisArgs, F: ToRedisArgs, RV: FromRedisValue>(&mut self, k: K, f: F, Tracked(w): Tracked<&mut World>) -> (r: RedisResult<RV>)
            ensures
                env_step(*old(w), *final(w), r is Ok), final(w).queues == old(w).queues, final(w).store == old(w).store,
                r is Ok ==> r->Ok_0.vx_of(Reply::Int(if old(w).st(k.vx_arg(), f.vx_arg()) is Some { 1 } else { 0 })) { unimplemented!() }
        #[verifier::external_body]
        pub fn hget<K: ToRedisArgs, F: ToRedisArgs, RV: FromRedisValue>(&mut self, k: K, f: F, Tracked(w): Tracked<&mut World>) -> (r: RedisResult<RV>)
            ensures
                env_step(*old(w), *final(w), r is Ok), final(w).queues == old(w).queues, final(w).store == old(w).store,
                r is Ok ==> r->Ok_0.vx_of(match old(w).st(k.vx_arg(), f.vx_arg()) { Some(s) => Reply::Bulk(s), None => Reply::Nil }) { unimplemented!() }
    }
    impl FromSpecImpl<m_types::QueueDirection> for Direction {
        open spec fn obeys_from_spec() -> bool { true }
        open spec fn from_spec(v: m_types::QueueDirection) -> Direction {
            match v { m_types::QueueDirection::Front => Direction::Left, m_types::QueueDirection::Back => Direction::Right }
        }
    }
    }
}
verus! {
pub trait VxReverse { type VxI; spec fn vx_items(&self) -> Seq<Self::VxI>; fn vx_reverse(&mut self) ensures final(self).vx_items() == old(self).vx_items().reverse(); }
impl<T> VxReverse for Vec<T> {
    type VxI = T;
    open spec fn vx_items(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_reverse(&mut self) { unimplemented!() }
}
}
