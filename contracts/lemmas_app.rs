// The application around the queues: registry of queues, messages.
verus! {
pub open spec fn queue_tid<M>() -> TypeId { tid::<Addr<m_queue::WorkQueue<M>>>() }
/// type of the address that the registry holds for a job type
pub uninterp spec fn queue_of(t: TypeId) -> TypeId;
pub broadcast axiom fn ax_queue_of<M>()
    ensures queue_of(#[trigger] tid::<M>()) == queue_tid::<M>();
/// the registry holds queue addresses
pub open spec fn reg_ok(w: World) -> bool { forall|t: TypeId| #[trigger] w.app.reg.contains_key(t) ==> w.app.reg[t].0 == queue_of(t) }
pub open spec fn has_queue<M>(w: World) -> bool { w.app.reg.contains_key(tid::<M>()) }
pub open spec fn registered<M>(w: World, a: Addr<m_queue::WorkQueue<M>>) -> bool {
    has_queue::<M>(w) && w.app.reg[tid::<M>()] == (queue_tid::<M>(), enc(a))
}
/// queues are never replaced or taken out
pub open spec fn reg_grows(a: World, b: World) -> bool {
    &&& forall|t: TypeId| #[trigger] a.app.reg.contains_key(t) ==> b.app.reg.contains_key(t) && b.app.reg[t] == a.app.reg[t]
    &&& forall|n: Str| #[trigger] a.app.names.contains_key(n) ==> b.app.names.contains_key(n)
}
/// a look at the registry
pub open spec fn app_read(a: World, b: World) -> bool {
    &&& b == (World { app: App { reg: b.app.reg, names: b.app.names, started: b.app.started, ..a.app }, ..a })
    &&& reg_grows(a, b) && (reg_ok(a) ==> reg_ok(b))
    &&& a.app.in_aj ==> b.app == a.app
}
/// an instance that runs stays the running instance
pub open spec fn aj_grows(a: World, b: World) -> bool { a.app.aj is Some ==> b.app.aj == a.app.aj }
pub open spec fn app_step(a: World, b: World) -> bool {
    &&& reg_grows(a, b) && (reg_ok(a) ==> reg_ok(b))
    &&& a.faulted ==> b.faulted
    &&& aj_grows(a, b) && b.app.in_aj == a.app.in_aj
}
pub open spec fn delivered(b: World) -> bool { b.app.sent.last().ans is Some }
pub open spec fn answer<R>(b: World) -> R { dec::<R>(b.app.sent.last().ans->0) }
/// the last message sent, as a message of this kind
pub open spec fn sent_msg<Msg>(b: World) -> Msg { dec::<Msg>(b.app.sent.last().msg) }
/// exactly one message was sent to a queue: of this kind, to this address
pub open spec fn sent_one<M, Msg>(a: World, b: World, to: Addr<m_queue::WorkQueue<M>>) -> bool {
    &&& b.app.sent =~= a.app.sent.push(b.app.sent.last())
    &&& b.app.sent.last().to == enc(to)
    &&& b.app.sent.last().msg == enc(sent_msg::<Msg>(b))
    &&& b.app.asked == a.app.asked && b.app.plugged == a.app.plugged
}
/// ... to the queue of job type M
pub open spec fn sent_to_queue<M, Msg>(a: World, b: World) -> bool {
    &&& b.app.sent =~= a.app.sent.push(b.app.sent.last())
    &&& has_queue::<M>(b) && b.app.reg[tid::<M>()] == (queue_tid::<M>(), b.app.sent.last().to)
    &&& b.app.sent.last().msg == enc(sent_msg::<Msg>(b))
}
/// the queue of job type M was asked for under this name, or was there already
pub open spec fn asked_for_queue<M>(a: World, b: World, name: Str) -> bool {
    let m = dec::<m_aj::InitWorkQueue<M>>(b.app.asked.last().msg);
    ||| b.app.asked == a.app.asked
    ||| !has_queue::<M>(a) && b.app.asked =~= a.app.asked.push(Asked { to: b.app.aj->0, msg: enc(m) }) && m.queue_name@ == name
}
/// one job is looked up; if it is there, it is submitted with the new data and context, under its own id
pub open spec fn updated<M>(a: World, b: World, id: Str, data: M, cx: Option<JobContext>) -> bool {
    let s = b.app.sent;
    let n = a.app.sent.len() as int;
    &&& s.len() >= n && s.take(n) =~= a.app.sent
    &&& !has_queue::<M>(a) && s.len() == n || {
        let g = dec::<m_queue::GetJob<M>>(s[n].msg);
        &&& s.len() > n
        &&& g.job_id@ == id && s[n].msg == enc(g)
        &&& s[n].ans is None ==> s.len() == n + 1
        &&& s[n].ans is Some ==> match dec::<Option<Job<M>>>(s[n].ans->0) {
            None => s.len() == n + 1,
            Some(j) => {
                let e = dec::<m_queue::Enqueue<M>>(s[n + 1].msg);
                &&& s.len() == n + 2 && s[n + 1].to == s[n].to && s[n + 1].msg == enc(e)
                &&& e.0.data == data && e.0.context.job_id@ == id
                &&& same_but_id(e.0.context, match cx { Some(c) => c, None => j.context })
                &&& e.1 == (m_queue::EnqueueConfig { re_run: true, override_data: true })
            },
        }
    }
}
pub open spec fn same_but_id(a: JobContext, b: JobContext) -> bool { a == (JobContext { job_id: a.job_id, ..b }) }

/// a message to a queue: what its answer tells
pub trait QMsg<M>: Sized {
    type R;
    spec fn answers(&self, r: Self::R) -> bool;
}
impl<M> QMsg<M> for m_queue::Enqueue<M> { type R = Result<(), m_error::Error>; open spec fn answers(&self, r: Result<(), m_error::Error>) -> bool { true } }
impl<M> QMsg<M> for m_queue::CancelJob { type R = Result<(), m_error::Error>; open spec fn answers(&self, r: Result<(), m_error::Error>) -> bool { true } }
impl<M> QMsg<M> for m_queue::GetJob<M> {
    type R = Option<Job<M>>;
    open spec fn answers(&self, r: Option<Job<M>>) -> bool { r is Some ==> r->0.context.job_id@ == self.job_id@ }
}
impl<M> QMsg<M> for m_queue::RetryJob<M> { type R = Result<bool, m_error::Error>; open spec fn answers(&self, r: Result<bool, m_error::Error>) -> bool { true } }
impl<M> QMsg<M> for m_queue::UpdateWorkQueue { type R = (); open spec fn answers(&self, r: ()) -> bool { true } }
impl<M> Addr<m_queue::WorkQueue<M>> {
    /// the message is delivered once and its handler's answer comes back, or it is not delivered
    #[verifier::external_body]
    pub fn send<Msg: QMsg<M>>(&self, msg: Msg, Tracked(w): Tracked<&mut World>) -> (r: Result<Msg::R, MailboxError>)
        ensures
            app_step(*old(w), *final(w)),
            final(w).app.sent == old(w).app.sent.push(Sent { to: enc(*self), msg: enc(msg), ans: match r { Ok(x) => Some(enc(x)), Err(_) => None } }),
            final(w).app.asked == old(w).app.asked && final(w).app.plugged == old(w).app.plugged,
            r is Ok && !final(w).faulted ==> msg.answers(r->Ok_0),
            r is Err ==> final(w).faulted { unimplemented!() }
    #[verifier::external_body]
    pub fn do_send<Msg: QMsg<M>>(&self, msg: Msg, Tracked(w): Tracked<&mut World>)
        ensures
            app_step(*old(w), *final(w)),
            final(w).app == (App { sent: old(w).app.sent.push(Sent { to: enc(*self), msg: enc(msg), ans: None }), ..old(w).app }) { unimplemented!() }
}
/// a message to the running instance
pub trait AjMsg: Sized {
    type R;
    /// what its answer tells (the postcondition of its handler)
    spec fn told(&self, b: World, r: Self::R) -> bool;
}
impl<M> AjMsg for m_aj::InitWorkQueue<M> {
    type R = Addr<m_queue::WorkQueue<M>>;
    open spec fn told(&self, b: World, r: Addr<m_queue::WorkQueue<M>>) -> bool { registered::<M>(b, r) }
}
impl<M> AjMsg for m_aj::JustRunJob<M> { type R = (); open spec fn told(&self, b: World, r: ()) -> bool { true } }
impl Addr<m_aj::AJ> {
    #[verifier::external_body]
    pub fn send<Msg: AjMsg>(&self, msg: Msg, Tracked(w): Tracked<&mut World>) -> (r: Result<Msg::R, MailboxError>)
        ensures
            app_step(*old(w), *final(w)),
            final(w).app.asked == old(w).app.asked.push(Asked { to: enc(*self), msg: enc(msg) }),
            final(w).app.sent == old(w).app.sent && final(w).app.plugged == old(w).app.plugged,
            r is Ok ==> msg.told(*final(w), r->Ok_0),
            r is Err ==> final(w).faulted { unimplemented!() }
    #[verifier::external_body]
    pub fn do_send<Msg: AjMsg>(&self, msg: Msg, Tracked(w): Tracked<&mut World>)
        ensures *final(w) == (World { app: App { asked: old(w).app.asked.push(Asked { to: enc(*self), msg: enc(msg) }), ..old(w).app }, ..*old(w) }) { unimplemented!() }
}
// ---- the registry (a process-wide static), and where the running instance is kept
pub struct VxBoxAny { pub k: u64 }
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct DashMap<K, V> { p: PhantomData<(K, V)> }
#[verifier::external_body]
pub struct DashRef { p: u64 }
impl DashRef {
    pub uninterp spec fn val(&self) -> (TypeId, Any);
    #[verifier::external_body]
    pub fn downcast_ref<T>(&self) -> (r: Option<&T>)
        ensures r is Some <==> self.val().0 == tid::<T>(), r is Some ==> self.val().1 == enc(*r->0) { unimplemented!() }
}
impl DashMap<TypeId, VxBoxAny> {
    #[verifier::external_body]
    pub fn get(&self, k: &TypeId, Tracked(w): Tracked<&mut World>) -> (r: Option<DashRef>)
        ensures
            app_read(*old(w), *final(w)),
            r is Some <==> final(w).app.reg.contains_key(*k),
            r is Some ==> r->0.val() == final(w).app.reg[*k] { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &TypeId, Tracked(w): Tracked<&mut World>) -> (r: bool)
        ensures app_read(*old(w), *final(w)), r == final(w).app.reg.contains_key(*k) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert<T>(&self, k: TypeId, v: Box<T>, Tracked(w): Tracked<&mut World>)
        ensures *final(w) == (World { app: App { reg: old(w).app.reg.insert(k, (tid::<T>(), enc(*v))), ..old(w).app }, ..*old(w) }) { unimplemented!() }
}
impl DashMap<String, VxBoxAny> {
    #[verifier::external_body]
    pub fn contains_key(&self, k: &str, Tracked(w): Tracked<&mut World>) -> (r: bool)
        ensures app_read(*old(w), *final(w)), r == final(w).app.names.contains_key(k@) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert<T>(&self, k: String, v: Box<T>, Tracked(w): Tracked<&mut World>)
        ensures *final(w) == (World { app: App { names: old(w).app.names.insert(k@, (tid::<T>(), enc(*v))), ..old(w).app }, ..*old(w) }) { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_queue_registry() -> &'static m_aj::Registry { unimplemented!() }
#[verifier::external_body]
pub struct VxAjAddr { p: u64 }
#[verifier::external_body]
pub fn vx_aj_addr() -> &'static VxAjAddr { unimplemented!() }
pub open spec fn vx_enc_opt<T>(a: Option<T>) -> Option<Any> { match a { Some(x) => Some(enc(x)), None => None } }
/// other callers may start an instance at any time outside this caller's own lock sections
impl VxAjAddr {
    #[verifier::external_body]
    pub fn read(&self, Tracked(w): Tracked<&mut World>) -> (r: Result<&'static Option<Addr<m_aj::AJ>>, PoisonError>)
        ensures
            *final(w) == (World { app: App { aj: final(w).app.aj, ..old(w).app }, ..*old(w) }), aj_grows(*old(w), *final(w)),
            r is Ok && vx_enc_opt(*r->Ok_0) == final(w).app.aj { unimplemented!() }
    /// fails while somebody else holds the lock
    #[verifier::external_body]
    pub fn try_read(&self, Tracked(w): Tracked<&mut World>) -> (r: Result<&'static Option<Addr<m_aj::AJ>>, PoisonError>)
        ensures
            *final(w) == (World { app: App { aj: final(w).app.aj, ..old(w).app }, ..*old(w) }), aj_grows(*old(w), *final(w)),
            r is Ok ==> vx_enc_opt(*r->Ok_0) == final(w).app.aj { unimplemented!() }
    /// a lock section: what the caller finds, and what it leaves
    #[verifier::external_body]
    pub fn write(&self, Tracked(w): Tracked<&mut World>) -> (r: Result<&'static mut Option<Addr<m_aj::AJ>>, PoisonError>)
        ensures
            *final(w) == (World { app: App { aj: final(w).app.aj, replaced: final(w).app.replaced, ..old(w).app }, ..*old(w) }),
            r is Ok && vx_lock_section(*old(w), *final(w), *r->Ok_0, *final(r->Ok_0)) { unimplemented!() }
    #[verifier::external_body]
    pub fn try_write(&self, Tracked(w): Tracked<&mut World>) -> (r: Result<&'static mut Option<Addr<m_aj::AJ>>, PoisonError>)
        ensures
            *final(w) == (World { app: App { aj: final(w).app.aj, replaced: final(w).app.replaced, ..old(w).app }, ..*old(w) }),
            r is Ok ==> vx_lock_section(*old(w), *final(w), *r->Ok_0, *final(r->Ok_0)),
            r is Err ==> aj_grows(*old(w), *final(w)) && final(w).app.replaced == old(w).app.replaced { unimplemented!() }
}
pub open spec fn vx_lock_section(a: World, b: World, found: Option<Addr<m_aj::AJ>>, left: Option<Addr<m_aj::AJ>>) -> bool {
    &&& a.app.aj is Some ==> vx_enc_opt(found) == a.app.aj
    &&& vx_enc_opt(left) == b.app.aj
    &&& b.app.replaced == (a.app.replaced || found is Some && vx_enc_opt(left) != vx_enc_opt(found))
}
#[verifier::external_body]
pub struct System { p: u64 }
impl System {
    #[verifier::external_body]
    pub fn try_current() -> Option<System> { unimplemented!() }
    #[verifier::external_body]
    pub fn current() -> System { unimplemented!() }
    #[verifier::external_body]
    pub fn new() -> System { unimplemented!() }
}
/// thread::spawn(..).join(): the thread's work is done when join returns
pub fn vx_joined<T>(x: T) -> (r: Result<T, PoisonError>) ensures r == Ok::<T, PoisonError>(x) { Ok(x) }
// ---- starting an actor
#[verifier::external_body]
pub struct Arbiter { p: u64 }
#[verifier::external_body]
pub struct ArbiterHandle { p: u64 }
impl Arbiter {
    #[verifier::external_body]
    pub fn new() -> Arbiter { unimplemented!() }
    #[verifier::external_body]
    pub fn handle(&self, Tracked(w): Tracked<&mut World>) -> ArbiterHandle ensures *final(w) == *old(w) { unimplemented!() }
}
/// the constructor of the new actor runs in some later state
#[verifier::external_body]
pub fn vx_actor_start(Ghost(g): Ghost<(Str, Any)>, Tracked(w): Tracked<&mut World>) ensures vx_starts(*final(w), g.0) { unimplemented!() }
pub uninterp spec fn vx_starts(w: World, name: Str) -> bool;
/// ... in which the backend holds what a queue of this name and job type left (or nothing at all: lemma_empty)
pub axiom fn vx_queue_state<M>(w: World, name: Str)
    requires vx_starts(w, name),
    ensures w.qname == name, !w.faulted ==> inv::<M>(w) && counters_ok::<M>(w), list(w, JobStatus::Queued).len() <= i32::MAX;
/// an empty backend satisfies the invariant
pub proof fn lemma_empty<M>(w: World)
    requires forall|s: JobStatus| #[trigger] list(w, s) =~= Seq::<Str>::empty(), forall|n: Str, k: Str| (#[trigger] w.st(n, k)) is None,
    ensures inv::<M>(w) { reveal(inv); }
#[verifier::external_body]
pub fn vx_context<A>() -> Context<A> { unimplemented!() }
#[verifier::external_body]
pub fn vx_started<A, H>(h: &H, Ghost(g): Ghost<(Str, Any)>, Tracked(w): Tracked<&mut World>) -> (r: Addr<A>)
    ensures *final(w) == (World { app: App { started: old(w).app.started.push(Started { addr: enc(r), name: g.0, backend: g.1 }), ..old(w).app }, ..*old(w) }) { unimplemented!() }
}
verus! {
impl m_mem::InMemory {
    #[verifier::external_body]
    pub fn default() -> m_mem::InMemory { unimplemented!() }
}
}
