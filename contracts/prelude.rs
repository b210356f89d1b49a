// Trusted prelude: stand-ins for std / chrono / serde / actix types with assumed
// contracts, the ghost world, and the axioms about them.  Every `external_body`,
// `axiom` and `assume_specification` in this file is listed in the evidence as an
// assumption.
#![feature(allocator_api)]
#![allow(unused_imports, unused_variables, unused_mut, dead_code, non_snake_case, unused_parens, unused_assignments)]
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use vstd::std_specs::convert::*;
use vstd::std_specs::ops::*;
use std::marker::PhantomData;
use std::ops::Deref;
use std::sync::Arc;
verus! {

pub type Str = Seq<char>;
use crate::m_job_context::JobStatus;

// ---------------------------------------------------------------- the ghost world
/// Events seen by one job, in order.
pub enum Note {
    /// a plugin message about this job
    Status { ty: TypeId, st: JobStatus },
    Before { ty: TypeId },
    After { ty: TypeId },
    /// calls of the job's own code
    Pre { cx: Any, d0: Any, d1: Any },
    Exec { cx: Any, d0: Any, d1: Any, out: Any },
    Post { cx: Any, d0: Any, out0: Any, d1: Any, out1: Any },
    /// retry_at: retry state before and after, and the answer; c0..c1 are the clock readings made by it
    Retry { d: Any, rc0: Any, out: Any, rc1: Any, res: Option<DateTime<Utc>>, c0: nat, c1: nat },
}
/// a value of any type, so that ghost logs can hold values of job types
#[verifier::external_body]
pub struct Any { p: u64 }
pub uninterp spec fn enc<T>(t: T) -> Any;
pub uninterp spec fn dec<T>(a: Any) -> T;
pub broadcast axiom fn ax_enc<T>(t: T)
    ensures dec::<T>(#[trigger] enc::<T>(t)) == t;

pub tracked struct World {
    /// named lists of the backend (absent = empty)
    pub ghost queues: spec_fn(Str) -> Seq<Str>,
    /// hash entries of the backend
    pub ghost store: spec_fn(Str, Str) -> Option<Str>,
    /// every clock reading so far
    pub ghost clock: Seq<int>,
    /// per job id: plugin notifications and user code calls
    pub ghost notes: spec_fn(Str) -> Seq<Note>,
    /// a backend operation has failed
    pub ghost faulted: bool,
    /// lock sections opened by the current backend operation
    pub ghost locks: nat,
    /// name of the queue under consideration
    pub ghost qname: Str,
    /// the job whose execution this is (when this is a job execution)
    pub ghost me: Str,
    /// job executions handed to the runtime
    pub ghost tasks: Seq<Str>,
    /// how many uuids have been drawn
    pub ghost drawn: nat,
    /// how often this execution has run the body of a job
    pub ghost runs: nat,
    /// delays of the ticks handed to the runtime
    pub ghost ticks: Seq<int>,
    /// calls of plugin hooks
    pub ghost hooks: Seq<HookCall>,
    /// what happens outside the queues
    pub ghost app: App,
}
/// the state shared by the whole application
pub ghost struct App {
    /// messages sent to queues, with their answers (None: not delivered)
    pub sent: Seq<Sent>,
    /// messages sent to the running instance
    pub asked: Seq<Asked>,
    /// plugins sent to the plugin centre
    pub plugged: Seq<Any>,
    /// the running instance
    pub aj: Option<Any>,
    /// a running instance was replaced by another one
    pub replaced: bool,
    /// queue address per job type (with the type of the address)
    pub reg: Map<TypeId, (TypeId, Any)>,
    /// names of the registered queues
    pub names: Map<Str, (TypeId, Any)>,
    /// queues started: address, name, backend
    pub started: Seq<Started>,
    /// this is the running instance handling a message (nobody else registers queues)
    pub in_aj: bool,
}
pub ghost struct Sent { pub to: Any, pub msg: Any, pub ans: Option<Any> }
pub ghost struct Asked { pub to: Any, pub msg: Any }
pub ghost struct Started { pub addr: Any, pub name: Str, pub backend: Any }

pub struct HookCall {
    pub plugin: int,
    pub job: Str,
    pub what: Hook,
}
pub enum Hook { Status(JobStatus), Before, After }

impl World {
    #[verifier::inline]
    pub open spec fn q(&self, n: Str) -> Seq<Str> {
        (self.queues)(n)
    }
    #[verifier::inline]
    pub open spec fn st(&self, h: Str, k: Str) -> Option<Str> {
        (self.store)(h, k)
    }
    pub open spec fn now(&self) -> int { self.clock.last() }
    #[verifier::inline]
    pub open spec fn n(&self, id: Str) -> Seq<Note> {
        (self.notes)(id)
    }
    pub open spec fn same_but_clock(&self, o: World) -> bool {
        &&& self.queues == o.queues
        &&& self.store == o.store
        &&& self.same_env(o)
    }
    /// everything except backend state, clock and lock sections
    pub open spec fn same_env(&self, o: World) -> bool {
        &&& self.notes == o.notes
        &&& self.qname == o.qname
        &&& self.me == o.me
        &&& self.tasks == o.tasks
        &&& self.runs == o.runs
        &&& self.ticks == o.ticks
        &&& self.hooks == o.hooks
        &&& self.faulted == o.faulted
    }
}

/// Entering a backend operation: no lock section is open yet.
pub axiom fn vx_begin_op(tracked w: &mut World)
    ensures
        final(w).locks == 0,
        final(w).queues == old(w).queues,
        final(w).store == old(w).store,
        final(w).clock == old(w).clock,
        final(w).same_env(*old(w));

pub open spec fn ids(s: Seq<String>) -> Seq<Str> { s.map_values(|x: String| x@) }

// ---------------------------------------------------------------- strings
pub broadcast axiom fn ax_string_eq(a: String, b: String)
    ensures #[trigger] a.eq_spec(&b) == (a@ == b@);
pub broadcast axiom fn ax_string_obeys()
    ensures #[trigger] <String as PartialEqSpec<String>>::obeys_eq_spec();
pub broadcast axiom fn ax_string_str_eq(a: String, b: &str)
    ensures #[trigger] <String as PartialEqSpec<str>>::eq_spec(&a, b) == (a@ == b@);
pub broadcast axiom fn ax_string_str_obeys()
    ensures #[trigger] <String as PartialEqSpec<str>>::obeys_eq_spec();
pub broadcast axiom fn ax_str_string_eq(a: &str, b: String)
    ensures #[trigger] <str as PartialEqSpec<String>>::eq_spec(a, &b) == (a@ == b@);
pub broadcast axiom fn ax_str_string_obeys()
    ensures #[trigger] <str as PartialEqSpec<String>>::obeys_eq_spec();
pub broadcast axiom fn ax_string_ext(a: String, b: String)
    ensures #![trigger a@, b@] a@ == b@ ==> a == b;
pub broadcast axiom fn ax_string_from(a: &str)
    ensures (#[trigger] <String as FromSpec<&str>>::from_spec(a))@ == a@;
pub broadcast axiom fn ax_string_from_obeys()
    ensures #[trigger] <String as FromSpec<&str>>::obeys_from_spec();
pub broadcast axiom fn ax_arc_from<T>(a: T)
    ensures *(#[trigger] <Arc<T> as FromSpec<T>>::from_spec(a)) == a;
pub broadcast axiom fn ax_arc_from_obeys<T>()
    ensures #[trigger] <Arc<T> as FromSpec<T>>::obeys_from_spec();

pub broadcast axiom fn ax_string_to_string(a: &String, r: String)
    ensures #[trigger] vstd::string::to_string_from_display_ensures::<String>(a, r) ==> r@ == a@;

pub broadcast axiom fn ax_arc_string_to_string(a: &Arc<String>, r: String)
    ensures #[trigger] vstd::string::to_string_from_display_ensures::<Arc<String>>(a, r) ==> r@ == (**a)@;
pub assume_specification<T>[ Option::<T>::replace ](o: &mut Option<T>, v: T) -> (r: Option<T>)
    ensures r == *old(o), *final(o) == Some(v);
pub assume_specification<T>[ Option::<Option<T>>::flatten ](o: Option<Option<T>>) -> (r: Option<T>)
    ensures r == (match o { Some(x) => x, None => None });
pub assume_specification<T, E>[ Result::<T, E>::unwrap_or ](o: Result<T, E>, d: T) -> (r: T)
    ensures r == (match o { Ok(x) => x, Err(_) => d });

pub assume_specification<T>[ Option::<T>::or ](o: Option<T>, v: Option<T>) -> (r: Option<T>)
    ensures r == (match o { Some(x) => Some(x), None => v });
pub assume_specification<T>[ Option::<T>::xor ](o: Option<T>, v: Option<T>) -> (r: Option<T>)
    ensures r == (match (o, v) { (Some(x), None) => Some(x), (None, Some(x)) => Some(x), _ => None });
pub assume_specification<T, U>[ Option::<T>::and ](o: Option<T>, v: Option<U>) -> (r: Option<U>)
    ensures r == (match o { Some(_) => v, None => None });
pub assume_specification<T, U>[ Option::<T>::zip ](o: Option<T>, v: Option<U>) -> (r: Option<(T, U)>)
    ensures r == (match (o, v) { (Some(x), Some(y)) => Some((x, y)), _ => None });
pub uninterp spec fn str_lower(s: Str) -> Str;
pub uninterp spec fn str_upper(s: Str) -> Str;
pub uninterp spec fn str_ascii_lower(s: Str) -> Str;
pub uninterp spec fn str_ascii_upper(s: Str) -> Str;
pub uninterp spec fn str_trim(s: Str) -> Str;
pub uninterp spec fn str_same_letters(s: Str, t: Str) -> bool;
pub assume_specification[ str::to_lowercase ](s: &str) -> (r: String) ensures r@ == str_lower(s@);
pub assume_specification[ str::to_uppercase ](s: &str) -> (r: String) ensures r@ == str_upper(s@);
pub assume_specification[ str::to_ascii_lowercase ](s: &str) -> (r: String) ensures r@ == str_ascii_lower(s@);
pub assume_specification[ str::to_ascii_uppercase ](s: &str) -> (r: String) ensures r@ == str_ascii_upper(s@);
pub assume_specification[ str::trim ](s: &str) -> (r: &str) ensures r@ == str_trim(s@);
pub assume_specification[ str::eq_ignore_ascii_case ](s: &str, t: &str) -> (r: bool) ensures r == str_same_letters(s@, t@);
pub open spec fn str_starts(s: Str, p: Str) -> bool { p.len() <= s.len() && s.take(p.len() as int) == p }
pub open spec fn str_ends(s: Str, p: Str) -> bool { p.len() <= s.len() && s.skip(s.len() - p.len()) == p }
/// str::starts_with and the like with a string as the pattern
pub trait VxStrLike {
    spec fn vx_chars(&self) -> Str;
    #[verifier::external_body]
    fn vx_starts_with<P: VxV<VV = Str>>(&self, p: P) -> (r: bool)
        ensures r == str_starts(self.vx_chars(), p.vxv()) { unimplemented!() }
    #[verifier::external_body]
    fn vx_ends_with<P: VxV<VV = Str>>(&self, p: P) -> (r: bool)
        ensures r == str_ends(self.vx_chars(), p.vxv()) { unimplemented!() }
}
impl VxStrLike for String { open spec fn vx_chars(&self) -> Str { self@ } }
impl VxStrLike for str { open spec fn vx_chars(&self) -> Str { self@ } }

pub trait VxV {
    type VV;
    spec fn vxv(&self) -> Self::VV;
}
impl VxV for String { type VV = Str; open spec fn vxv(&self) -> Str { self@ } }
impl VxV for str { type VV = Str; open spec fn vxv(&self) -> Str { self@ } }
impl VxV for usize { type VV = usize; open spec fn vxv(&self) -> usize { *self } }
impl VxV for i32 { type VV = i32; open spec fn vxv(&self) -> i32 { *self } }
impl VxV for TypeId { type VV = TypeId; open spec fn vxv(&self) -> TypeId { *self } }
impl VxV for i64 { type VV = i64; open spec fn vxv(&self) -> i64 { *self } }
impl VxV for u64 { type VV = u64; open spec fn vxv(&self) -> u64 { *self } }
impl VxV for bool { type VV = bool; open spec fn vxv(&self) -> bool { *self } }
impl<T: VxV + ?Sized> VxV for &T { type VV = T::VV; open spec fn vxv(&self) -> T::VV { (**self).vxv() } }

/// the value behind references
pub trait VxOwn {
    type O;
    spec fn own(&self) -> Self::O;
}
impl VxOwn for String { type O = String; open spec fn own(&self) -> String { *self } }
impl<T> VxOwn for Arc<T> { type O = Arc<T>; open spec fn own(&self) -> Arc<T> { *self } }
impl<M> VxOwn for crate::m_job::Job<M> { type O = crate::m_job::Job<M>; open spec fn own(&self) -> crate::m_job::Job<M> { *self } }
impl<T: VxOwn> VxOwn for &T { type O = T::O; open spec fn own(&self) -> T::O { (**self).own() } }
pub open spec fn owned<A: VxOwn>(s: Seq<A>) -> Seq<A::O> { s.map_values(|x: A| x.own()) }

pub broadcast proof fn lemma_owned_job<M>(s: Seq<crate::m_job::Job<M>>)
    ensures #[trigger] owned(s) == s
{ assert(owned(s) =~= s); }
pub broadcast proof fn lemma_owned_string(s: Seq<String>)
    ensures #[trigger] owned(s) == s
{ assert(owned(s) =~= s); }
pub broadcast proof fn lemma_owned_arc<T>(s: Seq<Arc<T>>)
    ensures #[trigger] owned(s) == s
{ assert(owned(s) =~= s); }

pub trait VxDisplay {
    spec fn disp(&self) -> Str;
    fn vx_disp(&self) -> (r: String) ensures r@ == self.disp();
}
impl VxDisplay for String {
    open spec fn disp(&self) -> Str { self@ }
    #[verifier::external_body]
    fn vx_disp(&self) -> (r: String) { unimplemented!() }
}
impl VxDisplay for str {
    open spec fn disp(&self) -> Str { self@ }
    #[verifier::external_body]
    fn vx_disp(&self) -> (r: String) { unimplemented!() }
}
impl<T: VxDisplay + ?Sized> VxDisplay for &T {
    open spec fn disp(&self) -> Str { (**self).disp() }
    #[verifier::external_body]
    fn vx_disp(&self) -> (r: String) { unimplemented!() }
}
impl<T: VxDisplay> VxDisplay for Arc<T> {
    open spec fn disp(&self) -> Str { (**self).disp() }
    #[verifier::external_body]
    fn vx_disp(&self) -> (r: String) { unimplemented!() }
}
pub trait VxDebug {
    spec fn dbg(&self) -> Str;
    fn vx_dbg(&self) -> (r: String) ensures r@ == self.dbg();
}
#[verifier::external_body]
pub fn vx_lit(s: &str) -> (r: String) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body]
pub fn vx_cat(a: String, b: String) -> (r: String) ensures r@ == a@ + b@ { unimplemented!() }
pub struct RedisError { pub k: u64 }
pub struct MailboxError { pub k: u64 }
pub fn vx_panic()
    requires false
{ }
#[verifier::external_body]
pub fn vx_never<T>() -> (r: T)
    requires false
{ unimplemented!() }

// ---------------------------------------------------------------- Option and Result combinators
/// `Option<T>` as (nothing, content) and `Result<T, E>` as (error, content)
pub struct VxNone { pub k: bool }
pub struct VxErr<E> { pub e: Option<E> }
pub trait VxSplit: Sized {
    type K;
    type T;
    fn vx_split(self) -> (r: (Self::K, Option<Self::T>));
}
impl<T> VxSplit for Option<T> {
    type K = VxNone;
    type T = T;
    fn vx_split(self) -> (r: (VxNone, Option<T>)) ensures r.1 == self { (VxNone { k: true }, self) }
}
impl<T, E> VxSplit for Result<T, E> {
    type K = VxErr<E>;
    type T = T;
    fn vx_split(self) -> (r: (VxErr<E>, Option<T>))
        ensures
            self is Ok ==> r.1 == Some(self->Ok_0),
            self is Err ==> r.1 is None && r.0.e == Some(self->Err_0)
    { match self { Ok(x) => (VxErr { e: None }, Some(x)), Err(e) => (VxErr { e: Some(e) }, None) } }
}
impl VxNone {
    pub fn vx_join<U>(self, o: Option<U>) -> (r: Option<U>) ensures r == o { o }
}
impl<E> VxErr<E> {
    pub fn vx_join<U>(self, o: Option<U>) -> (r: Result<U, E>)
        requires o is None ==> self.e is Some
        ensures r == (match o { Some(x) => Ok::<U, E>(x), None => Err(self.e->0) })
    { match o { Some(x) => Ok(x), None => match self.e { Some(e) => Err(e), None => vx_never() } } }
}

pub proof fn lemma_cat_cancel(pre: Str, x: Str, y: Str, post: Str)
    requires pre + x + post == pre + y + post,
    ensures x == y,
{
    assert((pre + x + post).len() == pre.len() + x.len() + post.len());
    assert((pre + y + post).len() == pre.len() + y.len() + post.len());
    assert(x.len() == y.len());
    assert forall|i: int| 0 <= i < x.len() implies x[i] == y[i] by {
        assert((pre + x + post)[pre.len() + i] == x[i]);
        assert((pre + y + post)[pre.len() + i] == y[i]);
    }
    assert(x =~= y);
}

// ---------------------------------------------------------------- collections
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct HashMap<K, V> { k: Vec<(K, V)> }
impl<K: View, V> View for HashMap<K, V> { type V = Map<K::V, V>; uninterp spec fn view(&self) -> Map<K::V, V>; }
impl<K: View, V> HashMap<K, V> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<K::V, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn get<Q: View<V = K::V> + ?Sized>(&self, k: &Q) -> (r: Option<&V>)
        ensures r == (if self@.contains_key(k@) { Some(&self@[k@]) } else { None }) { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key<Q: View<V = K::V> + ?Sized>(&self, k: &Q) -> (r: bool)
        ensures r == self@.contains_key(k@) { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut<Q: View<V = K::V> + ?Sized>(&mut self, k: &Q) -> (r: Option<&mut V>)
        ensures
            r is Some <==> old(self)@.contains_key(k@),
            r is Some ==> *r->0 == old(self)@[k@] && final(self)@ == old(self)@.insert(k@, *final(r->0)),
            r is None ==> final(self)@ == old(self)@ { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures
            final(self)@ == old(self)@.insert(k@, v),
            r == (if old(self)@.contains_key(k@) { Some(old(self)@[k@]) } else { None }) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove<Q: View<V = K::V> + ?Sized>(&mut self, k: &Q) -> (r: Option<V>)
        ensures
            final(self)@ == old(self)@.remove(k@),
            r == (if old(self)@.contains_key(k@) { Some(old(self)@[k@]) } else { None }) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_or_insert<'a>(&'a mut self, k: K, v: V) -> (r: &'a mut V)
        ensures
            *r == (if old(self)@.contains_key(k@) { old(self)@[k@] } else { v }),
            final(self)@ == old(self)@.insert(k@, *final(r)) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
}
pub trait VxEmpty: Sized { spec fn vx_is_empty(self) -> bool; }
impl<T> VxEmpty for VecDeque<T> { open spec fn vx_is_empty(self) -> bool { self@ == Seq::<T>::empty() } }
impl<K: View, V> VxEmpty for HashMap<K, V> { open spec fn vx_is_empty(self) -> bool { self@ == Map::<K::V, V>::empty() } }
impl<K: View, V: VxEmpty> HashMap<K, V> {
    #[verifier::external_body]
    pub fn vx_or_default<'a>(&'a mut self, k: K) -> (r: &'a mut V)
        ensures
            old(self)@.contains_key(k@) ==> *r == old(self)@[k@],
            !old(self)@.contains_key(k@) ==> (*r).vx_is_empty(),
            final(self)@ == old(self)@.insert(k@, *final(r)) { unimplemented!() }
}
pub trait VxAt<I> {
    type Out;
    spec fn at_ok(&self, i: I) -> bool;
    spec fn at_spec(&self, i: I) -> Self::Out;
    fn vx_at(&self, i: I) -> (r: &Self::Out) requires self.at_ok(i) ensures *r == self.at_spec(i);
}
impl<T> VxAt<usize> for VecDeque<T> {
    type Out = T;
    open spec fn at_ok(&self, i: usize) -> bool { i < self@.len() }
    open spec fn at_spec(&self, i: usize) -> T { self@[i as int] }
    #[verifier::external_body]
    fn vx_at(&self, i: usize) -> &T { unimplemented!() }
}
impl<T> VxAt<usize> for Vec<T> {
    type Out = T;
    open spec fn at_ok(&self, i: usize) -> bool { i < self@.len() }
    open spec fn at_spec(&self, i: usize) -> T { self@[i as int] }
    #[verifier::external_body]
    fn vx_at(&self, i: usize) -> &T { unimplemented!() }
}
impl<'q, K: View, V, Q: View<V = K::V> + ?Sized> VxAt<&'q Q> for HashMap<K, V> {
    type Out = V;
    open spec fn at_ok(&self, i: &'q Q) -> bool { self@.contains_key(i@) }
    open spec fn at_spec(&self, i: &'q Q) -> V { self@[i@] }
    #[verifier::external_body]
    fn vx_at(&self, i: &'q Q) -> &V { unimplemented!() }
}

#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VecDeque<T> { k: Vec<T> }
impl<T> View for VecDeque<T> { type V = Seq<T>; uninterp spec fn view(&self) -> Seq<T>; }
impl<T> VecDeque<T> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Seq::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn from<const N: usize>(a: [T; N]) -> (r: Self) ensures r@ == a@ { unimplemented!() }
    #[verifier::external_body]
    pub fn push_front(&mut self, v: T) ensures final(self)@ == seq![v] + old(self)@ { unimplemented!() }
    #[verifier::external_body]
    pub fn push_back(&mut self, v: T) ensures final(self)@ == old(self)@.push(v) { unimplemented!() }
    #[verifier::external_body]
    pub fn pop_front(&mut self) -> (r: Option<T>)
        ensures
            old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r == Some(old(self)@[0]) && final(self)@ == old(self)@.drop_first() { unimplemented!() }
    #[verifier::external_body]
    pub fn pop_back(&mut self) -> (r: Option<T>)
        ensures
            old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r == Some(old(self)@.last()) && final(self)@ == old(self)@.drop_last() { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self)@ == Seq::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn front(&self) -> (r: Option<&T>) ensures r == (if 0 < self@.len() { Some(&self@[0]) } else { None }) { unimplemented!() }
    #[verifier::external_body]
    pub fn back(&self) -> (r: Option<&T>) ensures r == (if 0 < self@.len() { Some(&self@.last()) } else { None }) { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, i: usize) -> (r: Option<&T>) ensures r == (if i < self@.len() { Some(&self@[i as int]) } else { None }) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, i: usize, v: T)
        requires i <= old(self)@.len()
        ensures final(self)@ == old(self)@.insert(i as int, v) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, i: usize) -> (r: Option<T>)
        ensures
            i < old(self)@.len() ==> r == Some(old(self)@[i as int]) && final(self)@ == old(self)@.remove(i as int),
            i >= old(self)@.len() ==> r is None && final(self)@ == old(self)@ { unimplemented!() }
    #[verifier::external_body]
    pub fn truncate(&mut self, n: usize)
        ensures final(self)@ == (if n < old(self)@.len() { old(self)@.take(n as int) } else { old(self)@ }) { unimplemented!() }
    #[verifier::external_body]
    pub fn append(&mut self, o: &mut VecDeque<T>)
        ensures final(self)@ == old(self)@ + old(o)@, final(o)@ == Seq::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_retain<F: Fn(&T) -> bool>(&mut self, f: F, Ghost(p): Ghost<spec_fn(&T) -> bool>)
        requires
            forall|x: &T| f.requires((x,)),
            forall|x: &T, b: bool| f.ensures((x,), b) ==> b == p(x),
        ensures final(self)@ == old(self)@.filter(|x: T| p(&x)) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_iter_ref(&self) -> (r: VxIter<&T>)
        ensures r.vx_wf(), r.pos() == 0, r.elems() == self@.map_values(|x: T| &x),
            forall|i: int| 0 <= i < self@.len() ==> *r.elems()[i] == #[trigger] self@[i] { unimplemented!() }
}

impl VecDeque<String> {
    #[verifier::external_body]
    pub fn contains(&self, x: &String) -> (r: bool) ensures r == ids(self@).contains(x@) { unimplemented!() }
}

// ---------------------------------------------------------------- iterators
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VxIter<T> { p: PhantomData<T> }
impl<T> VxIter<T> {
    pub uninterp spec fn elems(&self) -> Seq<T>;
    pub uninterp spec fn pos(&self) -> int;
    pub open spec fn vx_wf(&self) -> bool { 0 <= self.pos() <= self.elems().len() }
    pub open spec fn rest(&self) -> Seq<T> { self.elems().skip(self.pos()) }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<T>)
        requires old(self).vx_wf(),
        ensures
            final(self).elems() == old(self).elems(), final(self).vx_wf(),
            old(self).pos() < old(self).elems().len() ==> r == Some(old(self).elems()[old(self).pos()]) && final(self).pos() == old(self).pos() + 1,
            old(self).pos() >= old(self).elems().len() ==> r is None && final(self).pos() == old(self).pos() { unimplemented!() }
    #[verifier::external_body]
    pub fn rev(self) -> (r: VxIter<T>)
        requires self.vx_wf(), self.pos() == 0
        ensures r.vx_wf(), r.pos() == 0, r.elems() == self.elems().reverse() { unimplemented!() }
    #[verifier::external_body]
    pub fn take(self, n: usize) -> (r: VxIter<T>)
        requires self.vx_wf(), self.pos() == 0
        ensures r.vx_wf(), r.pos() == 0, r.elems() == (if n < self.elems().len() { self.elems().take(n as int) } else { self.elems() }) { unimplemented!() }
    #[verifier::external_body]
    pub fn skip(self, n: usize) -> (r: VxIter<T>)
        requires self.vx_wf(), self.pos() == 0
        ensures r.vx_wf(), r.pos() == 0, r.elems() == (if n < self.elems().len() { self.elems().skip(n as int) } else { Seq::empty() }) { unimplemented!() }
    #[verifier::external_body]
    pub fn collect(self) -> (r: Vec<T>)
        requires self.vx_wf(), self.pos() == 0
        ensures r@ == self.elems() { unimplemented!() }
    #[verifier::external_body]
    pub fn count(self) -> (r: usize)
        requires self.vx_wf(), self.pos() == 0
        ensures r == self.elems().len() { unimplemented!() }
    pub fn vx_into_iter(self) -> (r: VxIter<T>) ensures r == self { self }
    #[verifier::external_body]
    pub fn vx_any<F: Fn(T) -> bool>(self, f: F) -> (r: bool)
        requires
            self.vx_wf(), self.pos() == 0,
            forall|x: T| f.requires((x,)),
        ensures
            r ==> exists|i: int| 0 <= i < self.elems().len() && f.ensures((#[trigger] self.elems()[i],), true),
            !r ==> forall|i: int| 0 <= i < self.elems().len() ==> f.ensures((#[trigger] self.elems()[i],), false) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_all<F: Fn(T) -> bool>(self, f: F) -> (r: bool)
        requires
            self.vx_wf(), self.pos() == 0,
            forall|x: T| f.requires((x,)),
        ensures
            r ==> forall|i: int| 0 <= i < self.elems().len() ==> f.ensures((#[trigger] self.elems()[i],), true),
            !r ==> exists|i: int| 0 <= i < self.elems().len() && f.ensures((#[trigger] self.elems()[i],), false) { unimplemented!() }
}
impl<T> VxIter<T> {
    #[verifier::external_body]
    pub fn vx_position<F: Fn(T) -> bool>(self, f: F, Ghost(p): Ghost<spec_fn(T) -> bool>) -> (r: Option<usize>)
        requires
            self.vx_wf(), self.pos() == 0,
            forall|x: T| f.requires((x,)),
            forall|x: T, b: bool| f.ensures((x,), b) ==> b == p(x),
        ensures
            r is Some ==> r->0 < self.elems().len() && p(self.elems()[r->0 as int]) && (forall|j: int| 0 <= j < r->0 ==> !p(#[trigger] self.elems()[j])),
            r is None ==> forall|j: int| 0 <= j < self.elems().len() ==> !p(#[trigger] self.elems()[j]) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_find<F: Fn(&T) -> bool>(self, f: F, Ghost(p): Ghost<spec_fn(&T) -> bool>) -> (r: Option<T>)
        requires
            self.vx_wf(), self.pos() == 0,
            forall|x: &T| f.requires((x,)),
            forall|x: &T, b: bool| f.ensures((x,), b) ==> b == p(x),
        ensures
            r is Some ==> exists|i: int| 0 <= i < self.elems().len() && r->0 == #[trigger] self.elems()[i] && p(&self.elems()[i]) && (forall|j: int| 0 <= j < i ==> !p(&#[trigger] self.elems()[j])),
            r is None ==> forall|j: int| 0 <= j < self.elems().len() ==> !p(&#[trigger] self.elems()[j]) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_filter<F: Fn(&T) -> bool>(self, f: F, Ghost(p): Ghost<spec_fn(&T) -> bool>) -> (r: VxIter<T>)
        requires
            self.vx_wf(), self.pos() == 0,
            forall|x: &T| f.requires((x,)),
            forall|x: &T, b: bool| f.ensures((x,), b) ==> b == p(x),
        ensures r.vx_wf(), r.pos() == 0, r.elems() == self.elems().filter(|x: T| p(&x)) { unimplemented!() }
}
impl<'a, T> VxIter<&'a T> {
    #[verifier::external_body]
    pub fn cloned(self) -> (r: VxIter<T>)
        requires self.vx_wf(), self.pos() == 0
        ensures r.vx_wf(), r.pos() == 0, r.elems() == self.elems().map_values(|x: &T| *x) { unimplemented!() }
}
pub trait VxIntoIter: Sized {
    type VxItem;
    spec fn vx_elems(&self) -> Seq<Self::VxItem>;
    fn vx_into_iter(self) -> (r: VxIter<Self::VxItem>)
        ensures r.vx_wf(), r.pos() == 0, r.elems() == self.vx_elems();
}
impl<T> VxIntoIter for Vec<T> {
    type VxItem = T;
    open spec fn vx_elems(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_into_iter(self) -> VxIter<T> { unimplemented!() }
}
impl<T> VxIntoIter for Option<T> {
    type VxItem = T;
    open spec fn vx_elems(&self) -> Seq<T> { match *self { Some(x) => seq![x], None => Seq::empty() } }
    #[verifier::external_body]
    fn vx_into_iter(self) -> VxIter<T> { unimplemented!() }
}
impl<'a, T> VxIntoIter for &'a Vec<T> {
    type VxItem = &'a T;
    open spec fn vx_elems(&self) -> Seq<&'a T> { self@.map_values(|x: T| &x) }
    #[verifier::external_body]
    fn vx_into_iter(self) -> VxIter<&'a T> { unimplemented!() }
}
pub trait VxIterRef {
    type VxT;
    spec fn vx_ref_elems(&self) -> Seq<Self::VxT>;
    fn vx_iter_ref<'a>(&'a self) -> (r: VxIter<&'a Self::VxT>)
        ensures r.vx_wf(), r.pos() == 0, r.elems() == self.vx_ref_elems().map_values(|x: Self::VxT| &x),
            forall|i: int| 0 <= i < self.vx_ref_elems().len() ==> *r.elems()[i] == #[trigger] self.vx_ref_elems()[i];
}
impl<T> VxIterRef for Vec<T> {
    type VxT = T;
    open spec fn vx_ref_elems(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_iter_ref<'a>(&'a self) -> VxIter<&'a T> { unimplemented!() }
}
impl<T> VxIterRef for [T] {
    type VxT = T;
    open spec fn vx_ref_elems(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_iter_ref<'a>(&'a self) -> VxIter<&'a T> { unimplemented!() }
}
impl<'a, T> VxIntoIter for &'a [T] {
    type VxItem = &'a T;
    open spec fn vx_elems(&self) -> Seq<&'a T> { self@.map_values(|x: T| &x) }
    #[verifier::external_body]
    fn vx_into_iter(self) -> VxIter<&'a T> { unimplemented!() }
}
pub trait VxExtend<T> {
    fn vx_extend(&mut self, it: VxIter<T>) requires it.vx_wf(), it.pos() == 0;
}
impl<T> VxExtend<T> for Vec<T> {
    #[verifier::external_body]
    fn vx_extend(&mut self, it: VxIter<T>) ensures final(self)@ == old(self)@ + it.elems() { unimplemented!() }
}
pub trait VxStep: Sized + Copy {
    spec fn vx_int(&self) -> int;
}
impl VxStep for usize {
    open spec fn vx_int(&self) -> int { *self as int }
}
impl VxStep for i32 {
    open spec fn vx_int(&self) -> int { *self as int }
}
pub open spec fn vx_range_is<T: VxStep>(s: Seq<T>, a: int, b: int) -> bool {
    &&& s.len() == (if b > a { b - a } else { 0 })
    &&& forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).vx_int() == a + i
}
#[verifier::external_body]
pub fn vx_range<T: VxStep>(a: T, b: T) -> (r: VxIter<T>)
    ensures r.vx_wf(), r.pos() == 0, vx_range_is(r.elems(), a.vx_int(), b.vx_int()) { unimplemented!() }
#[verifier::external_body]
pub fn vx_range_incl<T: VxStep>(a: T, b: T) -> (r: VxIter<T>)
    ensures r.vx_wf(), r.pos() == 0, vx_range_is(r.elems(), a.vx_int(), b.vx_int() + 1) { unimplemented!() }

pub broadcast group vx_axioms {
    ax_string_eq,
    ax_string_obeys,
    lemma_owned_job,
    lemma_owned_string,
    lemma_owned_arc,
    ax_string_str_eq,
    ax_string_str_obeys,
    ax_str_string_eq,
    ax_str_string_obeys,
    ax_string_ext,
    ax_string_from,
    ax_string_from_obeys, ax_arc_from, ax_arc_from_obeys,
    ax_string_to_string,
    ax_arc_string_to_string,
    ax_enc,
    lemma_dt,
    ax_arc_clone,
    ax_ser_ref,
    ax_job_roundtrip,
    ax_queue_of,
}
pub broadcast proof fn lemma_ids_len(s: Seq<String>)
    ensures #[trigger] ids(s).len() == s.len(),
{
}
pub broadcast proof fn lemma_ids_index(s: Seq<String>, i: int)
    requires 0 <= i < s.len(),
    ensures #[trigger] ids(s)[i] == s[i]@,
{
}

// ---------------------------------------------------------------- locks
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Mutex<T> { v: T }
#[derive(Debug)]
pub struct PoisonError;

pub type QMap = HashMap<String, VecDeque<String>>;
pub type SMap = HashMap<String, HashMap<String, String>>;
pub open spec fn qat(m: QMap, n: Str) -> Seq<Str> { if m@.contains_key(n) { ids(m@[n]@) } else { Seq::empty() } }
/// hash -> key -> value
pub open spec fn sat(m: SMap, h: Str, k: Str) -> Option<Str> {
    if m@.contains_key(h) && m@[h]@.contains_key(k) { Some(m@[h]@[k]@) } else { None }
}
/// The first lock section of an operation sees the shared state as it was when the
/// operation started; a second one sees whatever other threads left behind.
impl Mutex<QMap> {
    #[verifier::external_body]
    pub fn lock<'a>(&'a self, Tracked(w): Tracked<&'a mut World>) -> (r: Result<&'a mut QMap, PoisonError>)
        ensures
            r is Ok,
            old(w).locks == 0 ==> forall|n: Str| #![trigger (old(w).queues)(n)] #![trigger qat(*r->Ok_0, n)] qat(*r->Ok_0, n) == (old(w).queues)(n),
            forall|n: Str| #![trigger (final(w).queues)(n)] (final(w).queues)(n) == qat(*final(r->Ok_0), n),
            final(w).locks == old(w).locks + 1,
            final(w).store == old(w).store,
            final(w).clock == old(w).clock,
            final(w).same_env(*old(w)) { unimplemented!() }
}
impl Mutex<SMap> {
    #[verifier::external_body]
    pub fn lock<'a>(&'a self, Tracked(w): Tracked<&'a mut World>) -> (r: Result<&'a mut SMap, PoisonError>)
        ensures
            r is Ok,
            old(w).locks == 0 ==> forall|h: Str, k: Str| #![trigger (old(w).store)(h, k)] #![trigger sat(*r->Ok_0, h, k)] sat(*r->Ok_0, h, k) == (old(w).store)(h, k),
            forall|h: Str, k: Str| #![trigger (final(w).store)(h, k)] (final(w).store)(h, k) == sat(*final(r->Ok_0), h, k),
            final(w).locks == old(w).locks + 1,
            final(w).queues == old(w).queues,
            final(w).clock == old(w).clock,
            final(w).same_env(*old(w)) { unimplemented!() }
}
} // verus!
pub mod cron { use super::*; pub use super::Schedule; pub mod error { use super::*; verus!{ pub struct Error { pub k: u64 } } } }
