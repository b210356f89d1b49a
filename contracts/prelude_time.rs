// Trusted stand-ins: chrono, std::time, cron, uuid, serde_json.
verus! {
#[derive(Clone, Copy)]
pub struct Utc;
#[derive(Clone, Copy)]
pub struct DateTime<Tz> { pub ns: i128, pub tz: Tz }
#[derive(Clone, Copy)]
pub struct TimeDelta { pub ns: i128 }

pub spec const DT_MAX: int = 8210266876799_999_999_999;
pub spec const DT_MIN: int = -8334601228800_000_000_000;
pub spec const TD_MAX: int = 9223372036854775807_000_000;
/// clock readings lie between 1970 and the year 100000
pub spec const NOW_MAX: int = 3_093_527_980_800_000_000_000;
pub open spec fn dt(ns: int) -> DateTime<Utc> { DateTime { ns: ns as i128, tz: Utc } }
pub broadcast proof fn lemma_dt(d: DateTime<Utc>)
    ensures #[trigger] dt(d.ns as int) == d,
{
    assert(d.tz == Utc);
}
pub open spec fn td(ns: int) -> TimeDelta { TimeDelta { ns: ns as i128 } }
/// division that cuts towards zero
pub open spec fn cut(a: int, k: int) -> int { if a >= 0 { a / k } else { -((-a) / k) } }
pub open spec fn dt_in(ns: int) -> bool { DT_MIN <= ns <= DT_MAX }
pub open spec fn td_in(ns: int) -> bool { -TD_MAX <= ns <= TD_MAX }

pub open spec fn ord_of(a: int, b: int) -> core::cmp::Ordering {
    if a < b { core::cmp::Ordering::Less } else if a == b { core::cmp::Ordering::Equal } else { core::cmp::Ordering::Greater }
}
impl PartialEqSpecImpl for DateTime<Utc> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &DateTime<Utc>) -> bool { self.ns == o.ns }
}
impl PartialEq for DateTime<Utc> { fn eq(&self, o: &DateTime<Utc>) -> (r: bool) { self.ns == o.ns } }
impl PartialOrdSpecImpl for DateTime<Utc> {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &DateTime<Utc>) -> Option<core::cmp::Ordering> { Some(ord_of(self.ns as int, o.ns as int)) }
}
impl PartialOrd for DateTime<Utc> {
    fn partial_cmp(&self, o: &DateTime<Utc>) -> (r: Option<core::cmp::Ordering>) {
        if self.ns < o.ns { Some(core::cmp::Ordering::Less) } else if self.ns == o.ns { Some(core::cmp::Ordering::Equal) } else { Some(core::cmp::Ordering::Greater) }
    }
}
impl PartialEqSpecImpl for TimeDelta {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &TimeDelta) -> bool { self.ns == o.ns }
}
impl PartialEq for TimeDelta { fn eq(&self, o: &TimeDelta) -> (r: bool) { self.ns == o.ns } }
impl PartialOrdSpecImpl for TimeDelta {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &TimeDelta) -> Option<core::cmp::Ordering> { Some(ord_of(self.ns as int, o.ns as int)) }
}
impl PartialOrd for TimeDelta {
    fn partial_cmp(&self, o: &TimeDelta) -> (r: Option<core::cmp::Ordering>) {
        if self.ns < o.ns { Some(core::cmp::Ordering::Less) } else if self.ns == o.ns { Some(core::cmp::Ordering::Equal) } else { Some(core::cmp::Ordering::Greater) }
    }
}
impl AddSpecImpl<TimeDelta> for DateTime<Utc> {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, o: TimeDelta) -> bool { dt_in(self.ns + o.ns) }
    open spec fn add_spec(self, o: TimeDelta) -> DateTime<Utc> { dt(self.ns + o.ns) }
}
impl std::ops::Add<TimeDelta> for DateTime<Utc> {
    type Output = DateTime<Utc>;
    #[verifier::external_body]
    fn add(self, o: TimeDelta) -> DateTime<Utc> { unimplemented!() }
}

impl AddSpecImpl<TimeDelta> for TimeDelta {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, o: TimeDelta) -> bool { td_in(self.ns + o.ns) }
    open spec fn add_spec(self, o: TimeDelta) -> TimeDelta { td(self.ns + o.ns) }
}
impl std::ops::Add<TimeDelta> for TimeDelta {
    type Output = TimeDelta;
    #[verifier::external_body]
    fn add(self, o: TimeDelta) -> TimeDelta { unimplemented!() }
}
impl SubSpecImpl<TimeDelta> for TimeDelta {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, o: TimeDelta) -> bool { td_in(self.ns - o.ns) }
    open spec fn sub_spec(self, o: TimeDelta) -> TimeDelta { td(self.ns - o.ns) }
}
impl std::ops::Sub<TimeDelta> for TimeDelta {
    type Output = TimeDelta;
    #[verifier::external_body]
    fn sub(self, o: TimeDelta) -> TimeDelta { unimplemented!() }
}
impl SubSpecImpl<TimeDelta> for DateTime<Utc> {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, o: TimeDelta) -> bool { dt_in(self.ns - o.ns) }
    open spec fn sub_spec(self, o: TimeDelta) -> DateTime<Utc> { dt(self.ns - o.ns) }
}
impl std::ops::Sub<TimeDelta> for DateTime<Utc> {
    type Output = DateTime<Utc>;
    #[verifier::external_body]
    fn sub(self, o: TimeDelta) -> DateTime<Utc> { unimplemented!() }
}
impl SubSpecImpl<DateTime<Utc>> for DateTime<Utc> {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, o: DateTime<Utc>) -> bool { true }
    open spec fn sub_spec(self, o: DateTime<Utc>) -> TimeDelta { td(self.ns - o.ns) }
}
impl std::ops::Sub<DateTime<Utc>> for DateTime<Utc> {
    type Output = TimeDelta;
    #[verifier::external_body]
    fn sub(self, o: DateTime<Utc>) -> TimeDelta { unimplemented!() }
}
impl MulSpecImpl<i32> for TimeDelta {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, k: i32) -> bool { td_in(self.ns * k) }
    open spec fn mul_spec(self, k: i32) -> TimeDelta { td(self.ns * k) }
}
impl std::ops::Mul<i32> for TimeDelta {
    type Output = TimeDelta;
    #[verifier::external_body]
    fn mul(self, k: i32) -> TimeDelta { unimplemented!() }
}
/// a calendar day (UTC), counted from 1970-01-01
#[derive(Clone, Copy)]
pub struct NaiveDate { pub d: i64 }
impl PartialEqSpecImpl for NaiveDate {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &NaiveDate) -> bool { self.d == o.d }
}
impl PartialEq for NaiveDate { fn eq(&self, o: &NaiveDate) -> (r: bool) { self.d == o.d } }
impl PartialOrdSpecImpl for NaiveDate {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &NaiveDate) -> Option<core::cmp::Ordering> { Some(ord_of(self.d as int, o.d as int)) }
}
impl PartialOrd for NaiveDate {
    fn partial_cmp(&self, o: &NaiveDate) -> (r: Option<core::cmp::Ordering>) {
        if self.d < o.d { Some(core::cmp::Ordering::Less) } else if self.d == o.d { Some(core::cmp::Ordering::Equal) } else { Some(core::cmp::Ordering::Greater) }
    }
}

impl Utc {
    /// one clock reading
    #[verifier::external_body]
    pub fn now(Tracked(w): Tracked<&mut World>) -> (r: DateTime<Utc>)
        ensures
            final(w).clock == old(w).clock.push(r.ns as int),
            0 <= r.ns <= NOW_MAX,
            final(w).same_but_clock(*old(w)),
            final(w).app == old(w).app,
            final(w).drawn == old(w).drawn,
            final(w).locks == old(w).locks { unimplemented!() }
    #[verifier::external_body]
    pub fn timestamp_nanos(&self, ns: i64) -> (r: DateTime<Utc>) ensures r.ns == ns { unimplemented!() }
}
impl DateTime<Utc> {
    pub const MAX_UTC: DateTime<Utc> = DateTime { ns: 8210266876799_999_999_999i128, tz: Utc };
    pub const MIN_UTC: DateTime<Utc> = DateTime { ns: -8334601228800_000_000_000i128, tz: Utc };
    #[verifier::external_body]
    pub fn timestamp(&self) -> (r: i64) ensures r == self.ns / 1_000_000_000 { unimplemented!() }
    #[verifier::external_body]
    pub fn timestamp_millis(&self) -> (r: i64) ensures r == self.ns / 1_000_000 { unimplemented!() }
    #[verifier::external_body]
    pub fn timestamp_micros(&self) -> (r: i64) ensures r == self.ns / 1_000 { unimplemented!() }
    #[verifier::external_body]
    pub fn timestamp_subsec_nanos(&self) -> (r: u32) ensures r == self.ns % 1_000_000_000 { unimplemented!() }
    #[verifier::external_body]
    pub fn timestamp_subsec_micros(&self) -> (r: u32) ensures r == (self.ns % 1_000_000_000) / 1_000 { unimplemented!() }
    #[verifier::external_body]
    pub fn timestamp_subsec_millis(&self) -> (r: u32) ensures r == (self.ns % 1_000_000_000) / 1_000_000 { unimplemented!() }
    #[verifier::external_body]
    pub fn timestamp_nanos_opt(&self) -> (r: Option<i64>)
        ensures r == (if i64::MIN <= self.ns <= i64::MAX { Some(self.ns as i64) } else { None }) { unimplemented!() }
    #[verifier::external_body]
    pub fn from_timestamp(secs: i64, nsecs: u32) -> (r: Option<DateTime<Utc>>)
        ensures nsecs < 1_000_000_000 ==> r == (if dt_in(secs * 1_000_000_000 + nsecs) { Some(dt(secs * 1_000_000_000 + nsecs)) } else { None }) { unimplemented!() }
    #[verifier::external_body]
    pub fn from_timestamp_millis(ms: i64) -> (r: Option<DateTime<Utc>>)
        ensures r == (if dt_in(ms * 1_000_000) { Some(dt(ms * 1_000_000)) } else { None }) { unimplemented!() }
    #[verifier::external_body]
    pub fn from_timestamp_micros(us: i64) -> (r: Option<DateTime<Utc>>)
        ensures r == (if dt_in(us * 1_000) { Some(dt(us * 1_000)) } else { None }) { unimplemented!() }
    #[verifier::external_body]
    pub fn date_naive(&self) -> (r: NaiveDate) ensures r.d == self.ns / 86_400_000_000_000 { unimplemented!() }
    #[verifier::external_body]
    pub fn signed_duration_since(self, o: DateTime<Utc>) -> (r: TimeDelta) ensures r == td(self.ns - o.ns) { unimplemented!() }
    pub fn max(self, o: DateTime<Utc>) -> (r: DateTime<Utc>) ensures r == (if o.ns >= self.ns { o } else { self }) { if o.ns >= self.ns { o } else { self } }
    pub fn min(self, o: DateTime<Utc>) -> (r: DateTime<Utc>) ensures r == (if o.ns < self.ns { o } else { self }) { if o.ns < self.ns { o } else { self } }
    pub fn cmp(&self, o: &DateTime<Utc>) -> (r: core::cmp::Ordering) ensures r == ord_of(self.ns as int, o.ns as int) {
        if self.ns < o.ns { core::cmp::Ordering::Less } else if self.ns == o.ns { core::cmp::Ordering::Equal } else { core::cmp::Ordering::Greater }
    }
    #[verifier::external_body]
    pub fn checked_add_signed(self, d: TimeDelta) -> (r: Option<DateTime<Utc>>)
        ensures r == (if dt_in(self.ns + d.ns) { Some(dt(self.ns + d.ns)) } else { None }) { unimplemented!() }
    #[verifier::external_body]
    pub fn checked_sub_signed(self, d: TimeDelta) -> (r: Option<DateTime<Utc>>)
        ensures r == (if dt_in(self.ns - d.ns) { Some(dt(self.ns - d.ns)) } else { None }) { unimplemented!() }
}
impl TimeDelta {
    #[verifier::external_body]
    pub fn checked_mul(&self, k: i32) -> (r: Option<TimeDelta>)
        ensures r == (if td_in(self.ns * k) { Some(TimeDelta { ns: (self.ns * k) as i128 }) } else { None }) { unimplemented!() }
    #[verifier::external_body]
    pub fn checked_add(&self, o: &TimeDelta) -> (r: Option<TimeDelta>)
        ensures r == (if td_in(self.ns + o.ns) { Some(TimeDelta { ns: (self.ns + o.ns) as i128 }) } else { None }) { unimplemented!() }
    #[verifier::external_body]
    pub fn max_value() -> (r: TimeDelta) ensures r.ns == TD_MAX { unimplemented!() }
    #[verifier::external_body]
    pub fn try_milliseconds(ms: i64) -> (r: Option<TimeDelta>)
        ensures r == (if ms > i64::MIN { Some(TimeDelta { ns: (ms * 1_000_000) as i128 }) } else { None }) { unimplemented!() }
    #[verifier::external_body]
    pub fn weeks(n: i64) -> (r: TimeDelta) requires td_in(n * 604800000000000) ensures r.ns == n * 604800000000000 { unimplemented!() }
    #[verifier::external_body]
    pub fn try_weeks(n: i64) -> (r: Option<TimeDelta>)
        ensures r == (if td_in(n * 604800000000000) { Some(td(n * 604800000000000)) } else { None }) { unimplemented!() }
    #[verifier::external_body]
    pub fn num_weeks(&self) -> (r: i64) ensures r == cut(self.ns as int, 604800000000000), td_in(r * 604800000000000) { unimplemented!() }
    #[verifier::external_body]
    pub fn days(n: i64) -> (r: TimeDelta) requires td_in(n * 86400000000000) ensures r.ns == n * 86400000000000 { unimplemented!() }
    #[verifier::external_body]
    pub fn try_days(n: i64) -> (r: Option<TimeDelta>)
        ensures r == (if td_in(n * 86400000000000) { Some(td(n * 86400000000000)) } else { None }) { unimplemented!() }
    #[verifier::external_body]
    pub fn num_days(&self) -> (r: i64) ensures r == cut(self.ns as int, 86400000000000), td_in(r * 86400000000000) { unimplemented!() }
    #[verifier::external_body]
    pub fn hours(n: i64) -> (r: TimeDelta) requires td_in(n * 3600000000000) ensures r.ns == n * 3600000000000 { unimplemented!() }
    #[verifier::external_body]
    pub fn try_hours(n: i64) -> (r: Option<TimeDelta>)
        ensures r == (if td_in(n * 3600000000000) { Some(td(n * 3600000000000)) } else { None }) { unimplemented!() }
    #[verifier::external_body]
    pub fn num_hours(&self) -> (r: i64) ensures r == cut(self.ns as int, 3600000000000), td_in(r * 3600000000000) { unimplemented!() }
    #[verifier::external_body]
    pub fn minutes(n: i64) -> (r: TimeDelta) requires td_in(n * 60000000000) ensures r.ns == n * 60000000000 { unimplemented!() }
    #[verifier::external_body]
    pub fn try_minutes(n: i64) -> (r: Option<TimeDelta>)
        ensures r == (if td_in(n * 60000000000) { Some(td(n * 60000000000)) } else { None }) { unimplemented!() }
    #[verifier::external_body]
    pub fn num_minutes(&self) -> (r: i64) ensures r == cut(self.ns as int, 60000000000), td_in(r * 60000000000) { unimplemented!() }
    #[verifier::external_body]
    pub fn seconds(n: i64) -> (r: TimeDelta) requires td_in(n * 1000000000) ensures r.ns == n * 1000000000 { unimplemented!() }
    #[verifier::external_body]
    pub fn try_seconds(n: i64) -> (r: Option<TimeDelta>)
        ensures r == (if td_in(n * 1000000000) { Some(td(n * 1000000000)) } else { None }) { unimplemented!() }
    #[verifier::external_body]
    pub fn num_seconds(&self) -> (r: i64) ensures r == cut(self.ns as int, 1000000000), td_in(r * 1000000000) { unimplemented!() }
    #[verifier::external_body]
    pub fn milliseconds(ms: i64) -> (r: TimeDelta) requires ms > i64::MIN ensures r.ns == ms * 1_000_000 { unimplemented!() }
    #[verifier::external_body]
    pub fn num_milliseconds(&self) -> (r: i64) ensures r == cut(self.ns as int, 1_000_000), td_in(r * 1_000_000) { unimplemented!() }
    #[verifier::external_body]
    pub fn microseconds(us: i64) -> (r: TimeDelta) ensures r.ns == us * 1_000 { unimplemented!() }
    #[verifier::external_body]
    pub fn num_microseconds(&self) -> (r: Option<i64>)
        ensures r == (if i64::MIN <= cut(self.ns as int, 1_000) <= i64::MAX { Some(cut(self.ns as int, 1_000) as i64) } else { None }) { unimplemented!() }
    #[verifier::external_body]
    pub fn nanoseconds(ns: i64) -> (r: TimeDelta) ensures r.ns == ns { unimplemented!() }
    #[verifier::external_body]
    pub fn num_nanoseconds(&self) -> (r: Option<i64>)
        ensures r == (if i64::MIN <= self.ns <= i64::MAX { Some(self.ns as i64) } else { None }) { unimplemented!() }
    #[verifier::external_body]
    pub fn checked_sub(&self, o: &TimeDelta) -> (r: Option<TimeDelta>)
        ensures r == (if td_in(self.ns - o.ns) { Some(td(self.ns - o.ns)) } else { None }) { unimplemented!() }
    #[verifier::external_body]
    pub fn abs(&self) -> (r: TimeDelta) ensures r.ns == (if self.ns < 0 { -self.ns } else { self.ns as int }) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_zero(&self) -> (r: bool) ensures r == (self.ns == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn min_value() -> (r: TimeDelta) ensures r.ns == -TD_MAX { unimplemented!() }
    pub const MAX: TimeDelta = TimeDelta { ns: 9223372036854775807_000_000i128 };
    pub const MIN: TimeDelta = TimeDelta { ns: -9223372036854775807_000_000i128 };
    pub fn max(self, o: TimeDelta) -> (r: TimeDelta) ensures r == (if o.ns >= self.ns { o } else { self }) { if o.ns >= self.ns { o } else { self } }
    pub fn min(self, o: TimeDelta) -> (r: TimeDelta) ensures r == (if o.ns < self.ns { o } else { self }) { if o.ns < self.ns { o } else { self } }
    #[verifier::external_body]
    pub fn zero() -> (r: TimeDelta) ensures r.ns == 0 { unimplemented!() }
}
pub open spec fn pow2(n: nat) -> int decreases n { if n == 0 { 1 } else { 2 * pow2((n - 1) as nat) } }
pub open spec fn spow2(n: nat) -> int { if n < 31 { pow2(n) } else { i32::MAX as int } }
/// i32::saturating_pow, only its behaviour on base 2 is used
pub assume_specification[ i32::saturating_pow ](b: i32, e: u32) -> (r: i32)
    ensures b == 2 ==> r == spow2(e as nat);
pub assume_specification[ i32::checked_pow ](b: i32, e: u32) -> (r: Option<i32>)
    ensures b == 2 ==> (if e < 31 { r is Some && r->0 == pow2(e as nat) } else { r is None });
pub assume_specification[ i32::pow ](b: i32, e: u32) -> (r: i32)
    requires b == 2 && e < 31
    ensures r == pow2(e as nat);
pub assume_specification[ i32::wrapping_pow ](b: i32, e: u32) -> (r: i32)
    ensures b == 2 ==> r == (if e < 31 { pow2(e as nat) } else if e == 31 { i32::MIN as int } else { 0 });
pub assume_specification[ i32::saturating_add ](a: i32, b: i32) -> (r: i32)
    ensures r == (if a + b > i32::MAX { i32::MAX as int } else if a + b < i32::MIN { i32::MIN as int } else { a + b });

/// std::time::Duration
#[derive(Clone, Copy)]
pub struct StdDuration { pub ns: u128 }
impl StdDuration {
    pub open spec fn spec_from_millis(ms: u64) -> StdDuration { StdDuration { ns: (ms * 1_000_000) as u128 } }
    #[verifier::when_used_as_spec(spec_from_millis)]
    pub const fn from_millis(ms: u64) -> (r: StdDuration) ensures r == Self::spec_from_millis(ms) { StdDuration { ns: ms as u128 * 1_000_000 } }
    pub open spec fn spec_from_secs(s: u64) -> StdDuration { StdDuration { ns: (s * 1_000_000_000) as u128 } }
    #[verifier::when_used_as_spec(spec_from_secs)]
    pub const fn from_secs(s: u64) -> (r: StdDuration) ensures r == Self::spec_from_secs(s) { StdDuration { ns: s as u128 * 1_000_000_000 } }
}

// ---------------------------------------------------------------- cron
pub uninterp spec fn cron_ok(e: Str) -> bool;
pub uninterp spec fn cron_next(e: Str, t: int) -> Option<DateTime<Utc>>;
#[verifier::external_body]
pub struct Schedule { p: u64 }
impl Schedule {
    pub uninterp spec fn expr(&self) -> Str;
    #[verifier::external_body]
    pub fn from_str(s: &str) -> (r: Result<Schedule, cron::error::Error>)
        ensures r is Ok <==> cron_ok(s@), r is Ok ==> r->Ok_0.expr() == s@ { unimplemented!() }
    #[verifier::external_body]
    pub fn after(&self, t: &DateTime<Utc>) -> (r: ScheduleAfter)
        ensures r.expr() == self.expr(), r.t() == t.ns { unimplemented!() }
}
#[verifier::external_body]
pub struct ScheduleAfter { p: u64 }
impl ScheduleAfter {
    pub uninterp spec fn expr(&self) -> Str;
    pub uninterp spec fn t(&self) -> int;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<DateTime<Utc>>)
        ensures
            r == cron_next(old(self).expr(), old(self).t()),
            r is Some ==> r->0.ns > old(self).t() && dt_in(r->0.ns as int),
            final(self).expr() == old(self).expr(),
            r is Some ==> final(self).t() == r->0.ns { unimplemented!() }
}

// ---------------------------------------------------------------- uuid
/// the text of the n-th uuid drawn, in one of its forms (0: the default, 1: without hyphens, 2: urn, 3: braced)
pub uninterp spec fn uuid_text(n: int, form: int) -> Str;
/// no uuid is drawn twice
pub axiom fn ax_uuid(n: int, m: int, f: int, g: int)
    requires uuid_text(n, f) == uuid_text(m, g),
    ensures n == m, f == g;
/// an id that no uuid drawn before has
pub open spec fn fresh_id(w: World, id: Str) -> bool { exists|n: int, f: int| w.drawn <= n && id == #[trigger] uuid_text(n, f) }
pub struct Uuid { pub n: Ghost<int> }
pub struct VxUuid { pub n: Ghost<int>, pub f: Ghost<int> }
impl Uuid {
    #[verifier::external_body]
    pub fn new_v4(Tracked(w): Tracked<&mut World>) -> (r: Uuid)
        ensures r.n@ == old(w).drawn, *final(w) == (World { drawn: old(w).drawn + 1, ..*old(w) }) { unimplemented!() }
    #[verifier::external_body]
    pub fn to_string(&self) -> (r: String) ensures r@ == uuid_text(self.n@, 0) { unimplemented!() }
    pub fn hyphenated(self) -> (r: VxUuid) ensures r.n@ == self.n@, r.f@ == 0 { VxUuid { n: self.n, f: Ghost(0) } }
    pub fn as_hyphenated(&self) -> (r: VxUuid) ensures r.n@ == self.n@, r.f@ == 0 { VxUuid { n: Ghost(self.n@), f: Ghost(0) } }
    pub fn simple(self) -> (r: VxUuid) ensures r.n@ == self.n@, r.f@ == 1 { VxUuid { n: self.n, f: Ghost(1) } }
    pub fn as_simple(&self) -> (r: VxUuid) ensures r.n@ == self.n@, r.f@ == 1 { VxUuid { n: Ghost(self.n@), f: Ghost(1) } }
    pub fn urn(self) -> (r: VxUuid) ensures r.n@ == self.n@, r.f@ == 2 { VxUuid { n: self.n, f: Ghost(2) } }
    pub fn braced(self) -> (r: VxUuid) ensures r.n@ == self.n@, r.f@ == 3 { VxUuid { n: self.n, f: Ghost(3) } }
}
impl VxUuid {
    #[verifier::external_body]
    pub fn to_string(&self) -> (r: String) ensures r@ == uuid_text(self.n@, self.f@) { unimplemented!() }
}
impl VxDisplay for Uuid {
    open spec fn disp(&self) -> Str { uuid_text(self.n@, 0) }
    #[verifier::external_body]
    fn vx_disp(&self) -> (r: String) { unimplemented!() }
}
/// two jobs made one after the other have different ids
pub proof fn lemma_fresh_ids(a: World, b: World, x: Str, n: int, f: int)
    requires x == uuid_text(n, f), n < b.drawn,
    ensures !fresh_id(b, x),
{
    if fresh_id(b, x) {
        let (m, g) = choose|m: int, g: int| b.drawn <= m && x == #[trigger] uuid_text(m, g);
        ax_uuid(n, m, f, g);
    }
}

// ---------------------------------------------------------------- serde
pub trait Serialize {}
pub trait DeserializeOwned: Sized {}
impl<T: Serialize> Serialize for &T {}
/// the JSON text of a value / the value of a JSON text
pub uninterp spec fn ser<T>(t: T) -> Str;
pub uninterp spec fn de<T>(s: Str) -> Option<T>;
pub broadcast axiom fn ax_ser_ref<T>(t: &T)
    ensures #[trigger] ser::<&T>(t) == ser::<T>(*t);
/// identity of a Rust type
#[derive(Clone, Copy)]
pub struct TypeId { pub k: u64 }
impl PartialEqSpecImpl for TypeId {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &TypeId) -> bool { *self == *o }
}
impl PartialEq for TypeId { fn eq(&self, o: &TypeId) -> (r: bool) { self.k == o.k } }
pub uninterp spec fn tid<T>() -> TypeId;
impl TypeId {
    #[verifier::external_body]
    pub fn of<T>() -> (r: TypeId) ensures r == tid::<T>() { unimplemented!() }
}
pub assume_specification<T: PartialEq> [<[T]>::contains] (s: &[T], x: &T) -> (r: bool)
    ensures T::obeys_eq_spec() && (forall|a: T, b: T| #[trigger] a.eq_spec(&b) == (a == b)) ==> r == s@.contains(*x);
pub broadcast axiom fn ax_arc_clone<T>(a: Arc<T>, b: Arc<T>)
    ensures #[trigger] vstd::pervasive::cloned::<Arc<T>>(a, b) ==> a == b;
} // verus!
pub mod serde_json {
    use super::*;
    verus! {
    pub struct Error { pub k: u64 }
    /// job data is assumed to be serialisable
    #[verifier::external_body]
    pub fn to_string<T: Serialize>(t: &T) -> (r: Result<String, Error>)
        ensures r is Ok, r->Ok_0@ == ser::<T>(*t) { unimplemented!() }
    #[verifier::external_body]
    pub fn from_str<T: DeserializeOwned>(s: &str) -> (r: Result<T, Error>)
        ensures r is Ok <==> de::<T>(s@) is Some, r is Ok ==> de::<T>(s@) == Some(r->Ok_0) { unimplemented!() }
    }
}
pub mod chrono {
    pub use super::{DateTime, TimeDelta, Utc};
    pub type Duration = TimeDelta;
}
verus! {
/// ghost bookkeeping: log an event of the current job execution
pub axiom fn vx_note(tracked w: &mut World, n: Note)
    ensures
        final(w).n(old(w).me) == old(w).n(old(w).me).push(n),
        forall|id: Str| id != old(w).me ==> #[trigger] final(w).n(id) == old(w).n(id),
        final(w).queues == old(w).queues,
        final(w).store == old(w).store,
        final(w).clock == old(w).clock,
        final(w).faulted == old(w).faulted,
        final(w).locks == old(w).locks,
        final(w).qname == old(w).qname,
        final(w).me == old(w).me,
        final(w).tasks == old(w).tasks,
        final(w).runs == old(w).runs + (if n is Exec { 1nat } else { 0nat }),
        final(w).ticks == old(w).ticks,
        final(w).hooks == old(w).hooks;
}

// ---------------------------------------------------------------- actix
verus! {
#[verifier::external_body]
#[verifier::reject_recursive_types(A)]
pub struct Addr<A> { p: PhantomData<A> }
impl<A> Clone for Addr<A> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(A)]
pub struct Context<A> { p: PhantomData<A> }
pub trait Actor: Sized { type Context; }
pub trait Handler<Msg>: Actor {
    type Result;
    /// what the actor relies on when it handles this message
    spec fn vx_pre(&self, msg: Msg, w: World) -> bool;
    fn handle(&mut self, msg: Msg, ctx: &mut Self::Context, Tracked(w): Tracked<&mut World>) -> Self::Result
        requires old(self).vx_pre(msg, *old(w));
}
pub type ResponseFuture<T> = T;
impl<A> Context<A> {
    /// ctx.run_later(d, |a, ctx| a.process_jobs(ctx))
    #[verifier::external_body]
    pub fn vx_run_later_process_jobs(&mut self, d: StdDuration, Tracked(w): Tracked<&mut World>)
        ensures *final(w) == (World { ticks: old(w).ticks.push(d.ns as int), ..*old(w) }) { unimplemented!() }
    #[verifier::external_body]
    pub fn spawn(&mut self, f: VxFut<A>, Tracked(w): Tracked<&mut World>)
        ensures *final(w) == (World { tasks: old(w).tasks.push(f.id@), ..*old(w) }) { unimplemented!() }
}
/// a job execution handed to the runtime
pub struct VxTask { pub id: Ghost<Str> }
pub trait VxIsTask { spec fn vx_id(&self) -> Str; }
impl VxIsTask for VxTask { open spec fn vx_id(&self) -> Str { self.id@ } }
pub struct VxFut<A> { pub id: Ghost<Str>, pub p: PhantomData<A> }
#[verifier::external_body]
pub fn wrap_future<F: VxIsTask, A>(t: F) -> (r: VxFut<A>) ensures r.id@ == t.vx_id() { unimplemented!() }
impl<A> VxFut<A> {
    #[verifier::external_body]
    pub fn spawn(self, ctx: &mut Context<A>, Tracked(w): Tracked<&mut World>)
        ensures *final(w) == (World { tasks: old(w).tasks.push(self.id@), ..*old(w) }) { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_nondet() -> bool { unimplemented!() }
/// The execution begins in some later state of the world.
#[verifier::external_body]
pub fn vx_task_start(Ghost(id): Ghost<Str>, Tracked(w): Tracked<&mut World>)
    ensures
        final(w).me == id,
        final(w).qname == old(w).qname,
        clock_ext(*old(w), *final(w)),
        vx_later(*old(w), *final(w), id),
        app_step(*old(w), *final(w)),
        old(w).faulted ==> final(w).faulted { unimplemented!() }
/// b is the state in which the runtime first polls the execution of job `id` handed over in a
pub uninterp spec fn vx_later(a: World, b: World, id: Str) -> bool;
/// Meanwhile only steps happen that executions are proved against (lemma_rely, for every message and execution).
pub axiom fn vx_task_rely<M>(a: World, b: World, id: Str)
    requires vx_later(a, b, id),
    ensures rely::<M>(World { me: id, ..a }, b);
/// Whatever the execution did is not part of the caller's own effects.
#[verifier::external_body]
pub fn vx_task_end() ensures false { unimplemented!() }
pub fn vx_task(Ghost(id): Ghost<Str>) -> (r: VxTask) ensures r.id@ == id { VxTask { id: Ghost(id) } }
/// After a backend failure nothing is known about stored jobs; their counters are assumed not to have reached the limit of their type.
pub axiom fn vx_counters_after_fault(run_count: usize, repeats: i32)
    ensures run_count < usize::MAX, repeats < i32::MAX;
/// a message to the plugin centre
pub trait PluginMsg: Sized {
    /// effect of sending it and going on
    spec fn dropped_in(&self, a: World, b: World) -> bool;
    /// effect of sending it and waiting for the answer
    spec fn awaited(&self, a: World, b: World) -> bool;
}
}
