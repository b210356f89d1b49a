## what the assumed round trip of serde is about: another form leaves the proof (bounded harness only)
stored CronContext props=C03,C04,C08,C09,C10,C11,C12,C13,C17,C18 : deriveDeserialize deriveSerialize end_at#[serde(with="ts_microseconds_option")] end_at:Option<DateTime<Utc>> max_repeat:Option<i32> tick_number:i32
stored JobType props=C03,C04,C08,C09,C10,C11,C12,C13,C17,C18 : #[serde_as] Cron. Cron.0:String Cron.1#[serde(with="ts_microseconds")] Cron.1:DateTime<Utc> Cron.2#[serde(default)] Cron.2:i32 Cron.3#[serde(default)] Cron.3:CronContext Normal. ScheduledAt. ScheduledAt.0#[serde(with="ts_microseconds")] ScheduledAt.0:DateTime<Utc> deriveDeserialize deriveSerialize
stored JobStatus props=C03,C04,C08,C09,C10,C11,C12,C13,C17,C18 : Canceled. Failed. Finished. Queued. Running. deriveDeserialize deriveSerialize
stored JobContext props=C03,C04,C08,C09,C10,C11,C12,C13,C17,C18 : cancel_at:Option<i64> complete_at:Option<i64> created_at:i64 deriveDeserialize deriveSerialize enqueue_at:Option<i64> job_id#[serde(default)] job_id:String job_status:JobStatus job_type:JobType retry:Option<Retry> run_at:Option<i64> run_count:usize
stored RetryStrategy props=C03,C04,C08,C09,C10,C11,C12,C13,C17,C18 : #[serde_as] ExponentialBackoff. ExponentialBackoff.0#[serde_as(as="serde_with::DurationMicroSeconds<i64>")] ExponentialBackoff.0:Duration Interval. Interval.0#[serde_as(as="serde_with::DurationMicroSeconds<i64>")] Interval.0:Duration deriveDeserialize deriveSerialize
stored Retry props=C03,C04,C08,C09,C10,C11,C12,C13,C17,C18 : deriveDeserialize deriveSerialize max_retries:Option<i32> retried_times:i32 strategy:RetryStrategy
stored Job props=C03,C04,C08,C09,C10,C11,C12,C13,C17,C18 : context:JobContext data:M deriveDeserialize deriveSerialize
effects Utc::now Uuid::new_v4
file aj_core/src/util/mod.rs mod m_util
fn get_now | effect props=C08
  ensures
    - final(w).clock == old(w).clock.push(r.ns as int)
    - final(w).clock[old(w).clock.len() as int] == r.ns
    - 0 <= r.ns <= NOW_MAX
    - final(w).same_but_clock(*old(w))
    - final(w).app == old(w).app && final(w).drawn == old(w).drawn
fn get_now_as_secs | effect props=C08
  ensures
    - final(w).clock =~= old(w).clock.push(final(w).now())
    - final(w).clock[old(w).clock.len() as int] == final(w).now()
    - [C08] r == final(w).now() / 1_000_000_000
    - final(w).same_but_clock(*old(w))
    - final(w).app == old(w).app && final(w).drawn == old(w).drawn
fn get_now_as_ms | effect props=C08
  ensures
    - final(w).clock =~= old(w).clock.push(final(w).now())
    - final(w).clock[old(w).clock.len() as int] == final(w).now()
    - [C08] r == ms(final(w).now())
    - final(w).same_but_clock(*old(w))
    - final(w).app == old(w).app && final(w).drawn == old(w).drawn
fn get_ms_as_datetime | props=C08
  requires
    - i64::MIN <= ${p0} * 1_000_000 <= i64::MAX
  ensures
    - [C08] r.ns == ${p0} * 1_000_000

file aj_core/src/job/retry.rs mod m_retry
use use crate::chrono::Duration;
use use crate::m_util::*;

fn Retry.new | props=C09
  ensures
    - [C09] r == (Retry { retried_times: ${p0}, max_retries: ${p1}, strategy: ${p2} })
fn Retry.new_interval_retry | props=C09
  ensures
    - [C09] r == (Retry { retried_times: 0, max_retries: ${p0}, strategy: RetryStrategy::Interval(${p1}) })
fn Retry.new_exponential_backoff | props=C09
  ensures
    - [C09] r == (Retry { retried_times: 0, max_retries: ${p0}, strategy: RetryStrategy::ExponentialBackoff(${p1}) })
fn Retry as Default.default | props=C09
  ensures
    - [C09] r == (Retry { retried_times: 0, max_retries: Some(3i32), strategy: RetryStrategy::Interval(TimeDelta { ns: 100_000_000 }) })
fn Retry.should_retry | props=C09
  ensures
    - [C09] r == may_retry(*self)
fn Retry.retry_at | effect props=C09
  ensures
    - [C09] *final(self) == bumped(*old(self))
    - [C09] ${p0} is Some ==> r == retry_time(${p0}->0.ns as int, *final(self))
    - [C09] ${p0} is None ==> final(w).clock.len() > old(w).clock.len() && r == retry_time(final(w).now(), *final(self))
    - clock_ext(*old(w), *final(w))
    - final(w).same_but_clock(*old(w))

file aj_core/src/job/job_context.rs mod m_job_context
use use crate::m_error::*;
use use crate::m_retry::*;
use use crate::m_util::*;
enum_debug JobStatus

fn JobType as Default.default | props=C18
  ensures
    - [C18] r == JobType::Normal
fn JobStatus as Default.default | props=C18
  ensures
    - [C18] r == JobStatus::Queued
fn JobType.new_schedule | props=C18
  ensures
    - [C18] r == JobType::ScheduledAt(${p0})
fn JobType.new_cron | seffect props=C18
  ensures
    - [C18] r is Ok <==> cron_ok(${p0}@)
    - [C18] r is Ok ==> final(w).clock.len() > old(w).clock.len() && r->Ok_0 is Cron
    - [C18] r is Ok ==> r->Ok_0->Cron_0@ == ${p0}@
    - [C18] r is Ok ==> r->Ok_0->Cron_2 == 1 && r->Ok_0->Cron_3 == ${p1}
    - [C10,C18] r is Ok ==> r->Ok_0->Cron_1 == (match cron_next(${p0}@, final(w).now()) { Some(t) => t, None => dt(final(w).now()) })
    - clock_ext(*old(w), *final(w))
    - final(w).same_but_clock(*old(w))
fn JobContext.new | seffect props=C18
  ensures
    - [C18] r.job_id == ${p0} && r.job_type == JobType::Normal && r.job_status == JobStatus::Queued && r.retry is None && r.run_count == 0
    - [C18] r.enqueue_at is None && r.run_at is None && r.complete_at is None && r.cancel_at is None
    - [C18] final(w).clock.len() > old(w).clock.len() && r.created_at == ms(final(w).now())
    - clock_ext(*old(w), *final(w))
    - final(w).same_but_clock(*old(w))
    - final(w).app == old(w).app && final(w).drawn == old(w).drawn

file aj_core/src/job/executable.rs mod m_executable
use use crate::m_retry::*;
use use crate::m_job_context::*;
use use std::fmt::Debug;
use use crate::m_util::*;

impl_bounds trait Executable
  Sized

fn trait Executable.pre_execute | effect props=C08
  requires
    - old(w).me == ${p0}.job_id@
  ensures
    - rely::<Self>(*old(w), *final(w)) && final(w).runs == old(w).runs
    - final(w).n(old(w).me) == old(w).n(old(w).me).push(Note::Pre { cx: enc(*${p0}), d0: enc(*old(self)), d1: enc(*final(self)) })
  body_bottom
    broadcast use lemma_inv_frame;
    proof { vx_note(w, Note::Pre { cx: enc(*${p0}), d0: enc(*old(self)), d1: enc(*self) }); }
fn trait Executable.execute | effect props=C08
  requires
    - old(w).me == ${p0}.job_id@
  ensures
    - rely::<Self>(*old(w), *final(w)) && final(w).runs == old(w).runs + 1
    - final(w).n(old(w).me) == old(w).n(old(w).me).push(Note::Exec { cx: enc(*${p0}), d0: enc(*old(self)), d1: enc(*final(self)), out: enc(r) })
fn trait Executable.post_execute | effect props=C08
  requires
    - old(w).me == ${p1}.job_id@
  ensures
    - rely::<Self>(*old(w), *final(w)) && final(w).runs == old(w).runs
    - final(w).n(old(w).me) == old(w).n(old(w).me).push(Note::Post { cx: enc(*${p1}), d0: enc(*old(self)), out0: enc(${p0}), d1: enc(*final(self)), out1: enc(r) })
  body_top
    broadcast use lemma_inv_frame;
    proof { vx_note(w, Note::Post { cx: enc(*${p1}), d0: enc(*old(self)), out0: enc(${p0}), d1: enc(*old(self)), out1: enc(${p0}) }); }
fn trait Executable.is_failed_output | effect props=C08,C09
  ensures
    - rely::<Self>(*old(w), *final(w)) && final(w).runs == old(w).runs
    - final(w).n(old(w).me) == old(w).n(old(w).me)
    - [C08,C09] r == vx_failed(*self, *${p0})
  body_top
    proof { vx_default_failed::<Self>(); }
fn trait Executable.retry_at | effect props=C09
  ensures
    - rely::<Self>(*old(w), *final(w)) && final(w).runs == old(w).runs
    - final(w).n(old(w).me) =~= old(w).n(old(w).me).push(final(w).n(old(w).me).last())
    - final(w).n(old(w).me).last() is Retry && final(w).n(old(w).me).last()->Retry_d == enc(*self)
      && final(w).n(old(w).me).last()->rc0 == enc(*old(${p0})) && final(w).n(old(w).me).last()->Retry_out == enc(${p1})
      && final(w).n(old(w).me).last()->rc1 == enc(*final(${p0})) && final(w).n(old(w).me).last()->res == r
      && final(w).n(old(w).me).last()->c0 == old(w).clock.len() && final(w).n(old(w).me).last()->c1 == final(w).clock.len()
    - [C09] retry_ok(*self, *old(${p0}), ${p1}, *final(${p0}), r, final(w).clock, old(w).clock.len() as int, final(w).clock.len() as int)
  body_top
    proof { vx_default_retry::<Self>(); }
    let ghost c0 = w.clock.len();
    let ghost rc0 = *${p0};
  body_bottom
    broadcast use lemma_inv_frame;
    proof { vx_note(w, Note::Retry { d: enc(*self), rc0: enc(rc0), out: enc(${p1}), rc1: enc(*${p0}), res: vx_ret, c0, c1: w.clock.len() }); }

file aj_core/src/job/mod.rs mod m_job
use use crate::chrono::Duration;
use use crate::m_error::*;
use use crate::m_types::*;
use use crate::m_util::*;
use use crate::m_retry::*;
use use crate::m_job_context::*;
use use crate::m_executable::*;
use use crate::m_plugin::*;

trait_extra BackgroundJob
  spec fn vx_queue_name() -> Str;
fn trait BackgroundJob.queue_name | props=C19
  ensures
    - r@ == Self::vx_queue_name()
fn trait BackgroundJob.job | effect props=C19

fn Job.new | seffect props=C18
  ensures
    - [C18] fresh_id(*old(w), r.context.job_id@)
    - [C18] r.data == ${p0}
    - [C18] r.context.job_type == JobType::Normal && r.context.job_status == JobStatus::Queued && r.context.retry is None && r.context.run_count == 0
    - [C18] r.context.enqueue_at is None && r.context.run_at is None && r.context.complete_at is None && r.context.cancel_at is None
    - [C18] fresh_ms(Some(r.context.created_at), *old(w), *final(w))
    - clock_ext(*old(w), *final(w))
    - final(w).same_but_clock(*old(w))
    - final(w).app == old(w).app
fn Job.id | props=C18
  ensures
    - r@ == self.context.job_id@
fn Job.set_id | props=C18
  ensures
    - [C18] r == (Job { context: JobContext { job_id: ${p0}, ..self.context }, data: self.data })
fn Job.set_context | props=C18
  ensures
    - [C18] r == (Job { context: ${p0}, data: self.data })
fn Job.context | props=C18
  ensures
    - [C18] r == (Job { context: ${p0}, data: self.data })
fn Job.set_job_type | props=C18
  ensures
    - [C18] r == with_type(self, ${p0})
fn Job.job_type | props=C18
  ensures
    - [C18] r == with_type(self, ${p0})
fn Job.schedule_at | props=C18
  ensures
    - [C18] r == with_type(self, JobType::ScheduledAt(${p0}))
fn Job.delay | effect props=C18
  requires
    - -5_000_000_000_000_000_000_000 <= ${p0}.ns <= 5_000_000_000_000_000_000_000
  ensures
    - [C18] r.context.job_type is ScheduledAt && r == with_type(self, r.context.job_type)
    - [C18] exists|k: int| old(w).clock.len() <= k < final(w).clock.len() && r.context.job_type->ScheduledAt_0.ns == #[trigger] final(w).clock[k] + ${p0}.ns
    - clock_ext(*old(w), *final(w))
    - final(w).same_but_clock(*old(w))
fn Job.cron | effect props=C18
  requires
    - cron_ok(${p0}@)
  ensures
    - [C18] r.context.job_type is Cron && r == with_type(self, r.context.job_type)
    - [C18] r.context.job_type->Cron_0@ == ${p0}@ && r.context.job_type->Cron_2 == 1
    - [C10,C18] exists|k: int| old(w).clock.len() <= k < final(w).clock.len() && r.context.job_type->Cron_1 == (match cron_next(${p0}@, #[trigger] final(w).clock[k]) { Some(t) => t, None => dt(final(w).clock[k]) })
    - clock_ext(*old(w), *final(w))
    - final(w).same_but_clock(*old(w))
fn Job.set_retry | props=C18
  ensures
    - [C18] r == (Job { context: JobContext { retry: Some(${p0}), ..self.context }, data: self.data })
fn Job.retry | props=C18
  ensures
    - [C18] r == (Job { context: JobContext { retry: Some(${p0}), ..self.context }, data: self.data })

fn Job.execute | effect props=C08,C14
  requires
    - old(w).me == old(self).context.job_id@
    - !old(w).faulted ==> old(self).context.run_count < usize::MAX
  ensures
    - rely::<M>(*old(w), *final(w))
    - [C08] final(w).runs == old(w).runs + 1
    - [C08,C14] ran(old(w).n(old(w).me), final(w).n(old(w).me), *old(self), *final(self), r)
  body_top
    proof { if w.faulted { vx_counters_after_fault(self.context.run_count, 0); } }

fn Job.is_ready | effect props=C04,C07
  ensures
    - final(w).clock.len() > old(w).clock.len()
    - clock_ext(*old(w), *final(w))
    - final(w).same_but_clock(*old(w))
    - [C04] r ==> due_since(self.context.job_type, final(w).clock, old(w).clock.len() as int)
    - [C07] !r ==> notdue_since(self.context.job_type, final(w).clock, old(w).clock.len() as int)
fn Job.next_tick | effect props=C10
  requires
    - !old(w).faulted ==> repeats_left(old(self).context.job_type)
  ensures
    - clock_ext(*old(w), *final(w))
    - final(w).same_but_clock(*old(w))
    - [C10] *final(self) == *old(self)
    - [C10] r is Some ==> r->0 == with_type(*old(self), r->0.context.job_type)
    - [C10] exists|k: int| old(w).clock.len() <= k < final(w).clock.len() && next_type(old(self).context.job_type, #[trigger] final(w).clock[k])
      == (match r { Some(j) => Some(j.context.job_type), None => None })
  body_top
    proof { if w.faulted && self.context.job_type is Cron { vx_counters_after_fault(0, self.context.job_type->Cron_2); } }
fn Job.is_queued | props=C11
  ensures
    - r == (self.context.job_status == JobStatus::Queued)
fn Job.is_running | props=C13
  ensures
    - r == (self.context.job_status == JobStatus::Running)
fn Job.is_cancelled | props=C11
  ensures
    - r == (self.context.job_status == JobStatus::Canceled)
fn Job.is_done | props=C12,C13
  ensures
    - r == (self.context.job_status == JobStatus::Finished || self.context.job_status == JobStatus::Canceled || self.context.job_status == JobStatus::Failed)

fn Job.enqueue | effect props=C06,C08,C12,C13,C14
  ensures
    - [C06,C08,C12,C13] r is Ok ==> job_saved(*old(w), *final(w), *final(self))
    - [C14] r is Ok ==> job_noted(*old(w), *final(w), *final(self))
    - r is Err ==> err_step(*old(w), *final(w))
    - [C06,C08,C12,C13] *final(self) == (Job { context: JobContext { job_status: JobStatus::Queued, enqueue_at: final(self).context.enqueue_at, ..old(self).context }, data: old(self).data })
    - [C08] fresh_ms(final(self).context.enqueue_at, *old(w), *final(w))

fn Job.process | effect props=C06,C08,C14
  ensures
    - [C06,C08] r is Ok ==> job_saved(*old(w), *final(w), *final(self))
    - [C14] r is Ok ==> job_noted(*old(w), *final(w), *final(self))
    - r is Err ==> err_step(*old(w), *final(w))
    - [C06,C08] *final(self) == (Job { context: JobContext { job_status: JobStatus::Running, run_at: final(self).context.run_at, ..old(self).context }, data: old(self).data })
    - [C08] fresh_ms(final(self).context.run_at, *old(w), *final(w))

fn Job.finish | effect props=C06,C08,C14
  ensures
    - [C06,C08] r is Ok ==> job_saved(*old(w), *final(w), *final(self))
    - [C14] r is Ok ==> job_noted(*old(w), *final(w), *final(self))
    - r is Err ==> err_step(*old(w), *final(w))
    - [C06,C08] *final(self) == (Job { context: JobContext { job_status: JobStatus::Finished, complete_at: final(self).context.complete_at, ..old(self).context }, data: old(self).data })
    - [C08] fresh_ms(final(self).context.complete_at, *old(w), *final(w))

fn Job.cancel | effect props=C06,C08,C11,C14
  ensures
    - [C06,C08,C11] r is Ok ==> job_saved(*old(w), *final(w), *final(self))
    - [C14] r is Ok ==> job_noted(*old(w), *final(w), *final(self))
    - r is Err ==> err_step(*old(w), *final(w))
    - [C06,C08,C11] *final(self) == (Job { context: JobContext { job_status: JobStatus::Canceled, cancel_at: final(self).context.cancel_at, ..old(self).context }, data: old(self).data })
    - [C08,C11] fresh_ms(final(self).context.cancel_at, *old(w), *final(w))

fn Job.fail | effect props=C06,C08,C14
  ensures
    - [C06,C08] r is Ok ==> job_saved(*old(w), *final(w), *final(self))
    - [C14] r is Ok ==> job_noted(*old(w), *final(w), *final(self))
    - r is Err ==> err_step(*old(w), *final(w))
    - [C06,C08] *final(self) == (Job { context: JobContext { job_status: JobStatus::Failed, complete_at: final(self).context.complete_at, ..old(self).context }, data: old(self).data })
    - [C08] fresh_ms(final(self).context.complete_at, *old(w), *final(w))
