## written by tools/mkmacro.py
file @hello.rs mod m_fx_hello
use use crate::m_error::*;
use use crate::m_job_context::*;
use use crate::m_job::*;
use use crate::m_executable::*;
use use crate::m_aj::*;
use use crate::m_queue::*;
use use crate::m_lib::*;
impl_extra JobHello as BackgroundJob
  open spec fn vx_queue_name() -> Str { "JobHello"@ }
fn JobHello as BackgroundJob.queue_name | props=C19
  ensures
    - [C19] r@ == "JobHello"@
fn JobHello as BackgroundJob.job | props=C19
  ensures
    - [C19] r.data == self
    - [C19] r.context.job_type == JobType::Normal && r.context.job_status == JobStatus::Queued && r.context.retry is None && r.context.run_count == 0
    - clock_ext(*old(w), *final(w))
    - final(w).same_but_clock(*old(w)) && final(w).app == old(w).app
fn JobHello as Executable.execute | props=C19
  ensures
    - [C19] ({ let d = *old(self); r@ == d.name@ })
    - [C19] *final(self) == *old(self)
  body_bottom
    broadcast use lemma_inv_frame;
    proof { vx_note(w, Note::Exec { cx: enc(*${p0}), d0: enc(*old(self)), d1: enc(*self), out: enc(vx_ret) }); }
fn run | seffect props=C19
  requires
    - old(w).app.aj is Some && reg_ok(*old(w))
  ensures
    - [C19] (r is Err && final(w).faulted && final(w).app.sent == old(w).app.sent)
      || (sent_to_queue::<JobHello, Enqueue<JobHello>>(*old(w), *final(w)) && ({ let m = sent_msg::<Enqueue<JobHello>>(*final(w)); m.0.data == JobHello { name: ${p0} } && m.0.context.job_type == JobType::Normal && m.0.context.job_status == JobStatus::Queued && m.0.context.retry is None && m.0.context.run_count == 0 && m.1 == EnqueueConfig { re_run: true, override_data: true } && (r is Ok ==> r->Ok_0@ == m.0.context.job_id@) }))
    - [C19] asked_for_queue::<JobHello>(*old(w), *final(w), "JobHello"@)
fn run_with_context | seffect props=C19
  requires
    - old(w).app.aj is Some && reg_ok(*old(w))
  ensures
    - [C19] (r is Err && final(w).faulted && final(w).app.sent == old(w).app.sent)
      || (sent_to_queue::<JobHello, Enqueue<JobHello>>(*old(w), *final(w)) && ({ let m = sent_msg::<Enqueue<JobHello>>(*final(w)); m.0.data == JobHello { name: ${p0} } && m.0.context == ${p1} && m.1 == EnqueueConfig { re_run: true, override_data: true } && (r is Ok ==> r->Ok_0@ == m.0.context.job_id@) }))
    - [C19] asked_for_queue::<JobHello>(*old(w), *final(w), "JobHello"@)
fn just_run | seffect props=C19
  ensures
    - [C19] old(w).app.aj is Some ==> ({ let m = dec::<JustRunJob<JobHello>>(final(w).app.asked.last().msg); m.job.data == JobHello { name: ${p0} } && m.job.context.job_type == JobType::Normal && m.job.context.job_status == JobStatus::Queued && m.job.context.retry is None && m.job.context.run_count == 0 && m.queue_name@ == "JobHello"@ && final(w).app == (App { asked: old(w).app.asked.push(Asked { to: old(w).app.aj->0, msg: enc(m) }), ..old(w).app }) })
fn just_run_with_context | seffect props=C19
  ensures
    - [C19] old(w).app.aj is Some ==> ({ let m = dec::<JustRunJob<JobHello>>(final(w).app.asked.last().msg); m.job.data == JobHello { name: ${p0} } && m.job.context == ${p1} && m.queue_name@ == "JobHello"@ && final(w).app == (App { asked: old(w).app.asked.push(Asked { to: old(w).app.aj->0, msg: enc(m) }), ..old(w).app }) })
file @swap_two.rs mod m_fx_swap_two
use use crate::m_error::*;
use use crate::m_job_context::*;
use use crate::m_job::*;
use use crate::m_executable::*;
use use crate::m_aj::*;
use use crate::m_queue::*;
use use crate::m_lib::*;
impl_extra JobSwapTwo as BackgroundJob
  open spec fn vx_queue_name() -> Str { "JobSwapTwo"@ }
fn JobSwapTwo as BackgroundJob.queue_name | props=C19
  ensures
    - [C19] r@ == "JobSwapTwo"@
fn JobSwapTwo as BackgroundJob.job | props=C19
  ensures
    - [C19] r.data == self
    - [C19] r.context.job_type == JobType::Normal && r.context.job_status == JobStatus::Queued && r.context.retry is None && r.context.run_count == 0
    - clock_ext(*old(w), *final(w))
    - final(w).same_but_clock(*old(w)) && final(w).app == old(w).app
fn JobSwapTwo as Executable.execute | props=C19
  ensures
    - [C19] ({ let d = *old(self); r == (d.b, d.a) })
    - [C19] *final(self) == *old(self)
  body_bottom
    broadcast use lemma_inv_frame;
    proof { vx_note(w, Note::Exec { cx: enc(*${p0}), d0: enc(*old(self)), d1: enc(*self), out: enc(vx_ret) }); }
fn run | seffect props=C19
  requires
    - old(w).app.aj is Some && reg_ok(*old(w))
  ensures
    - [C19] (r is Err && final(w).faulted && final(w).app.sent == old(w).app.sent)
      || (sent_to_queue::<JobSwapTwo, Enqueue<JobSwapTwo>>(*old(w), *final(w)) && ({ let m = sent_msg::<Enqueue<JobSwapTwo>>(*final(w)); m.0.data == JobSwapTwo { a: ${p0}, b: ${p1} } && m.0.context.job_type == JobType::Normal && m.0.context.job_status == JobStatus::Queued && m.0.context.retry is None && m.0.context.run_count == 0 && m.1 == EnqueueConfig { re_run: true, override_data: true } && (r is Ok ==> r->Ok_0@ == m.0.context.job_id@) }))
    - [C19] asked_for_queue::<JobSwapTwo>(*old(w), *final(w), "JobSwapTwo"@)
fn run_with_context | seffect props=C19
  requires
    - old(w).app.aj is Some && reg_ok(*old(w))
  ensures
    - [C19] (r is Err && final(w).faulted && final(w).app.sent == old(w).app.sent)
      || (sent_to_queue::<JobSwapTwo, Enqueue<JobSwapTwo>>(*old(w), *final(w)) && ({ let m = sent_msg::<Enqueue<JobSwapTwo>>(*final(w)); m.0.data == JobSwapTwo { a: ${p0}, b: ${p1} } && m.0.context == ${p2} && m.1 == EnqueueConfig { re_run: true, override_data: true } && (r is Ok ==> r->Ok_0@ == m.0.context.job_id@) }))
    - [C19] asked_for_queue::<JobSwapTwo>(*old(w), *final(w), "JobSwapTwo"@)
fn just_run | seffect props=C19
  ensures
    - [C19] old(w).app.aj is Some ==> ({ let m = dec::<JustRunJob<JobSwapTwo>>(final(w).app.asked.last().msg); m.job.data == JobSwapTwo { a: ${p0}, b: ${p1} } && m.job.context.job_type == JobType::Normal && m.job.context.job_status == JobStatus::Queued && m.job.context.retry is None && m.job.context.run_count == 0 && m.queue_name@ == "JobSwapTwo"@ && final(w).app == (App { asked: old(w).app.asked.push(Asked { to: old(w).app.aj->0, msg: enc(m) }), ..old(w).app }) })
fn just_run_with_context | seffect props=C19
  ensures
    - [C19] old(w).app.aj is Some ==> ({ let m = dec::<JustRunJob<JobSwapTwo>>(final(w).app.asked.last().msg); m.job.data == JobSwapTwo { a: ${p0}, b: ${p1} } && m.job.context == ${p2} && m.queue_name@ == "JobSwapTwo"@ && final(w).app == (App { asked: old(w).app.asked.push(Asked { to: old(w).app.aj->0, msg: enc(m) }), ..old(w).app }) })
file @seven.rs mod m_fx_seven
use use crate::m_error::*;
use use crate::m_job_context::*;
use use crate::m_job::*;
use use crate::m_executable::*;
use use crate::m_aj::*;
use use crate::m_queue::*;
use use crate::m_lib::*;
impl_extra JobSeven as BackgroundJob
  open spec fn vx_queue_name() -> Str { "JobSeven"@ }
fn JobSeven as BackgroundJob.queue_name | props=C19
  ensures
    - [C19] r@ == "JobSeven"@
fn JobSeven as BackgroundJob.job | props=C19
  ensures
    - [C19] r.data == self
    - [C19] r.context.job_type == JobType::Normal && r.context.job_status == JobStatus::Queued && r.context.retry is None && r.context.run_count == 0
    - clock_ext(*old(w), *final(w))
    - final(w).same_but_clock(*old(w)) && final(w).app == old(w).app
fn JobSeven as Executable.execute | props=C19
  ensures
    - [C19] ({ let d = *old(self); r == 7 })
    - [C19] *final(self) == *old(self)
  body_bottom
    broadcast use lemma_inv_frame;
    proof { vx_note(w, Note::Exec { cx: enc(*${p0}), d0: enc(*old(self)), d1: enc(*self), out: enc(vx_ret) }); }
fn run | seffect props=C19
  requires
    - old(w).app.aj is Some && reg_ok(*old(w))
  ensures
    - [C19] (r is Err && final(w).faulted && final(w).app.sent == old(w).app.sent)
      || (sent_to_queue::<JobSeven, Enqueue<JobSeven>>(*old(w), *final(w)) && ({ let m = sent_msg::<Enqueue<JobSeven>>(*final(w)); m.0.data == JobSeven { } && m.0.context.job_type == JobType::Normal && m.0.context.job_status == JobStatus::Queued && m.0.context.retry is None && m.0.context.run_count == 0 && m.1 == EnqueueConfig { re_run: true, override_data: true } && (r is Ok ==> r->Ok_0@ == m.0.context.job_id@) }))
    - [C19] asked_for_queue::<JobSeven>(*old(w), *final(w), "JobSeven"@)
fn run_with_context | seffect props=C19
  requires
    - old(w).app.aj is Some && reg_ok(*old(w))
  ensures
    - [C19] (r is Err && final(w).faulted && final(w).app.sent == old(w).app.sent)
      || (sent_to_queue::<JobSeven, Enqueue<JobSeven>>(*old(w), *final(w)) && ({ let m = sent_msg::<Enqueue<JobSeven>>(*final(w)); m.0.data == JobSeven { } && m.0.context == ${p0} && m.1 == EnqueueConfig { re_run: true, override_data: true } && (r is Ok ==> r->Ok_0@ == m.0.context.job_id@) }))
    - [C19] asked_for_queue::<JobSeven>(*old(w), *final(w), "JobSeven"@)
fn just_run | seffect props=C19
  ensures
    - [C19] old(w).app.aj is Some ==> ({ let m = dec::<JustRunJob<JobSeven>>(final(w).app.asked.last().msg); m.job.data == JobSeven { } && m.job.context.job_type == JobType::Normal && m.job.context.job_status == JobStatus::Queued && m.job.context.retry is None && m.job.context.run_count == 0 && m.queue_name@ == "JobSeven"@ && final(w).app == (App { asked: old(w).app.asked.push(Asked { to: old(w).app.aj->0, msg: enc(m) }), ..old(w).app }) })
fn just_run_with_context | seffect props=C19
  ensures
    - [C19] old(w).app.aj is Some ==> ({ let m = dec::<JustRunJob<JobSeven>>(final(w).app.asked.last().msg); m.job.data == JobSeven { } && m.job.context == ${p0} && m.queue_name@ == "JobSeven"@ && final(w).app == (App { asked: old(w).app.asked.push(Asked { to: old(w).app.aj->0, msg: enc(m) }), ..old(w).app }) })
file @quiet.rs mod m_fx_quiet
use use crate::m_error::*;
use use crate::m_job_context::*;
use use crate::m_job::*;
use use crate::m_executable::*;
use use crate::m_aj::*;
use use crate::m_queue::*;
use use crate::m_lib::*;
impl_extra JobQuiet as BackgroundJob
  open spec fn vx_queue_name() -> Str { "JobQuiet"@ }
fn JobQuiet as BackgroundJob.queue_name | props=C19
  ensures
    - [C19] r@ == "JobQuiet"@
fn JobQuiet as BackgroundJob.job | props=C19
  ensures
    - [C19] r.data == self
    - [C19] r.context.job_type == JobType::Normal && r.context.job_status == JobStatus::Queued && r.context.retry is None && r.context.run_count == 0
    - clock_ext(*old(w), *final(w))
    - final(w).same_but_clock(*old(w)) && final(w).app == old(w).app
fn JobQuiet as Executable.execute | props=C19
  ensures
    - [C19] ({ let d = *old(self); true })
    - [C19] *final(self) == *old(self)
  body_bottom
    broadcast use lemma_inv_frame;
    proof { vx_note(w, Note::Exec { cx: enc(*${p0}), d0: enc(*old(self)), d1: enc(*self), out: enc(vx_ret) }); }
fn run | seffect props=C19
  requires
    - old(w).app.aj is Some && reg_ok(*old(w))
  ensures
    - [C19] (r is Err && final(w).faulted && final(w).app.sent == old(w).app.sent)
      || (sent_to_queue::<JobQuiet, Enqueue<JobQuiet>>(*old(w), *final(w)) && ({ let m = sent_msg::<Enqueue<JobQuiet>>(*final(w)); m.0.data == JobQuiet { _name: ${p0}, _n: ${p1} } && m.0.context.job_type == JobType::Normal && m.0.context.job_status == JobStatus::Queued && m.0.context.retry is None && m.0.context.run_count == 0 && m.1 == EnqueueConfig { re_run: true, override_data: true } && (r is Ok ==> r->Ok_0@ == m.0.context.job_id@) }))
    - [C19] asked_for_queue::<JobQuiet>(*old(w), *final(w), "JobQuiet"@)
fn run_with_context | seffect props=C19
  requires
    - old(w).app.aj is Some && reg_ok(*old(w))
  ensures
    - [C19] (r is Err && final(w).faulted && final(w).app.sent == old(w).app.sent)
      || (sent_to_queue::<JobQuiet, Enqueue<JobQuiet>>(*old(w), *final(w)) && ({ let m = sent_msg::<Enqueue<JobQuiet>>(*final(w)); m.0.data == JobQuiet { _name: ${p0}, _n: ${p1} } && m.0.context == ${p2} && m.1 == EnqueueConfig { re_run: true, override_data: true } && (r is Ok ==> r->Ok_0@ == m.0.context.job_id@) }))
    - [C19] asked_for_queue::<JobQuiet>(*old(w), *final(w), "JobQuiet"@)
fn just_run | seffect props=C19
  ensures
    - [C19] old(w).app.aj is Some ==> ({ let m = dec::<JustRunJob<JobQuiet>>(final(w).app.asked.last().msg); m.job.data == JobQuiet { _name: ${p0}, _n: ${p1} } && m.job.context.job_type == JobType::Normal && m.job.context.job_status == JobStatus::Queued && m.job.context.retry is None && m.job.context.run_count == 0 && m.queue_name@ == "JobQuiet"@ && final(w).app == (App { asked: old(w).app.asked.push(Asked { to: old(w).app.aj->0, msg: enc(m) }), ..old(w).app }) })
fn just_run_with_context | seffect props=C19
  ensures
    - [C19] old(w).app.aj is Some ==> ({ let m = dec::<JustRunJob<JobQuiet>>(final(w).app.asked.last().msg); m.job.data == JobQuiet { _name: ${p0}, _n: ${p1} } && m.job.context == ${p2} && m.queue_name@ == "JobQuiet"@ && final(w).app == (App { asked: old(w).app.asked.push(Asked { to: old(w).app.aj->0, msg: enc(m) }), ..old(w).app }) })
file @at_most_ten.rs mod m_fx_at_most_ten
use use crate::m_error::*;
use use crate::m_job_context::*;
use use crate::m_job::*;
use use crate::m_executable::*;
use use crate::m_aj::*;
use use crate::m_queue::*;
use use crate::m_lib::*;
impl_extra JobAtMostTen as BackgroundJob
  open spec fn vx_queue_name() -> Str { "JobAtMostTen"@ }
fn JobAtMostTen as BackgroundJob.queue_name | props=C19
  ensures
    - [C19] r@ == "JobAtMostTen"@
fn JobAtMostTen as BackgroundJob.job | props=C19
  ensures
    - [C19] r.data == self
    - [C19] r.context.job_type == JobType::Normal && r.context.job_status == JobStatus::Queued && r.context.retry is None && r.context.run_count == 0
    - clock_ext(*old(w), *final(w))
    - final(w).same_but_clock(*old(w)) && final(w).app == old(w).app
fn JobAtMostTen as Executable.execute | props=C19
  ensures
    - [C19] ({ let d = *old(self); r == (if d.n > 10 { 10u32 } else { d.n }, d.tag) })
    - [C19] *final(self) == *old(self)
  body_bottom
    broadcast use lemma_inv_frame;
    proof { vx_note(w, Note::Exec { cx: enc(*${p0}), d0: enc(*old(self)), d1: enc(*self), out: enc(vx_ret) }); }
fn run | seffect props=C19
  requires
    - old(w).app.aj is Some && reg_ok(*old(w))
  ensures
    - [C19] (r is Err && final(w).faulted && final(w).app.sent == old(w).app.sent)
      || (sent_to_queue::<JobAtMostTen, Enqueue<JobAtMostTen>>(*old(w), *final(w)) && ({ let m = sent_msg::<Enqueue<JobAtMostTen>>(*final(w)); m.0.data == JobAtMostTen { n: ${p0}, tag: ${p1} } && m.0.context.job_type == JobType::Normal && m.0.context.job_status == JobStatus::Queued && m.0.context.retry is None && m.0.context.run_count == 0 && m.1 == EnqueueConfig { re_run: true, override_data: true } && (r is Ok ==> r->Ok_0@ == m.0.context.job_id@) }))
    - [C19] asked_for_queue::<JobAtMostTen>(*old(w), *final(w), "JobAtMostTen"@)
fn run_with_context | seffect props=C19
  requires
    - old(w).app.aj is Some && reg_ok(*old(w))
  ensures
    - [C19] (r is Err && final(w).faulted && final(w).app.sent == old(w).app.sent)
      || (sent_to_queue::<JobAtMostTen, Enqueue<JobAtMostTen>>(*old(w), *final(w)) && ({ let m = sent_msg::<Enqueue<JobAtMostTen>>(*final(w)); m.0.data == JobAtMostTen { n: ${p0}, tag: ${p1} } && m.0.context == ${p2} && m.1 == EnqueueConfig { re_run: true, override_data: true } && (r is Ok ==> r->Ok_0@ == m.0.context.job_id@) }))
    - [C19] asked_for_queue::<JobAtMostTen>(*old(w), *final(w), "JobAtMostTen"@)
fn just_run | seffect props=C19
  ensures
    - [C19] old(w).app.aj is Some ==> ({ let m = dec::<JustRunJob<JobAtMostTen>>(final(w).app.asked.last().msg); m.job.data == JobAtMostTen { n: ${p0}, tag: ${p1} } && m.job.context.job_type == JobType::Normal && m.job.context.job_status == JobStatus::Queued && m.job.context.retry is None && m.job.context.run_count == 0 && m.queue_name@ == "JobAtMostTen"@ && final(w).app == (App { asked: old(w).app.asked.push(Asked { to: old(w).app.aj->0, msg: enc(m) }), ..old(w).app }) })
fn just_run_with_context | seffect props=C19
  ensures
    - [C19] old(w).app.aj is Some ==> ({ let m = dec::<JustRunJob<JobAtMostTen>>(final(w).app.asked.last().msg); m.job.data == JobAtMostTen { n: ${p0}, tag: ${p1} } && m.job.context == ${p2} && m.queue_name@ == "JobAtMostTen"@ && final(w).app == (App { asked: old(w).app.asked.push(Asked { to: old(w).app.aj->0, msg: enc(m) }), ..old(w).app }) })
file @rot4.rs mod m_fx_rot4
use use crate::m_error::*;
use use crate::m_job_context::*;
use use crate::m_job::*;
use use crate::m_executable::*;
use use crate::m_aj::*;
use use crate::m_queue::*;
use use crate::m_lib::*;
impl_extra JobRot4 as BackgroundJob
  open spec fn vx_queue_name() -> Str { "JobRot4"@ }
fn JobRot4 as BackgroundJob.queue_name | props=C19
  ensures
    - [C19] r@ == "JobRot4"@
fn JobRot4 as BackgroundJob.job | props=C19
  ensures
    - [C19] r.data == self
    - [C19] r.context.job_type == JobType::Normal && r.context.job_status == JobStatus::Queued && r.context.retry is None && r.context.run_count == 0
    - clock_ext(*old(w), *final(w))
    - final(w).same_but_clock(*old(w)) && final(w).app == old(w).app
fn JobRot4 as Executable.execute | props=C19
  ensures
    - [C19] ({ let d = *old(self); r == (if d.fail { Err::<(u8, u8, u8), u8>(d.b) } else { Ok((d.c, d.a, d.b)) }) })
    - [C19] *final(self) == *old(self)
  body_bottom
    broadcast use lemma_inv_frame;
    proof { vx_note(w, Note::Exec { cx: enc(*${p0}), d0: enc(*old(self)), d1: enc(*self), out: enc(vx_ret) }); }
fn run | seffect props=C19
  requires
    - old(w).app.aj is Some && reg_ok(*old(w))
  ensures
    - [C19] (r is Err && final(w).faulted && final(w).app.sent == old(w).app.sent)
      || (sent_to_queue::<JobRot4, Enqueue<JobRot4>>(*old(w), *final(w)) && ({ let m = sent_msg::<Enqueue<JobRot4>>(*final(w)); m.0.data == JobRot4 { a: ${p0}, b: ${p1}, c: ${p2}, fail: ${p3} } && m.0.context.job_type == JobType::Normal && m.0.context.job_status == JobStatus::Queued && m.0.context.retry is None && m.0.context.run_count == 0 && m.1 == EnqueueConfig { re_run: true, override_data: true } && (r is Ok ==> r->Ok_0@ == m.0.context.job_id@) }))
    - [C19] asked_for_queue::<JobRot4>(*old(w), *final(w), "JobRot4"@)
fn run_with_context | seffect props=C19
  requires
    - old(w).app.aj is Some && reg_ok(*old(w))
  ensures
    - [C19] (r is Err && final(w).faulted && final(w).app.sent == old(w).app.sent)
      || (sent_to_queue::<JobRot4, Enqueue<JobRot4>>(*old(w), *final(w)) && ({ let m = sent_msg::<Enqueue<JobRot4>>(*final(w)); m.0.data == JobRot4 { a: ${p0}, b: ${p1}, c: ${p2}, fail: ${p3} } && m.0.context == ${p4} && m.1 == EnqueueConfig { re_run: true, override_data: true } && (r is Ok ==> r->Ok_0@ == m.0.context.job_id@) }))
    - [C19] asked_for_queue::<JobRot4>(*old(w), *final(w), "JobRot4"@)
fn just_run | seffect props=C19
  ensures
    - [C19] old(w).app.aj is Some ==> ({ let m = dec::<JustRunJob<JobRot4>>(final(w).app.asked.last().msg); m.job.data == JobRot4 { a: ${p0}, b: ${p1}, c: ${p2}, fail: ${p3} } && m.job.context.job_type == JobType::Normal && m.job.context.job_status == JobStatus::Queued && m.job.context.retry is None && m.job.context.run_count == 0 && m.queue_name@ == "JobRot4"@ && final(w).app == (App { asked: old(w).app.asked.push(Asked { to: old(w).app.aj->0, msg: enc(m) }), ..old(w).app }) })
fn just_run_with_context | seffect props=C19
  ensures
    - [C19] old(w).app.aj is Some ==> ({ let m = dec::<JustRunJob<JobRot4>>(final(w).app.asked.last().msg); m.job.data == JobRot4 { a: ${p0}, b: ${p1}, c: ${p2}, fail: ${p3} } && m.job.context == ${p4} && m.queue_name@ == "JobRot4"@ && final(w).app == (App { asked: old(w).app.asked.push(Asked { to: old(w).app.aj->0, msg: enc(m) }), ..old(w).app }) })
file @names_v2.rs mod m_fx_names_v2
use use crate::m_error::*;
use use crate::m_job_context::*;
use use crate::m_job::*;
use use crate::m_executable::*;
use use crate::m_aj::*;
use use crate::m_queue::*;
use use crate::m_lib::*;
impl_extra JobNamesV2 as BackgroundJob
  open spec fn vx_queue_name() -> Str { "JobNamesV2"@ }
fn JobNamesV2 as BackgroundJob.queue_name | props=C19
  ensures
    - [C19] r@ == "JobNamesV2"@
fn JobNamesV2 as BackgroundJob.job | props=C19
  ensures
    - [C19] r.data == self
    - [C19] r.context.job_type == JobType::Normal && r.context.job_status == JobStatus::Queued && r.context.retry is None && r.context.run_count == 0
    - clock_ext(*old(w), *final(w))
    - final(w).same_but_clock(*old(w)) && final(w).app == old(w).app
fn JobNamesV2 as Executable.execute | props=C19
  ensures
    - [C19] ({ let d = *old(self); r == (match d.job_id { Some(x) => x, None => d.msg }) })
    - [C19] *final(self) == *old(self)
  body_bottom
    broadcast use lemma_inv_frame;
    proof { vx_note(w, Note::Exec { cx: enc(*${p0}), d0: enc(*old(self)), d1: enc(*self), out: enc(vx_ret) }); }
fn run | seffect props=C19
  requires
    - old(w).app.aj is Some && reg_ok(*old(w))
  ensures
    - [C19] (r is Err && final(w).faulted && final(w).app.sent == old(w).app.sent)
      || (sent_to_queue::<JobNamesV2, Enqueue<JobNamesV2>>(*old(w), *final(w)) && ({ let m = sent_msg::<Enqueue<JobNamesV2>>(*final(w)); m.0.data == JobNamesV2 { msg: ${p0}, job_id: ${p1} } && m.0.context.job_type == JobType::Normal && m.0.context.job_status == JobStatus::Queued && m.0.context.retry is None && m.0.context.run_count == 0 && m.1 == EnqueueConfig { re_run: true, override_data: true } && (r is Ok ==> r->Ok_0@ == m.0.context.job_id@) }))
    - [C19] asked_for_queue::<JobNamesV2>(*old(w), *final(w), "JobNamesV2"@)
fn run_with_context | seffect props=C19
  requires
    - old(w).app.aj is Some && reg_ok(*old(w))
  ensures
    - [C19] (r is Err && final(w).faulted && final(w).app.sent == old(w).app.sent)
      || (sent_to_queue::<JobNamesV2, Enqueue<JobNamesV2>>(*old(w), *final(w)) && ({ let m = sent_msg::<Enqueue<JobNamesV2>>(*final(w)); m.0.data == JobNamesV2 { msg: ${p0}, job_id: ${p1} } && m.0.context == ${p2} && m.1 == EnqueueConfig { re_run: true, override_data: true } && (r is Ok ==> r->Ok_0@ == m.0.context.job_id@) }))
    - [C19] asked_for_queue::<JobNamesV2>(*old(w), *final(w), "JobNamesV2"@)
fn just_run | seffect props=C19
  ensures
    - [C19] old(w).app.aj is Some ==> ({ let m = dec::<JustRunJob<JobNamesV2>>(final(w).app.asked.last().msg); m.job.data == JobNamesV2 { msg: ${p0}, job_id: ${p1} } && m.job.context.job_type == JobType::Normal && m.job.context.job_status == JobStatus::Queued && m.job.context.retry is None && m.job.context.run_count == 0 && m.queue_name@ == "JobNamesV2"@ && final(w).app == (App { asked: old(w).app.asked.push(Asked { to: old(w).app.aj->0, msg: enc(m) }), ..old(w).app }) })
fn just_run_with_context | seffect props=C19
  ensures
    - [C19] old(w).app.aj is Some ==> ({ let m = dec::<JustRunJob<JobNamesV2>>(final(w).app.asked.last().msg); m.job.data == JobNamesV2 { msg: ${p0}, job_id: ${p1} } && m.job.context == ${p2} && m.queue_name@ == "JobNamesV2"@ && final(w).app == (App { asked: old(w).app.asked.push(Asked { to: old(w).app.aj->0, msg: enc(m) }), ..old(w).app }) })
file @step2_six_args.rs mod m_fx_step2_six_args
use use crate::m_error::*;
use use crate::m_job_context::*;
use use crate::m_job::*;
use use crate::m_executable::*;
use use crate::m_aj::*;
use use crate::m_queue::*;
use use crate::m_lib::*;
impl_extra JobStep2SixArgs as BackgroundJob
  open spec fn vx_queue_name() -> Str { "JobStep2SixArgs"@ }
fn JobStep2SixArgs as BackgroundJob.queue_name | props=C19
  ensures
    - [C19] r@ == "JobStep2SixArgs"@
fn JobStep2SixArgs as BackgroundJob.job | props=C19
  ensures
    - [C19] r.data == self
    - [C19] r.context.job_type == JobType::Normal && r.context.job_status == JobStatus::Queued && r.context.retry is None && r.context.run_count == 0
    - clock_ext(*old(w), *final(w))
    - final(w).same_but_clock(*old(w)) && final(w).app == old(w).app
fn JobStep2SixArgs as Executable.execute | props=C19
  ensures
    - [C19] ({ let d = *old(self); r == ((d.b, d.a, d.d), (d.c, d.f, d.e)) })
    - [C19] *final(self) == *old(self)
  body_bottom
    broadcast use lemma_inv_frame;
    proof { vx_note(w, Note::Exec { cx: enc(*${p0}), d0: enc(*old(self)), d1: enc(*self), out: enc(vx_ret) }); }
fn run | seffect props=C19
  requires
    - old(w).app.aj is Some && reg_ok(*old(w))
  ensures
    - [C19] (r is Err && final(w).faulted && final(w).app.sent == old(w).app.sent)
      || (sent_to_queue::<JobStep2SixArgs, Enqueue<JobStep2SixArgs>>(*old(w), *final(w)) && ({ let m = sent_msg::<Enqueue<JobStep2SixArgs>>(*final(w)); m.0.data == JobStep2SixArgs { a: ${p0}, b: ${p1}, c: ${p2}, d: ${p3}, e: ${p4}, f: ${p5} } && m.0.context.job_type == JobType::Normal && m.0.context.job_status == JobStatus::Queued && m.0.context.retry is None && m.0.context.run_count == 0 && m.1 == EnqueueConfig { re_run: true, override_data: true } && (r is Ok ==> r->Ok_0@ == m.0.context.job_id@) }))
    - [C19] asked_for_queue::<JobStep2SixArgs>(*old(w), *final(w), "JobStep2SixArgs"@)
fn run_with_context | seffect props=C19
  requires
    - old(w).app.aj is Some && reg_ok(*old(w))
  ensures
    - [C19] (r is Err && final(w).faulted && final(w).app.sent == old(w).app.sent)
      || (sent_to_queue::<JobStep2SixArgs, Enqueue<JobStep2SixArgs>>(*old(w), *final(w)) && ({ let m = sent_msg::<Enqueue<JobStep2SixArgs>>(*final(w)); m.0.data == JobStep2SixArgs { a: ${p0}, b: ${p1}, c: ${p2}, d: ${p3}, e: ${p4}, f: ${p5} } && m.0.context == ${p6} && m.1 == EnqueueConfig { re_run: true, override_data: true } && (r is Ok ==> r->Ok_0@ == m.0.context.job_id@) }))
    - [C19] asked_for_queue::<JobStep2SixArgs>(*old(w), *final(w), "JobStep2SixArgs"@)
fn just_run | seffect props=C19
  ensures
    - [C19] old(w).app.aj is Some ==> ({ let m = dec::<JustRunJob<JobStep2SixArgs>>(final(w).app.asked.last().msg); m.job.data == JobStep2SixArgs { a: ${p0}, b: ${p1}, c: ${p2}, d: ${p3}, e: ${p4}, f: ${p5} } && m.job.context.job_type == JobType::Normal && m.job.context.job_status == JobStatus::Queued && m.job.context.retry is None && m.job.context.run_count == 0 && m.queue_name@ == "JobStep2SixArgs"@ && final(w).app == (App { asked: old(w).app.asked.push(Asked { to: old(w).app.aj->0, msg: enc(m) }), ..old(w).app }) })
fn just_run_with_context | seffect props=C19
  ensures
    - [C19] old(w).app.aj is Some ==> ({ let m = dec::<JustRunJob<JobStep2SixArgs>>(final(w).app.asked.last().msg); m.job.data == JobStep2SixArgs { a: ${p0}, b: ${p1}, c: ${p2}, d: ${p3}, e: ${p4}, f: ${p5} } && m.job.context == ${p6} && m.queue_name@ == "JobStep2SixArgs"@ && final(w).app == (App { asked: old(w).app.asked.push(Asked { to: old(w).app.aj->0, msg: enc(m) }), ..old(w).app }) })
file @x.rs mod m_fx_x
use use crate::m_error::*;
use use crate::m_job_context::*;
use use crate::m_job::*;
use use crate::m_executable::*;
use use crate::m_aj::*;
use use crate::m_queue::*;
use use crate::m_lib::*;
impl_extra JobX as BackgroundJob
  open spec fn vx_queue_name() -> Str { "JobX"@ }
fn JobX as BackgroundJob.queue_name | props=C19
  ensures
    - [C19] r@ == "JobX"@
fn JobX as BackgroundJob.job | props=C19
  ensures
    - [C19] r.data == self
    - [C19] r.context.job_type == JobType::Normal && r.context.job_status == JobStatus::Queued && r.context.retry is None && r.context.run_count == 0
    - clock_ext(*old(w), *final(w))
    - final(w).same_but_clock(*old(w)) && final(w).app == old(w).app
fn JobX as Executable.execute | props=C19
  ensures
    - [C19] ({ let d = *old(self); r == d.x })
    - [C19] *final(self) == *old(self)
  body_bottom
    broadcast use lemma_inv_frame;
    proof { vx_note(w, Note::Exec { cx: enc(*${p0}), d0: enc(*old(self)), d1: enc(*self), out: enc(vx_ret) }); }
fn run | seffect props=C19
  requires
    - old(w).app.aj is Some && reg_ok(*old(w))
  ensures
    - [C19] (r is Err && final(w).faulted && final(w).app.sent == old(w).app.sent)
      || (sent_to_queue::<JobX, Enqueue<JobX>>(*old(w), *final(w)) && ({ let m = sent_msg::<Enqueue<JobX>>(*final(w)); m.0.data == JobX { x: ${p0} } && m.0.context.job_type == JobType::Normal && m.0.context.job_status == JobStatus::Queued && m.0.context.retry is None && m.0.context.run_count == 0 && m.1 == EnqueueConfig { re_run: true, override_data: true } && (r is Ok ==> r->Ok_0@ == m.0.context.job_id@) }))
    - [C19] asked_for_queue::<JobX>(*old(w), *final(w), "JobX"@)
fn run_with_context | seffect props=C19
  requires
    - old(w).app.aj is Some && reg_ok(*old(w))
  ensures
    - [C19] (r is Err && final(w).faulted && final(w).app.sent == old(w).app.sent)
      || (sent_to_queue::<JobX, Enqueue<JobX>>(*old(w), *final(w)) && ({ let m = sent_msg::<Enqueue<JobX>>(*final(w)); m.0.data == JobX { x: ${p0} } && m.0.context == ${p1} && m.1 == EnqueueConfig { re_run: true, override_data: true } && (r is Ok ==> r->Ok_0@ == m.0.context.job_id@) }))
    - [C19] asked_for_queue::<JobX>(*old(w), *final(w), "JobX"@)
fn just_run | seffect props=C19
  ensures
    - [C19] old(w).app.aj is Some ==> ({ let m = dec::<JustRunJob<JobX>>(final(w).app.asked.last().msg); m.job.data == JobX { x: ${p0} } && m.job.context.job_type == JobType::Normal && m.job.context.job_status == JobStatus::Queued && m.job.context.retry is None && m.job.context.run_count == 0 && m.queue_name@ == "JobX"@ && final(w).app == (App { asked: old(w).app.asked.push(Asked { to: old(w).app.aj->0, msg: enc(m) }), ..old(w).app }) })
fn just_run_with_context | seffect props=C19
  ensures
    - [C19] old(w).app.aj is Some ==> ({ let m = dec::<JustRunJob<JobX>>(final(w).app.asked.last().msg); m.job.data == JobX { x: ${p0} } && m.job.context == ${p1} && m.queue_name@ == "JobX"@ && final(w).app == (App { asked: old(w).app.asked.push(Asked { to: old(w).app.aj->0, msg: enc(m) }), ..old(w).app }) })
file @send_email.rs mod m_fx_send_email
use use crate::m_error::*;
use use crate::m_job_context::*;
use use crate::m_job::*;
use use crate::m_executable::*;
use use crate::m_aj::*;
use use crate::m_queue::*;
use use crate::m_lib::*;
impl_extra JobSendEmail as BackgroundJob
  open spec fn vx_queue_name() -> Str { "JobSendEmail"@ }
fn JobSendEmail as BackgroundJob.queue_name | props=C19
  ensures
    - [C19] r@ == "JobSendEmail"@
fn JobSendEmail as BackgroundJob.job | props=C19
  ensures
    - [C19] r.data == self
    - [C19] r.context.job_type == JobType::Normal && r.context.job_status == JobStatus::Queued && r.context.retry is None && r.context.run_count == 0
    - clock_ext(*old(w), *final(w))
    - final(w).same_but_clock(*old(w)) && final(w).app == old(w).app
fn JobSendEmail as Executable.execute | props=C19
  ensures
    - [C19] ({ let d = *old(self); r.0@ == d.subject@ && r.1@ == d.to@ })
    - [C19] *final(self) == *old(self)
  body_bottom
    broadcast use lemma_inv_frame;
    proof { vx_note(w, Note::Exec { cx: enc(*${p0}), d0: enc(*old(self)), d1: enc(*self), out: enc(vx_ret) }); }
fn run | seffect props=C19
  requires
    - old(w).app.aj is Some && reg_ok(*old(w))
  ensures
    - [C19] (r is Err && final(w).faulted && final(w).app.sent == old(w).app.sent)
      || (sent_to_queue::<JobSendEmail, Enqueue<JobSendEmail>>(*old(w), *final(w)) && ({ let m = sent_msg::<Enqueue<JobSendEmail>>(*final(w)); m.0.data == JobSendEmail { to: ${p0}, subject: ${p1}, body: ${p2} } && m.0.context.job_type == JobType::Normal && m.0.context.job_status == JobStatus::Queued && m.0.context.retry is None && m.0.context.run_count == 0 && m.1 == EnqueueConfig { re_run: true, override_data: true } && (r is Ok ==> r->Ok_0@ == m.0.context.job_id@) }))
    - [C19] asked_for_queue::<JobSendEmail>(*old(w), *final(w), "JobSendEmail"@)
fn run_with_context | seffect props=C19
  requires
    - old(w).app.aj is Some && reg_ok(*old(w))
  ensures
    - [C19] (r is Err && final(w).faulted && final(w).app.sent == old(w).app.sent)
      || (sent_to_queue::<JobSendEmail, Enqueue<JobSendEmail>>(*old(w), *final(w)) && ({ let m = sent_msg::<Enqueue<JobSendEmail>>(*final(w)); m.0.data == JobSendEmail { to: ${p0}, subject: ${p1}, body: ${p2} } && m.0.context == ${p3} && m.1 == EnqueueConfig { re_run: true, override_data: true } && (r is Ok ==> r->Ok_0@ == m.0.context.job_id@) }))
    - [C19] asked_for_queue::<JobSendEmail>(*old(w), *final(w), "JobSendEmail"@)
fn just_run | seffect props=C19
  ensures
    - [C19] old(w).app.aj is Some ==> ({ let m = dec::<JustRunJob<JobSendEmail>>(final(w).app.asked.last().msg); m.job.data == JobSendEmail { to: ${p0}, subject: ${p1}, body: ${p2} } && m.job.context.job_type == JobType::Normal && m.job.context.job_status == JobStatus::Queued && m.job.context.retry is None && m.job.context.run_count == 0 && m.queue_name@ == "JobSendEmail"@ && final(w).app == (App { asked: old(w).app.asked.push(Asked { to: old(w).app.aj->0, msg: enc(m) }), ..old(w).app }) })
fn just_run_with_context | seffect props=C19
  ensures
    - [C19] old(w).app.aj is Some ==> ({ let m = dec::<JustRunJob<JobSendEmail>>(final(w).app.asked.last().msg); m.job.data == JobSendEmail { to: ${p0}, subject: ${p1}, body: ${p2} } && m.job.context == ${p3} && m.queue_name@ == "JobSendEmail"@ && final(w).app == (App { asked: old(w).app.asked.push(Asked { to: old(w).app.aj->0, msg: enc(m) }), ..old(w).app }) })
file @fx_derive.rs mod m_fx_fx_derive
use use crate::m_error::*;
use use crate::m_job_context::*;
use use crate::m_job::*;
use use crate::m_executable::*;
use use crate::m_aj::*;
use use crate::m_queue::*;
use use crate::m_lib::*;
impl_extra Print as BackgroundJob
  open spec fn vx_queue_name() -> Str { "Print"@ }
fn Print as BackgroundJob.queue_name | props=C19
  ensures
    - [C19] r@ == "Print"@
fn Print as BackgroundJob.job | props=C19
  ensures
    - [C19] r.data == self
    - [C19] r.context.job_type == JobType::Normal && r.context.job_status == JobStatus::Queued && r.context.retry is None && r.context.run_count == 0
    - clock_ext(*old(w), *final(w))
    - final(w).same_but_clock(*old(w)) && final(w).app == old(w).app
fn Print as Executable.execute | props=C19
  ensures
    - [C19] ({ let d = *old(self); r == d.number })
    - [C19] *final(self) == *old(self)
  body_bottom
    broadcast use lemma_inv_frame;
    proof { vx_note(w, Note::Exec { cx: enc(*${p0}), d0: enc(*old(self)), d1: enc(*self), out: enc(vx_ret) }); }
impl_extra Pair as BackgroundJob
  open spec fn vx_queue_name() -> Str { "Pair"@ }
fn Pair as BackgroundJob.queue_name | props=C19
  ensures
    - [C19] r@ == "Pair"@
fn Pair as BackgroundJob.job | props=C19
  ensures
    - [C19] r.data == self
    - [C19] r.context.job_type == JobType::Normal && r.context.job_status == JobStatus::Queued && r.context.retry is None && r.context.run_count == 0
    - clock_ext(*old(w), *final(w))
    - final(w).same_but_clock(*old(w)) && final(w).app == old(w).app
fn Pair as Executable.execute | props=C19
  ensures
    - [C19] ({ let d = *old(self); r == d.1 })
    - [C19] *final(self) == *old(self)
  body_bottom
    broadcast use lemma_inv_frame;
    proof { vx_note(w, Note::Exec { cx: enc(*${p0}), d0: enc(*old(self)), d1: enc(*self), out: enc(vx_ret) }); }
impl_extra Task2 as BackgroundJob
  open spec fn vx_queue_name() -> Str { "Task2"@ }
fn Task2 as BackgroundJob.queue_name | props=C19
  ensures
    - [C19] r@ == "Task2"@
fn Task2 as BackgroundJob.job | props=C19
  ensures
    - [C19] r.data == self
    - [C19] r.context.job_type == JobType::Normal && r.context.job_status == JobStatus::Queued && r.context.retry is None && r.context.run_count == 0
    - clock_ext(*old(w), *final(w))
    - final(w).same_but_clock(*old(w)) && final(w).app == old(w).app
fn Task2 as Executable.execute | props=C19
  ensures
    - [C19] ({ let d = *old(self); r == (d is One) })
    - [C19] *final(self) == *old(self)
  body_bottom
    broadcast use lemma_inv_frame;
    proof { vx_note(w, Note::Exec { cx: enc(*${p0}), d0: enc(*old(self)), d1: enc(*self), out: enc(vx_ret) }); }
file @fx_names.rs mod m_fx_fx_names
use use crate::m_error::*;
use use crate::m_job_context::*;
use use crate::m_job::*;
use use crate::m_executable::*;
use use crate::m_aj::*;
use use crate::m_queue::*;
use use crate::m_lib::*;
impl_extra Send as BackgroundJob
  open spec fn vx_queue_name() -> Str { "Send"@ }
fn Send as BackgroundJob.queue_name | props=C19
  ensures
    - [C19] r@ == "Send"@
fn Send as BackgroundJob.job | props=C19
  ensures
    - [C19] r.data == self
    - [C19] r.context.job_type == JobType::Normal && r.context.job_status == JobStatus::Queued && r.context.retry is None && r.context.run_count == 0
    - clock_ext(*old(w), *final(w))
    - final(w).same_but_clock(*old(w)) && final(w).app == old(w).app
fn Send as Executable.execute | props=C19
  ensures
    - [C19] ({ let d = *old(self); r == d.n })
    - [C19] *final(self) == *old(self)
  body_bottom
    broadcast use lemma_inv_frame;
    proof { vx_note(w, Note::Exec { cx: enc(*${p0}), d0: enc(*old(self)), d1: enc(*self), out: enc(vx_ret) }); }
impl_extra SendJob as BackgroundJob
  open spec fn vx_queue_name() -> Str { "SendJob"@ }
fn SendJob as BackgroundJob.queue_name | props=C19
  ensures
    - [C19] r@ == "SendJob"@
fn SendJob as BackgroundJob.job | props=C19
  ensures
    - [C19] r.data == self
    - [C19] r.context.job_type == JobType::Normal && r.context.job_status == JobStatus::Queued && r.context.retry is None && r.context.run_count == 0
    - clock_ext(*old(w), *final(w))
    - final(w).same_but_clock(*old(w)) && final(w).app == old(w).app
fn SendJob as Executable.execute | props=C19
  ensures
    - [C19] ({ let d = *old(self); r == d.n })
    - [C19] *final(self) == *old(self)
  body_bottom
    broadcast use lemma_inv_frame;
    proof { vx_note(w, Note::Exec { cx: enc(*${p0}), d0: enc(*old(self)), d1: enc(*self), out: enc(vx_ret) }); }
impl_extra JobSend as BackgroundJob
  open spec fn vx_queue_name() -> Str { "JobSend"@ }
fn JobSend as BackgroundJob.queue_name | props=C19
  ensures
    - [C19] r@ == "JobSend"@
fn JobSend as BackgroundJob.job | props=C19
  ensures
    - [C19] r.data == self
    - [C19] r.context.job_type == JobType::Normal && r.context.job_status == JobStatus::Queued && r.context.retry is None && r.context.run_count == 0
    - clock_ext(*old(w), *final(w))
    - final(w).same_but_clock(*old(w)) && final(w).app == old(w).app
fn JobSend as Executable.execute | props=C19
  ensures
    - [C19] ({ let d = *old(self); r == d.n })
    - [C19] *final(self) == *old(self)
  body_bottom
    broadcast use lemma_inv_frame;
    proof { vx_note(w, Note::Exec { cx: enc(*${p0}), d0: enc(*old(self)), d1: enc(*self), out: enc(vx_ret) }); }
impl_extra Job2 as BackgroundJob
  open spec fn vx_queue_name() -> Str { "Job2"@ }
fn Job2 as BackgroundJob.queue_name | props=C19
  ensures
    - [C19] r@ == "Job2"@
fn Job2 as BackgroundJob.job | props=C19
  ensures
    - [C19] r.data == self
    - [C19] r.context.job_type == JobType::Normal && r.context.job_status == JobStatus::Queued && r.context.retry is None && r.context.run_count == 0
    - clock_ext(*old(w), *final(w))
    - final(w).same_but_clock(*old(w)) && final(w).app == old(w).app
fn Job2 as Executable.execute | props=C19
  ensures
    - [C19] ({ let d = *old(self); r == d.n })
    - [C19] *final(self) == *old(self)
  body_bottom
    broadcast use lemma_inv_frame;
    proof { vx_note(w, Note::Exec { cx: enc(*${p0}), d0: enc(*old(self)), d1: enc(*self), out: enc(vx_ret) }); }
impl_extra A as BackgroundJob
  open spec fn vx_queue_name() -> Str { "A"@ }
fn A as BackgroundJob.queue_name | props=C19
  ensures
    - [C19] r@ == "A"@
fn A as BackgroundJob.job | props=C19
  ensures
    - [C19] r.data == self
    - [C19] r.context.job_type == JobType::Normal && r.context.job_status == JobStatus::Queued && r.context.retry is None && r.context.run_count == 0
    - clock_ext(*old(w), *final(w))
    - final(w).same_but_clock(*old(w)) && final(w).app == old(w).app
fn A as Executable.execute | props=C19
  ensures
    - [C19] ({ let d = *old(self); r == d.n })
    - [C19] *final(self) == *old(self)
  body_bottom
    broadcast use lemma_inv_frame;
    proof { vx_note(w, Note::Exec { cx: enc(*${p0}), d0: enc(*old(self)), d1: enc(*self), out: enc(vx_ret) }); }
impl_extra snake_case_type as BackgroundJob
  open spec fn vx_queue_name() -> Str { "snake_case_type"@ }
fn snake_case_type as BackgroundJob.queue_name | props=C19
  ensures
    - [C19] r@ == "snake_case_type"@
fn snake_case_type as BackgroundJob.job | props=C19
  ensures
    - [C19] r.data == self
    - [C19] r.context.job_type == JobType::Normal && r.context.job_status == JobStatus::Queued && r.context.retry is None && r.context.run_count == 0
    - clock_ext(*old(w), *final(w))
    - final(w).same_but_clock(*old(w)) && final(w).app == old(w).app
fn snake_case_type as Executable.execute | props=C19
  ensures
    - [C19] ({ let d = *old(self); r == d.n })
    - [C19] *final(self) == *old(self)
  body_bottom
    broadcast use lemma_inv_frame;
    proof { vx_note(w, Note::Exec { cx: enc(*${p0}), d0: enc(*old(self)), d1: enc(*self), out: enc(vx_ret) }); }
impl_extra HTTPClient as BackgroundJob
  open spec fn vx_queue_name() -> Str { "HTTPClient"@ }
fn HTTPClient as BackgroundJob.queue_name | props=C19
  ensures
    - [C19] r@ == "HTTPClient"@
fn HTTPClient as BackgroundJob.job | props=C19
  ensures
    - [C19] r.data == self
    - [C19] r.context.job_type == JobType::Normal && r.context.job_status == JobStatus::Queued && r.context.retry is None && r.context.run_count == 0
    - clock_ext(*old(w), *final(w))
    - final(w).same_but_clock(*old(w)) && final(w).app == old(w).app
fn HTTPClient as Executable.execute | props=C19
  ensures
    - [C19] ({ let d = *old(self); r == d.n })
    - [C19] *final(self) == *old(self)
  body_bottom
    broadcast use lemma_inv_frame;
    proof { vx_note(w, Note::Exec { cx: enc(*${p0}), d0: enc(*old(self)), d1: enc(*self), out: enc(vx_ret) }); }
impl_extra X9 as BackgroundJob
  open spec fn vx_queue_name() -> Str { "X9"@ }
fn X9 as BackgroundJob.queue_name | props=C19
  ensures
    - [C19] r@ == "X9"@
fn X9 as BackgroundJob.job | props=C19
  ensures
    - [C19] r.data == self
    - [C19] r.context.job_type == JobType::Normal && r.context.job_status == JobStatus::Queued && r.context.retry is None && r.context.run_count == 0
    - clock_ext(*old(w), *final(w))
    - final(w).same_but_clock(*old(w)) && final(w).app == old(w).app
fn X9 as Executable.execute | props=C19
  ensures
    - [C19] ({ let d = *old(self); r == d.n })
    - [C19] *final(self) == *old(self)
  body_bottom
    broadcast use lemma_inv_frame;
    proof { vx_note(w, Note::Exec { cx: enc(*${p0}), d0: enc(*old(self)), d1: enc(*self), out: enc(vx_ret) }); }
impl_extra AVeryLongNameOfAJobTypeThatGoesOnAndOnForMoreThanSixtyFourCharacters0123456789 as BackgroundJob
  open spec fn vx_queue_name() -> Str { "AVeryLongNameOfAJobTypeThatGoesOnAndOnForMoreThanSixtyFourCharacters0123456789"@ }
fn AVeryLongNameOfAJobTypeThatGoesOnAndOnForMoreThanSixtyFourCharacters0123456789 as BackgroundJob.queue_name | props=C19
  ensures
    - [C19] r@ == "AVeryLongNameOfAJobTypeThatGoesOnAndOnForMoreThanSixtyFourCharacters0123456789"@
fn AVeryLongNameOfAJobTypeThatGoesOnAndOnForMoreThanSixtyFourCharacters0123456789 as BackgroundJob.job | props=C19
  ensures
    - [C19] r.data == self
    - [C19] r.context.job_type == JobType::Normal && r.context.job_status == JobStatus::Queued && r.context.retry is None && r.context.run_count == 0
    - clock_ext(*old(w), *final(w))
    - final(w).same_but_clock(*old(w)) && final(w).app == old(w).app
fn AVeryLongNameOfAJobTypeThatGoesOnAndOnForMoreThanSixtyFourCharacters0123456789 as Executable.execute | props=C19
  ensures
    - [C19] ({ let d = *old(self); r == d.n })
    - [C19] *final(self) == *old(self)
  body_bottom
    broadcast use lemma_inv_frame;
    proof { vx_note(w, Note::Exec { cx: enc(*${p0}), d0: enc(*old(self)), d1: enc(*self), out: enc(vx_ret) }); }
impl_extra Queue as BackgroundJob
  open spec fn vx_queue_name() -> Str { "Queue"@ }
fn Queue as BackgroundJob.queue_name | props=C19
  ensures
    - [C19] r@ == "Queue"@
fn Queue as BackgroundJob.job | props=C19
  ensures
    - [C19] r.data == self
    - [C19] r.context.job_type == JobType::Normal && r.context.job_status == JobStatus::Queued && r.context.retry is None && r.context.run_count == 0
    - clock_ext(*old(w), *final(w))
    - final(w).same_but_clock(*old(w)) && final(w).app == old(w).app
fn Queue as Executable.execute | props=C19
  ensures
    - [C19] ({ let d = *old(self); r == d.n })
    - [C19] *final(self) == *old(self)
  body_bottom
    broadcast use lemma_inv_frame;
    proof { vx_note(w, Note::Exec { cx: enc(*${p0}), d0: enc(*old(self)), d1: enc(*self), out: enc(vx_ret) }); }
impl_extra queue as BackgroundJob
  open spec fn vx_queue_name() -> Str { "queue"@ }
fn queue as BackgroundJob.queue_name | props=C19
  ensures
    - [C19] r@ == "queue"@
fn queue as BackgroundJob.job | props=C19
  ensures
    - [C19] r.data == self
    - [C19] r.context.job_type == JobType::Normal && r.context.job_status == JobStatus::Queued && r.context.retry is None && r.context.run_count == 0
    - clock_ext(*old(w), *final(w))
    - final(w).same_but_clock(*old(w)) && final(w).app == old(w).app
fn queue as Executable.execute | props=C19
  ensures
    - [C19] ({ let d = *old(self); r == d.n })
    - [C19] *final(self) == *old(self)
  body_bottom
    broadcast use lemma_inv_frame;
    proof { vx_note(w, Note::Exec { cx: enc(*${p0}), d0: enc(*old(self)), d1: enc(*self), out: enc(vx_ret) }); }
impl_extra send as BackgroundJob
  open spec fn vx_queue_name() -> Str { "send"@ }
fn send as BackgroundJob.queue_name | props=C19
  ensures
    - [C19] r@ == "send"@
fn send as BackgroundJob.job | props=C19
  ensures
    - [C19] r.data == self
    - [C19] r.context.job_type == JobType::Normal && r.context.job_status == JobStatus::Queued && r.context.retry is None && r.context.run_count == 0
    - clock_ext(*old(w), *final(w))
    - final(w).same_but_clock(*old(w)) && final(w).app == old(w).app
fn send as Executable.execute | props=C19
  ensures
    - [C19] ({ let d = *old(self); r == d.n })
    - [C19] *final(self) == *old(self)
  body_bottom
    broadcast use lemma_inv_frame;
    proof { vx_note(w, Note::Exec { cx: enc(*${p0}), d0: enc(*old(self)), d1: enc(*self), out: enc(vx_ret) }); }
