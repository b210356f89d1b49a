file aj_core/src/aj.rs mod m_aj
use use crate::m_mem::InMemory;
use use crate::m_error::*;
use use crate::m_types::*;
use use crate::m_job_context::*;
use use crate::m_job::*;
use use crate::m_executable::*;
use use crate::m_plugin::*;
use use crate::m_plugin_job::*;
use use crate::m_queue::*;
file_effects get insert contains_key read try_read write try_write send do_send spawn
static QUEUE_REGISTRY : vx_queue_registry()
static AJ_ADDR : vx_aj_addr()
type_map Box<dyn Any> => VxBoxAny

fn get_work_queue_address | effect props=C16
  ensures
    - app_read(*old(w), *final(w))
    - [C16] r is Some ==> registered::<M>(*final(w), r->0)
    - [C16] r is None && reg_ok(*old(w)) ==> !has_queue::<M>(*old(w))
    - [C16] has_queue::<M>(*old(w)) && reg_ok(*old(w)) ==> r is Some && registered::<M>(*old(w), r->0)
fn get_aj_address | effect props=C16,C20
  ensures
    - *final(w) == (World { app: App { aj: final(w).app.aj, ..old(w).app }, ..*old(w) }) && aj_grows(*old(w), *final(w))
    - [C16,C20] r is Some ==> final(w).app.aj == Some(enc(r->0))
    - [C16,C20] old(w).app.aj is Some ==> r is Some

## one call of start: the instance it returns is the running one; it was there already, or this call started it
fn AJ.start | seffect props=C20
  ensures
    - [C20] final(w).app.aj == Some(enc(r))
    - [C20] aj_grows(*old(w), *final(w))
    - [C20] final(w).app.replaced == old(w).app.replaced
    - [C20] final(w).app.started == old(w).app.started || final(w).app.started.len() == old(w).app.started.len() + 1 && final(w).app.started.drop_last() =~= old(w).app.started && final(w).app.started.last().addr == enc(r)
    - [C20] old(w).app.aj is Some ==> final(w).app.started == old(w).app.started
    - final(w).app.reg == old(w).app.reg && final(w).app.names == old(w).app.names && final(w).app.sent == old(w).app.sent && final(w).app.asked == old(w).app.asked
fn AJ.quick_start | seffect props=C20
  ensures
    - [C20] final(w).app.aj == Some(enc(r))
    - [C20] aj_grows(*old(w), *final(w))
    - [C20] final(w).app.replaced == old(w).app.replaced
    - [C20] final(w).app.started == old(w).app.started || final(w).app.started.len() == old(w).app.started.len() + 1 && final(w).app.started.last().addr == enc(r)
    - [C20] old(w).app.aj is Some ==> final(w).app.started == old(w).app.started

impl_extra AJ as Actor
  // kept

fn AJ.register | effect props=C16
  requires
    - old(w).app.in_aj
    - !has_queue::<M>(*old(w))
    - !old(w).app.names.contains_key(${p0}@)
  ensures
    - [C16] registered::<M>(*final(w), r)
    - [C16] final(w).app.reg.remove(tid::<M>()) =~= old(w).app.reg
    - [C16] final(w).app.names.remove(${p0}@) =~= old(w).app.names && final(w).app.names.contains_key(${p0}@)
    - [C16] final(w).app.started == old(w).app.started.push(Started { addr: enc(r), name: ${p0}@, backend: enc(self.backend) })
    - [C16] final(w).app.sent == old(w).app.sent && final(w).app.asked == old(w).app.asked
    - reg_ok(*old(w)) ==> reg_ok(*final(w))
impl_extra AJ as Handler<InitWorkQueue<M>>
  open spec fn vx_pre(&self, msg: InitWorkQueue<M>, w: World) -> bool {
    w.app.in_aj && reg_ok(w) && (!has_queue::<M>(w) ==> !w.app.names.contains_key(msg.queue_name@))
  }
fn AJ as Handler<InitWorkQueue<M>>.handle | props=C16
  ensures
    - [C16] reg_ok(*final(w)) && reg_grows(*old(w), *final(w))
    - [C16] registered::<M>(*final(w), r)
    - [C16] has_queue::<M>(*old(w)) ==> final(w).app == old(w).app
    - [C16] !has_queue::<M>(*old(w)) ==> final(w).app.started == old(w).app.started.push(Started { addr: enc(r), name: ${p0}.queue_name@, backend: enc(old(self).backend) })
    - [C16] !has_queue::<M>(*old(w)) ==> final(w).app.reg.remove(tid::<M>()) =~= old(w).app.reg
    - [C16] *final(self) == *old(self)

fn AJ.enqueue_job | seffect props=C13,C16,C17,C21
  requires
    - old(w).app.aj is Some && reg_ok(*old(w))
  ensures
    - app_step(*old(w), *final(w)) && reg_ok(*final(w))
    - [C16] asked_for_queue::<M>(*old(w), *final(w), ${p2}@)
    - [C13,C16,C17] (r is Err && final(w).faulted && final(w).app.sent == old(w).app.sent)
      || (sent_to_queue::<M, Enqueue<M>>(*old(w), *final(w)) && sent_msg::<Enqueue<M>>(*final(w)) == Enqueue(${p0}, ${p1}))
    - [C13,C21] final(w).app.sent.len() > old(w).app.sent.len() && delivered(*final(w)) ==> r == answer::<Result<(), Error>>(*final(w))
    - [C13,C21] !delivered(*final(w)) && final(w).app.sent.len() > old(w).app.sent.len() ==> r is Err
fn AJ.cancel_job | seffect props=C11,C16,C21
  requires
    - reg_ok(*old(w))
  ensures
    - app_step(*old(w), *final(w)) && reg_ok(*final(w))
    - [C16] final(w).app.asked == old(w).app.asked
    - [C16] final(w).app.sent == old(w).app.sent ==> !has_queue::<M>(*old(w)) && r == Err::<(), Error>(Error::NoQueueRegister)
    - [C11,C16] final(w).app.sent != old(w).app.sent ==> sent_to_queue::<M, CancelJob>(*old(w), *final(w)) && sent_msg::<CancelJob>(*final(w)).job_id@ == ${p0}@
    - [C11,C21] final(w).app.sent != old(w).app.sent && delivered(*final(w)) ==> r == answer::<Result<(), Error>>(*final(w))
    - [C21] final(w).app.sent != old(w).app.sent && !delivered(*final(w)) ==> r is Err
fn AJ.get_job | seffect props=C03,C16,C17
  requires
    - reg_ok(*old(w))
  ensures
    - app_step(*old(w), *final(w)) && reg_ok(*final(w))
    - [C16] final(w).app.asked == old(w).app.asked
    - [C16,C17] final(w).app.sent == old(w).app.sent ==> !has_queue::<M>(*old(w)) && r is None
    - [C03,C16,C17] final(w).app.sent != old(w).app.sent ==> sent_to_queue::<M, GetJob<M>>(*old(w), *final(w)) && sent_msg::<GetJob<M>>(*final(w)).job_id@ == ${p0}@
    - [C03,C17] final(w).app.sent != old(w).app.sent ==> r == (if delivered(*final(w)) { answer::<Option<Job<M>>>(*final(w)) } else { None })
    - [C17] !final(w).faulted && r is Some ==> r->0.context.job_id@ == ${p0}@
fn AJ.retry_job | seffect props=C12,C16,C21
  requires
    - reg_ok(*old(w))
  ensures
    - app_step(*old(w), *final(w)) && reg_ok(*final(w))
    - [C16] final(w).app.asked == old(w).app.asked
    - [C16] final(w).app.sent == old(w).app.sent ==> !has_queue::<M>(*old(w)) && r == Err::<bool, Error>(Error::NoQueueRegister)
    - [C12,C16] final(w).app.sent != old(w).app.sent ==> sent_to_queue::<M, RetryJob<M>>(*old(w), *final(w)) && sent_msg::<RetryJob<M>>(*final(w)).job_id@ == ${p0}@
    - [C12,C21] final(w).app.sent != old(w).app.sent && delivered(*final(w)) ==> r == answer::<Result<bool, Error>>(*final(w))
    - [C21] final(w).app.sent != old(w).app.sent && !delivered(*final(w)) ==> r is Err
fn AJ.update_work_queue | seffect props=C05,C16
  requires
    - reg_ok(*old(w))
  ensures
    - app_step(*old(w), *final(w)) && reg_ok(*final(w))
    - [C16] final(w).app.asked == old(w).app.asked
    - [C16] final(w).app.sent == old(w).app.sent ==> !has_queue::<M>(*old(w)) && r == Err::<(), Error>(Error::NoQueueRegister)
    - [C05,C16] final(w).app.sent != old(w).app.sent ==> sent_to_queue::<M, UpdateWorkQueue>(*old(w), *final(w)) && sent_msg::<UpdateWorkQueue>(*final(w)) == (UpdateWorkQueue { config: ${p0} })
fn AJ.add_job | seffect props=C13,C16,C17,C21
  requires
    - old(w).app.aj is Some && reg_ok(*old(w))
  ensures
    - app_step(*old(w), *final(w)) && reg_ok(*final(w))
    - [C16] asked_for_queue::<M>(*old(w), *final(w), ${p1}@)
    - [C13,C16,C17] (r is Err && final(w).faulted && final(w).app.sent == old(w).app.sent)
      || (sent_to_queue::<M, Enqueue<M>>(*old(w), *final(w)) && sent_msg::<Enqueue<M>>(*final(w)) == Enqueue(${p0}, EnqueueConfig { re_run: true, override_data: true }))
    - [C13] r is Ok ==> r->Ok_0@ == ${p0}.context.job_id@
    - [C13,C21] r is Ok ==> final(w).app.sent.len() > old(w).app.sent.len() && delivered(*final(w)) && answer::<Result<(), Error>>(*final(w)) is Ok
fn AJ.update_job | seffect props=C17,C21
  requires
    - old(w).app.aj is Some && reg_ok(*old(w))
  ensures
    - [C21] r is Ok && final(w).app.sent.len() == old(w).app.sent.len() + 2 ==> delivered(*final(w)) && answer::<Result<(), Error>>(*final(w)) is Ok
    - [C17] final(w).faulted || updated::<M>(*old(w), *final(w), ${p0}@, ${p1}, ${p2})
fn AJ.register_plugin | seffect props=C14
  ensures
    - [C14] r is Ok ==> final(w).app.plugged.len() == old(w).app.plugged.len() + 1 && final(w).app.plugged.drop_last() =~= old(w).app.plugged
    - [C14] r is Ok ==> ({ let p = dec::<RegisterPlugin>(final(w).app.plugged.last()).plugin; p.job_type_ids@.len() == 0 })
impl_extra AJ as Handler<JustRunJob<M>>
  open spec fn vx_pre(&self, msg: JustRunJob<M>, w: World) -> bool { w.app.aj is Some && reg_ok(w) }
fn AJ as Handler<JustRunJob<M>>.handle | props=C13,C18
  ensures
    - [C13,C18] *final(w) == (World { tasks: old(w).tasks.push(${p0}.job.context.job_id@), ..*old(w) })
  async 0
    task_ghost
      ${p0}.job.context.job_id@
    task_pre
      let ghost vx_ws = *w;
      let ghost vx_m = ${p0};
    task_post
      proof { assert(w.faulted || (sent_to_queue::<M, Enqueue<M>>(vx_ws, *w) && sent_msg::<Enqueue<M>>(*w) == Enqueue(vx_m.job, EnqueueConfig { re_run: true, override_data: true }))); }

file aj_core/src/lib.rs mod m_lib
use use crate::m_error::*;
use use crate::m_job::*;
use use crate::m_executable::*;
use use crate::m_aj::*;
use use crate::m_queue::*;
file_effects do_send
fn Job.run | effect props=C13,C18
  requires
    - old(w).app.aj is Some && reg_ok(*old(w))
  ensures
    - app_step(*old(w), *final(w)) && reg_ok(*final(w))
    - [C13,C18] (r is Err && final(w).faulted && final(w).app.sent == old(w).app.sent)
      || (sent_to_queue::<M, Enqueue<M>>(*old(w), *final(w)) && sent_msg::<Enqueue<M>>(*final(w)) == Enqueue(self, EnqueueConfig { re_run: true, override_data: true }))
    - [C16] asked_for_queue::<M>(*old(w), *final(w), M::vx_queue_name())
    - [C13,C18] r is Ok ==> r->Ok_0@ == self.context.job_id@
fn Job.just_run | effect props=C13,C18
  ensures
    - [C13,C18] old(w).app.aj is Some ==> ({ let m = dec::<JustRunJob<M>>(final(w).app.asked.last().msg); m.job == self && m.queue_name@ == M::vx_queue_name() && final(w).app == (App { asked: old(w).app.asked.push(Asked { to: old(w).app.aj->0, msg: enc(m) }), ..old(w).app }) })
    - [C13] final(w).app.aj is None ==> final(w).app == old(w).app
