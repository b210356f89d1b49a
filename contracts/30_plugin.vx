effects do_send send change_status before_run after_run handle
file aj_core/src/plugin/job_plugin.rs mod m_plugin_job
use use crate::m_job_context::*;
use use crate::m_job::*;
use use crate::m_executable::*;

trait_extra JobPlugin
  spec fn vx_pid(&self) -> int;
fn trait JobPlugin.change_status | effect props=C14
  ensures
    - final(w).hooks == old(w).hooks.push(HookCall { plugin: self.vx_pid(), job: ${p0}@, what: Hook::Status(${p1}) })
  body_bottom
    proof { vx_hook(w, HookCall { plugin: self.vx_pid(), job: ${p0}@, what: Hook::Status(${p1}) }); }
fn trait JobPlugin.before_run | effect props=C14
  ensures
    - final(w).hooks == old(w).hooks.push(HookCall { plugin: self.vx_pid(), job: ${p0}@, what: Hook::Before })
  body_bottom
    proof { vx_hook(w, HookCall { plugin: self.vx_pid(), job: ${p0}@, what: Hook::Before }); }
fn trait JobPlugin.after_run | effect props=C14
  ensures
    - final(w).hooks == old(w).hooks.push(HookCall { plugin: self.vx_pid(), job: ${p0}@, what: Hook::After })
  body_bottom
    proof { vx_hook(w, HookCall { plugin: self.vx_pid(), job: ${p0}@, what: Hook::After }); }
fn JobPluginWrapper.new | props=C14
  ensures
    - [C14] r.job_type_ids == ${p1}
fn JobPluginWrapper.change_status | effect props=C14
  ensures
    - [C14] wants(*self, tid::<Job<M>>()) ==> final(w).hooks == old(w).hooks.push(HookCall { plugin: self.hook.vx_pid(), job: ${p0}@, what: Hook::Status(${p1}) })
    - [C14] !wants(*self, tid::<Job<M>>()) ==> final(w).hooks == old(w).hooks
fn JobPluginWrapper.before_run | effect props=C14
  ensures
    - [C14] wants(*self, tid::<Job<M>>()) ==> final(w).hooks == old(w).hooks.push(HookCall { plugin: self.hook.vx_pid(), job: ${p0}@, what: Hook::Before })
    - [C14] !wants(*self, tid::<Job<M>>()) ==> final(w).hooks == old(w).hooks
fn JobPluginWrapper.after_run | effect props=C14
  ensures
    - [C14] wants(*self, tid::<Job<M>>()) ==> final(w).hooks == old(w).hooks.push(HookCall { plugin: self.hook.vx_pid(), job: ${p0}@, what: Hook::After })
    - [C14] !wants(*self, tid::<Job<M>>()) ==> final(w).hooks == old(w).hooks
fn JobPluginWrapper.should_run | props=C14
  ensures
    - [C14] r == wants(*self, ${p0})

file aj_core/src/plugin/mod.rs mod m_plugin
use use crate::m_error::*;
use use crate::m_job_context::*;
use use crate::m_job::*;
use use crate::m_executable::*;
use use crate::m_plugin_job::*;
drop PluginCenter as SystemService : actix plumbing, from_registry is a trusted stand-in
drop PluginCenter as Supervised : actix plumbing

impl_extra PluginCenter as Actor
  // kept

fn PluginCenter.register | seffect props=C14
  ensures
    - [C14] r is Ok ==> final(w).app.plugged == old(w).app.plugged.push(enc(RegisterPlugin { plugin: ${p0} }))
fn PluginCenter.change_status | seffect props=C14
  ensures
    - [C14] noted(*old(w), *final(w), ${p0}@, Note::Status { ty: tid::<M>(), st: ${p1} })
fn PluginCenter.before | seffect props=C14
  ensures
    - rely::<M>(*old(w), *final(w)) && final(w).runs == old(w).runs
    - [C14] final(w).n(${p0}@) == old(w).n(${p0}@).push(Note::Before { ty: tid::<M>() })
fn PluginCenter.after | seffect props=C14
  ensures
    - rely::<M>(*old(w), *final(w)) && final(w).runs == old(w).runs
    - [C14] final(w).n(${p0}@) == old(w).n(${p0}@).push(Note::After { ty: tid::<M>() })
impl_extra PluginCenter as Handler<RegisterPlugin>
  open spec fn vx_pre(&self, msg: RegisterPlugin, w: World) -> bool { true }
fn PluginCenter as Handler<RegisterPlugin>.handle | props=C14
  ensures
    - [C14] final(self).plugins@ =~= old(self).plugins@.push(Arc::new(${p0}.plugin))
impl_extra PluginCenter as Handler<RunHook<M>>
  open spec fn vx_pre(&self, msg: RunHook<M>, w: World) -> bool { true }
fn PluginCenter as Handler<RunHook<M>>.handle | props=C14
  ensures
    - [C14] final(self).plugins@ == old(self).plugins@
    - [C14] final(w).hooks =~= old(w).hooks + hook_calls(old(self).plugins@, old(self).plugins@.len() as int, tid::<Job<M>>(), ${p0}.job_id@, if ${p0}.before { Hook::Before } else { Hook::After })
  loop 0 for
    invariant
      - @[!range] owned(vx_e0) =~= old(self).plugins@
      - @[range] vx_range_is(vx_e0, 0, old(self).plugins@.len() as int)
      - w.hooks =~= old(w).hooks + hook_calls(old(self).plugins@, it0.pos(), tid::<Job<M>>(), ${p0}.job_id@, if ${p0}.before { Hook::Before } else { Hook::After })
impl_extra PluginCenter as Handler<ChangeStatus<M>>
  open spec fn vx_pre(&self, msg: ChangeStatus<M>, w: World) -> bool { true }
fn PluginCenter as Handler<ChangeStatus<M>>.handle | props=C14
  ensures
    - [C14] final(self).plugins@ == old(self).plugins@
    - [C14] final(w).hooks =~= old(w).hooks + hook_calls(old(self).plugins@, old(self).plugins@.len() as int, tid::<Job<M>>(), ${p0}.job_id@, Hook::Status(${p0}.status))
  loop 0 for
    invariant
      - @[!range] owned(vx_e0) =~= old(self).plugins@
      - @[range] vx_range_is(vx_e0, 0, old(self).plugins@.len() as int)
      - w.hooks =~= old(w).hooks + hook_calls(old(self).plugins@, it0.pos(), tid::<Job<M>>(), ${p0}.job_id@, Hook::Status(${p0}.status))
