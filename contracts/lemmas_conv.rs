// Error conversions used by `?` (which error it becomes is not specified).
verus! {
impl FromSpecImpl<RedisError> for m_error::Error {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: RedisError) -> m_error::Error { arbitrary() }
}
impl From<RedisError> for m_error::Error { #[verifier::external_body] fn from(v: RedisError) -> m_error::Error { unimplemented!() } }
impl FromSpecImpl<MailboxError> for m_error::Error {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: MailboxError) -> m_error::Error { arbitrary() }
}
impl From<MailboxError> for m_error::Error { #[verifier::external_body] fn from(v: MailboxError) -> m_error::Error { unimplemented!() } }
impl FromSpecImpl<cron::error::Error> for m_error::Error {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: cron::error::Error) -> m_error::Error { arbitrary() }
}
impl From<cron::error::Error> for m_error::Error { #[verifier::external_body] fn from(v: cron::error::Error) -> m_error::Error { unimplemented!() } }
}

impl std::fmt::Debug for m_error::Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } }
impl std::fmt::Debug for cron::error::Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } }
verus! {
impl Default for m_job_context::CronContext {
    #[verifier::external_body]
    fn default() -> (r: Self) ensures r.tick_number == 0 && r.max_repeat is None && r.end_at is None { unimplemented!() }
}
impl<M> Serialize for m_job::Job<M> {}
impl<M> DeserializeOwned for m_job::Job<M> {}
impl Addr<m_plugin::PluginCenter> {
    /// fire and forget
    #[verifier::external_body]
    pub fn do_send<Msg: PluginMsg>(&self, msg: Msg, Tracked(w): Tracked<&mut World>)
        ensures msg.dropped_in(*old(w), *final(w)) { unimplemented!() }
    /// send and wait for the answer
    #[verifier::external_body]
    pub fn send<Msg: PluginMsg>(&self, msg: Msg, Tracked(w): Tracked<&mut World>) -> (r: Result<(), MailboxError>)
        ensures msg.awaited(*old(w), *final(w)) { unimplemented!() }
}
impl m_plugin::PluginCenter {
    #[verifier::external_body]
    pub fn from_registry() -> Addr<m_plugin::PluginCenter> { unimplemented!() }
}
pub axiom fn vx_hook(tracked w: &mut World, h: HookCall)
    ensures final(w).hooks == old(w).hooks.push(h);
}
verus! {
impl<M> PluginMsg for m_plugin::RunHook<M> {
    open spec fn dropped_in(&self, a: World, b: World) -> bool {
        noted(a, b, self.job_id@, if self.before { Note::Before { ty: tid::<M>() } } else { Note::After { ty: tid::<M>() } })
    }
    open spec fn awaited(&self, a: World, b: World) -> bool {
        &&& rely::<M>(a, b) && b.runs == a.runs
        &&& b.n(self.job_id@) == a.n(self.job_id@).push(if self.before { Note::Before { ty: tid::<M>() } } else { Note::After { ty: tid::<M>() } })
    }
}
impl<M> PluginMsg for m_plugin::ChangeStatus<M> {
    open spec fn dropped_in(&self, a: World, b: World) -> bool { noted(a, b, self.job_id@, Note::Status { ty: tid::<M>(), st: self.status }) }
    open spec fn awaited(&self, a: World, b: World) -> bool {
        &&& rely::<M>(a, b) && b.runs == a.runs
        &&& b.n(self.job_id@) == a.n(self.job_id@).push(Note::Status { ty: tid::<M>(), st: self.status })
    }
}
impl PluginMsg for m_plugin::RegisterPlugin {
    open spec fn dropped_in(&self, a: World, b: World) -> bool { b == (World { app: App { plugged: a.app.plugged.push(enc(*self)), ..a.app }, ..a }) }
    open spec fn awaited(&self, a: World, b: World) -> bool { b.app.plugged == a.app.plugged.push(enc(*self)) }
}
}
