effects spawn send
file aj_core/src/queue.rs mod m_queue
use use crate::m_error::*;
use use crate::m_types::*;
use use crate::m_job_context::*;
use use crate::m_job::*;
use use crate::m_executable::*;
use use crate::StdDuration as Duration;
use use crate::m_retry::*;

fn EnqueueConfig.new | props=C13
  ensures
    - [C13] r.re_run == ${p0} && r.override_data == ${p1}
fn EnqueueConfig.new_re_run | props=C13
  ensures
    - [C13] r.re_run && r.override_data
fn EnqueueConfig.new_skip_if_finished | props=C13
  ensures
    - [C13] !r.re_run && r.override_data
fn WorkQueueConfig.init | props=C05,C07
  ensures
    - [C05] r.max_processing_jobs == 20
    - [C07] r.process_tick_duration.ns == 100_000_000
fn WorkQueueConfig as Default.default | props=C05,C07
  ensures
    - [C05] r.max_processing_jobs == 20
    - [C07] r.process_tick_duration.ns == 100_000_000

impl_extra WorkQueue as Actor
  // kept
impl_bounds WorkQueue as Actor
  <M>

fn WorkQueue.new | props=C06
  ensures
    - [C06] (*r.name)@ == ${p0}@
    - r.backend == ${p1}
    - [C05] r.config.max_processing_jobs == 20
    - [C07] r.config.process_tick_duration.ns == 100_000_000
fn WorkQueue.format_queue_name | strlits props=C06
  ensures
    - [C06] r@ =~= qn((*self.name)@, ${p0})
  body_top
    proof { reveal_strlit(":queue:"); }
fn WorkQueue.storage_name | props=C06
fn WorkQueue.run_with_config | effect props=C13,C06,C21
  requires
    - wq_ok(*self, *old(w))
  ensures
    - env_q(*old(w), *final(w))
    - [C06] !final(w).faulted ==> inv::<M>(*final(w))
    - [C06] !final(w).faulted ==> keeps_running(*old(w), *final(w), None)
    - [C13] r is Err ==> final(w).faulted
    - [C21] r is Ok ==> final(w).faulted == old(w).faulted
    - [C13] !final(w).faulted ==> submitted(*old(w), *final(w), ${p0}, ${p1})
  body_top
    broadcast use lemma_inv_data;
    broadcast use lemma_qn_inj;
    proof { if !w.faulted { lemma_where::<M>(*w, ${p0}.context.job_id@); } }
fn WorkQueue.enqueue | effect props=C06,C13,C21
  requires
    - wq_ok(*self, *old(w))
    - !old(w).faulted ==> stored::<M>(*old(w), ${p0}.context.job_id@) is None
  ensures
    - env_q(*old(w), *final(w))
    - [C06] !final(w).faulted ==> inv::<M>(*final(w))
    - [C06] !final(w).faulted ==> keeps_running(*old(w), *final(w), None)
    - [C13] r is Err ==> final(w).faulted
    - [C21] r is Ok ==> final(w).faulted == old(w).faulted
    - [C13] !final(w).faulted ==> put_in(*old(w), *final(w), ${p0}, JobStatus::Queued)
  body_top
    broadcast use lemma_qn_inj;
    proof { if !w.faulted { lemma_where::<M>(*w, ${p0}.context.job_id@); } }
  body_bottom
    proof { if !w.faulted { lemma_q_moved::<M>(*old(w), *w, ${p0}.context.job_id@, JobStatus::Queued); } }

fn WorkQueue.re_enqueue | effect props=C06,C08,C12,C21
  requires
    - wq_ok(*self, *old(w))
    - !old(w).faulted ==> status_is::<M>(*old(w), ${p0}.context.job_id@, ${p0}.context.job_status)
  ensures
    - env_q(*old(w), *final(w))
    - [C06] !final(w).faulted ==> inv::<M>(*final(w))
    - [C06] !final(w).faulted ==> keeps_running(*old(w), *final(w), Some(${p0}.context.job_id@))
    - [C06] !final(w).faulted && ${p0}.context.job_status != JobStatus::Running ==> keeps_running(*old(w), *final(w), None)
    - [C08] r is Err ==> final(w).faulted
    - [C21] r is Ok ==> final(w).faulted == old(w).faulted
    - [C08,C12,C13] !final(w).faulted ==> put_in(*old(w), *final(w), ${p0}, JobStatus::Queued)
  body_top
    broadcast use lemma_qn_inj;
    proof { if !w.faulted { lemma_where::<M>(*w, ${p0}.context.job_id@); } }
  body_bottom
    proof { if !w.faulted { lemma_q_moved::<M>(*old(w), *w, ${p0}.context.job_id@, JobStatus::Queued); } }

fn WorkQueue.mark_job_is_canceled | effect props=C06
  requires
    - wq_ok(*self, *old(w))
  ensures
    - env_q(*old(w), *final(w))
fn WorkQueue.mark_job_is_finished | effect props=C06,C08
  requires
    - wq_ok(*self, *old(w))
    - !old(w).faulted ==> status_is::<M>(*old(w), ${p0}.context.job_id@, JobStatus::Running)
  ensures
    - env_q(*old(w), *final(w))
    - [C06] !final(w).faulted ==> inv::<M>(*final(w))
    - [C06] !final(w).faulted ==> keeps_running(*old(w), *final(w), Some(${p0}.context.job_id@))
    - [C08] r is Err ==> final(w).faulted
    - [C08] !final(w).faulted ==> put_in(*old(w), *final(w), ${p0}, JobStatus::Finished)
  body_top
    broadcast use lemma_qn_inj;
    proof { if !w.faulted { lemma_where::<M>(*w, ${p0}.context.job_id@); } }
  body_bottom
    proof { if !w.faulted { lemma_q_moved::<M>(*old(w), *w, ${p0}.context.job_id@, JobStatus::Finished); } }
fn WorkQueue.mark_job_is_failed | effect props=C06,C08
  requires
    - wq_ok(*self, *old(w))
    - !old(w).faulted ==> status_is::<M>(*old(w), ${p0}.context.job_id@, JobStatus::Running)
  ensures
    - env_q(*old(w), *final(w))
    - [C06] !final(w).faulted ==> inv::<M>(*final(w))
    - [C06] !final(w).faulted ==> keeps_running(*old(w), *final(w), Some(${p0}.context.job_id@))
    - [C08] r is Err ==> final(w).faulted
    - [C08] !final(w).faulted ==> put_in(*old(w), *final(w), ${p0}, JobStatus::Failed)
  body_top
    broadcast use lemma_qn_inj;
    proof { if !w.faulted { lemma_where::<M>(*w, ${p0}.context.job_id@); } }
  body_bottom
    proof { if !w.faulted { lemma_q_moved::<M>(*old(w), *w, ${p0}.context.job_id@, JobStatus::Failed); } }
fn WorkQueue.push_failed_job | effect props=C06,C08
  requires
    - (*self.name)@ == old(w).qname
  ensures
    - env_q(*old(w), *final(w))
    - [C06] !final(w).faulted ==> list(*final(w), JobStatus::Running) == without(list(*old(w), JobStatus::Running), ${p0}@)
    - [C06] !final(w).faulted ==> list(*final(w), JobStatus::Failed) == seq![${p0}@] + list(*old(w), JobStatus::Failed)
    - [C06] !final(w).faulted ==> forall|n: Str| n != qn(old(w).qname, JobStatus::Running) && n != qn(old(w).qname, JobStatus::Failed) ==> #[trigger] final(w).q(n) == old(w).q(n)
    - !final(w).faulted ==> final(w).store == old(w).store && final(w).notes == old(w).notes
  body_top
    broadcast use lemma_qn_inj;
fn WorkQueue.remove_processing_job | effect props=C06,C08
  requires
    - (*self.name)@ == old(w).qname
  ensures
    - env_q(*old(w), *final(w))
    - [C06] !final(w).faulted ==> list(*final(w), JobStatus::Running) == without(list(*old(w), JobStatus::Running), ${p0}@)
    - [C06] !final(w).faulted ==> forall|n: Str| n != qn(old(w).qname, JobStatus::Running) ==> #[trigger] final(w).q(n) == old(w).q(n)
    - !final(w).faulted ==> final(w).store == old(w).store && final(w).notes == old(w).notes
  body_top
    broadcast use lemma_qn_inj;
fn WorkQueue.get_processing_job_ids | effect props=C06
  requires
    - (*self.name)@ == old(w).qname
  ensures
    - env_same(*old(w), *final(w))
    - r is Err ==> final(w).faulted
    - !final(w).faulted ==> final(w).store =~= old(w).store && final(w).queues =~= old(w).queues
    - [C06] !final(w).faulted ==> ids(r->Ok_0@) == seen_from(list(*old(w), JobStatus::Running), ${p0} as int, QueueDirection::Front)
fn WorkQueue.read_job | effect props=C03,C21
  ensures
    - env_same(*old(w), *final(w))
    - r is Err ==> final(w).faulted
    - [C21] r is Ok ==> final(w).faulted == old(w).faulted
    - [C03] !final(w).faulted ==> r == Ok::<Option<Job<M>>, Error>(stored::<M>(*old(w), ${p0}@))
    - [C03] final(w).store =~= old(w).store
    - [C03] final(w).queues =~= old(w).queues
fn WorkQueue.get_job | effect props=C03,C21
  ensures
    - env_same(*old(w), *final(w))
    - r is Err ==> final(w).faulted
    - [C21] r is Ok ==> final(w).faulted == old(w).faulted
    - [C03] !final(w).faulted ==> r == Ok::<Option<Job<M>>, Error>(stored::<M>(*old(w), ${p0}@))
    - [C03] final(w).store =~= old(w).store
    - [C03] final(w).queues =~= old(w).queues
fn WorkQueue.cancel_job | effect props=C11,C21
  requires
    - wq_ok(*self, *old(w))
  ensures
    - env_q(*old(w), *final(w))
    - [C06] !final(w).faulted ==> inv::<M>(*final(w))
    - [C06] !final(w).faulted ==> keeps_running(*old(w), *final(w), None)
    - [C11] r is Err ==> final(w).faulted
    - [C21] r is Ok ==> final(w).faulted == old(w).faulted
    - [C11] !final(w).faulted ==> cancelled::<M>(*old(w), *final(w), ${p0}@)
  body_top
    broadcast use lemma_inv_data;
    broadcast use lemma_qn_inj;
    proof { if !w.faulted { lemma_where::<M>(*w, ${p0}@); } }
  body_bottom
    proof { if !w.faulted && status_is::<M>(*old(w), ${p0}@, JobStatus::Queued) { lemma_q_moved::<M>(*old(w), *w, ${p0}@, JobStatus::Canceled); } }
fn WorkQueue.retry_job | effect props=C12,C21
  requires
    - wq_ok(*self, *old(w))
  ensures
    - env_q(*old(w), *final(w))
    - [C06] !final(w).faulted ==> inv::<M>(*final(w))
    - [C06] !final(w).faulted ==> keeps_running(*old(w), *final(w), None)
    - [C12] r is Err ==> final(w).faulted
    - [C21] r is Ok ==> final(w).faulted == old(w).faulted
    - [C12] !final(w).faulted ==> rerun::<M>(*old(w), *final(w), ${p0}@)
    - [C12] !final(w).faulted ==> r == Ok::<bool, Error>(may_rerun::<M>(*old(w), ${p0}@))
  body_top
    broadcast use lemma_inv_data;
    broadcast use lemma_qn_inj;
    proof { if !w.faulted { lemma_where::<M>(*w, ${p0}@); } }

fn WorkQueue.try_pick_specific_ready_jobs | effect props=C04,C05,C06,C07,C08
  requires
    - wq_ok(*self, *old(w))
    - list(*old(w), JobStatus::Queued).len() <= i32::MAX
  ensures
    - env_q(*old(w), *final(w))
    - r is Err ==> final(w).faulted
    - [C04,C06,C08] !final(w).faulted ==> pick_state(*old(w), *final(w), r->Ok_0@)
    - [C05] r is Ok ==> r->Ok_0@.len() <= ${p0}
    - [C05] list(*final(w), JobStatus::Running).len() <= list(*old(w), JobStatus::Running).len() + ${p0}
    - [C04] r is Ok ==> all_due(*old(w), *final(w), r->Ok_0@)
    - [C07] !final(w).faulted ==> examined(*old(w), *final(w), r->Ok_0@, ${p0} as int, Seq::empty())
  body_top
    broadcast use lemma_qn_inj, lemma_one, lemma_ids;
  loop 0 loop|while
    pre
      ## the counter counts the jobs still to look at down to zero, or the jobs looked at up to the length of the queue
      let ghost len0 = list(*old(w), JobStatus::Queued).len() as int;
      let ghost up = ${num0} as int == 0 && len0 > 0;
      @[flag0] let ghost f0 = ${flag0};
      proof { if !w.faulted { lemma_pick_start::<M>(*old(w), *w, ${p0} as int); } }
    invariant
      - [C07] @[flag0] ${flag0} != f0 && !w.faulted ==> ${vec0}@.len() >= ${p0} || left_to_do(up, len0, ${num0} as int) <= 0 || list(*w, JobStatus::Queued).len() == 0
      - env_q(*old(w), *w)
      - @[loop] 0 <= ${num0} <= i32::MAX
      - @[loop] up ==> ${num0} < len0
      - @[while] -20 <= ${num0} <= i32::MAX
      - @[while] up ==> 0 <= ${num0} < len0 + 20
      - @[flag0] ${flag0} == f0 ==> 0 <= ${num0} && (up ==> ${num0} < len0)
      - len0 == 0 ==> ${num0} <= 0
      - [C04,C06,C08] !w.faulted ==> pick_state(*old(w), *w, ${vec0}@)
      - [C05] ${vec0}@.len() <= ${p0}
      - [C05] list(*w, JobStatus::Running).len() <= list(*old(w), JobStatus::Running).len() + ${vec0}@.len()
      - [C04] all_due(*old(w), *w, ${vec0}@)
      - [C07] left_to_do(up, len0, ${num0} as int) <= list(*w, JobStatus::Queued).len()
      - [C07] !w.faulted ==> examined(*old(w), *w, ${vec0}@, ${p0} as int, unseen(list(*w, JobStatus::Queued), left_to_do(up, len0, ${num0} as int), 0))
    decreases
      - [C07] @[flag0] if ${flag0} == f0 { pos_or_0(left_to_do(up, len0, ${num0} as int)) + 1 } else { 0 }
      - [C07] pos_or_0(left_to_do(up, len0, ${num0} as int))
    top
      let ghost c0 = left_to_do(up, len0, ${num0} as int);
      let ghost w1 = *w;
      let ghost qs = list(*w, JobStatus::Queued);
    post
      proof { reveal(examined); }
  loop 1 for
    pre
      proof { if !w.faulted { lemma_pick_same::<M>(*old(w), w1, *w, ${vec0}@, ${p0} as int, unseen(qs, c0, 0)); } }
    invariant
      - env_q(*old(w), *w)
      - ids(owned(vx_e1)) == seen_from(qs, 20, QueueDirection::Back)
      - [C07] left_to_do(up, len0, ${num0} as int) == c0 - vx_e1.len() || (!up && c0 < vx_e1.len() && ${num0} == 0) || len0 == 0
      - c0 <= qs.len()
      - [C04,C06,C08] !w.faulted ==> pick_state(*old(w), *w, ${vec0}@)
      - [C05] ${vec0}@.len() <= ${p0}
      - [C05] list(*w, JobStatus::Running).len() <= list(*old(w), JobStatus::Running).len() + ${vec0}@.len()
      - [C04] all_due(*old(w), *w, ${vec0}@)
      - !w.faulted ==> tail(list(*w, JobStatus::Queued), qs.len() - it1.pos()) =~= qs.take(qs.len() - it1.pos())
      - list(*w, JobStatus::Queued).len() >= qs.len() - it1.pos()
      - [C07] !w.faulted ==> examined(*old(w), *w, ${vec0}@, ${p0} as int, unseen(qs, c0, it1.pos()))
    top
      let ghost wi = *w;
      let ghost ri = ${vec0}@;
      proof { if !w.faulted { lemma_seen_at(owned(vx_e1), qs, 20, it1.pos() - 1); lemma_pick_at::<M>(*old(w), *w, ri, qs, it1.pos());
        assert forall|k: int| 0 <= k < ri.len() implies (#[trigger] ri[k]).context.job_id@ != qs[qs.len() - it1.pos()] by { assert(job_ids(ri)[k] == ri[k].context.job_id@); } } }
    bottom
      proof { lemma_all_due(*old(w), wi, *w, ri, ${vec0}@); if !w.faulted {
        if ${vec0}@.len() > ri.len() { lemma_pick_take::<M>(*old(w), wi, *w, ri, ${vec0}@.last(), ${p0} as int, qs, c0, it1.pos()); }
        else { lemma_pick_rotate::<M>(*old(w), wi, *w, ri, ${p0} as int, qs, c0, it1.pos()); }
      } }
    post
      proof { lemma_seen_len(qs, 20, QueueDirection::Back); lemma_ids_len(owned(vx_e1)); assert(vx_e1.len() == ids(owned(vx_e1)).len()); if !w.faulted { lemma_pick_batch::<M>(*old(w), *w, ${vec0}@, ${p0} as int, qs, c0, it1.pos()); } }

fn WorkQueue.pick_jobs_to_process | effect props=C04,C05,C06,C07,C08
  requires
    - wq_ok(*self, *old(w))
    - list(*old(w), JobStatus::Queued).len() <= i32::MAX
  ensures
    - env_q(*old(w), *final(w))
    - r is Err ==> final(w).faulted
    - [C04,C06,C08] !final(w).faulted ==> pick_state(*old(w), *final(w), r->Ok_0@)
    - [C05] list(*final(w), JobStatus::Running).len() <= max_len(list(*old(w), JobStatus::Running).len(), self.config.max_processing_jobs as nat)
    - [C05] r is Ok ==> r->Ok_0@.len() == 0 || list(*old(w), JobStatus::Running).len() + r->Ok_0@.len() <= self.config.max_processing_jobs
    - [C04] r is Ok ==> all_due(*old(w), *final(w), r->Ok_0@)
    - [C07] !final(w).faulted ==> tried(*old(w), *final(w), r->Ok_0@, self.config.max_processing_jobs as nat)
  body_top
    broadcast use lemma_qn_inj, lemma_pick_after, lemma_inv_frame;
  body_bottom
    proof {
      if !w.faulted {
        let r = vx_ret->Ok_0@;
        if w.queues == old(w).queues && w.store == old(w).store && w.notes == old(w).notes && r.len() == 0 {
          assert(r =~= Seq::empty());
          lemma_pick_start::<M>(*old(w), *w, 0);
        }
        lemma_picked::<M>(*old(w), *w, r, self.config.max_processing_jobs as int - list(*old(w), JobStatus::Running).len());
      }
    }

fn WorkQueue.process_jobs | effect props=C04,C05,C06,C07,C08
  requires
    - wq_ok(*old(self), *old(w))
    - list(*old(w), JobStatus::Queued).len() <= i32::MAX
    - !old(w).faulted ==> counters_ok::<M>(*old(w))
  ensures
    - *final(self) == *old(self)
    - clock_ext(*old(w), *final(w)) && final(w).qname == old(w).qname && final(w).me == old(w).me
    - old(w).faulted ==> final(w).faulted
    - [C07] final(w).ticks == old(w).ticks.push(old(self).config.process_tick_duration.ns as int)
    - [C05] list(*final(w), JobStatus::Running).len() <= max_len(list(*old(w), JobStatus::Running).len(), old(self).config.max_processing_jobs as nat)
    - [C04,C05] exists|r: Seq<Job<M>>| tick_safe(*old(w), *final(w), r, old(self).config.max_processing_jobs as nat)
    - [C04,C05,C06,C07,C08] !final(w).faulted ==> exists|r: Seq<Job<M>>| tick_done(*old(w), *final(w), r, old(self).config.max_processing_jobs as nat)
  body_top
    broadcast use lemma_inv_frame, lemma_pick_from, lemma_tried_from;
    proof { assert(from_here(*old(w))); assert(w.faulted || inv::<M>(*w)); }
  body_bottom
    proof {
      let w1 = World { ticks: old(w).ticks, ..*w };
      let max = old(self).config.max_processing_jobs as nat;
      if exists|r: Seq<Job<M>>| tick_safe(*old(w), w1, r, max) {
        let r = choose|r: Seq<Job<M>>| tick_safe(*old(w), w1, r, max);
        assert(tick_safe(*old(w), *w, r, max));
      }
      if w.tasks == old(w).tasks { lemma_tick_none::<M>(*old(w), *w, max); }
      if !w.faulted {
        let w1 = World { ticks: old(w).ticks, ..*w };
        let max = old(self).config.max_processing_jobs as nat;
        if exists|r: Seq<Job<M>>| tick_done(*old(w), w1, r, max) {
          let r = choose|r: Seq<Job<M>>| tick_done(*old(w), w1, r, max);
          lemma_pick_same::<M>(*old(w), w1, *w, r, 0, Seq::empty());
          assert(tick_done(*old(w), *w, r, max));
        }
      }
    }
  loop 0 for
    pre
      let ghost wp = *w;
      let ghost js = owned(vx_e0);
      proof { assert(js.len() == vx_e0.len()); }
    invariant
      - *w == (World { tasks: wp.tasks + job_ids(js.take(it0.pos())), ..wp })
    top
      proof {
        assert(js[it0.pos() - 1] == vx_e0[it0.pos() - 1].own());
        assert(js.take(it0.pos()) =~= js.take(it0.pos() - 1).push(js[it0.pos() - 1]));
        assert(job_ids(js.take(it0.pos())) =~= job_ids(js.take(it0.pos() - 1)).push(js[it0.pos() - 1].context.job_id@));
        if !w.faulted { lemma_pick_same::<M>(*old(w), wp, *w, js, 0, Seq::empty()); lemma_tick_start::<M>(*old(w), *w, js, it0.pos() - 1); }
      }
    post
      proof {
        assert(js.take(it0.pos()) =~= js);
        lemma_all_due(*old(w), wp, World { ticks: old(w).ticks, ..*w }, js, js);
        assert(tick_safe(*old(w), World { ticks: old(w).ticks, ..*w }, js, old(self).config.max_processing_jobs as nat));
        if !w.faulted {
          let w1 = World { ticks: old(w).ticks, ..*w };
          let max = old(self).config.max_processing_jobs as nat;
          lemma_pick_same::<M>(*old(w), wp, w1, js, 0, Seq::empty());
          lemma_tried_same::<M>(*old(w), wp, w1, js, max);
          assert(tick_done(*old(w), w1, js, max));
        }
      }

fn WorkQueue.execute_job_task | effect props=C08
  requires
    - wq_ok(*self, *old(w))
    - !old(w).faulted ==> running(*old(w), ${p0}.context.job_id@) && old(w).st(m_types::STORAGE_HASH@, ${p0}.context.job_id@) == Some(ser(${p0}))
    - !old(w).faulted ==> ${p0}.context.job_status == JobStatus::Running && ${p0}.context.run_count < usize::MAX && repeats_left(${p0}.context.job_type)
  ensures
    - [C08] *final(w) == (World { tasks: old(w).tasks.push(${p0}.context.job_id@), ..*old(w) })
  async 0
    task_ghost
      ${p0}.context.job_id@
    task_pre
      proof { vx_task_rely::<M>(vx_w0, *w, vx_g); lemma_inv_frame::<M>(vx_w0, World { me: vx_g, ..vx_w0 }); }
      let ghost vx_ws = *w;
      let ghost vx_j = ${p0};
    task_post
      proof { assert(!w.faulted ==> executed(vx_ws, *w, vx_j)); assert(w.runs <= vx_ws.runs + 1); }

fn WorkQueue.execute_job | effect props=C08,C09,C10,C11
  requires
    - wq_ok(*self, *old(w))
    - old(w).me == ${p0}.context.job_id@
    - !old(w).faulted ==> running(*old(w), ${p0}.context.job_id@) && old(w).st(m_types::STORAGE_HASH@, ${p0}.context.job_id@) == Some(ser(${p0}))
    - !old(w).faulted ==> ${p0}.context.job_status == JobStatus::Running && ${p0}.context.run_count < usize::MAX && repeats_left(${p0}.context.job_type)
  ensures
    - r is Err ==> final(w).faulted
    - final(w).qname == old(w).qname
    - [C06] !final(w).faulted ==> inv::<M>(*final(w))
    - [C08] final(w).runs <= old(w).runs + 1
    - [C08] ${p0}.context.job_status == JobStatus::Running ==> final(w).runs == old(w).runs + 1
    - [C11] ${p0}.context.job_status == JobStatus::Canceled ==> final(w).runs == old(w).runs
    - [C08,C09,C10] !final(w).faulted ==> executed(*old(w), *final(w), ${p0})
  body_top
    broadcast use ax_job_roundtrip, lemma_running_status, lemma_inv_frame, lemma_push_take, ax_enc, lemma_put_settled, lemma_settled_earlier;
  body_bottom
    proof {
      if !w.faulted {
        let s = w.n(w.me);
        let k = old(w).n(w.me).len() as int;
        assert(s.take(k + 5).len() == k + 5);
        if s.len() == k + 7 && s[k + 5] is Retry && s[k + 5]->res is Some {
          let c = ${p0}.context;
          let j2 = Job { context: JobContext { run_count: (c.run_count + 1) as usize, retry: Some(dec::<Retry>(s[k + 5]->rc1)), ..c }, data: dec::<M>(s[k + 3]->Post_d1) };
          if settled(*old(w), *w, with_type(j2, JobType::ScheduledAt(s[k + 5]->res->0)), JobStatus::Queued) {}
        }
      }
    }

## ---- message handlers: the answer and the effect are those of the method
impl_extra WorkQueue as Handler<Enqueue<M>>
  open spec fn vx_pre(&self, msg: Enqueue<M>, w: World) -> bool { wq_ok(*self, w) }
fn WorkQueue as Handler<Enqueue<M>>.handle | props=C13,C06,C21
  ensures
    - *final(self) == *old(self)
    - env_q(*old(w), *final(w))
    - [C06] !final(w).faulted ==> inv::<M>(*final(w))
    - [C06] !final(w).faulted ==> keeps_running(*old(w), *final(w), None)
    - [C13] r is Err ==> final(w).faulted
    - [C21] r is Ok ==> final(w).faulted == old(w).faulted
    - [C13] !final(w).faulted ==> submitted(*old(w), *final(w), ${p0}.0, ${p0}.1)
impl_extra WorkQueue as Handler<CancelJob>
  open spec fn vx_pre(&self, msg: CancelJob, w: World) -> bool { wq_ok(*self, w) }
fn WorkQueue as Handler<CancelJob>.handle | props=C11,C06,C21
  ensures
    - *final(self) == *old(self)
    - env_q(*old(w), *final(w))
    - [C06] !final(w).faulted ==> inv::<M>(*final(w))
    - [C06] !final(w).faulted ==> keeps_running(*old(w), *final(w), None)
    - [C11] r is Err ==> final(w).faulted
    - [C21] r is Ok ==> final(w).faulted == old(w).faulted
    - [C11] !final(w).faulted ==> cancelled::<M>(*old(w), *final(w), ${p0}.job_id@)
impl_extra WorkQueue as Handler<GetJob<M>>
  open spec fn vx_pre(&self, msg: GetJob<M>, w: World) -> bool { wq_ok(*self, w) }
fn WorkQueue as Handler<GetJob<M>>.handle | props=C03,C17
  ensures
    - *final(self) == *old(self)
    - [C03] nothing_changed(*old(w), *final(w)) || final(w).faulted
    - [C03,C17] !final(w).faulted ==> r == stored::<M>(*old(w), ${p0}.job_id@)
    - [C17] !final(w).faulted ==> QMsg::<M>::answers(&${p0}, r)
  body_bottom
    proof { reveal(inv); }
impl_extra WorkQueue as Handler<RetryJob<M>>
  open spec fn vx_pre(&self, msg: RetryJob<M>, w: World) -> bool { wq_ok(*self, w) }
fn WorkQueue as Handler<RetryJob<M>>.handle | props=C12,C06,C21
  ensures
    - *final(self) == *old(self)
    - env_q(*old(w), *final(w))
    - [C06] !final(w).faulted ==> inv::<M>(*final(w))
    - [C06] !final(w).faulted ==> keeps_running(*old(w), *final(w), None)
    - [C12] r is Err ==> final(w).faulted
    - [C21] r is Ok ==> final(w).faulted == old(w).faulted
    - [C12] !final(w).faulted ==> rerun::<M>(*old(w), *final(w), ${p0}.job_id@)
    - [C12] !final(w).faulted ==> r == Ok::<bool, Error>(may_rerun::<M>(*old(w), ${p0}.job_id@))
impl_extra WorkQueue as Handler<UpdateWorkQueue>
  open spec fn vx_pre(&self, msg: UpdateWorkQueue, w: World) -> bool { true }
fn WorkQueue as Handler<UpdateWorkQueue>.handle | props=C05,C07
  ensures
    - [C05,C07] final(self).config == ${p0}.config
    - [C05,C07] final(self).name == old(self).name && final(self).backend == old(self).backend
    - [C05] *final(w) == *old(w)

## ---- what callers send: exactly one message, the answer is passed on
fn enqueue_job | effect props=C13,C16,C21
  ensures
    - app_step(*old(w), *final(w))
    - [C13,C16] sent_one::<M, Enqueue<M>>(*old(w), *final(w), ${p0}) && sent_msg::<Enqueue<M>>(*final(w)) == Enqueue(${p1}, ${p2})
    - [C13,C21] delivered(*final(w)) ==> r == answer::<Result<(), Error>>(*final(w))
    - [C13,C21] !delivered(*final(w)) ==> r is Err
fn cancel_job | effect props=C11,C16,C21
  ensures
    - app_step(*old(w), *final(w))
    - [C11,C16] sent_one::<M, CancelJob>(*old(w), *final(w), ${p0}) && sent_msg::<CancelJob>(*final(w)).job_id@ == ${p1}@
    - [C11,C21] delivered(*final(w)) ==> r == answer::<Result<(), Error>>(*final(w))
    - [C11,C21] !delivered(*final(w)) ==> r is Err
fn get_job | effect props=C03,C16,C17
  ensures
    - app_step(*old(w), *final(w))
    - [C03,C16,C17] sent_one::<M, GetJob<M>>(*old(w), *final(w), ${p0}) && sent_msg::<GetJob<M>>(*final(w)).job_id@ == ${p1}@
    - [C03,C17] r == (if delivered(*final(w)) { answer::<Option<Job<M>>>(*final(w)) } else { None })
    - [C17] !final(w).faulted && r is Some ==> r->0.context.job_id@ == ${p1}@
fn retry_job | effect props=C12,C16,C21
  ensures
    - app_step(*old(w), *final(w))
    - [C12,C16] sent_one::<M, RetryJob<M>>(*old(w), *final(w), ${p0}) && sent_msg::<RetryJob<M>>(*final(w)).job_id@ == ${p1}@
    - [C12,C21] delivered(*final(w)) ==> r == answer::<Result<bool, Error>>(*final(w))
    - [C12,C21] !delivered(*final(w)) ==> r is Err
fn update_work_queue_config | effect props=C05,C16
  ensures
    - app_step(*old(w), *final(w))
    - [C05,C16] sent_one::<M, UpdateWorkQueue>(*old(w), *final(w), ${p0}) && sent_msg::<UpdateWorkQueue>(*final(w)) == (UpdateWorkQueue { config: ${p1} })
    - [C05] r is Ok <==> delivered(*final(w))

fn WorkQueue.start_with_name | seffect props=C16,C06,C07
  ensures
    - [C16] final(w).app == (App { started: old(w).app.started.push(Started { addr: enc(r), name: ${p0}@, backend: enc(${p1}) }), ..old(w).app })
  async 0
    task_ghost
      (${p0}@, enc(${p1}))
    task_pre
      proof { vx_queue_state::<M>(*w, vx_g.0); }
    task_post
      proof {
        assert((*vx_actor.name)@ == vx_g.0 && enc(vx_actor.backend) == vx_g.1); //@c m_queue/WorkQueue.start_with_name|actor|0|C06,C16
        assert(vx_actor.config.max_processing_jobs == 20); //@c m_queue/WorkQueue.start_with_name|actor|1|C05
        assert(w.ticks.len() > 0 && w.ticks.last() == vx_actor.config.process_tick_duration.ns); //@c m_queue/WorkQueue.start_with_name|actor|2|C07
      }
