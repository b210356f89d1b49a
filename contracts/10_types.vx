effects lock
file aj_core/src/error.rs mod m_error
drop Error as From<RedisError> : error conversion
drop Error as From<cron::error::Error> : error conversion
drop Error as From<MailboxError> : error conversion

file aj_core/src/backend/types.rs mod m_types
use use crate::m_error::*;

fn trait Backend.queue_push | effect props=C01
  ensures
    - env_step(*old(w), *final(w), r is Ok)
    - [C01] r is Ok ==> final(w).q(${p0}@) =~= seq![${p1}@] + old(w).q(${p0}@)
    - [C01] r is Ok ==> other_queues(*old(w), *final(w), ${p0}@)
    - [C01] r is Ok ==> final(w).store =~= old(w).store

fn trait Backend.queue_move | effect props=C02
  ensures
    - env_step(*old(w), *final(w), r is Ok)
    - [C02] r is Ok && move_in_range(*old(w), ${p0}@, ${p1}@, ${p2} as int, ${p3}, ${p4}) ==>
      ids(r->Ok_0@) =~= seen_from(old(w).q(${p0}@), ${p2} as int, ${p3})
    - [C02] r is Ok && move_in_range(*old(w), ${p0}@, ${p1}@, ${p2} as int, ${p3}, ${p4}) ==>
      final(w).q(${p1}@) =~= moved_to(*old(w), ${p0}@, ${p1}@, ${p2} as int, ${p3}, ${p4})
    - [C02] r is Ok && ${p0}@ != ${p1}@ ==> final(w).q(${p0}@) =~= left_after(old(w).q(${p0}@), ${p2} as int, ${p3})
    - [C02] forall|n: Str| n != ${p0}@ && n != ${p1}@ ==> #[trigger] final(w).q(n) == old(w).q(n)
    - [C02] final(w).q(${p1}@).len() <= old(w).q(${p1}@).len() + ${p2}
    - [C02] r is Ok ==> final(w).store =~= old(w).store

fn trait Backend.queue_remove | effect props=C01
  ensures
    - env_step(*old(w), *final(w), r is Ok)
    - [C01] r is Ok ==> final(w).q(${p0}@) =~= without(old(w).q(${p0}@), ${p1}@)
    - [C01] r is Ok ==> other_queues(*old(w), *final(w), ${p0}@)
    - [C01] r is Ok ==> final(w).store =~= old(w).store

fn trait Backend.queue_get | effect props=C01
  ensures
    - env_step(*old(w), *final(w), r is Ok)
    - [C01] r is Ok ==> ids(r->Ok_0@) =~= seen_from(old(w).q(${p0}@), ${p1} as int, ${p2})
    - [C01] final(w).queues =~= old(w).queues
    - [C01] final(w).store =~= old(w).store

fn trait Backend.queue_count | effect props=C01
  ensures
    - env_step(*old(w), *final(w), r is Ok)
    - [C01] r is Ok ==> r->Ok_0 == old(w).q(${p0}@).len()
    - [C01] final(w).queues =~= old(w).queues
    - [C01] final(w).store =~= old(w).store

fn trait Backend.storage_upsert | effect props=C03
  ensures
    - env_step(*old(w), *final(w), r is Ok)
    - [C03] r is Ok ==> final(w).st(${p0}@, ${p1}@) == Some(${p2}@)
    - [C03] r is Ok ==> forall|h: Str, k: Str| (h != ${p0}@ || k != ${p1}@) ==> #[trigger] final(w).st(h, k) == old(w).st(h, k)
    - [C03] final(w).queues =~= old(w).queues

fn trait Backend.storage_get | effect props=C03
  ensures
    - env_step(*old(w), *final(w), r is Ok)
    - [C03] r is Ok ==> opt_str(r->Ok_0) == old(w).st(${p0}@, ${p1}@)
    - [C03] final(w).store =~= old(w).store
    - [C03] final(w).queues =~= old(w).queues

fn upsert_to_storage | effect props=C03
  ensures
    - env_step(*old(w), *final(w), r is Ok)
    - [C03] r is Ok ==> final(w).st(STORAGE_HASH@, ${p1}@) == Some(ser::<T>(${p2}))
    - [C03] r is Ok ==> forall|k: Str| k != ${p1}@ ==> #[trigger] final(w).st(STORAGE_HASH@, k) == old(w).st(STORAGE_HASH@, k)
    - [C03] final(w).queues =~= old(w).queues
fn get_from_storage | effect props=C03,C21
  ensures
    - env_step(*old(w), *final(w), r is Ok)
    - [C03,C21] r is Ok ==> r->Ok_0 == (match old(w).st(STORAGE_HASH@, ${p1}@) { Some(s) => de::<T>(s), None => None })
    - [C03] final(w).store =~= old(w).store
    - [C03] final(w).queues =~= old(w).queues

file aj_core/src/backend/mem.rs mod m_mem
use use crate::m_error::*;
use use crate::m_types::*;

fn InMemory as Backend.queue_push | props=C01
  ensures
    - [C01] r is Ok
  body_top
    broadcast use lemma_ids;
    proof { vx_begin_op(w); }

fn InMemory as Backend.queue_move | props=C02
  ensures
    - [C02] r is Ok
    - [C02] ids(r->Ok_0@) =~= seen_from(old(w).q(${p0}@), ${p2} as int, ${p3})
    - [C02] final(w).q(${p1}@) =~= moved_to(*old(w), ${p0}@, ${p1}@, ${p2} as int, ${p3}, ${p4})
  body_top
    broadcast use lemma_ids;
    proof { vx_begin_op(w); }
  loop 0 for|while|loop
    ## one item per round, as long as there are any: the items taken so far are the first ones, the rest is what is left
    pre
      let ghost g0 = ids(${some0}@);
      @[!for,num0] let ghost up = ${num0} == 0 && ${p2} > 0;
    invariant
      - ids(${some0}@) =~= left_after(g0, ${vec0}@.len() as int, ${p3})
      - ids(${vec0}@) =~= seen_from(g0, ${vec0}@.len() as int, ${p3})
      - ${vec0}@.len() <= ${p2} && ${vec0}@.len() <= g0.len()
      - @[for] ${vec0}@.len() == it0.pos() || ${vec0}@.len() == g0.len()
      - @[!for,num0] 0 <= ${num0} <= ${p2}
      - @[!for,num0] ${vec0}@.len() == ${p2} - left_to_do(up, ${p2} as int, ${num0} as int) || ${vec0}@.len() == g0.len()
    top
      proof { lemma_left_len(g0, ${vec0}@.len() as int, ${p3}); }
    post
      proof {
        lemma_left_len(g0, ${vec0}@.len() as int, ${p3});
        lemma_left_len(g0, ${p2} as int, ${p3});
        if ${vec0}@.len() != ${p2} {
          assert(ids(${some0}@) =~= left_after(g0, ${p2} as int, ${p3}));
          assert(ids(${vec0}@) =~= seen_from(g0, ${p2} as int, ${p3}));
        }
      }
  loop 1 for
    ## the items are put into the target list one by one: in place, or through a reference to the list
    pre
      @[!entry0] let ghost m1 = *${guard0};
      @[entry0] let ghost t1 = ids(${entry0}@);
    invariant
      - ids(${vec0}@) =~= seen_from(old(w).q(${p0}@), ${p2} as int, ${p3})
      - @[!entry0] forall|n: Str| #![trigger qat(*${guard0}, n)] #![trigger qat(m1, n)] n != ${p1}@ ==> qat(*${guard0}, n) == qat(m1, n)
      - @[!entry0] qat(*${guard0}, ${p1}@) =~= put_at(qat(m1, ${p1}@), ids(${vec0}@).take(it1.pos()), ${p4})
      - @[entry0] ids(${entry0}@) =~= put_at(t1, ids(${vec0}@).take(it1.pos()), ${p4})
    post
      proof { assert(ids(${vec0}@).take(it1.pos()) =~= ids(${vec0}@)); }

fn InMemory as Backend.queue_remove | props=C01
  ensures
    - [C01] r is Ok
  body_top
    broadcast use lemma_ids;
    proof { vx_begin_op(w); }

fn InMemory as Backend.queue_get | props=C01
  ensures
    - [C01] r is Ok
  body_top
    broadcast use lemma_ids;
    proof { vx_begin_op(w); }
  loop 0 for
    invariant
      - ids(${vec0}@) =~= seen_from(old(w).q(${p0}@), it0.pos(), ${p2})
  loop 1 for
    invariant
      - ids(${vec0}@) =~= seen_from(old(w).q(${p0}@), it1.pos(), ${p2})

fn InMemory as Backend.queue_count | props=C01
  ensures
    - [C01] r is Ok
  body_top
    broadcast use lemma_ids;
    proof { vx_begin_op(w); }

fn InMemory as Backend.storage_upsert | props=C03
  ensures
    - [C03] r is Ok
  body_top
    broadcast use lemma_ids;
    proof { vx_begin_op(w); }

fn InMemory as Backend.storage_get | props=C03
  ensures
    - [C03] r is Ok
  body_top
    broadcast use lemma_ids;
    proof { vx_begin_op(w); }
