effects get_connection lpush rpush lmove lrange llen lrem hset hset_nx hdel hexists hget
file aj_core/src/backend/redis.rs mod m_redis
use use crate::redis::*;
use use crate::m_error::*;
use use crate::m_types::*;
drop Redis.new : opens a client (URL parsing of the redis crate); bounded check only

fn Redis.new_with_client | props=C15
  ensures
    - r.client == ${p0}
fn Redis.lpush | effect props=C15
  ensures
    - env_step(*old(w), *final(w), r is Ok)
    - [C15] r is Ok ==> final(w).q(${p0}@) =~= seq![${p1}@] + old(w).q(${p0}@)
    - [C15] r is Ok ==> other_queues(*old(w), *final(w), ${p0}@)
    - [C15] r is Ok ==> final(w).store == old(w).store
fn Redis.lmove | effect props=C15
  ensures
    - env_step(*old(w), *final(w), r is Ok)
    - [C15] r is Ok && move_in_range(*old(w), ${p0}@, ${p1}@, ${p2} as int, qdir(${p3}), qdir(${p4})) ==>
      ids(r->Ok_0@) =~= seen_from(old(w).q(${p0}@), ${p2} as int, qdir(${p3}))
    - [C15] r is Ok && move_in_range(*old(w), ${p0}@, ${p1}@, ${p2} as int, qdir(${p3}), qdir(${p4})) ==>
      final(w).q(${p1}@) =~= moved_to(*old(w), ${p0}@, ${p1}@, ${p2} as int, qdir(${p3}), qdir(${p4}))
    - [C15] r is Ok && ${p0}@ != ${p1}@ ==> final(w).q(${p0}@) =~= left_after(old(w).q(${p0}@), ${p2} as int, qdir(${p3}))
    - [C15] forall|n: Str| n != ${p0}@ && n != ${p1}@ ==> #[trigger] final(w).q(n) == old(w).q(n)
    - [C15] final(w).q(${p1}@).len() <= old(w).q(${p1}@).len() + ${p2}
    - [C15] r is Ok ==> final(w).store == old(w).store
  body_top
    broadcast use lemma_ids, lemma_redis;
  loop 0 for|while|loop
    ## k items moved so far; a round that finds the list empty ends the loop or moves nothing
    pre
      @[!for,num0] let ghost up = ${num0} == 0 && ${p2} > 0;
    invariant
      - env_step(*old(w), *w, true)
      - forall|n: Str| n != ${p0}@ && n != ${p1}@ ==> #[trigger] w.q(n) == old(w).q(n)
      - w.store == old(w).store
      - w.q(${p1}@).len() <= old(w).q(${p1}@).len() + ${vec0}@.len()
      - ${p0}@ != ${p1}@ ==> ids(${vec0}@) =~= seen_from(old(w).q(${p0}@), ${vec0}@.len() as int, qdir(${p3}))
      - ${p0}@ != ${p1}@ ==> w.q(${p0}@) =~= left_after(old(w).q(${p0}@), ${vec0}@.len() as int, qdir(${p3}))
      - ${p0}@ != ${p1}@ ==> w.q(${p1}@) =~= put_at(old(w).q(${p1}@), seen_from(old(w).q(${p0}@), ${vec0}@.len() as int, qdir(${p3})), qdir(${p4}))
      - ${p0}@ == ${p1}@ && move_in_range(*old(w), ${p0}@, ${p1}@, ${p2} as int, qdir(${p3}), qdir(${p4})) ==>
        ids(${vec0}@) =~= seen_from(old(w).q(${p0}@), ${vec0}@.len() as int, qdir(${p3}))
        && w.q(${p0}@) =~= put_at(left_after(old(w).q(${p0}@), ${vec0}@.len() as int, qdir(${p3})), seen_from(old(w).q(${p0}@), ${vec0}@.len() as int, qdir(${p3})), qdir(${p4}))
      - ${vec0}@.len() <= ${p2}
      - ${p0}@ != ${p1}@ ==> ${vec0}@.len() <= old(w).q(${p0}@).len()
      - @[for] ${vec0}@.len() <= it0.pos()
      - @[for] ${p0}@ != ${p1}@ || move_in_range(*old(w), ${p0}@, ${p1}@, ${p2} as int, qdir(${p3}), qdir(${p4})) ==> ${vec0}@.len() == it0.pos() || ${vec0}@.len() >= old(w).q(${p0}@).len()
      - @[!for,num0] 0 <= ${num0} <= ${p2}
      - @[!for,num0] ${vec0}@.len() <= ${p2} - left_to_do(up, ${p2} as int, ${num0} as int)
      - @[!for,num0] ${p0}@ != ${p1}@ || move_in_range(*old(w), ${p0}@, ${p1}@, ${p2} as int, qdir(${p3}), qdir(${p4})) ==> ${vec0}@.len() == ${p2} - left_to_do(up, ${p2} as int, ${num0} as int) || ${vec0}@.len() >= old(w).q(${p0}@).len()
    top
      proof {
        let q = old(w).q(${p0}@);
        let k = ${vec0}@.len() as int;
        lemma_seen_step(q, k, k + 1, qdir(${p3}));
        lemma_left_step(q, k, k + 1, qdir(${p3}));
        lemma_left_len(q, k, qdir(${p3}));
        if ${p0}@ == ${p1}@ && k < q.len() && (qdir(${p3}) != qdir(${p4}) || k == 0) { lemma_rotate_step(q, k, k + 1, qdir(${p3}), qdir(${p4})); }
        if k < q.len() { lemma_put_more(old(w).q(${p1}@), seen_from(q, k, qdir(${p3})), nth_from(q, k, qdir(${p3})), qdir(${p4})); }
      }
    post
      proof {
        let q = old(w).q(${p0}@);
        lemma_left_len(q, ${vec0}@.len() as int, qdir(${p3}));
        lemma_left_len(q, ${p2} as int, qdir(${p3}));
        if ${vec0}@.len() != ${p2} && ${vec0}@.len() >= q.len() {
          assert(left_after(q, ${vec0}@.len() as int, qdir(${p3})) =~= left_after(q, ${p2} as int, qdir(${p3})));
          assert(seen_from(q, ${vec0}@.len() as int, qdir(${p3})) =~= seen_from(q, ${p2} as int, qdir(${p3})));
        }
      }
fn Redis.lrange | effect props=C15
  ensures
    - env_step(*old(w), *final(w), r is Ok)
    - [C15] r is Ok ==> ids(r->Ok_0@) =~= seen_from(old(w).q(${p0}@), ${p1} as int, ${p2})
    - [C15] final(w).queues == old(w).queues
    - [C15] final(w).store == old(w).store
  body_top
    broadcast use lemma_ids, lemma_redis;
fn Redis.llen | effect props=C15
  ensures
    - env_step(*old(w), *final(w), r is Ok)
    - [C15] r is Ok ==> r->Ok_0 == old(w).q(${p0}@).len()
    - [C15] final(w).queues == old(w).queues
    - [C15] final(w).store == old(w).store
fn Redis.lrem | effect props=C15
  ensures
    - env_step(*old(w), *final(w), r is Ok)
    - [C15] r is Ok ==> final(w).q(${p0}@) =~= without(old(w).q(${p0}@), ${p1}@)
    - [C15] r is Ok ==> other_queues(*old(w), *final(w), ${p0}@)
    - [C15] r is Ok ==> final(w).store == old(w).store

fn Redis as Backend.queue_push | props=C15
fn Redis as Backend.queue_move | props=C15
fn Redis as Backend.queue_remove | props=C15
fn Redis as Backend.queue_get | props=C15
fn Redis as Backend.queue_count | props=C15
fn Redis as Backend.storage_upsert | props=C15
fn Redis as Backend.storage_get | props=C15
fn Direction as From<QueueDirection>.from | props=C15
