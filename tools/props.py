#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json (kept in one place so that they stay in step)"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
Q, J, C, A, R, M, T, P = ("aj_core/src/queue.rs", "aj_core/src/job/mod.rs", "aj_core/src/job/job_context.rs", "aj_core/src/aj.rs",
    "aj_core/src/backend/redis.rs", "aj_core/src/backend/mem.rs", "aj_core/src/backend/types.rs", "aj_core/src/plugin/mod.rs")
RT, EX, PJ, U = "aj_core/src/job/retry.rs", "aj_core/src/job/executable.rs", "aj_core/src/plugin/job_plugin.rs", "aj_core/src/util/mod.rs"
props = [
 ("C01", "In-memory queues are exact named double-ended lists",
  "On the in-memory backend, pushing puts the item at the front of the named list, removing takes out every occurrence of that item and nothing else, counting gives the exact length, and reading n items from the front or the back gives exactly the first n items seen from that end, in that order, without changing anything. Each operation touches only the list it names (a list never used is empty), stored entries are unaffected, and every call takes effect atomically with respect to concurrent callers.",
  ["inputs", "histories", "schedules"], "every list content, item, name, count and direction, after every history of operations, and every interleaving of concurrent calls",
  "The tests use one or two lists of at most three items and one order of calls; counts of 0 or beyond the length, reads from the back of long lists, duplicates and interference between names are never reached.",
  [M, T], ["InMemory as Backend (queue_push, queue_remove, queue_get, queue_count) under one mutex", "contract on trait Backend in contracts/10_types.vx"]),
 ("C02", "Moving items between in-memory lists loses and duplicates nothing",
  "A move of n items on the in-memory backend takes the first n items (or all, if fewer) off the chosen end of the source list, one after the other, puts them one after the other onto the chosen end of the target list, and returns exactly these items in that order. Nothing else in either list or anywhere else changes, and this also holds when source and target are the same list, or the target does not exist yet.",
  ["inputs", "histories"], "every source and target list (also the same one), count and pair of directions",
  "The tests move one or two items between two different lists in one direction; moving within one list - what the scheduler does to every job that is not due - is not tested with other items around.",
  [M, T], ["InMemory as Backend.queue_move"]),
 ("C03", "Stored jobs are read back as last written",
  "Reading a stored entry gives the value last written under exactly that key, or nothing if none was; writing one entry changes no other entry and no list. Looking up a job by id gives exactly the job as last stored under that id, and changes nothing.",
  ["inputs", "histories"], "every sequence of writes and reads over every key and value",
  "The tests write and read one entry; frame conditions over all other entries and lists are not tested.",
  [M, T, Q], ["InMemory as Backend.storage_upsert, storage_get", "upsert_to_storage, get_from_storage", "WorkQueue.get_job, read_job"]),
 ("C04", "No job starts before it is due",
  "A job scheduled for (or delayed to) a moment never starts before that moment, and a recurring job never starts before its next slot, nor after its end time has passed, nor once its count of repeats exceeds the maximum it was given - also when backend operations fail meanwhile. As long as they succeed, only jobs that are waiting are started.",
  ["inputs", "schedules", "histories"], "every schedule, clock reading, and content of the waiting list",
  "The tests check one job one second ahead of its time; they never run the picking of jobs under a controlled clock.",
  [Q, J], ["Job.is_ready", "WorkQueue.try_pick_specific_ready_jobs, pick_jobs_to_process, process_jobs"]),
 ("C05", "Never more jobs in progress than configured",
  "A tick of a queue never raises the number of jobs in progress above the queue's configured maximum at that time; if the maximum has been lowered below what is already in progress, nothing is started until there is room - also when backend operations fail during the tick. The default maximum is 20, and a changed configuration applies from the next tick on.",
  ["histories", "configurations", "schedules"], "every number of waiting and running jobs and every limit, including 0",
  "No test runs a queue at its limit.",
  [Q], ["WorkQueue.pick_jobs_to_process (room left), try_pick_specific_ready_jobs (bound on picked jobs)", "WorkQueueConfig.init", "Handler<UpdateWorkQueue>"]),
 ("C06", "Every job is in exactly the list of its status, once",
  "As long as backend operations succeed: after every operation of a queue - submission, resubmission, cancellation, retry, start, completion - each job whose stored status is queued, running, finished or failed is in that list of its queue exactly once and in no other, and a cancelled job is in none of them. No operation touches the lists of another queue or the stored data and lists of any other job of its own, whatever the names.",
  ["histories", "inputs", "schedules"], "every history of operations, every interleaving of running jobs with them, every pair of queue names",
  "Tests exercise single operations on empty queues; the invariant across histories (and list names of different queues never clashing) is not tested.",
  [Q, J], ["inv in contracts/specs_job.rs: stored status <-> list membership", "every WorkQueue method preserves it", "format_queue_name is injective in queue and status"]),
 ("C07", "Every due job is started at the next tick that has room",
  "As long as backend operations succeed: a tick starts every waiting job that is due, unless the configured maximum of jobs in progress is reached, however many jobs wait and wherever in the list they are. Every tick schedules the next one after the configured period, even when the backend fails during the tick or the tick starts nothing.",
  ["histories", "inputs", "fault_sequences"], "every content and order of the waiting list (also longer than one batch of 20), every limit, every fault during a tick",
  "No test has more than one job waiting, let alone not-due jobs in front of due ones or more than one batch.",
  [Q, J], ["WorkQueue.try_pick_specific_ready_jobs: loop invariant over the waiting list", "WorkQueue.process_jobs: run_later on every path", "Job.is_ready"]),
 ("C08", "Each started job runs exactly once and its outcome is recorded",
  "As long as backend operations succeed: a started job is stored as running with its start time, then runs its pre-step, its body and its post-step exactly once, in this order, with its run counter one higher than before. Afterwards, unless it is to be retried or recurs, it is stored as failed if its final output counts as failed and as finished otherwise, with the completion time, the raised run counter and the data as its run left them. Even when they fail, one execution never runs the body more than once.",
  ["inputs", "histories", "schedules"], "every job type (hooks, output, mutation of its own data), every context, every interleaving with other operations",
  "Tests call the execution function on one job; what is stored afterwards, and the effect of other operations meanwhile, is not tested.",
  [Q, J, EX, U], ["Job.execute, process, finish, fail", "WorkQueue.execute_job, execute_job_task, mark_job_is_finished, mark_job_is_failed, re_enqueue"]),
 ("C09", "Failed jobs are retried as often and as late as the policy says",
  "As long as backend operations succeed: a job with a retry policy whose output counts as failed is put back to waiting as long as it has been retried fewer times than the policy's maximum (without a maximum: always), with its count of retries one higher; otherwise it ends as failed, and a job that did not fail is not retried. The next attempt is due the fixed interval after the failure, or, with exponential backoff, the initial delay times 2^k after it for the k-th retry (far in the future, never a crash, when that is not representable).",
  ["inputs", "histories"], "every policy, delay, count of retries and time",
  "Tests check the first three retries of two policies.",
  [RT, EX, Q], ["Retry.should_retry, Retry.retry_at", "Executable.retry_at default", "WorkQueue.execute_job"]),
 ("C10", "Recurring jobs continue exactly until their limits",
  "As long as backend operations succeed: after a run, a recurring job (without retry policy) waits for the first slot of its schedule after that moment, with its count of repeats one higher and everything else unchanged, unless the count has already reached the maximum, that slot is after the end time, or the schedule has no further slot: then it ends as finished or failed. A new recurring job waits for the first slot after its creation.",
  ["inputs", "histories"], "every schedule, limit, count and clock reading",
  "Tests only check the creation of one recurring job; no test goes from one run to the next or to the limits.",
  [J, C, Q], ["Job.next_tick", "JobType.new_cron", "WorkQueue.execute_job"]),
 ("C11", "Cancelling affects waiting jobs only, and they do not run",
  "As long as backend operations succeed: cancelling a waiting job stores it as cancelled with the time, takes it off the waiting list so that no later tick starts it, and leaves everything else of it unchanged. Cancelling a job that is running, done or unknown changes nothing, and no other job is affected.",
  ["histories", "inputs"], "every status of the job and every history before and after",
  "Cancellation is not covered by the tests.",
  [Q, J, A], ["WorkQueue.cancel_job, Job.cancel", "Handler<CancelJob>, AJ.cancel_job"]),
 ("C12", "Manual retry puts done jobs back to waiting, and only those",
  "As long as backend operations succeed: asking to retry a job that is finished, failed or cancelled answers true and puts exactly that job back to waiting (with the time), with its data, schedule, retry policy and counters unchanged. For a job that is waiting, running or unknown it answers false and changes nothing.",
  ["histories", "inputs"], "every status of the job and every history before",
  "Manual retry is not covered by the tests.",
  [Q, J, A], ["WorkQueue.retry_job, re_enqueue, Job.is_done", "Handler<RetryJob>, AJ.retry_job"]),
 ("C13", "Submitting an existing id follows the requested policy",
  "As long as backend operations succeed: submitting a job with an unknown id stores it as waiting. With a known id, the stored job is replaced by the submitted one (keeping its status) exactly if overriding was asked for and the job is not running; and if re-running was asked for and the job is done, it is put back to waiting - the new version if overriding was asked for, the old one otherwise. In all other cases the job stays as it is, in particular a running job is never replaced, started twice or queued again.",
  ["histories", "inputs", "configurations"], "every status of the existing job and all four policies",
  "No test submits the same id twice.",
  [Q, J, A], ["WorkQueue.run_with_config, enqueue, re_enqueue", "EnqueueConfig", "Handler<Enqueue>, AJ.enqueue_job, add_job"]),
 ("C14", "Plugins are told every status change and both ends of every run",
  "Every registered plugin is called once, with the job's id and the new status, for each change of a job's status made by its queue, in order, and once before and once after each run of the job (before its pre-step and after its post-step). It is called for nothing else, and every plugin gets the same calls.",
  ["histories", "inputs"], "every history of job operations, every number of plugins, every job type",
  "The tests call one hook of one plugin wrapper directly (and used to miss that the hook after a run was never called).",
  [P, PJ, J], ["PluginCenter.change_status, before, after and its handlers", "JobPluginWrapper", "Job.execute, enqueue, process, finish, cancel, fail"]),
 ("C15", "The Redis backend behaves like the in-memory one",
  "As long as the server answers, every backend operation on Redis has the effect and the result described for the in-memory lists and entries: push at the front, remove all occurrences, exact counts, reads of n items from either end in order, moves that conserve items and order, last-written entries. (Moving several items within one single list is left open.)",
  ["inputs", "histories"], "every list content, item, name, count and direction",
  "The tests need a running server and use one or two items; counts of 0, longer lists and the back end of lists are not reached.",
  [R, T], ["Redis as Backend", "Redis.lpush, lmove, lrange, llen, lrem", "From<QueueDirection> for Direction"]),
 ("C16", "A job type gets exactly one queue, whoever comes first",
  "The first use of a job type creates its queue under the given name on the running instance's backend; every later or concurrent use of that type reaches that same queue, without error or panic, and no queue is ever replaced. Operations on a job type that has no queue yet report that (or find no job) and create none.",
  ["schedules", "histories"], "every interleaving of first uses of job types (with different queue names)",
  "Tests never use a job type from two callers at once.",
  [A], ["AJ.register, Handler<InitWorkQueue>, get_work_queue_address", "AJ.enqueue_job, cancel_job, get_job, retry_job, update_work_queue"]),
 ("C17", "Updating a job changes that job and no other",
  "As long as backend operations succeed: updating a known job replaces its data, and its context if one is given, for exactly the requested id - whatever id the given context carries - following the policy of a resubmission that overrides and re-runs. Updating an unknown job creates and changes nothing; no other job is affected in any case.",
  ["inputs", "histories"], "every job, data and context, also one that carries another id",
  "Updating is not covered by the tests.",
  [A, Q], ["AJ.update_job, add_job, get_job"]),
 ("C18", "A job is submitted with exactly the parameters it was built with",
  "A new job has a fresh id, its data, status queued, no schedule, no retry policy, no timestamps but its creation time and a run counter of 0; each builder call sets exactly what it names (id, context, schedule, delay from now, recurrence, retry policy) and leaves everything else alone, in any order. What is then stored and read back is that job, times being kept to the microsecond.",
  ["inputs", "programs"], "every sequence of builder calls and every argument",
  "Tests build jobs with one parameter at a time.",
  [J, C, Q, "aj_core/src/lib.rs"], ["Job.new, set_id, set_context, schedule_at, delay, cron, set_retry", "JobContext.new, JobType.new_schedule, new_cron", "Job.run, just_run"]),
 ("C19", "Macros turn functions and types into jobs that run exactly what was written",
  "Deriving the background job trait gives a type a queue named exactly as the type and a constructor that wraps exactly the given value in a new job. The attribute macro turns a function, async or not and with any arguments of owned types, into a job type (named Job plus the function's name in Pascal case) with one field per argument; each of its four submitting functions submits one job of that type holding the given arguments, with the given context where one is given, and a run of the job - the first or a later one - runs the function's body once with these arguments and gives its result. (Types of the same name share a queue name.)",
  ["programs", "inputs"], "every type and function the macros accept, all argument values",
  "The macros have no tests but a doc example; what they generate has to be right for every signature and every argument value.",
  ["aj_macro/src/lib.rs", "aj/src/lib.rs", "aj_core/src/lib.rs"], ["proc macros BackgroundJob, job"]),
 ("C20", "Starting the runtime, also concurrently, yields one running instance",
  "However many callers start the job runtime, at the same time or later, all of them get the same running instance, and none of them fails because of the others. A running instance is never replaced; it works on the backend of the one caller whose start created it, and jobs submitted by any of the callers after their start reach it.",
  ["schedules"], "every interleaving of starts and uses, with and without an actix system on the caller's thread",
  "Tests start it a few times one after another.",
  [A], ["AJ.start, quick_start, get_aj_address, AJ_ADDR"]),
 ("C21", "A call reports success only if the backend did everything",
  "Submitting, cancelling, retrying or looking up a job on its queue reports success only if every backend operation it made succeeded; when one of them fails it reports an error - never success, and never that the job is unknown. The AJ functions that submit, cancel, retry or update a job pass that answer on unchanged, and report an error when the request does not reach the queue. (A lookup through AJ, also the one an update begins with, gives no job when it fails.)",
  ["fault_sequences", "histories", "inputs"], "every sequence of failures of backend operations during a call, every job, status and policy",
  "No test has a backend operation fail.",
  [Q, T, A, J], ["WorkQueue.run_with_config, enqueue, re_enqueue, cancel_job, retry_job, read_job, get_job", "Job.save, enqueue, cancel", "get_from_storage", "enqueue_job, cancel_job, retry_job", "AJ.add_job, cancel_job, retry_job, update_job"]),
]
NA = {}
def main():
    claimed = [p for p in props if p[0] not in NA]
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for id, title, st, over, text, why, files, mech in props:
            f.write(json.dumps({"id": id, "title": title, "statement": st, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
                "anchors": {"files": files, "mechanism": [{"name": x, "where": files[0]} for x in mech]}}, ensure_ascii=False) + "\n")
    checks = []
    for p in claimed:
        checks.append({"property": p[0], "quick_cmd": "python3 check.py %s quick" % p[0], "thorough_cmd": "python3 check.py %s thorough" % p[0],
            "evidence_file": "evidence/%s.json" % p[0],
            "technique": NOTE.get(p[0], ("Verus contracts on the functions extracted from /repo on every run; failing inputs replayed on the real crate", ""))[0],
            "level": LEVEL.get(p[0], "proof"),
            "level_note": NOTE.get(p[0], ("", ""))[1] or DEFNOTE})
    m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()]}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write("\n")
DEFNOTE = ("Every obligation of the contracts in contracts/ is discharged by Verus/Z3 on the text extracted from /repo's working tree, unbounded. "
  "Assumed: the contracts of the external crates (chrono, cron, serde_json, uuid, actix, std mutex and collections), see contracts/ASSUMPTIONS.txt and each evidence file. "
  "A bounded harness on the real crate replays and covers the assumed parts; a function the verifier cannot take after an edit is decided by that harness alone and reported as bounded.")
NOTE = {"C19": ("Verus contracts on the code /repo's macros generate, expanded by rustc on every run (translation validation of fixture programs)",
  "Proved, for all argument values, for each program in macros/src/lib.rs (22 job types: signatures with no, one and many arguments, async or not, mutable arguments, same-typed arguments, names of many kinds): what rustc expands with /repo's current macros satisfies the contracts of C19. Bounded: these programs stand for all programs. Further shapes and names (macros/src/main.rs) are run on the real AJ. Assumed: as for the other properties, and serde's and the standard derives.")}
LEVEL = {"C19": "translation_validation"}
if __name__ == "__main__":
    main()
