PICK_FOR = """            for job_id in job_ids {
                // A job that cannot be read stays in the queue for a later tick
                let job = get_from_storage::<Job<M>>(self.backend.deref(), &job_id).unwrap_or(None);
                if let Some(mut job) = job {
                    if job.is_ready()
                        && ready_jobs.len() < total
                        && !ready_jobs
                            .iter()
                            .any(|ready_job: &Job<M>| ready_job.id() == job.id())
                    {
                        // Job is read to process. Put it in the ready list
                        job.process(self.backend.deref())?;
                        ready_jobs.push(job);
                        self.backend.queue_move(
                            &idle_queue_name,
                            &processing_queue_name,
                            1,
                            QueueDirection::Back,
                            QueueDirection::Front,
                        )?;
                        continue;
                    }
                }

                // Job is not ready to process, move it back to front of queue
                self.backend.queue_move(
                    &idle_queue_name,
                    &idle_queue_name,
                    1,
                    QueueDirection::Back,
                    QueueDirection::Front,
                )?;
            }
"""
PICK_GET = """            let job_ids = self
                .backend
                .queue_get(&idle_queue_name, 20, QueueDirection::Back)?;
"""
PICK_END = """            if ready_jobs.len() >= total {
                break;
            }

            if current_cursor <= 0 {
                break;
            }
"""
EXECTASK = "    pub fn execute_job_task("
r("p2-batch-helper", (Q, PICK_GET, "            let job_ids = self.next_waiting_batch(&idle_queue_name)?;\n"), (Q, EXECTASK, """    fn next_waiting_batch(&self, queue_name: &str) -> Result<Vec<String>, Error> {
        self.backend
            .queue_get(queue_name, 20, QueueDirection::Back)
    }

""" + EXECTASK))
r("p2-try-start", (Q, PICK_FOR, """            for job_id in job_ids {
                self.start_or_rotate(&job_id, total, &mut ready_jobs)?;
            }
"""), (Q, "        let mut ready_jobs = vec![];", "        let mut ready_jobs: Vec<Job<M>> = vec![];"), (Q, "        let processing_queue_name = self.format_queue_name(JobStatus::Running);\n\n        let idle_queue_length", "        let idle_queue_length"), (Q, EXECTASK, """    fn start_or_rotate(
        &self,
        job_id: &str,
        total: usize,
        ready_jobs: &mut Vec<Job<M>>,
    ) -> Result<(), Error> {
        let idle_queue_name = self.format_queue_name(JobStatus::Queued);
        let processing_queue_name = self.format_queue_name(JobStatus::Running);
        let job = get_from_storage::<Job<M>>(self.backend.deref(), job_id)?;
        if let Some(mut job) = job {
            let already_picked = ready_jobs.iter().any(|ready_job| ready_job.id() == job.id());
            if job.is_ready() && ready_jobs.len() < total && !already_picked {
                job.process(self.backend.deref())?;
                ready_jobs.push(job);
                self.backend.queue_move(
                    &idle_queue_name,
                    &processing_queue_name,
                    1,
                    QueueDirection::Back,
                    QueueDirection::Front,
                )?;
                return Ok(());
            }
        }
        self.backend.queue_move(
            &idle_queue_name,
            &idle_queue_name,
            1,
            QueueDirection::Back,
            QueueDirection::Front,
        )?;
        Ok(())
    }

""" + EXECTASK))
r("p2-contains-static", (Q, """                        && !ready_jobs
                            .iter()
                            .any(|ready_job: &Job<M>| ready_job.id() == job.id())
""", "                        && !Self::already_picked(&ready_jobs, job.id())\n"), (Q, EXECTASK, """    fn already_picked(jobs: &[Job<M>], job_id: &str) -> bool {
        jobs.iter().any(|job| job.id() == job_id)
    }

""" + EXECTASK))
r("p2-while-cursor", (Q, "        loop {\n            let job_ids", "        while current_cursor > 0 {\n            let job_ids"), (Q, PICK_END, """            if ready_jobs.len() >= total {
                break;
            }
"""))
r("p2-while-both", (Q, "        loop {\n            let job_ids", "        while current_cursor > 0 && ready_jobs.len() < total {\n            let job_ids"), (Q, "\n" + PICK_END, ""))
r("p2-target", (Q, PICK_FOR, """            for job_id in job_ids {
                let mut target_queue = &idle_queue_name;
                if let Some(mut job) = get_from_storage::<Job<M>>(self.backend.deref(), &job_id).unwrap_or(None) {
                    let picked = ready_jobs
                        .iter()
                        .any(|ready_job: &Job<M>| ready_job.id() == job.id());
                    if job.is_ready() && ready_jobs.len() < total && !picked {
                        job.process(self.backend.deref())?;
                        ready_jobs.push(job);
                        target_queue = &processing_queue_name;
                    }
                }
                self.backend.queue_move(
                    &idle_queue_name,
                    target_queue,
                    1,
                    QueueDirection::Back,
                    QueueDirection::Front,
                )?;
            }
"""))
r("p2-letelse", (Q, PICK_FOR, """            for job_id in job_ids {
                let Some(mut job) = get_from_storage::<Job<M>>(self.backend.deref(), &job_id).unwrap_or(None) else {
                    self.rotate_waiting(&idle_queue_name)?;
                    continue;
                };
                let has_room = ready_jobs.len() < total;
                let is_new = ready_jobs.iter().all(|r: &Job<M>| r.id() != job.id());
                if !job.is_ready() || !has_room || !is_new {
                    self.rotate_waiting(&idle_queue_name)?;
                    continue;
                }
                job.process(self.backend.deref())?;
                ready_jobs.push(job);
                self.backend.queue_move(
                    &idle_queue_name,
                    &processing_queue_name,
                    1,
                    QueueDirection::Back,
                    QueueDirection::Front,
                )?;
            }
"""), (Q, EXECTASK, """    fn rotate_waiting(&self, queue: &str) -> Result<(), Error> {
        self.backend
            .queue_move(queue, queue, 1, QueueDirection::Back, QueueDirection::Front)
            .map(|_| ())
    }

""" + EXECTASK))
r("p2-idvec", (Q, """                        && !ready_jobs
                            .iter()
                            .any(|ready_job: &Job<M>| ready_job.id() == job.id())
""", "                        && !ready_jobs.iter().map(|r: &Job<M>| r.id()).any(|id| id == job.id())\n"))
r("p2-matchready", (Q, PICK_FOR, """            for job_id in job_ids {
                let job = get_from_storage::<Job<M>>(self.backend.deref(), &job_id).unwrap_or(None);
                let startable = match &job {
                    Some(job) => {
                        job.is_ready()
                            && ready_jobs.len() < total
                            && !ready_jobs
                                .iter()
                                .any(|ready_job: &Job<M>| ready_job.id() == job.id())
                    }
                    None => false,
                };
                match job {
                    Some(mut job) if startable => {
                        job.process(self.backend.deref())?;
                        ready_jobs.push(job);
                        self.backend.queue_move(
                            &idle_queue_name,
                            &processing_queue_name,
                            1,
                            QueueDirection::Back,
                            QueueDirection::Front,
                        )?;
                    }
                    _ => {
                        self.backend.queue_move(
                            &idle_queue_name,
                            &idle_queue_name,
                            1,
                            QueueDirection::Back,
                            QueueDirection::Front,
                        )?;
                    }
                }
            }
"""))
PROC = """        match self.pick_jobs_to_process() {
            Ok(jobs) => {
                for job in jobs {
                    self.execute_job_task(job, ctx);
                }
            }
            Err(err) => {
                error!("[WorkQueue]: Cannot pick jobs to process {err:?}",);
            }
        }
"""
r("p2-proc-unwrap", (Q, PROC, """        let jobs = self.pick_jobs_to_process().unwrap_or_else(|err| {
            error!("[WorkQueue]: Cannot pick jobs to process {err:?}");
            vec![]
        });
        for job in jobs {
            self.execute_job_task(job, ctx);
        }
"""))
r("p2-proc-whilelet", (Q, PROC, """        match self.pick_jobs_to_process() {
            Ok(jobs) => {
                let mut picked = jobs.into_iter();
                while let Some(job) = picked.next() {
                    self.execute_job_task(job, ctx);
                }
            }
            Err(err) => {
                error!("[WorkQueue]: Cannot pick jobs to process {err:?}",);
            }
        }
"""))
r("p2-proc-split", (Q, PROC, "        self.start_picked_jobs(ctx);\n        self.schedule_next_tick(ctx);\n    }\n\n    fn start_picked_jobs(&self, ctx: &mut Context<WorkQueue<M>>) {\n" + PROC + "    }\n\n    fn schedule_next_tick(&self, ctx: &mut Context<WorkQueue<M>>) {\n"))
r("p2-proc-period", (Q, "        ctx.run_later(self.config.process_tick_duration,", "        let period = self.config.process_tick_duration;\n        ctx.run_later(period,"))
r("p2-proc-tickfirst", (Q, PROC, ""), (Q, "            work_queue.process_jobs(ctx);\n        });\n", "            work_queue.process_jobs(ctx);\n        });\n" + PROC))
PJ_ = """        if total_processing_jobs >= self.config.max_processing_jobs {
            return Ok(vec![]);
        }

        self.try_pick_specific_ready_jobs(self.config.max_processing_jobs - total_processing_jobs)
"""
r("p2-pj-satsub", (Q, PJ_, """        let free_slots = self
            .config
            .max_processing_jobs
            .saturating_sub(total_processing_jobs);
        if free_slots == 0 {
            return Ok(vec![]);
        }
        self.try_pick_specific_ready_jobs(free_slots)
"""))
r("p2-pj-checked", (Q, PJ_, """        match self.config.max_processing_jobs.checked_sub(total_processing_jobs) {
            Some(free) if free > 0 => self.try_pick_specific_ready_jobs(free),
            _ => Ok(Vec::new()),
        }
"""))
r("p2-pj-helper", (Q, """        let processing_queue = self.format_queue_name(JobStatus::Running);
        let total_processing_jobs = self.backend.queue_count(&processing_queue)?;
""" + PJ_, """        let free = self.free_slots()?;
        if free > 0 {
            self.try_pick_specific_ready_jobs(free)
        } else {
            Ok(vec![])
        }
    }

    fn free_slots(&self) -> Result<usize, Error> {
        let processing_queue = self.format_queue_name(JobStatus::Running);
        let running = self.backend.queue_count(&processing_queue)?;
        if running >= self.config.max_processing_jobs {
            Ok(0)
        } else {
            Ok(self.config.max_processing_jobs - running)
        }
"""))
r("p2-pj-default", (Q, "self.backend.queue_count(&processing_queue)?;", "self.backend.queue_count(&processing_queue).map_err(|reason| reason)?;"))
RERUN = """                self.re_enqueue(if config.override_data {
                    job
                } else {
                    existing_job
                })?;
"""
r("p2-run-next", (Q, RERUN, """                let next_version = if config.override_data { job } else { existing_job };
                return self.re_enqueue(next_version);
"""))
r("p2-run-resubmit", (Q, "        if let Some(existing_job) = existing_job {\n            if config.override_data", "        match existing_job {\n            Some(existing_job) => self.resubmit(existing_job, job, config),\n            None => self.enqueue(job),\n        }\n    }\n\n    fn resubmit(\n        &self,\n        existing_job: Job<M>,\n        mut job: Job<M>,\n        config: EnqueueConfig,\n    ) -> Result<(), Error> {\n            if config.override_data"), (Q, "            return Ok(());\n        }\n\n        self.enqueue(job)\n    }", "            Ok(())\n    }"), (Q, "run_with_config(&self, mut job:", "run_with_config(&self, job:"))
r("p2-run-destruct", (Q, "            if config.override_data && !existing_job.is_running() {", "            let EnqueueConfig {\n                re_run,\n                override_data,\n            } = config;\n            if override_data && !existing_job.is_running() {"), (Q, "            if config.re_run && existing_job.is_done() {", "            if re_run && existing_job.is_done() {"), (Q, "self.re_enqueue(if config.override_data {", "self.re_enqueue(if override_data {"))
r("p2-run-upsert-helper", (Q, "                upsert_to_storage(self.backend.deref(), job.id(), &job)?;", "                self.store_job(&job)?;"), (Q, EXECTASK, "    fn store_job(&self, job: &Job<M>) -> Result<(), Error> {\n        upsert_to_storage(self.backend.deref(), job.id(), job)\n    }\n\n" + EXECTASK))
r("p2-load-helper", (Q, "        let existing_job = get_from_storage::<Job<M>>(self.backend.deref(), job.id())?;", "        let existing_job = self.read_job(job.id())?;"), (Q, "        let job = get_from_storage::<Job<M>>(self.backend.deref(), job_id)?;\n\n        if let Some(job) = job {", "        let job = self.get_job(job_id)?;\n\n        if let Some(job) = job {"))
r("p2-push-helper-all", (Q, """        let cancelled_queue = self.format_queue_name(JobStatus::Canceled);
        if let Err(e) = self.backend.queue_push(&cancelled_queue, job_id) {
            error!("[WorkQueue] Cannot re enqueue {}: {:?}", job_id, e);
        };
""", "        let _ = self.push_to(JobStatus::Canceled, job_id);\n"), (Q, """        let finished_queue = self.format_queue_name(JobStatus::Finished);
        if let Err(e) = self.backend.queue_push(&finished_queue, job.id()) {
            error!("[WorkQueue] Cannot finish {}: {:?}", job.id(), e);
        };
""", "        let _ = self.push_to(JobStatus::Finished, job.id());\n"), (Q, """        let failed_queue = self.format_queue_name(JobStatus::Failed);
        if let Err(e) = self.backend.queue_push(&failed_queue, job_id) {
            error!(
                "[WorkQueue] Cannot move to failed queue {}: {:?}",
                job_id, e
            );
        };
""", "        let _ = self.push_to(JobStatus::Failed, job_id);\n"), (Q, """        let queued_queue = self.format_queue_name(JobStatus::Queued);
        self.backend.queue_push(&queued_queue, job.id())
""", "        self.push_to(JobStatus::Queued, job.id())\n"), (Q, EXECTASK, """    fn push_to(&self, status: JobStatus, job_id: &str) -> Result<(), Error> {
        let queue = self.format_queue_name(status);
        self.backend.queue_push(&queue, job_id).map_err(|e| {
            error!("[WorkQueue] Cannot push {} to {}: {:?}", job_id, queue, e);
            e
        })
    }

""" + EXECTASK))
EX = """        if let Some(retry_context) = job.context.retry.as_mut() {
            if let Some(next_retry_ms) = job.data.retry_at(retry_context, job_output).await {
                info!("[WorkQueue] Retry this job. {}", job.id());
                job.context.job_type = JobType::ScheduledAt(next_retry_ms);
                return self.re_enqueue(job);
            }
        }

        // If this is interval job (has next tick) -> re_enqueue it
        if let Some(next_job) = job.next_tick() {
            return self.re_enqueue(next_job);
        }

        if is_failed_output {
            self.mark_job_is_failed(job)
        } else {
            self.mark_job_is_finished(job)
        }
"""
r("p2-ex-option", (Q, EX, """        let retry_at = match job.context.retry.as_mut() {
            Some(retry_context) => job.data.retry_at(retry_context, job_output).await,
            None => None,
        };
        if let Some(next_retry_ms) = retry_at {
            job.context.job_type = JobType::ScheduledAt(next_retry_ms);
            return self.re_enqueue(job);
        }

        match job.next_tick() {
            Some(next_job) => self.re_enqueue(next_job),
            None if is_failed_output => self.mark_job_is_failed(job),
            None => self.mark_job_is_finished(job),
        }
"""))
r("p2-ex-complete", (Q, """        if is_failed_output {
            self.mark_job_is_failed(job)
        } else {
            self.mark_job_is_finished(job)
        }
    }
""", """        self.complete(job, is_failed_output)
    }

    fn complete(&self, job: Job<M>, failed: bool) -> Result<(), Error> {
        match failed {
            true => self.mark_job_is_failed(job),
            false => self.mark_job_is_finished(job),
        }
    }
"""))
r("p2-ex-settle", (Q, "        // If this is interval job (has next tick) -> re_enqueue it\n        if let Some(next_job)", "        self.settle(job, is_failed_output)\n    }\n\n    fn settle(&self, mut job: Job<M>, is_failed_output: bool) -> Result<(), Error> {\n        // If this is interval job (has next tick) -> re_enqueue it\n        if let Some(next_job)"))
r("p2-ex-schedule", (Q, "                job.context.job_type = JobType::ScheduledAt(next_retry_ms);\n                return self.re_enqueue(job);", "                return self.re_enqueue(job.schedule_at(next_retry_ms));"))
r("p2-ex-async-helper", (Q, "        let job_output = job.execute().await;\n        let is_failed_output = job.data.is_failed_output(&job_output).await;\n", "        let (job_output, is_failed_output) = Self::run_once(&mut job).await;\n"), (Q, EXECTASK, """    async fn run_once(job: &mut Job<M>) -> (M::Output, bool) {
        let output = job.execute().await;
        let failed = job.data.is_failed_output(&output).await;
        (output, failed)
    }

""" + EXECTASK))
r("p2-cancel-flip", (Q, """            if job.is_queued() {
                job.cancel(self.backend.deref())?;
                self.backend
                    .queue_remove(&self.format_queue_name(JobStatus::Queued), job_id)?;
            } else {
                warn!("[WorkQueue] Cannot cancel {:?} job", job.context.job_status);
            }
""", """            if !job.is_queued() {
                warn!("[WorkQueue] Cannot cancel {:?} job", job.context.job_status);
                return Ok(());
            }
            let queue = self.format_queue_name(JobStatus::Queued);
            self.backend.queue_remove(&queue, job_id)?;
            job.cancel(self.backend.deref())?;
"""))
r("p2-cancel-match", (Q, """            if job.is_queued() {
                job.cancel(self.backend.deref())?;
                self.backend
                    .queue_remove(&self.format_queue_name(JobStatus::Queued), job_id)?;
            } else {
                warn!("[WorkQueue] Cannot cancel {:?} job", job.context.job_status);
            }
""", """            match job.context.job_status {
                JobStatus::Queued => {
                    job.cancel(self.backend.deref())?;
                    self.backend
                        .queue_remove(&self.format_queue_name(JobStatus::Queued), job_id)?;
                }
                other => warn!("[WorkQueue] Cannot cancel {:?} job", other),
            }
"""))
r("p2-name-helper", (Q, """        format!("{}:queue:{:?}", self.name, status)""", """        let suffix = format!("queue:{:?}", status);
        format!("{}:{}", self.name, suffix)"""))
r("p2-name-concat", (Q, """        format!("{}:queue:{:?}", self.name, status)""", """        let name: &str = &self.name;
        [name, ":queue:", &format!("{status:?}")].concat()"""))
r("p2-name-pushstr", (Q, """        format!("{}:queue:{:?}", self.name, status)""", """        let mut queue_name = self.name.to_string();
        queue_name.push_str(":queue:");
        queue_name.push_str(&format!("{:?}", status));
        queue_name"""))
r("p2-name-match", (Q, """        format!("{}:queue:{:?}", self.name, status)""", """        let label = match status {
            JobStatus::Queued => "Queued",
            JobStatus::Running => "Running",
            JobStatus::Finished => "Finished",
            JobStatus::Failed => "Failed",
            JobStatus::Canceled => "Canceled",
        };
        format!("{}:queue:{}", self.name, label)"""))
r("p2-alias", (Q, "const MAX_PROCESSING_JOBS: usize = 20;", "const MAX_PROCESSING_JOBS: usize = 20;\n\ntype QueueResult<T> = Result<T, Error>;"), (Q, "pub fn retry_job(&self, job_id: &str) -> Result<bool, Error> {", "pub fn retry_job(&self, job_id: &str) -> QueueResult<bool> {"))
r("p2-newfile", (Q, "use crate::{Error, Executable, JobType};", "use crate::naming::queue_name_for;\nuse crate::{Error, Executable, JobType};"), (Q, """        format!("{}:queue:{:?}", self.name, status)""", "        queue_name_for(&self.name, status)"), (L, "pub mod job;\n", "pub mod job;\nmod naming;\n"), ("+naming.rs", "", "use crate::JobStatus;\n\npub(crate) fn queue_name_for(name: &str, status: JobStatus) -> String {\n    format!(\"{}:queue:{:?}\", name, status)\n}\n"))
# job
UP = "        upsert_to_storage(backend, self.id(), self.clone())?;\n        PluginCenter::change_status::<M>(self.id().to_string(), self.context.job_status);\n        Ok(())\n    }\n"
def jobm(name, st, field):
    log = {"enqueue": "Enqueue", "process": "Run", "finish": "Finish", "cancel": "Cancel", "fail": "Failed"}[name]
    return '        debug!("[Job] %s {}", self.id());\n        self.context.job_status = JobStatus::%s;\n        self.context.%s = Some(get_now_as_ms());\n' % (log, st, field) + UP
AFTERJ = "\npub trait BackgroundJob: Executable"
r("p2-job-save", *[(J, jobm(n, s, f), '        self.context.job_status = JobStatus::%s;\n        self.context.%s = Some(get_now_as_ms());\n        self.save_and_notify(backend)\n    }\n' % (s, f)) for n, s, f in (("enqueue", "Queued", "enqueue_at"), ("process", "Running", "run_at"), ("finish", "Finished", "complete_at"), ("cancel", "Canceled", "cancel_at"), ("fail", "Failed", "complete_at"))],
  (J, "    pub fn is_queued(&self)", "    fn save_and_notify(&self, backend: &dyn Backend) -> Result<(), Error> {\n" + UP + "\n    pub fn is_queued(&self)"))
r("p2-job-transition", *[(J, jobm(n, s, f), '        self.transition(JobStatus::%s, backend)\n    }\n' % s) for n, s, f in (("enqueue", "Queued", "enqueue_at"), ("process", "Running", "run_at"), ("finish", "Finished", "complete_at"), ("cancel", "Canceled", "cancel_at"), ("fail", "Failed", "complete_at"))],
  (J, "    pub fn is_queued(&self)", """    fn transition(&mut self, status: JobStatus, backend: &dyn Backend) -> Result<(), Error> {
        let now = Some(get_now_as_ms());
        self.context.job_status = status;
        match status {
            JobStatus::Queued => self.context.enqueue_at = now,
            JobStatus::Running => self.context.run_at = now,
            JobStatus::Finished | JobStatus::Failed => self.context.complete_at = now,
            JobStatus::Canceled => self.context.cancel_at = now,
        }
        upsert_to_storage(backend, self.id(), self.clone())?;
        PluginCenter::change_status::<M>(self.id().to_string(), status);
        Ok(())
    }

    pub fn is_queued(&self)"""))
r("p2-job-ctxmethod", (J, jobm("finish", "Finished", "complete_at"), "        self.context.mark_complete(JobStatus::Finished);\n" + UP), (J, jobm("fail", "Failed", "complete_at"), "        self.context.mark_complete(JobStatus::Failed);\n" + UP), (JC, "impl JobContext {\n", "impl JobContext {\n    pub(crate) fn mark_complete(&mut self, status: JobStatus) {\n        self.job_status = status;\n        self.complete_at = Some(get_now_as_ms());\n    }\n\n"))
r("p2-status-method", (J, """        self.context.job_status == JobStatus::Finished
            || self.context.job_status == JobStatus::Canceled
            || self.context.job_status == JobStatus::Failed
""", "        self.context.job_status.is_terminal()\n"), (JC, "impl Default for JobStatus {", "impl JobStatus {\n    pub fn is_terminal(&self) -> bool {\n        matches!(self, Self::Finished | Self::Canceled | Self::Failed)\n    }\n}\n\nimpl Default for JobStatus {"))
READY = """        let now = get_now();
        match &self.context.job_type {
            JobType::ScheduledAt(schedule_at) => &now > schedule_at,
            JobType::Cron(_, next_slot, total_repeat, context) => {
                if now < *next_slot {
                    return false;
                }

                if let Some(max_repeat) = context.max_repeat {
                    if max_repeat < *total_repeat {
                        return false;
                    }
                }

                if let Some(end_at) = context.end_at {
                    if now > end_at {
                        return false;
                    }
                }

                true
            }
            _ => true,
        }
"""
r("p2-ready-typemethod", (J, READY, "        self.context.job_type.is_due(get_now())\n"), (JC, "impl JobType {\n", """impl JobType {
    pub(crate) fn is_due(&self, now: DateTime<Utc>) -> bool {
        match self {
            JobType::Normal => true,
            JobType::ScheduledAt(at) => now > *at,
            JobType::Cron(_, next_slot, repeats, context) => {
                let exhausted = context.max_repeat.map_or(false, |max| max < *repeats);
                let expired = context.end_at.map_or(false, |end| now > end);
                now >= *next_slot && !exhausted && !expired
            }
        }
    }

"""))
r("p2-ready-ctxmethod", (J, """                if let Some(max_repeat) = context.max_repeat {
                    if max_repeat < *total_repeat {
                        return false;
                    }
                }

                if let Some(end_at) = context.end_at {
                    if now > end_at {
                        return false;
                    }
                }

                true
            }
            _ => true,
        }
""", "                context.allows(now, *total_repeat)\n            }\n            _ => true,\n        }\n"), (JC, "#[serde_as]\n#[derive(Debug, Clone, Serialize, Deserialize, PartialEq, Eq)]\npub enum JobType", """impl CronContext {
    pub(crate) fn allows(&self, now: DateTime<Utc>, repeats: i32) -> bool {
        if let Some(max_repeat) = self.max_repeat {
            if max_repeat < repeats {
                return false;
            }
        }
        match self.end_at {
            Some(end_at) => now <= end_at,
            None => true,
        }
    }
}

#[serde_as]
#[derive(Debug, Clone, Serialize, Deserialize, PartialEq, Eq)]
pub enum JobType"""))
r("p2-ready-destruct", (J, READY, """        let now = get_now();
        match &self.context.job_type {
            JobType::Normal => true,
            JobType::ScheduledAt(schedule_at) => *schedule_at < now,
            JobType::Cron(_, next_slot, total_repeat, CronContext { max_repeat, end_at, .. }) => {
                let in_slot = *next_slot <= now;
                let repeats_left = match max_repeat {
                    Some(max_repeat) => total_repeat <= max_repeat,
                    None => true,
                };
                let not_ended = match end_at {
                    Some(end_at) => now <= *end_at,
                    None => true,
                };
                in_slot && repeats_left && not_ended
            }
        }
"""))
r("p2-ready-iflet", (J, READY, """        let now = get_now();
        if let JobType::ScheduledAt(schedule_at) = &self.context.job_type {
            return now > *schedule_at;
        }
        if let JobType::Cron(_, next_slot, total_repeat, context) = &self.context.job_type {
            return now >= *next_slot
                && context.max_repeat.unwrap_or(i32::MAX) >= *total_repeat
                && !context.end_at.is_some_and(|end_at| now > end_at);
        }
        true
"""))
TICK = """                let schedule = Schedule::from_str(cron_expression);
                if schedule.is_err() {
                    error!(
                        "[Job] Cannot parse schedule {cron_expression} of job {}",
                        job.id(),
                    );
                    return None;
                }

                let schedule = schedule.unwrap();
"""
r("p2-tick-ok", (J, TICK, "                let schedule = Schedule::from_str(cron_expression).ok()?;\n"))
r("p2-tick-helper", (J, TICK + """                // No more tick in this schedule
                let upcoming_event = schedule.after(&now).next()?;
""", "                let upcoming_event = upcoming_slot(cron_expression, now)?;\n"), (J, AFTERJ, """
fn upcoming_slot(cron_expression: &str, now: DateTime<Utc>) -> Option<DateTime<Utc>> {
    match Schedule::from_str(cron_expression) {
        Ok(schedule) => schedule.after(&now).next(),
        Err(err) => {
            error!("[Job] Cannot parse schedule {cron_expression}: {err:?}");
            None
        }
    }
}
""" + AFTERJ))
r("p2-tick-clone-late", (J, "                let mut job = self.clone();\n", ""), (J, "                        job.id(),\n", "                        self.id(),\n"), (J, "                job.context.job_type = JobType::Cron(", "                let mut job = self.clone();\n                job.context.job_type = JobType::Cron("))
r("p2-tick-limits", (J, """                if let Some(max_repeat) = context.max_repeat {
                    if max_repeat <= *total_repeat {
                        return None;
                    }
                }

                if let Some(end_at) = context.end_at {
                    if end_at < upcoming_event {
                        return None;
                    }
                }
""", """                let repeats_used_up = context.max_repeat.is_some_and(|max| *total_repeat >= max);
                let past_end = context.end_at.is_some_and(|end| upcoming_event > end);
                if repeats_used_up || past_end {
                    return None;
                }
"""))
r("p2-tick-struct", (J, """                job.context.job_type = JobType::Cron(
                    cron_expression.clone(),
                    upcoming_event,
                    *total_repeat + 1,
                    context.clone(),
                );
                Some(job)
""", """                let job_type = JobType::Cron(
                    cron_expression.to_string(),
                    upcoming_event,
                    total_repeat + 1,
                    context.clone(),
                );
                Some(job.set_job_type(job_type))
"""), (J, "                let mut job = self.clone();\n", "                let job = self.clone();\n"))
r("p2-exec-inner", (J, """        self.data.pre_execute(&self.context).await;
        let output = self.data.execute(&self.context).await;
        let output = self.data.post_execute(output, &self.context).await;
""", "        let output = self.run_steps().await;\n"), (J, "    pub fn is_ready(&self)", """    async fn run_steps(&mut self) -> <M as Executable>::Output {
        let Job { context, data } = self;
        data.pre_execute(context).await;
        let raw = data.execute(context).await;
        data.post_execute(raw, context).await
    }

    pub fn is_ready(&self)"""))
r("p2-exec-id", (J, "        PluginCenter::before::<M>(self.id().to_string()).await;", "        let job_id = self.id().to_owned();\n        PluginCenter::before::<M>(job_id.clone()).await;"), (J, "        PluginCenter::after::<M>(self.id().to_string()).await;", "        PluginCenter::after::<M>(job_id).await;"))
r("p2-build-new", (J, """        let id = Uuid::new_v4().to_string();
        Self {
            context: JobContext::new(id),
            data: job,
        }
""", """        let context = JobContext::new(Uuid::new_v4().to_string());
        Job { context, data: job }
"""))
r("p2-build-cronq", (JC, """        let schedule = Schedule::from_str(expression)?;
        let now = get_now();
        let next_tick = schedule.after(&now).next().unwrap_or(now);
        Ok(Self::Cron(expression.into(), next_tick, 1, context))
""", """        let now = get_now();
        let next_tick = Self::first_tick(&Schedule::from_str(expression)?, now);
        Ok(JobType::Cron(expression.to_string(), next_tick, 1, context))
    }

    fn first_tick(schedule: &Schedule, now: DateTime<Utc>) -> DateTime<Utc> {
        match schedule.after(&now).next() {
            Some(next) => next,
            None => now,
        }
"""))
# retry
RAT = """        let delay = match &self.strategy {
            RetryStrategy::Interval(internal_time) => *internal_time,
            RetryStrategy::ExponentialBackoff(initial_backoff) => {
                let factor = 2_i32.saturating_pow(self.retried_times as u32);
                initial_backoff
                    .checked_mul(factor)
                    .unwrap_or(Duration::max_value())
            }
        };
"""
r("p2-retry-delay", (R, RAT, "        let delay = self.strategy.delay(self.retried_times);\n"), (R, "#[derive(Debug, Clone, Serialize, Deserialize)]\npub struct Retry {", """impl RetryStrategy {
    fn delay(&self, retried_times: i32) -> Duration {
        match self {
            Self::Interval(interval) => *interval,
            Self::ExponentialBackoff(initial) => {
                let factor = 2_i32.saturating_pow(retried_times as u32);
                initial.checked_mul(factor).unwrap_or(Duration::max_value())
            }
        }
    }
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Retry {"""))
r("p2-retry-fn", (R, RAT, "        let delay = match self.strategy {\n            RetryStrategy::Interval(internal_time) => internal_time,\n            RetryStrategy::ExponentialBackoff(initial) => backoff(initial, self.retried_times),\n        };\n"), (R, "impl Default for Retry {", """fn backoff(initial: Duration, times: i32) -> Duration {
    let factor = 2_i32.saturating_pow(times as u32);
    match initial.checked_mul(factor) {
        Some(delay) => delay,
        None => Duration::max_value(),
    }
}

impl Default for Retry {"""))
r("p2-retry-now", (R, "        let final_now = now.unwrap_or(get_now());\n", "        let final_now = now.unwrap_or_else(get_now);\n"))
r("p2-retry-consts", (R, "Self::new_interval_retry(Some(3), chrono::TimeDelta::try_milliseconds(100).unwrap())", "Self::new_interval_retry(Some(DEFAULT_RETRIES), Duration::milliseconds(100))"), (R, "impl Default for Retry {", "const DEFAULT_RETRIES: i32 = 3;\n\nimpl Default for Retry {"))
r("p2-retry-if", (R, """        if let Some(max_retries) = self.max_retries {
            self.retried_times < max_retries
        } else {
            true
        }
""", """        let Some(max_retries) = self.max_retries else {
            return true;
        };
        max_retries > self.retried_times
"""))
r("p2-exec-retry", (E, """        let should_retry = self.is_failed_output(&job_output).await && retry_context.should_retry();

        if should_retry {
            Some(retry_context.retry_at(None))
        } else {
            None
        }
""", """        if !self.is_failed_output(&job_output).await {
            return None;
        }
        if !retry_context.should_retry() {
            return None;
        }
        let next = retry_context.retry_at(None);
        Some(next)
"""))
