r("noop-proc", (Q, "        ctx.run_later(self.config.process_tick_duration,", "        let _ = ();\n        ctx.run_later(self.config.process_tick_duration,"))
r("pick-while", (Q, "        loop {\n            let job_ids", "        let mut more = true;\n        while more {\n            let job_ids"), (Q, """            if ready_jobs.len() >= total {
                break;
            }

            if current_cursor <= 0 {
                break;
            }
""", "            more = ready_jobs.len() < total && current_cursor > 0;\n"))
r("pick-or", (Q, """            if ready_jobs.len() >= total {
                break;
            }

            if current_cursor <= 0 {
                break;
            }
""", """            if ready_jobs.len() >= total || current_cursor <= 0 {
                break;
            }
"""))
r("pick-swap-breaks", (Q, """            if ready_jobs.len() >= total {
                break;
            }

            if current_cursor <= 0 {
                break;
            }
""", """            if current_cursor <= 0 {
                break;
            }
            if ready_jobs.len() >= total {
                break;
            }
"""))
r("pick-helper-move", (Q, """                        self.backend.queue_move(
                            &idle_queue_name,
                            &processing_queue_name,
                            1,
                            QueueDirection::Back,
                            QueueDirection::Front,
                        )?;
                        continue;""", """                        self.rotate(&idle_queue_name, &processing_queue_name)?;
                        continue;"""), (Q, """                self.backend.queue_move(
                    &idle_queue_name,
                    &idle_queue_name,
                    1,
                    QueueDirection::Back,
                    QueueDirection::Front,
                )?;
""", "                self.rotate(&idle_queue_name, &idle_queue_name)?;\n"), (Q, "    pub fn execute_job_task(", """    fn rotate(&self, from: &str, to: &str) -> Result<(), Error> {
        self.backend
            .queue_move(from, to, 1, QueueDirection::Back, QueueDirection::Front)?;
        Ok(())
    }

    pub fn execute_job_task("""))
r("pick-ifelse", (Q, """                if let Some(mut job) = job {
                    if job.is_ready()
                        && ready_jobs.len() < total
                        && !ready_jobs
                            .iter()
                            .any(|ready_job: &Job<M>| ready_job.id() == job.id())
                    {
                        // Job is read to process. Put it in the ready list
                        job.process(self.backend.deref())?;
                        ready_jobs.push(job);
                        self.backend.queue_move(
                            &idle_queue_name,
                            &processing_queue_name,
                            1,
                            QueueDirection::Back,
                            QueueDirection::Front,
                        )?;
                        continue;
                    }
                }

                // Job is not ready to process, move it back to front of queue
                self.backend.queue_move(
                    &idle_queue_name,
                    &idle_queue_name,
                    1,
                    QueueDirection::Back,
                    QueueDirection::Front,
                )?;
""", """                let mut target = &idle_queue_name;
                if let Some(mut job) = job {
                    let picked = ready_jobs
                        .iter()
                        .any(|ready_job: &Job<M>| ready_job.id() == job.id());
                    if !picked && job.is_ready() && ready_jobs.len() < total {
                        job.process(self.backend.deref())?;
                        ready_jobs.push(job);
                        target = &processing_queue_name;
                    }
                }
                self.backend.queue_move(
                    &idle_queue_name,
                    target,
                    1,
                    QueueDirection::Back,
                    QueueDirection::Front,
                )?;
"""))
r("pick-order-cond", (Q, """                    if job.is_ready()
                        && ready_jobs.len() < total
                        && !ready_jobs""", """                    if ready_jobs.len() < total
                        && job.is_ready()
                        && !ready_jobs"""))
r("pick-match-some", (Q, "                if let Some(mut job) = job {\n                    if job.is_ready()", "                if let Some(mut found) = job {\n                    let job = &mut found;\n                    if job.is_ready()"), (Q, "                        ready_jobs.push(job);", "                        ready_jobs.push(found);"))
r("pick-const", (Q, ".queue_get(&idle_queue_name, 20, QueueDirection::Back)?", ".queue_get(&idle_queue_name, PICK_BATCH, QueueDirection::Back)?"), (Q, "#[derive(Clone)]\npub struct WorkQueue<M>", "const PICK_BATCH: usize = 20;\n\n#[derive(Clone)]\npub struct WorkQueue<M>"))
r("pick-usize-cursor", (Q, "let mut current_cursor = idle_queue_length as i32;", "let mut current_cursor = idle_queue_length;"), (Q, "current_cursor -= job_ids.len() as i32;", "current_cursor = current_cursor.saturating_sub(job_ids.len());"), (Q, "if current_cursor <= 0 {", "if current_cursor == 0 {"))
r("pick-seen-count", (Q, "let mut current_cursor = idle_queue_length as i32;", "let mut seen = 0;"), (Q, "current_cursor -= job_ids.len() as i32;", "seen += job_ids.len();"), (Q, "if current_cursor <= 0 {", "if seen >= idle_queue_length {"))
r("pick-rename", (Q, "let mut ready_jobs = vec![];", "let mut ready_jobs: Vec<Job<M>> = Vec::new();"))
r("pick-saturating", (Q, """        if total_processing_jobs >= self.config.max_processing_jobs {
            return Ok(vec![]);
        }

        self.try_pick_specific_ready_jobs(self.config.max_processing_jobs - total_processing_jobs)""", """        let free = self.config.max_processing_jobs.saturating_sub(total_processing_jobs);
        if free == 0 {
            return Ok(vec![]);
        }

        self.try_pick_specific_ready_jobs(free)"""))
r("pick-match-cmp", (Q, """        if total_processing_jobs >= self.config.max_processing_jobs {
            return Ok(vec![]);
        }

        self.try_pick_specific_ready_jobs(self.config.max_processing_jobs - total_processing_jobs)""", """        match self.config.max_processing_jobs.checked_sub(total_processing_jobs) {
            Some(free) if free > 0 => self.try_pick_specific_ready_jobs(free),
            _ => Ok(vec![]),
        }"""))
r("proc-iflet", (Q, """        match self.pick_jobs_to_process() {
            Ok(jobs) => {
                for job in jobs {
                    self.execute_job_task(job, ctx);
                }
            }
            Err(err) => {
                error!("[WorkQueue]: Cannot pick jobs to process {err:?}",);
            }
        }
""", """        let picked = self.pick_jobs_to_process();
        if let Ok(jobs) = picked {
            for job in jobs {
                self.execute_job_task(job, ctx);
            }
        } else {
            error!("[WorkQueue]: Cannot pick jobs to process");
        }
"""))
r("proc-iter-foreach", (Q, """                for job in jobs {
                    self.execute_job_task(job, ctx);
                }
""", """                jobs.into_iter()
                    .for_each(|job| self.execute_job_task(job, ctx));
"""))
r("proc-helper", (Q, """                for job in jobs {
                    self.execute_job_task(job, ctx);
                }
""", "                self.start_all(jobs, ctx);\n"), (Q, "    pub fn pick_jobs_to_process(", """    fn start_all(&self, jobs: Vec<Job<M>>, ctx: &mut Context<WorkQueue<M>>) {
        for job in jobs {
            self.execute_job_task(job, ctx);
        }
    }

    pub fn pick_jobs_to_process("""))
r("proc-schedule-helper", (Q, """        ctx.run_later(self.config.process_tick_duration, |work_queue, ctx| {
            work_queue.process_jobs(ctx);
        });
    }
""", """        self.schedule_next(ctx);
    }

    fn schedule_next(&self, ctx: &mut Context<WorkQueue<M>>) {
        let wait = self.config.process_tick_duration;
        ctx.run_later(wait, |work_queue, ctx| work_queue.process_jobs(ctx));
    }
"""))
r("run-match", (Q, """        let existing_job = get_from_storage::<Job<M>>(self.backend.deref(), job.id())?;
        if let Some(existing_job) = existing_job {
            if config.override_data""", """        if let Some(existing_job) = self.read_job(job.id())? {
            if config.override_data"""))
r("run-letelse", (Q, """        let existing_job = get_from_storage::<Job<M>>(self.backend.deref(), job.id())?;
        if let Some(existing_job) = existing_job {
""", """        let Some(existing_job) = get_from_storage::<Job<M>>(self.backend.deref(), job.id())? else {
            return self.enqueue(job);
        };
        {
"""), (Q, """            return Ok(());
        }

        self.enqueue(job)
    }""", """            Ok(())
        }
    }"""))
r("run-version", (Q, """                self.re_enqueue(if config.override_data {
                    job
                } else {
                    existing_job
                })?;
""", """                let version = if config.override_data { job } else { existing_job };
                return self.re_enqueue(version);
"""))
r("run-flags", (Q, "            if config.override_data && !existing_job.is_running() {", "            let EnqueueConfig { re_run, override_data } = config;\n            let done = existing_job.is_done();\n            if override_data && !existing_job.is_running() {"), (Q, "            if config.re_run && existing_job.is_done() {", "            if re_run && done {"), (Q, "self.re_enqueue(if config.override_data {", "self.re_enqueue(if override_data {"))
r("enq-key", (Q, """        let key = job.id();
        info!("[WorkQueue] New Job {}", key);
        self.backend
            .queue_push(&self.format_queue_name(JobStatus::Queued), key)?;
        job.enqueue(self.backend.deref())""", """        let queue = self.format_queue_name(JobStatus::Queued);
        self.backend.queue_push(&queue, job.id())?;
        job.enqueue(self.backend.deref())?;
        Ok(())"""))
r("enq-order", (Q, """        let key = job.id();
        info!("[WorkQueue] New Job {}", key);
        self.backend
            .queue_push(&self.format_queue_name(JobStatus::Queued), key)?;
        job.enqueue(self.backend.deref())""", """        let backend = self.backend.deref();
        job.enqueue(backend)?;
        backend.queue_push(&self.format_queue_name(JobStatus::Queued), job.id())"""))
r("reenq-push-helper", (Q, """        let queued_queue = self.format_queue_name(JobStatus::Queued);
        self.backend.queue_push(&queued_queue, job.id())
    }""", """        self.push_or_log(JobStatus::Queued, job.id())
    }

    fn push_or_log(&self, status: JobStatus, job_id: &str) -> Result<(), Error> {
        let queue = self.format_queue_name(status);
        let pushed = self.backend.queue_push(&queue, job_id);
        if let Err(e) = &pushed {
            error!("[WorkQueue] Cannot push {} to {}: {:?}", job_id, queue, e);
        }
        pushed
    }"""), (Q, """        let failed_queue = self.format_queue_name(JobStatus::Failed);
        if let Err(e) = self.backend.queue_push(&failed_queue, job_id) {
            error!(
                "[WorkQueue] Cannot move to failed queue {}: {:?}",
                job_id, e
            );
        };
""", "        self.push_or_log(JobStatus::Failed, job_id);\n"), (Q, """        let finished_queue = self.format_queue_name(JobStatus::Finished);
        if let Err(e) = self.backend.queue_push(&finished_queue, job.id()) {
            error!("[WorkQueue] Cannot finish {}: {:?}", job.id(), e);
        };
""", "        self.push_or_log(JobStatus::Finished, job.id());\n"))
r("reenq-order", (Q, """        let current_queue = self.format_queue_name(job.context.job_status);
        self.backend.queue_remove(&current_queue, job.id())?;
        job.enqueue(self.backend.deref())?;

        let queued_queue = self.format_queue_name(JobStatus::Queued);
""", """        let current_queue = self.format_queue_name(job.context.job_status);
        let queued_queue = self.format_queue_name(JobStatus::Queued);
        job.enqueue(self.backend.deref())?;
        self.backend.queue_remove(&current_queue, job.id())?;
"""))
r("finish-order", (Q, """        self.remove_processing_job(job.id());
        job.finish(self.backend.deref())?;

""", """        job.finish(self.backend.deref())?;
        self.remove_processing_job(job.id());
"""))
r("fail-inline", (Q, """        job.fail(self.backend.deref())?;
        self.push_failed_job(job.id());
        Ok(())""", """        let id = job.id().to_string();
        job.fail(self.backend.deref()).map(|_| self.push_failed_job(&id))"""))
r("fail-andthen", (Q, """        job.fail(self.backend.deref())?;
        self.push_failed_job(job.id());
        Ok(())""", """        let failed = job.fail(self.backend.deref());
        if failed.is_ok() {
            self.push_failed_job(job.id());
        }
        failed"""))
r("exec-match", (Q, """        if let Some(next_job) = job.next_tick() {
            return self.re_enqueue(next_job);
        }

        if is_failed_output {
            self.mark_job_is_failed(job)
        } else {
            self.mark_job_is_finished(job)
        }""", """        match job.next_tick() {
            Some(next_job) => self.re_enqueue(next_job),
            None if is_failed_output => self.mark_job_is_failed(job),
            None => self.mark_job_is_finished(job),
        }"""))
r("exec-helper", (Q, """        // If this is interval job (has next tick) -> re_enqueue it
        if let Some(next_job) = job.next_tick() {
            return self.re_enqueue(next_job);
        }

        if is_failed_output {
            self.mark_job_is_failed(job)
        } else {
            self.mark_job_is_finished(job)
        }
    }""", """        self.settle(job, is_failed_output)
    }

    fn settle(&self, mut job: Job<M>, failed: bool) -> Result<(), Error> {
        // If this is interval job (has next tick) -> re_enqueue it
        if let Some(next_job) = job.next_tick() {
            return self.re_enqueue(next_job);
        }

        if failed {
            self.mark_job_is_failed(job)
        } else {
            self.mark_job_is_finished(job)
        }
    }"""))
r("exec-retry-local", (Q, """        if let Some(retry_context) = job.context.retry.as_mut() {
            if let Some(next_retry_ms) = job.data.retry_at(retry_context, job_output).await {
                info!("[WorkQueue] Retry this job. {}", job.id());
                job.context.job_type = JobType::ScheduledAt(next_retry_ms);
                return self.re_enqueue(job);
            }
        }
""", """        let next_retry = match job.context.retry.as_mut() {
            Some(retry_context) => job.data.retry_at(retry_context, job_output).await,
            None => None,
        };
        if let Some(at) = next_retry {
            job = job.schedule_at(at);
            return self.re_enqueue(job);
        }
"""))
r("task-match", (Q, """            if let Err(err) = this.execute_job(job.clone()).await {
                error!("[WorkQueue] Execute job {} fail: {:?}", job.id(), err);
                let _ = this.mark_job_is_failed(job);
            }
""", """            match this.execute_job(job.clone()).await {
                Ok(()) => {}
                Err(err) => {
                    error!("[WorkQueue] Execute job {} fail: {:?}", job.id(), err);
                    let _ = this.mark_job_is_failed(job);
                }
            }
"""))
r("task-isfail", (Q, """            if let Err(err) = this.execute_job(job.clone()).await {
                error!("[WorkQueue] Execute job {} fail: {:?}", job.id(), err);
                let _ = this.mark_job_is_failed(job);
            }
""", """            let outcome = this.execute_job(job.clone()).await;
            if outcome.is_err() {
                this.mark_job_is_failed(job).ok();
            }
"""))
r("cancel-early", (Q, """        if let Some(mut job) = get_from_storage::<Job<M>>(self.backend.deref(), job_id)? {
            // Only cancel queued job
            if job.is_queued() {
                job.cancel(self.backend.deref())?;
                self.backend
                    .queue_remove(&self.format_queue_name(JobStatus::Queued), job_id)?;
            } else {
                warn!("[WorkQueue] Cannot cancel {:?} job", job.context.job_status);
            }
        }

        Ok(())""", """        let mut job = match self.get_job(job_id)? {
            Some(job) => job,
            None => return Ok(()),
        };
        if !job.is_queued() {
            warn!("[WorkQueue] Cannot cancel {:?} job", job.context.job_status);
            return Ok(());
        }

        let queue = self.format_queue_name(JobStatus::Queued);
        job.cancel(self.backend.deref())?;
        self.backend.queue_remove(&queue, job_id)"""))
r("retry-match", (Q, """        if let Some(job) = job {
            // Only allow retry done job is (cancelled, failed, finished).
            if job.is_done() {
                self.re_enqueue(job)?;
                return Ok(true);
            } else {
                debug!(
                    "[WorkQueue] Cannot retry job {} in status {:?}",
                    job_id, job.context.job_status
                );
                return Ok(false);
            }
        };

        debug!("[WorkQueue] Don't found job {} to retry", job_id);
        Ok(false)""", """        match job {
            // Only allow retry done job is (cancelled, failed, finished).
            Some(job) if job.is_done() => {
                self.re_enqueue(job)?;
                Ok(true)
            }
            Some(job) => {
                debug!("[WorkQueue] Cannot retry job {} in status {:?}", job_id, job.context.job_status);
                Ok(false)
            }
            None => Ok(false),
        }"""))
r("retry-map", (Q, """        if let Some(job) = job {
            // Only allow retry done job is (cancelled, failed, finished).
            if job.is_done() {
                self.re_enqueue(job)?;
                return Ok(true);
            } else {
                debug!(
                    "[WorkQueue] Cannot retry job {} in status {:?}",
                    job_id, job.context.job_status
                );
                return Ok(false);
            }
        };

        debug!("[WorkQueue] Don't found job {} to retry", job_id);
        Ok(false)""", """        let Some(job) = job.filter(|job| job.is_done()) else {
            return Ok(false);
        };
        self.re_enqueue(job).map(|_| true)"""))
r("getjob-direct", (Q, """        let job = get_from_storage::<Job<M>>(self.backend.deref(), job_id)?;
        Ok(job)""", """        get_from_storage(self.backend.deref(), job_id)"""))
r("isdone-matches", (J, """        self.context.job_status == JobStatus::Finished
            || self.context.job_status == JobStatus::Canceled
            || self.context.job_status == JobStatus::Failed""", """        matches!(
            self.context.job_status,
            JobStatus::Finished | JobStatus::Canceled | JobStatus::Failed
        )"""))
r("isdone-not", (J, """        self.context.job_status == JobStatus::Finished
            || self.context.job_status == JobStatus::Canceled
            || self.context.job_status == JobStatus::Failed""", """        !self.is_queued() && !self.is_running()"""))
r("isdone-match", (J, """        self.context.job_status == JobStatus::Finished
            || self.context.job_status == JobStatus::Canceled
            || self.context.job_status == JobStatus::Failed""", """        match self.context.job_status {
            JobStatus::Finished | JobStatus::Canceled | JobStatus::Failed => true,
            JobStatus::Queued | JobStatus::Running => false,
        }"""))
r("isdone-array", (J, """        self.context.job_status == JobStatus::Finished
            || self.context.job_status == JobStatus::Canceled
            || self.context.job_status == JobStatus::Failed""", """        [JobStatus::Finished, JobStatus::Canceled, JobStatus::Failed]
            .contains(&self.context.job_status)"""))
r("ready-bool", (J, """                if let Some(max_repeat) = context.max_repeat {
                    if max_repeat < *total_repeat {
                        return false;
                    }
                }

                if let Some(end_at) = context.end_at {
                    if now > end_at {
                        return false;
                    }
                }

                true""", """                let repeats_left = match context.max_repeat {
                    Some(max_repeat) => *total_repeat <= max_repeat,
                    None => true,
                };
                let before_end = match context.end_at {
                    Some(end_at) => now <= end_at,
                    None => true,
                };
                repeats_left && before_end"""))
r("ready-mapor", (J, """                if let Some(max_repeat) = context.max_repeat {
                    if max_repeat < *total_repeat {
                        return false;
                    }
                }

                if let Some(end_at) = context.end_at {
                    if now > end_at {
                        return false;
                    }
                }

                true""", """                context.max_repeat.map_or(true, |max| *total_repeat <= max)
                    && context.end_at.map_or(true, |end| now <= end)"""))
r("ready-flip", (J, "JobType::ScheduledAt(schedule_at) => &now > schedule_at,", "JobType::ScheduledAt(schedule_at) => *schedule_at < now,"))
r("ready-helper", (J, """                if let Some(end_at) = context.end_at {
                    if now > end_at {
                        return false;
                    }
                }

                true""", """                !context.ended(now)"""), (JC, "#[serde_as]\n#[derive(Debug, Clone, Serialize, Deserialize, PartialEq, Eq)]\npub enum JobType", """impl CronContext {
    pub(crate) fn ended(&self, now: DateTime<Utc>) -> bool {
        match self.end_at {
            Some(end_at) => now > end_at,
            None => false,
        }
    }
}

#[serde_as]
#[derive(Debug, Clone, Serialize, Deserialize, PartialEq, Eq)]
pub enum JobType"""))
r("tick-letelse", (J, """                let schedule = Schedule::from_str(cron_expression);
                if schedule.is_err() {
                    error!(
                        "[Job] Cannot parse schedule {cron_expression} of job {}",
                        job.id(),
                    );
                    return None;
                }

                let schedule = schedule.unwrap();
                // No more tick in this schedule
                let upcoming_event = schedule.after(&now).next()?;
""", """                let Ok(schedule) = Schedule::from_str(cron_expression) else {
                    error!("[Job] Cannot parse schedule {cron_expression}");
                    return None;
                };
                let Some(upcoming_event) = schedule.after(&now).next() else {
                    return None;
                };
"""))
r("tick-match", (J, """                let schedule = Schedule::from_str(cron_expression);
                if schedule.is_err() {
                    error!(
                        "[Job] Cannot parse schedule {cron_expression} of job {}",
                        job.id(),
                    );
                    return None;
                }

                let schedule = schedule.unwrap();
""", """                let schedule = match Schedule::from_str(cron_expression) {
                    Ok(schedule) => schedule,
                    Err(_) => return None,
                };
"""))
r("tick-reorder", (J, """                // No more tick in this schedule
                let upcoming_event = schedule.after(&now).next()?;

                if let Some(max_repeat) = context.max_repeat {
                    if max_repeat <= *total_repeat {
                        return None;
                    }
                }
""", """                if let Some(max_repeat) = context.max_repeat {
                    if *total_repeat >= max_repeat {
                        return None;
                    }
                }

                // No more tick in this schedule
                let upcoming_event = schedule.after(&now).next()?;
"""))
r("tick-iflet", (J, """        match &self.context.job_type {
            JobType::Cron(cron_expression, _, total_repeat, context) => {
                let mut job = self.clone();""", """        let mut job = self.clone();
        match &self.context.job_type {
            JobType::Cron(cron_expression, _, total_repeat, context) => {"""))
r("status-helper", (J, """        debug!("[Job] Enqueue {}", self.id());
        self.context.job_status = JobStatus::Queued;
        self.context.enqueue_at = Some(get_now_as_ms());
        upsert_to_storage(backend, self.id(), self.clone())?;
        PluginCenter::change_status::<M>(self.id().to_string(), self.context.job_status);
        Ok(())
""", """        debug!("[Job] Enqueue {}", self.id());
        self.context.enqueue_at = Some(get_now_as_ms());
        self.change_status(backend, JobStatus::Queued)
"""), (J, """        debug!("[Job] Run {}", self.id());
        self.context.job_status = JobStatus::Running;
        self.context.run_at = Some(get_now_as_ms());
        upsert_to_storage(backend, self.id(), self.clone())?;
        PluginCenter::change_status::<M>(self.id().to_string(), self.context.job_status);
        Ok(())
""", """        debug!("[Job] Run {}", self.id());
        self.context.run_at = Some(get_now_as_ms());
        self.change_status(backend, JobStatus::Running)
"""), (J, "    pub fn is_queued(&self) -> bool {", """    fn change_status(&mut self, backend: &dyn Backend, status: JobStatus) -> Result<(), Error> {
        self.context.job_status = status;
        upsert_to_storage(backend, self.id(), self.clone())?;
        PluginCenter::change_status::<M>(self.id().to_string(), status);
        Ok(())
    }

    pub fn is_queued(&self) -> bool {"""))
r("enqueue-ref", (J, """        self.context.enqueue_at = Some(get_now_as_ms());
        upsert_to_storage(backend, self.id(), self.clone())?;""", """        let now = get_now_as_ms();
        self.context.enqueue_at = Some(now);
        upsert_to_storage(backend, self.id(), &*self)?;"""))
r("execute-id", (J, """        PluginCenter::before::<M>(self.id().to_string()).await;

        // Log Count
        self.context.run_count += 1;
""", """        let id = self.id().to_string();
        PluginCenter::before::<M>(id.clone()).await;

        // Log Count
        self.context.run_count = self.context.run_count + 1;
"""), (J, """        let output = self.data.execute(&self.context).await;
        let output = self.data.post_execute(output, &self.context).await;

        // Hook after
        PluginCenter::after::<M>(self.id().to_string()).await;
""", """        let raw = self.data.execute(&self.context).await;
        let output = self.data.post_execute(raw, &self.context).await;

        // Hook after
        PluginCenter::after::<M>(id).await;
"""))
r("builder-struct", (J, """        let id = Uuid::new_v4().to_string();
        Self {
            context: JobContext::new(id),
            data: job,
        }""", """        let context = JobContext::new(Uuid::new_v4().to_string());
        Job { context, data: job }"""))
r("builder-update", (J, """        self.context.job_id = id;
        self
    }

    pub fn set_context(mut self, context: JobContext) -> Self {
        self.context = context;
        self
    }""", """        self.context.job_id = id;
        self
    }

    pub fn set_context(self, context: JobContext) -> Self {
        Self { context, ..self }
    }"""))
r("builder-delay", (J, """        let schedule_at = get_now() + after;
        self.schedule_at(schedule_at)""", "        self.schedule_at(get_now() + after)"))
r("builder-cron-expect", (J, "let cron = JobType::new_cron(cron_expression, CronContext::default()).unwrap();\n        self.job_type(cron)", "let cron = JobType::new_cron(cron_expression, CronContext::default());\n        self.job_type(cron.expect(\"valid cron expression\"))"))
r("newcron-match", (JC, """        let next_tick = schedule.after(&now).next().unwrap_or(now);
        Ok(Self::Cron(expression.into(), next_tick, 1, context))""", """        let next_tick = match schedule.after(&now).next() {
            Some(tick) => tick,
            None => now,
        };
        Ok(JobType::Cron(expression.to_string(), next_tick, 1, context))"""))
r("ctx-default", (JC, """            job_type: JobType::Normal,
            job_status: JobStatus::Queued,
            retry: None,""", """            job_type: JobType::default(),
            job_status: JobStatus::default(),
            retry: None,"""))
r("retry-map-or", (R, """        if let Some(max_retries) = self.max_retries {
            self.retried_times < max_retries
        } else {
            true
        }""", """        match self.max_retries {
            Some(max_retries) => max_retries > self.retried_times,
            None => true,
        }"""))
r("retry-mapor2", (R, """        if let Some(max_retries) = self.max_retries {
            self.retried_times < max_retries
        } else {
            true
        }""", """        self.max_retries
            .map_or(true, |max_retries| self.retried_times < max_retries)"""))
r("retry-isnone", (R, """        if let Some(max_retries) = self.max_retries {
            self.retried_times < max_retries
        } else {
            true
        }""", """        let Some(max_retries) = self.max_retries else {
            return true;
        };
        self.retried_times < max_retries"""))
r("retryat-helper", (R, """        let delay = match &self.strategy {
            RetryStrategy::Interval(internal_time) => *internal_time,
            RetryStrategy::ExponentialBackoff(initial_backoff) => {
                let factor = 2_i32.saturating_pow(self.retried_times as u32);
                initial_backoff
                    .checked_mul(factor)
                    .unwrap_or(Duration::max_value())
            }
        };
        final_now
            .checked_add_signed(delay)
            .unwrap_or(DateTime::<Utc>::MAX_UTC)
    }""", """        final_now
            .checked_add_signed(self.delay())
            .unwrap_or(DateTime::<Utc>::MAX_UTC)
    }

    fn delay(&self) -> Duration {
        match self.strategy {
            RetryStrategy::Interval(interval) => interval,
            RetryStrategy::ExponentialBackoff(initial) => {
                let factor = 2_i32.saturating_pow(self.retried_times as u32);
                initial
                    .checked_mul(factor)
                    .unwrap_or(Duration::max_value())
            }
        }
    }"""))
r("retryat-match-now", (R, "        let final_now = now.unwrap_or(get_now());", "        let final_now = match now {\n            Some(now) => now,\n            None => get_now(),\n        };"))
r("retryat-orelse", (R, "        let final_now = now.unwrap_or(get_now());", "        let final_now = now.unwrap_or_else(get_now);"))
r("retryat-match-add", (R, """        final_now
            .checked_add_signed(delay)
            .unwrap_or(DateTime::<Utc>::MAX_UTC)""", """        match final_now.checked_add_signed(delay) {
            Some(at) => at,
            None => DateTime::<Utc>::MAX_UTC,
        }"""))
r("exec-default", (E, """        let should_retry = self.is_failed_output(&job_output).await && retry_context.should_retry();

        if should_retry {
            Some(retry_context.retry_at(None))
        } else {
            None
        }""", """        if !self.is_failed_output(&job_output).await {
            return None;
        }
        if !retry_context.should_retry() {
            return None;
        }
        Some(retry_context.retry_at(None))"""))
r("exec-default-then", (E, """        if should_retry {
            Some(retry_context.retry_at(None))
        } else {
            None
        }""", """        should_retry.then(|| retry_context.retry_at(None))"""))
r("mem-push-entry", (M, """        if let Some(queue) = queues.get_mut(queue_name) {
            insert_item_to_queue(queue, item.into(), QueueDirection::Front);
        } else {
            let items = VecDeque::from([item.to_string()]);
            queues.insert(queue_name.to_string(), items);
        }
        Ok(())""", """        queues
            .entry(queue_name.to_string())
            .or_default()
            .push_front(item.to_string());
        Ok(())"""))
r("mem-push-match", (M, """        if let Some(queue) = queues.get_mut(queue_name) {
            insert_item_to_queue(queue, item.into(), QueueDirection::Front);
        } else {
            let items = VecDeque::from([item.to_string()]);
            queues.insert(queue_name.to_string(), items);
        }
        Ok(())""", """        match queues.get_mut(queue_name) {
            Some(queue) => queue.push_front(item.to_string()),
            None => {
                let mut items = VecDeque::new();
                items.push_front(item.to_string());
                queues.insert(queue_name.to_string(), items);
            }
        }
        Ok(())"""))
r("mem-move-break", (M, """                if let Some(item) = item {
                    moving_items.push(item);
                }
""", """                match item {
                    Some(item) => moving_items.push(item),
                    None => break,
                }
"""))
r("mem-move-while", (M, """            for _ in 0..count {
                let item = match from_direction {
                    QueueDirection::Front => from_queue.pop_front(),
                    QueueDirection::Back => from_queue.pop_back(),
                };
                if let Some(item) = item {
                    moving_items.push(item);
                }
            }
""", """            while moving_items.len() < count {
                let item = match from_direction {
                    QueueDirection::Front => from_queue.pop_front(),
                    QueueDirection::Back => from_queue.pop_back(),
                };
                let Some(item) = item else { break };
                moving_items.push(item);
            }
"""))
r("mem-move-helper", (M, """                let item = match from_direction {
                    QueueDirection::Front => from_queue.pop_front(),
                    QueueDirection::Back => from_queue.pop_back(),
                };
                if let Some(item) = item {""", """                if let Some(item) = take_item(from_queue, from_direction) {"""), (M, "impl Backend for InMemory {", """fn take_item(queue: &mut VecDeque<String>, direction: QueueDirection) -> Option<String> {
    match direction {
        QueueDirection::Front => queue.pop_front(),
        QueueDirection::Back => queue.pop_back(),
    }
}

impl Backend for InMemory {"""))
r("mem-move-refiter", (M, "for moving_item in moving_items.iter() {", "for moving_item in &moving_items {"))
r("mem-move-entry", (M, """            if let Some(to_queue) = queues.get_mut(to_queue) {
                insert_item_to_queue(to_queue, moving_item.clone(), to_direction);
            } else {
                let items = VecDeque::from([moving_item.clone()]);
                queues.insert(to_queue.to_string(), items);
            }
""", """            let target = queues.entry(to_queue.to_string()).or_default();
            insert_item_to_queue(target, moving_item.clone(), to_direction);
"""))
r("mem-remove-local", (M, """        if let Some(queue) = self.queues.lock().unwrap().get_mut(queue_name) {
            queue.retain(|inner_item| inner_item.as_str() != item);
        }
""", """        let mut queues = self.queues.lock().unwrap();
        if let Some(queue) = queues.get_mut(queue_name) {
            queue.retain(|inner_item| inner_item != item);
        }
"""))
r("mem-get-iter", (M, """                QueueDirection::Front => {
                    for index in 0..count {
                        if let Some(item) = queue.get(index) {
                            items.push(item.to_string());
                        }
                    }
                }
                QueueDirection::Back => {
                    let mut start_index = 0;
                    if queue.len() > count {
                        start_index = queue.len() - count;
                    }
                    for index in (start_index..queue.len()).rev() {
                        if let Some(item) = queue.get(index) {
                            items.push(item.to_string());
                        }
                    }
                }
""", """                QueueDirection::Front => items.extend(queue.iter().take(count).cloned()),
                QueueDirection::Back => items.extend(queue.iter().rev().take(count).cloned()),
"""))
r("mem-get-min", (M, "                    for index in 0..count {\n                        if let Some(item) = queue.get(index) {", "                    for index in 0..count.min(queue.len()) {\n                        if let Some(item) = queue.get(index) {"))
r("mem-get-satsub", (M, """                    let mut start_index = 0;
                    if queue.len() > count {
                        start_index = queue.len() - count;
                    }
""", "                    let start_index = queue.len().saturating_sub(count);\n"))
r("mem-get-for", (M, """                    for index in 0..count {
                        if let Some(item) = queue.get(index) {
                            items.push(item.to_string());
                        }
                    }
""", """                    for item in queue.iter().take(count) {
                        items.push(item.to_string());
                    }
"""))
r("mem-get-break", (M, """                    for index in 0..count {
                        if let Some(item) = queue.get(index) {
                            items.push(item.to_string());
                        }
                    }
""", """                    for index in 0..count {
                        if index >= queue.len() {
                            break;
                        }
                        items.push(queue[index].clone());
                    }
"""))
r("mem-count-map", (M, """        if let Some(queue) = self.queues.lock().unwrap().get(queue) {
            Ok(queue.len())
        } else {
            Ok(0)
        }""", """        let queues = self.queues.lock().unwrap();
        Ok(queues.get(queue).map_or(0, |queue| queue.len()))"""))
r("mem-count-match", (M, """        if let Some(queue) = self.queues.lock().unwrap().get(queue) {
            Ok(queue.len())
        } else {
            Ok(0)
        }""", """        let queues = self.queues.lock().unwrap();
        let count = match queues.get(queue) {
            Some(queue) => queue.len(),
            None => 0,
        };
        Ok(count)"""))
r("mem-store-entry", (M, """        if let Some(storage) = storages.get_mut(hash) {
            storage.insert(key.to_string(), value);
        } else {
            let mut inner_storage = HashMap::new();
            inner_storage.insert(key.to_string(), value);
            storages.insert(hash.to_string(), inner_storage);
        }
        Ok(())""", """        storages
            .entry(hash.to_string())
            .or_default()
            .insert(key.to_string(), value);
        Ok(())"""))
r("mem-sget-andthen", (M, """        if let Some(storage) = storages.get(hash) {
            Ok(storage.get(key).cloned())
        } else {
            Ok(None)
        }""", """        Ok(storages.get(hash).and_then(|storage| storage.get(key)).cloned())"""))
r("mem-sget-match", (M, """        if let Some(storage) = storages.get(hash) {
            Ok(storage.get(key).cloned())
        } else {
            Ok(None)
        }""", """        let value = match storages.get(hash) {
            Some(storage) => storage.get(key).cloned(),
            None => None,
        };
        Ok(value)"""))
r("plug-match", (PJ, """        if self.job_type_ids.is_empty() {
            return true;
        }

        self.job_type_ids.contains(&job_type_id)""", """        self.job_type_ids.is_empty() || self.job_type_ids.contains(&job_type_id)"""))
r("plug-any", (PJ, """        if self.job_type_ids.is_empty() {
            return true;
        }

        self.job_type_ids.contains(&job_type_id)""", """        if self.job_type_ids.len() == 0 {
            true
        } else {
            self.job_type_ids.iter().any(|id| *id == job_type_id)
        }"""))
r("plug-iter", (P, """            for plugin in plugins {
                if msg.before {
                    plugin.before_run::<M>(&msg.job_id).await;
                } else {
                    plugin.after_run::<M>(&msg.job_id).await;
                }
            }""", """            for plugin in plugins.iter() {
                match msg.before {
                    true => plugin.before_run::<M>(&msg.job_id).await,
                    false => plugin.after_run::<M>(&msg.job_id).await,
                }
            }"""))
r("plug-hoist", (P, """            for plugin in plugins {
                if msg.before {
                    plugin.before_run::<M>(&msg.job_id).await;
                } else {
                    plugin.after_run::<M>(&msg.job_id).await;
                }
            }""", """            if msg.before {
                for plugin in plugins {
                    plugin.before_run::<M>(&msg.job_id).await;
                }
            } else {
                for plugin in plugins {
                    plugin.after_run::<M>(&msg.job_id).await;
                }
            }"""))
r("plug-hook-helper", (P, """        let msg: RunHook<M> = RunHook {
            job_id,
            before: true,
            phantom: PhantomData,
        };
        let _ = Self::from_registry().send(msg).await;
    }
""", """        Self::run_hook::<M>(job_id, true).await;
    }

    async fn run_hook<M>(job_id: String, before: bool)
    where
        M: Executable + Clone + Send + 'static,
    {
        let msg: RunHook<M> = RunHook {
            job_id,
            before,
            phantom: PhantomData,
        };
        let _ = Self::from_registry().send(msg).await;
    }
"""), (P, """        let msg: RunHook<M> = RunHook {
            job_id,
            before: false,
            phantom: PhantomData,
        };
        let _ = Self::from_registry().send(msg).await;
    }
""", """        Self::run_hook::<M>(job_id, false).await;
    }
"""))
r("redis-helper", (RD, """    pub fn lpush(&self, queue_name: &str, item: &str) -> RedisResult<()> {
        let mut conn = self.client.get_connection()?;
        let _: () = conn.lpush(queue_name, item)?;
        Ok(())""", """    pub fn lpush(&self, queue_name: &str, item: &str) -> RedisResult<()> {
        let mut conn = self.client.get_connection()?;
        conn.lpush(queue_name, item)"""))
r("redis-move-break", (RD, """            if let Some(item) = result {
                items.push(item)
            }
""", """            match result {
                Some(item) => items.push(item),
                None => break,
            }
"""))
r("redis-range", (RD, """        let mut conn = self.client.get_connection()?;
        let items = match queue_direction {
            QueueDirection::Front => conn.lrange(queue, 0, count - 1)?,
            QueueDirection::Back => {
                let mut res: Vec<String> = conn.lrange(queue, -count, -1)?;
                res.reverse();
                res
            }
        };
        Ok(items)""", """        let mut conn = self.client.get_connection()?;
        let count = count as isize;
        match queue_direction {
            QueueDirection::Front => conn.lrange(queue, 0, count - 1),
            QueueDirection::Back => {
                let mut res: Vec<String> = conn.lrange(queue, -count, -1)?;
                res.reverse();
                Ok(res)
            }
        }"""))
r("redis-rev", (RD, """                let mut res: Vec<String> = conn.lrange(queue, -count, -1)?;
                res.reverse();
                res""", """                let res: Vec<String> = conn.lrange(queue, -count, -1)?;
                res.into_iter().rev().collect()"""))
r("redis-push-map", (RD, """        self.lpush(queue_name, item)?;
        Ok(())
    }

    fn queue_move""", """        Ok(self.lpush(queue_name, item)?)
    }

    fn queue_move"""))
r("aj-addr-and", (A, """    if let Some(queue_addr) = QUEUE_REGISTRY.registry.get(&type_id) {
        if let Some(addr) = queue_addr.downcast_ref::<Addr<WorkQueue<M>>>() {
            return Some(addr.clone());
        }
    }

    None""", """    match QUEUE_REGISTRY.registry.get(&type_id) {
        Some(queue_addr) => queue_addr.downcast_ref::<Addr<WorkQueue<M>>>().cloned(),
        None => None,
    }"""))
r("aj-addr-q", (A, """    if let Some(queue_addr) = QUEUE_REGISTRY.registry.get(&type_id) {
        if let Some(addr) = queue_addr.downcast_ref::<Addr<WorkQueue<M>>>() {
            return Some(addr.clone());
        }
    }

    None""", """    let queue_addr = QUEUE_REGISTRY.registry.get(&type_id)?;
    let addr = queue_addr.downcast_ref::<Addr<WorkQueue<M>>>()?;
    Some(addr.clone())"""))
r("aj-get-match", (A, """        let addr: Option<Addr<WorkQueue<M>>> = get_work_queue_address();
        if let Some(queue_addr) = addr {
            get_job(queue_addr, job_id).await
        } else {
            None
        }""", """        let queue_addr = get_work_queue_address::<M>()?;
        get_job(queue_addr, job_id).await"""))
r("aj-cancel-okor", (A, """        let addr: Option<Addr<WorkQueue<M>>> = get_work_queue_address();
        if let Some(queue_addr) = addr {
            cancel_job(queue_addr, job_id).await
        } else {
            Err(Error::NoQueueRegister)
        }""", """        let queue_addr = get_work_queue_address::<M>().ok_or(Error::NoQueueRegister)?;
        cancel_job(queue_addr, job_id).await"""))
r("aj-cancel-match", (A, """        let addr: Option<Addr<WorkQueue<M>>> = get_work_queue_address();
        if let Some(queue_addr) = addr {
            cancel_job(queue_addr, job_id).await
        } else {
            Err(Error::NoQueueRegister)
        }""", """        match get_work_queue_address::<M>() {
            Some(queue_addr) => cancel_job(queue_addr, job_id).await,
            None => Err(Error::NoQueueRegister),
        }"""))
r("aj-enq-helper", (A, """        let addr = if let Some(addr) = get_work_queue_address() {
            addr
        } else {
            info!("Not found WorkQueue for {}", stringify!(M));
            let message = InitWorkQueue {
                queue_name: queue_name.into(),
                _type: PhantomData,
            };
            let aj_addr = get_aj_address().expect("AJ is not start, please start it via AJ::start");
            aj_addr.send(message).await?
        };
        enqueue_job(addr, job, config).await
    }""", """        let addr = match get_work_queue_address() {
            Some(addr) => addr,
            None => Self::init_work_queue(queue_name).await?,
        };
        enqueue_job(addr, job, config).await
    }

    async fn init_work_queue<M>(queue_name: &str) -> Result<Addr<WorkQueue<M>>, Error>
    where
        M: Executable + Send + Sync + Clone + Serialize + DeserializeOwned + 'static,
        WorkQueue<M>: Actor<Context = Context<WorkQueue<M>>>,
    {
        info!("Not found WorkQueue for {}", stringify!(M));
        let message = InitWorkQueue {
            queue_name: queue_name.into(),
            _type: PhantomData,
        };
        let aj_addr = get_aj_address().expect("AJ is not start, please start it via AJ::start");
        let addr = aj_addr.send(message).await?;
        Ok(addr)
    }"""))
r("aj-update-match", (A, """        let job = Self::get_job::<M>(job_id).await;
        if let Some(mut job) = job {
            job.data = data;
            if let Some(context) = context {
                job.context = context;
                job.context.job_id = job_id.to_string();
            }
            Self::add_job(job, M::queue_name()).await?;
        } else {
            warn!("Cannot update non existing job {job_id}");
        }

        Ok(())""", """        let Some(mut job) = Self::get_job::<M>(job_id).await else {
            warn!("Cannot update non existing job {job_id}");
            return Ok(());
        };
        job.data = data;
        if let Some(context) = context {
            job = job.set_context(context).set_id(job_id.to_string());
        }
        Self::add_job(job, M::queue_name()).await.map(|_| ())"""))
r("aj-update-struct", (A, """            if let Some(context) = context {
                job.context = context;
                job.context.job_id = job_id.to_string();
            }
""", """            if let Some(context) = context {
                job.context = JobContext {
                    job_id: job_id.to_string(),
                    ..context
                };
            }
"""))
r("aj-start-early", (A, """        let mut running = AJ_ADDR.write().expect("AJ address must be readable!");
        if let Some(aj_addr) = running.clone() {""", """        let mut running = AJ_ADDR.write().unwrap();
        if let Some(aj_addr) = running.as_ref().cloned() {"""))
r("aj-start-fast", (A, """        let mut running = AJ_ADDR.write().expect("AJ address must be readable!");
        if let Some(aj_addr) = running.clone() {""", """        if let Some(aj_addr) = get_aj_address() {
            return aj_addr;
        }
        let mut running = AJ_ADDR.write().expect("AJ address must be readable!");
        if let Some(aj_addr) = running.clone() {"""))
r("aj-register-order", (A, """        registry
            .registry
            .insert(type_id, Box::new(queue_addr.clone()));
        registry
            .registry_by_name
            .insert(queue_name.into(), Box::new(queue_addr.clone()));
""", """        registry
            .registry_by_name
            .insert(queue_name.to_string(), Box::new(queue_addr.clone()));
        registry
            .registry
            .insert(type_id, Box::new(queue_addr.clone()));
"""))
r("aj-init-match", (A, """        if let Some(addr) = get_work_queue_address::<M>() {
            return addr;
        }

        self.register(&msg.queue_name)""", """        match get_work_queue_address::<M>() {
            Some(addr) => addr,
            None => self.register(&msg.queue_name),
        }"""))
r("aj-init-orelse", (A, """        if let Some(addr) = get_work_queue_address::<M>() {
            return addr;
        }

        self.register(&msg.queue_name)""", """        get_work_queue_address::<M>().unwrap_or_else(|| self.register(&msg.queue_name))"""))
r("aj-addjob", (A, """        let job_id = job.id().to_string();
        let config = EnqueueConfig::new_re_run();
        Self::enqueue_job(job, config, queue_name).await?;
        Ok(job_id)""", """        let job_id = job.id().to_string();
        Self::enqueue_job(job, EnqueueConfig::new_re_run(), queue_name)
            .await
            .map(|_| job_id)"""))
