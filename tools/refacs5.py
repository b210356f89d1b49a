r("p5-closure-seen", (Q, COND_, """                    let seen = |id: &str| ready_jobs.iter().any(|ready_job: &Job<M>| ready_job.id() == id);
                    if job.is_ready() && ready_jobs.len() < total && !seen(job.id()) {
"""))
r("p5-enum-decision", (Q, COND_, """                    let full = ready_jobs.len() >= total;
                    let start = match (job.is_ready(), full) {
                        (true, false) => !ready_jobs
                            .iter()
                            .any(|ready_job: &Job<M>| ready_job.id() == job.id()),
                        _ => false,
                    };
                    if start {
"""))
r("p5-done-cond", (Q, """            if ready_jobs.len() >= total {
                break;
            }

            if current_cursor <= 0 {
                break;
            }
""", """            let enough = ready_jobs.len() >= total;
            let walked_all = current_cursor <= 0;
            if enough || walked_all {
                break;
            }
"""))
r("p5-return-loop", (Q, """            if ready_jobs.len() >= total {
                break;
            }

            if current_cursor <= 0 {
                break;
            }
        }

        Ok(ready_jobs)
""", """            if ready_jobs.len() >= total || current_cursor <= 0 {
                return Ok(ready_jobs);
            }
        }
"""))
r("p5-vec-new", (Q, "let mut ready_jobs = vec![];", "let mut ready_jobs: Vec<Job<M>> = Vec::with_capacity(0);"))
r("p5-cursor-i64", (Q, "let mut current_cursor = idle_queue_length as i32;", "let mut current_cursor = idle_queue_length as i64;"), (Q, "current_cursor -= job_ids.len() as i32;", "current_cursor -= job_ids.len() as i64;"))
r("p5-names-fn", (Q, """        let idle_queue_name = self.format_queue_name(JobStatus::Queued);
        let processing_queue_name = self.format_queue_name(JobStatus::Running);

        let idle_queue_length""", """        let (idle_queue_name, processing_queue_name) = (
            self.format_queue_name(JobStatus::Queued),
            self.format_queue_name(JobStatus::Running),
        );

        let idle_queue_length"""))
r("p5-backend-local", (Q, """        debug!("[WorkQueue] Re-run job {}", job.id());

        let current_queue = self.format_queue_name(job.context.job_status);
        self.backend.queue_remove(&current_queue, job.id())?;
        job.enqueue(self.backend.deref())?;
""", """        debug!("[WorkQueue] Re-run job {}", job.id());

        let backend = self.backend.deref();
        backend.queue_remove(&self.format_queue_name(job.context.job_status), job.id())?;
        job.enqueue(backend)?;
"""))
r("p5-reenq-result", (Q, """        self.backend.queue_push(&queued_queue, job.id())
    }

    pub fn mark_job_is_canceled""", """        match self.backend.queue_push(&queued_queue, job.id()) {
            Ok(()) => Ok(()),
            Err(e) => {
                error!("[WorkQueue] Cannot re enqueue {}: {:?}", job.id(), e);
                Err(e)
            }
        }
    }

    pub fn mark_job_is_canceled"""))
r("p5-reenq-maperr", (Q, """        if let Err(e) = self.backend.queue_push(&finished_queue, job.id()) {
            error!("[WorkQueue] Cannot finish {}: {:?}", job.id(), e);
        };
        Ok(())
""", """        let pushed = self.backend.queue_push(&finished_queue, job.id());
        if pushed.is_err() {
            error!("[WorkQueue] Cannot finish {}: {:?}", job.id(), pushed);
        }
        Ok(())
"""))
r("p5-exec-take", (Q, """        if let Some(retry_context) = job.context.retry.as_mut() {
            if let Some(next_retry_ms) = job.data.retry_at(retry_context, job_output).await {
                info!("[WorkQueue] Retry this job. {}", job.id());
                job.context.job_type = JobType::ScheduledAt(next_retry_ms);
                return self.re_enqueue(job);
            }
        }
""", """        let next_retry = match job.context.retry.as_mut() {
            Some(retry_context) => job.data.retry_at(retry_context, job_output).await,
            None => None,
        };
        if let Some(at) = next_retry {
            info!("[WorkQueue] Retry this job. {}", job.id());
            job.context.job_type = JobType::new_schedule(at);
            return self.re_enqueue(job);
        }
"""))
r("p5-exec-retry-builder", (Q, """                job.context.job_type = JobType::ScheduledAt(next_retry_ms);
                return self.re_enqueue(job);
""", """                return self.re_enqueue(job.schedule_at(next_retry_ms));
"""))
r("p5-exec-chain", (Q, """        if let Some(next_job) = job.next_tick() {
            return self.re_enqueue(next_job);
        }

        if is_failed_output {
            self.mark_job_is_failed(job)
        } else {
            self.mark_job_is_finished(job)
        }
""", """        match (job.next_tick(), is_failed_output) {
            (Some(next_job), _) => self.re_enqueue(next_job),
            (None, true) => self.mark_job_is_failed(job),
            (None, false) => self.mark_job_is_finished(job),
        }
"""))
r("p5-cancel-then", (Q, """            if job.is_queued() {
                job.cancel(self.backend.deref())?;
                self.backend
                    .queue_remove(&self.format_queue_name(JobStatus::Queued), job_id)?;
            } else {
                warn!("[WorkQueue] Cannot cancel {:?} job", job.context.job_status);
            }
""", """            if !job.is_queued() {
                warn!("[WorkQueue] Cannot cancel {:?} job", job.context.job_status);
                return Ok(());
            }
            let queued_queue = self.format_queue_name(job.context.job_status);
            job.cancel(self.backend.deref())?;
            self.backend.queue_remove(&queued_queue, job_id)?;
"""))
r("p5-retry-bool", (Q, """        if let Some(job) = job {
            // Only allow retry done job is (cancelled, failed, finished).
            if job.is_done() {
                self.re_enqueue(job)?;
                return Ok(true);
            } else {
                debug!(
                    "[WorkQueue] Cannot retry job {} in status {:?}",
                    job_id, job.context.job_status
                );
                return Ok(false);
            }
        };

        debug!("[WorkQueue] Don't found job {} to retry", job_id);
        Ok(false)
""", """        match job {
            // Only allow retry done job is (cancelled, failed, finished).
            Some(job) if job.is_done() => self.re_enqueue(job).map(|_| true),
            Some(job) => {
                debug!(
                    "[WorkQueue] Cannot retry job {} in status {:?}",
                    job_id, job.context.job_status
                );
                Ok(false)
            }
            None => {
                debug!("[WorkQueue] Don't found job {} to retry", job_id);
                Ok(false)
            }
        }
"""))
r("p5-run-bind", (Q, """                self.re_enqueue(if config.override_data {
                    job
                } else {
                    existing_job
                })?;
            }

            return Ok(());
        }

        self.enqueue(job)
""", """                let to_run = match config.override_data {
                    true => job,
                    false => existing_job,
                };
                return self.re_enqueue(to_run);
            }

            Ok(())
        } else {
            self.enqueue(job)
        }
"""))
r("p5-run-guard", (Q, "        if let Some(existing_job) = existing_job {\n            if config.override_data && !existing_job.is_running() {", "        let EnqueueConfig { re_run, override_data } = config;\n        if let Some(existing_job) = existing_job {\n            let may_override = override_data && !existing_job.is_running();\n            if may_override {"), (Q, "            if config.re_run && existing_job.is_done() {", "            if re_run && existing_job.is_done() {"), (Q, "                self.re_enqueue(if config.override_data {", "                self.re_enqueue(if override_data {"))
r("p5-mark-closure", (Q, """        let cancelled_queue = self.format_queue_name(JobStatus::Canceled);
        if let Err(e) = self.backend.queue_push(&cancelled_queue, job_id) {
            error!("[WorkQueue] Cannot re enqueue {}: {:?}", job_id, e);
        };
""", """        let cancelled_queue = self.format_queue_name(JobStatus::Canceled);
        let push = |queue: &str| self.backend.queue_push(queue, job_id);
        if let Err(e) = push(&cancelled_queue) {
            error!("[WorkQueue] Cannot re enqueue {}: {:?}", job_id, e);
        };
"""))
r("p5-mark-unwrap", (Q, """        if let Err(e) = self.backend.queue_push(&cancelled_queue, job_id) {
            error!("[WorkQueue] Cannot re enqueue {}: {:?}", job_id, e);
        };
""", """        self.backend
            .queue_push(&cancelled_queue, job_id)
            .unwrap_or_else(|e| error!("[WorkQueue] Cannot re enqueue {}: {:?}", job_id, e));
"""))
r("p5-remove-mapelse", (Q, """        if let Err(reason) = self.backend.queue_remove(&processing_queue, job_id) {
            error!(
                "[WorkQueue] Cannot remove job {} in processing queue: {:?}",
                job_id, reason
            );
        };
""", """        let _ = self
            .backend
            .queue_remove(&processing_queue, job_id)
            .map_err(|reason| {
                error!(
                    "[WorkQueue] Cannot remove job {} in processing queue: {:?}",
                    job_id, reason
                )
            });
"""))
r("p5-mem-is-kept", (M, "            queue.retain(|inner_item| inner_item.as_str() != item);", "            let keep = |inner_item: &String| inner_item != item;\n            queue.retain(keep);"))
r("p5-mem-pop-closure", (M, """            for _ in 0..count {
                let item = match from_direction {
                    QueueDirection::Front => from_queue.pop_front(),
                    QueueDirection::Back => from_queue.pop_back(),
                };
                if let Some(item) = item {
                    moving_items.push(item);
                }
            }
""", """            let moved = count.min(from_queue.len());
            for _ in 0..moved {
                moving_items.extend(match from_direction {
                    QueueDirection::Front => from_queue.pop_front(),
                    QueueDirection::Back => from_queue.pop_back(),
                });
            }
"""))
r("p5-mem-or-default", (M, """        for moving_item in moving_items.iter() {
            if let Some(to_queue) = queues.get_mut(to_queue) {
                insert_item_to_queue(to_queue, moving_item.clone(), to_direction);
            } else {
                let items = VecDeque::from([moving_item.clone()]);
                queues.insert(to_queue.to_string(), items);
            }
        }
""", """        if !moving_items.is_empty() {
            let target = queues.entry(to_queue.to_owned()).or_default();
            for moving_item in &moving_items {
                insert_item_to_queue(target, moving_item.clone(), to_direction);
            }
        }
"""))
r("p5-mem-get-chain", (M, """                    for index in 0..count {
                        if let Some(item) = queue.get(index) {
                            items.push(item.to_string());
                        }
                    }
""", """                    for item in queue.iter().take(count) {
                        items.push(item.clone());
                    }
"""))
r("p5-mem-count-unwrap", (M, """        if let Some(queue) = self.queues.lock().unwrap().get(queue) {
            Ok(queue.len())
        } else {
            Ok(0)
        }
""", """        let queues = self.queues.lock().unwrap();
        Ok(queues.get(queue).map_or(0, VecDeque::len))
"""))
r("p5-mem-upsert-get", (M, """        if let Some(storage) = storages.get_mut(hash) {
            storage.insert(key.to_string(), value);
        } else {
            let mut inner_storage = HashMap::new();
            inner_storage.insert(key.to_string(), value);
            storages.insert(hash.to_string(), inner_storage);
        }
        Ok(())
""", """        match storages.get_mut(hash) {
            Some(storage) => {
                storage.insert(key.to_string(), value);
            }
            None => {
                let inner_storage = HashMap::from([(key.to_string(), value)]);
                storages.insert(hash.to_string(), inner_storage);
            }
        }
        Ok(())
"""))
r("p5-retry-shift", (R, "        let final_now = now.unwrap_or(get_now());\n", "        let final_now = match now {\n            Some(now) => now,\n            None => get_now(),\n        };\n"))
r("p5-retry-method", (R, """        let delay = match &self.strategy {
            RetryStrategy::Interval(internal_time) => *internal_time,
            RetryStrategy::ExponentialBackoff(initial_backoff) => {
                let factor = 2_i32.saturating_pow(self.retried_times as u32);
                initial_backoff
                    .checked_mul(factor)
                    .unwrap_or(Duration::max_value())
            }
        };
""", """        let delay = self.strategy.delay(self.retried_times);
"""), (R, "impl Default for Retry {", """impl RetryStrategy {
    fn delay(&self, retried_times: i32) -> Duration {
        match self {
            Self::Interval(internal_time) => *internal_time,
            Self::ExponentialBackoff(initial_backoff) => {
                let factor = 2_i32.saturating_pow(retried_times as u32);
                initial_backoff
                    .checked_mul(factor)
                    .unwrap_or_else(Duration::max_value)
            }
        }
    }
}

impl Default for Retry {"""))
r("p5-ready-closure", (J, """                if now < *next_slot {
                    return false;
                }

                if let Some(max_repeat) = context.max_repeat {
                    if max_repeat < *total_repeat {
                        return false;
                    }
                }

                if let Some(end_at) = context.end_at {
                    if now > end_at {
                        return false;
                    }
                }

                true
""", """                let within_repeats = match context.max_repeat {
                    Some(max_repeat) => *total_repeat <= max_repeat,
                    None => true,
                };
                let before_end = context.end_at.map(|end_at| now <= end_at).unwrap_or(true);
                now >= *next_slot && within_repeats && before_end
"""))
r("p5-ready-isnone-or", (J, """                if let Some(end_at) = context.end_at {
                    if now > end_at {
                        return false;
                    }
                }

                true
""", """                !context.end_at.is_some_and(|end_at| now > end_at)
"""))
r("p5-tick-tuple", (J, "                let schedule = Schedule::from_str(cron_expression);\n                if schedule.is_err() {", "                let parsed = cron_expression.parse::<Schedule>();\n                let schedule = parsed;\n                if schedule.is_err() {"))
r("p5-status-eq", (J, """        self.context.job_status == JobStatus::Finished
            || self.context.job_status == JobStatus::Canceled
            || self.context.job_status == JobStatus::Failed
""", """        match self.context.job_status {
            JobStatus::Queued | JobStatus::Running => false,
            JobStatus::Finished | JobStatus::Failed | JobStatus::Canceled => true,
        }
"""))
r("p5-execute-shadow", (J, """        let output = self.data.execute(&self.context).await;
        let output = self.data.post_execute(output, &self.context).await;
""", """        let raw_output = self.data.execute(&self.context).await;
        let output = self
            .data
            .post_execute(raw_output, &self.context)
            .await;
"""))
r("p5-execute-ctx", (J, "        self.context.run_count += 1;\n\n        self.data.pre_execute(&self.context).await;\n", "        let context = &mut self.context;\n        context.run_count += 1;\n\n        self.data.pre_execute(context).await;\n"))
r("p5-aj-chain", (A, """    if let Some(queue_addr) = QUEUE_REGISTRY.registry.get(&type_id) {
        if let Some(addr) = queue_addr.downcast_ref::<Addr<WorkQueue<M>>>() {
            return Some(addr.clone());
        }
    }

    None
""", """    let queue_addr = QUEUE_REGISTRY.registry.get(&type_id)?;
    queue_addr.downcast_ref::<Addr<WorkQueue<M>>>().cloned()
"""))
r("p5-aj-start-if", (A, """        let addr = match System::try_current() {
            Some(_) => {
                info!("Found Actix Runtime, re-use it!");
                Self::start_in_new_arbiter(backend)
            }
            None => {
""", """        let addr = match System::try_current().is_some() {
            true => {
                info!("Found Actix Runtime, re-use it!");
                Self::start_in_new_arbiter(backend)
            }
            false => {
"""))
r("p5-aj-enq-match", (A, """        let addr = if let Some(addr) = get_work_queue_address() {
            addr
        } else {
            info!("Not found WorkQueue for {}", stringify!(M));
""", """        let known: Option<Addr<WorkQueue<M>>> = get_work_queue_address();
        let addr = if known.is_some() {
            known.unwrap()
        } else {
            info!("Not found WorkQueue for {}", stringify!(M));
"""))
r("p5-aj-update-guard", (A, """        let job = Self::get_job::<M>(job_id).await;
        if let Some(mut job) = job {
            job.data = data;
            if let Some(context) = context {
                job.context = context;
                job.context.job_id = job_id.to_string();
            }
            Self::add_job(job, M::queue_name()).await?;
        } else {
            warn!("Cannot update non existing job {job_id}");
        }

        Ok(())
""", """        let Some(existing) = Self::get_job::<M>(job_id).await else {
            warn!("Cannot update non existing job {job_id}");
            return Ok(());
        };
        let new_context = JobContext {
            job_id: job_id.to_string(),
            ..context.unwrap_or_else(|| existing.context.clone())
        };
        let updated = Job { context: new_context, data };
        Self::add_job(updated, M::queue_name()).await.map(|_| ())
"""))

PL_ = """                let job = get_from_storage::<Job<M>>(self.backend.deref(), &job_id).unwrap_or(None);
"""
r("p5-pick-ok-flatten", (Q, PL_, PL_.replace(".unwrap_or(None)", ".ok().flatten()")))
r("p5-pick-default", (Q, PL_, PL_.replace(".unwrap_or(None)", ".unwrap_or_default()")))
r("p5-pick-oksome", (Q, PL_ + "                if let Some(mut job) = job {", "                if let Ok(Some(mut job)) = get_from_storage::<Job<M>>(self.backend.deref(), &job_id) {"))
r("p5-pick-match", (Q, PL_, """                let job = match get_from_storage::<Job<M>>(self.backend.deref(), &job_id) {
                    Ok(job) => job,
                    Err(e) => {
                        warn!("Cannot read {job_id}: {e:?}");
                        None
                    }
                };
"""))
r("p5-pick-read-flatten", (Q, PL_, "                let job = self.read_job(&job_id).unwrap_or_else(|_| None);\n"))
r("p5-get-map", (T, """    let value = backend.storage_get(STORAGE_HASH, key)?;
    let item = match value {
        Some(value) => serde_json::from_str(&value).ok(),
        _ => None,
    };
    Ok(item)
""", """    backend
        .storage_get(STORAGE_HASH, key)
        .map(|value| value.and_then(|value| serde_json::from_str(&value).ok()))
"""))
r("p5-get-match", (T, """    let value = backend.storage_get(STORAGE_HASH, key)?;
    let item = match value {
        Some(value) => serde_json::from_str(&value).ok(),
        _ => None,
    };
    Ok(item)
""", """    match backend.storage_get(STORAGE_HASH, key) {
        Ok(Some(value)) => Ok(serde_json::from_str(&value).ok()),
        Ok(None) => Ok(None),
        Err(e) => Err(e),
    }
"""))
r("p5-reenq-q", (Q, "        self.backend.queue_push(&queued_queue, job.id())\n    }\n\n    pub fn mark_job_is_canceled", "        self.backend.queue_push(&queued_queue, job.id())?;\n        Ok(())\n    }\n\n    pub fn mark_job_is_canceled"))
r("p5-reenq-let", (Q, "        self.backend.queue_push(&queued_queue, job.id())\n    }\n\n    pub fn mark_job_is_canceled", "        let pushed = self.backend.queue_push(&queued_queue, job.id());\n        if pushed.is_err() {\n            error!(\"[WorkQueue] Cannot re enqueue {}\", job.id());\n        }\n        pushed\n    }\n\n    pub fn mark_job_is_canceled"))
