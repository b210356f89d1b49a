MOVE_IDLE_ = """                // Job is not ready to process, move it back to front of queue
                self.backend.queue_move(
                    &idle_queue_name,
                    &idle_queue_name,
                    1,
                    QueueDirection::Back,
                    QueueDirection::Front,
                )?;
"""
COND_ = """                    if job.is_ready()
                        && ready_jobs.len() < total
                        && !ready_jobs
                            .iter()
                            .any(|ready_job: &Job<M>| ready_job.id() == job.id())
                    {
"""
r("p4-startable", (Q, COND_, """                    if Self::startable(&ready_jobs, &job, total) {
"""), (Q, "    pub fn execute_job_task(", """    fn startable(ready_jobs: &[Job<M>], job: &Job<M>, total: usize) -> bool {
        job.is_ready()
            && ready_jobs.len() < total
            && !ready_jobs.iter().any(|ready_job| ready_job.id() == job.id())
    }

    pub fn execute_job_task("""))
r("p4-iter-ids", (Q, "            for job_id in job_ids {\n                // A job that cannot be read stays in the queue for a later tick\n                let job = get_from_storage::<Job<M>>(self.backend.deref(), &job_id).unwrap_or(None);", "            for job_id in job_ids.iter() {\n                let job = get_from_storage::<Job<M>>(self.backend.deref(), job_id).unwrap_or(None);"))
r("p4-ref-ids", (Q, "            for job_id in job_ids {\n                // A job that cannot be read stays in the queue for a later tick\n                let job = get_from_storage::<Job<M>>(self.backend.deref(), &job_id).unwrap_or(None);", "            for job_id in &job_ids {\n                let job = get_from_storage::<Job<M>>(self.backend.deref(), job_id.as_str()).unwrap_or(None);"))
r("p4-already", (Q, COND_, """                    let already_picked = ready_jobs
                        .iter()
                        .any(|ready_job: &Job<M>| ready_job.id() == job.id());
                    let has_room = ready_jobs.len() < total;
                    if has_room && !already_picked && job.is_ready() {
"""))
r("p4-all", (Q, COND_, """                    if job.is_ready()
                        && ready_jobs.len() < total
                        && ready_jobs
                            .iter()
                            .all(|ready_job: &Job<M>| ready_job.id() != job.id())
                    {
"""))
r("p4-read-job", (Q, "                let job = get_from_storage::<Job<M>>(self.backend.deref(), &job_id).unwrap_or(None);\n                if let Some(mut job) = job {", "                if let Some(mut job) = self.read_job(&job_id).unwrap_or(None) {"))
r("p4-rotate", (Q, MOVE_IDLE_, "                self.rotate(&idle_queue_name)?;\n"), (Q, "    pub fn execute_job_task(", """    /// Job is not ready to process, move it back to front of queue
    fn rotate(&self, queue: &str) -> Result<(), Error> {
        self.backend.queue_move(queue, queue, 1, QueueDirection::Back, QueueDirection::Front)?;
        Ok(())
    }

    pub fn execute_job_task("""))
r("p4-start-job", (Q, """                        job.process(self.backend.deref())?;
                        ready_jobs.push(job);
                        self.backend.queue_move(
                            &idle_queue_name,
                            &processing_queue_name,
                            1,
                            QueueDirection::Back,
                            QueueDirection::Front,
                        )?;
                        continue;
""", """                        ready_jobs.push(self.start_job(job, &idle_queue_name)?);
                        continue;
"""), (Q, "                if let Some(mut job) = job {\n                    if job.is_ready()", "                if let Some(job) = job {\n                    if job.is_ready()"),
  (Q, "        let processing_queue_name = self.format_queue_name(JobStatus::Running);\n\n        let idle_queue_length", "\n        let idle_queue_length"),
  (Q, "    pub fn execute_job_task(", """    fn start_job(&self, mut job: Job<M>, idle_queue: &str) -> Result<Job<M>, Error> {
        job.process(self.backend.deref())?;
        let running = self.format_queue_name(JobStatus::Running);
        self.backend.queue_move(idle_queue, &running, 1, QueueDirection::Back, QueueDirection::Front)?;
        Ok(job)
    }

    pub fn execute_job_task("""))
r("p4-left", (Q, "        let mut current_cursor = idle_queue_length as i32;\n", "        let mut left = idle_queue_length;\n"), (Q, "            current_cursor -= job_ids.len() as i32;\n", "            left = left.saturating_sub(job_ids.len());\n"), (Q, "            if current_cursor <= 0 {\n                break;", "            if left == 0 {\n                break;"))
r("p4-seen", (Q, "        let mut current_cursor = idle_queue_length as i32;\n", "        let mut visited = 0;\n"), (Q, "            current_cursor -= job_ids.len() as i32;\n", "            visited += job_ids.len();\n"), (Q, "            if current_cursor <= 0 {\n                break;", "            if visited >= idle_queue_length {\n                break;"))
r("p4-capacity", (Q, "        let mut ready_jobs = vec![];", "        let mut ready_jobs = Vec::with_capacity(total.min(idle_queue_length));"))
r("p4-done-helper", (Q, """        info!("Failed job {}", job.id());
        job.fail(self.backend.deref())?;
        self.push_failed_job(job.id());
        Ok(())""", """        info!("Failed job {}", job.id());
        job.fail(self.backend.deref())?;
        self.leave_running(job.id(), JobStatus::Failed);
        Ok(())"""), (Q, "    pub fn push_failed_job(&self, job_id: &str) {", """    fn leave_running(&self, job_id: &str, status: JobStatus) {
        self.remove_processing_job(job_id);
        let queue = self.format_queue_name(status);
        if let Err(e) = self.backend.queue_push(&queue, job_id) {
            error!("[WorkQueue] Cannot move {} to {}: {:?}", job_id, queue, e);
        }
    }

    pub fn push_failed_job(&self, job_id: &str) {"""))
r("p4-exec-step", (Q, """        let job_output = job.execute().await;
        let is_failed_output = job.data.is_failed_output(&job_output).await;
""", """        let (job_output, is_failed_output) = Self::run_once(&mut job).await;
"""), (Q, "    pub fn cancel_job(&self, job_id: &str) -> Result<(), Error> {", """    async fn run_once(job: &mut Job<M>) -> (<M as Executable>::Output, bool) {
        let output = job.execute().await;
        let failed = job.data.is_failed_output(&output).await;
        (output, failed)
    }

    pub fn cancel_job(&self, job_id: &str) -> Result<(), Error> {"""))
r("p4-cancel-else", (Q, """        if let Some(mut job) = get_from_storage::<Job<M>>(self.backend.deref(), job_id)? {
            // Only cancel queued job
            if job.is_queued() {
                job.cancel(self.backend.deref())?;
                self.backend
                    .queue_remove(&self.format_queue_name(JobStatus::Queued), job_id)?;
            } else {
                warn!("[WorkQueue] Cannot cancel {:?} job", job.context.job_status);
            }
        }

        Ok(())""", """        let Some(mut job) = get_from_storage::<Job<M>>(self.backend.deref(), job_id)? else {
            return Ok(());
        };
        // Only cancel queued job
        if !job.is_queued() {
            warn!("[WorkQueue] Cannot cancel {:?} job", job.context.job_status);
            return Ok(());
        }
        job.cancel(self.backend.deref())?;
        let queued_queue = self.format_queue_name(JobStatus::Queued);
        self.backend.queue_remove(&queued_queue, job_id)"""))
RJ_ = """        let job = get_from_storage::<Job<M>>(self.backend.deref(), job_id).unwrap_or(None);

        if let Some(job) = job {
            // Only allow retry done job is (cancelled, failed, finished).
            if job.is_done() {
                self.re_enqueue(job)?;
                return Ok(true);
            } else {
                debug!(
                    "[WorkQueue] Cannot retry job {} in status {:?}",
                    job_id, job.context.job_status
                );
                return Ok(false);
            }
        };

        debug!("[WorkQueue] Don't found job {} to retry", job_id);
        Ok(false)"""
r("p4-retry-else", (Q, RJ_, """        let Some(job) = self.read_job(job_id)? else {
            debug!("[WorkQueue] Don't found job {} to retry", job_id);
            return Ok(false);
        };
        // Only allow retry done job is (cancelled, failed, finished).
        if !job.is_done() {
            debug!("[WorkQueue] Cannot retry job {} in status {:?}", job_id, job.context.job_status);
            return Ok(false);
        }
        self.re_enqueue(job)?;
        Ok(true)"""))
r("p4-retry-filter", (Q, RJ_, """        let job = get_from_storage::<Job<M>>(self.backend.deref(), job_id).unwrap_or(None);
        match job.filter(|job| job.is_done()) {
            Some(job) => self.re_enqueue(job).map(|_| true),
            None => Ok(false),
        }"""))
r("p4-retry-result", (Q, RJ_, """        let mut retried = false;
        if let Some(job) = get_from_storage::<Job<M>>(self.backend.deref(), job_id)? {
            if job.is_done() {
                self.re_enqueue(job)?;
                retried = true;
            }
        }
        Ok(retried)"""))
r("p4-new-into", (Q, "            name: Arc::new(job_name),", "            name: job_name.into(),"))
r("p4-handle-destruct", (Q, "        self.run_with_config(msg.0, msg.1)", "        let Enqueue(job, config) = msg;\n        self.run_with_config(job, config)"))
r("p4-getjob-match", (Q, "        self.get_job(&msg.job_id).ok().flatten()", "        match self.get_job(&msg.job_id) {\n            Ok(job) => job,\n            Err(_) => None,\n        }"))
r("p4-getjob-unwrap", (Q, "        self.get_job(&msg.job_id).ok().flatten()", "        self.get_job(&msg.job_id).unwrap_or_default()"))
r("p4-run-status", (Q, """            if config.override_data && !existing_job.is_running() {""", """            let may_replace = config.override_data && !existing_job.is_running();
            if may_replace {"""))
r("p4-run-branches", (Q, """                self.re_enqueue(if config.override_data {
                    job
                } else {
                    existing_job
                })?;""", """                if config.override_data {
                    self.re_enqueue(job)?;
                } else {
                    self.re_enqueue(existing_job)?;
                }"""))
r("p4-config-const", (Q, "        Self::new(true, true)", "        Self {\n            re_run: true,\n            override_data: true,\n        }"))
r("p4-ready-someand", (J, """                if let Some(max_repeat) = context.max_repeat {
                    if max_repeat < *total_repeat {
                        return false;
                    }
                }

                if let Some(end_at) = context.end_at {
                    if now > end_at {
                        return false;
                    }
                }

                true""", """                let exhausted = context.max_repeat.is_some_and(|max| max < *total_repeat);
                let ended = context.end_at.is_some_and(|end_at| now > end_at);
                !exhausted && !ended"""))
r("p4-ready-matches", (J, """                if let Some(end_at) = context.end_at {
                    if now > end_at {
                        return false;
                    }
                }

                true""", """                !matches!(context.end_at, Some(end_at) if now > end_at)"""))
r("p4-ready-explicit", (J, """            _ => true,
        }
    }

    pub(crate) fn next_tick""", """            JobType::Normal => true,
        }
    }

    pub(crate) fn next_tick"""))
r("p4-tick-last", (J, """                if let Some(max_repeat) = context.max_repeat {
                    if max_repeat <= *total_repeat {
                        return None;
                    }
                }

                if let Some(end_at) = context.end_at {
                    if end_at < upcoming_event {
                        return None;
                    }
                }
""", """                let is_last = context.max_repeat.is_some_and(|max| max <= *total_repeat)
                    || context.end_at.is_some_and(|end_at| end_at < upcoming_event);
                if is_last {
                    return None;
                }
"""))
r("p4-tick-setid", (J, """                job.context.job_type = JobType::Cron(
                    cron_expression.clone(),
                    upcoming_event,
                    *total_repeat + 1,
                    context.clone(),
                );
                Some(job)""", """                let job_type = JobType::Cron(
                    cron_expression.clone(),
                    upcoming_event,
                    total_repeat + 1,
                    context.clone(),
                );
                Some(job.set_job_type(job_type))"""), (J, "                let mut job = self.clone();\n                let schedule", "                let job = self.clone();\n                let schedule"))
r("p4-new-inline", (J, """        let id = Uuid::new_v4().to_string();
        Self {
            context: JobContext::new(id),
            data: job,
        }""", """        let context = JobContext::new(Uuid::new_v4().to_string());
        Job { context, data: job }"""))
r("p4-setid-update", (J, """        self.context.job_id = id;
        self""", """        self.context = JobContext {
            job_id: id,
            ..self.context
        };
        self"""))
r("p4-status-array", (J, """        self.context.job_status == JobStatus::Queued
    }""", """        matches!(self.context.job_status, JobStatus::Queued)
    }"""))
r("p4-enqueue-chain", (J, """        self.context.enqueue_at = Some(get_now_as_ms());
        upsert_to_storage(backend, self.id(), self.clone())?;
        PluginCenter::change_status::<M>(self.id().to_string(), self.context.job_status);
        Ok(())""", """        self.context.enqueue_at = Some(get_now_as_ms());
        upsert_to_storage(backend, self.id(), &*self).map(|_| {
            PluginCenter::change_status::<M>(self.id().to_string(), self.context.job_status)
        })"""))
r("p4-times", (J, """        self.context.job_status = JobStatus::Finished;
        self.context.complete_at = Some(get_now_as_ms());""", """        let now = get_now_as_ms();
        self.context.complete_at = Some(now);
        self.context.job_status = JobStatus::Finished;"""))
r("p4-should-not", (R, """        if let Some(max_retries) = self.max_retries {
            self.retried_times < max_retries
        } else {
            true
        }""", """        !self.max_retries.is_some_and(|max| self.retried_times >= max)"""))
r("p4-should-match", (R, """        if let Some(max_retries) = self.max_retries {
            self.retried_times < max_retries
        } else {
            true
        }""", """        match self.max_retries {
            None => true,
            Some(max) if self.retried_times < max => true,
            Some(_) => false,
        }"""))
r("p4-checked-pow", (R, "2_i32.saturating_pow(self.retried_times as u32)", "2_i32\n                    .checked_pow(self.retried_times as u32)\n                    .unwrap_or(i32::MAX)"))
r("p4-backoff-fn", (R, """                let factor = 2_i32.saturating_pow(self.retried_times as u32);
                initial_backoff
                    .checked_mul(factor)
                    .unwrap_or(Duration::max_value())""", """                Self::backoff(initial_backoff, self.retried_times)"""), (R, "    pub fn retry_at(", """    fn backoff(initial: &Duration, attempt: i32) -> Duration {
        let factor = 2_i32.saturating_pow(attempt as u32);
        match initial.checked_mul(factor) {
            Some(delay) => delay,
            None => Duration::max_value(),
        }
    }

    pub fn retry_at("""))
r("p4-exec-early", (E, """        let should_retry = self.is_failed_output(&job_output).await && retry_context.should_retry();

        if should_retry {
            Some(retry_context.retry_at(None))
        } else {
            None
        }""", """        if !self.is_failed_output(&job_output).await {
            return None;
        }
        if !retry_context.should_retry() {
            return None;
        }
        Some(retry_context.retry_at(None))"""))
r("p4-mem-remove-pos", (M, """            queue.retain(|inner_item| inner_item.as_str() != item);""", """            while let Some(position) = queue.iter().position(|inner_item| inner_item.as_str() == item) {
                queue.remove(position);
            }"""))
r("p4-mem-remove-rebuild", (M, """            queue.retain(|inner_item| inner_item.as_str() != item);""", """            let kept: VecDeque<String> = queue
                .iter()
                .filter(|inner_item| inner_item.as_str() != item)
                .cloned()
                .collect();
            *queue = kept;"""))
r("p4-mem-get-rev", (M, """                    let mut start_index = 0;
                    if queue.len() > count {
                        start_index = queue.len() - count;
                    }
                    for index in (start_index..queue.len()).rev() {
                        if let Some(item) = queue.get(index) {
                            items.push(item.to_string());
                        }
                    }""", """                    for item in queue.iter().rev().take(count) {
                        items.push(item.to_string());
                    }"""))
r("p4-mem-get-take", (M, """                    for index in 0..count {
                        if let Some(item) = queue.get(index) {
                            items.push(item.to_string());
                        }
                    }""", """                    items.extend(queue.iter().take(count).cloned());"""))
r("p4-mem-sized", (M, "        let mut moving_items = vec![];\n", "        let mut moving_items = Vec::new();\n"), (M, "        for moving_item in moving_items.iter() {", "        for moving_item in &moving_items {"))
r("p4-mem-ismt", (M, """        if let Some(queue) = self.queues.lock().unwrap().get(queue) {
            Ok(queue.len())
        } else {
            Ok(0)
        }""", """        let queues = self.queues.lock().unwrap();
        let count = queues.get(queue).map_or(0, |queue| queue.len());
        Ok(count)"""))
r("p4-plug-msg", (P, """        let plugins = self.plugins.clone();
        Box::pin(async move {
            for plugin in plugins {
                plugin.change_status::<M>(&msg.job_id, msg.status).await;
            }
        })""", """        let plugins = self.plugins.clone();
        let ChangeStatus { job_id, status, .. } = msg;
        Box::pin(async move {
            for plugin in plugins.iter() {
                plugin.change_status::<M>(&job_id, status).await;
            }
        })"""))
r("p4-aj-andthen", (A, """    let type_id = TypeId::of::<M>();
    if let Some(queue_addr) = QUEUE_REGISTRY.registry.get(&type_id) {
        if let Some(addr) = queue_addr.downcast_ref::<Addr<WorkQueue<M>>>() {
            return Some(addr.clone());
        }
    }

    None""", """    let queue_addr = QUEUE_REGISTRY.registry.get(&TypeId::of::<M>())?;
    queue_addr.downcast_ref::<Addr<WorkQueue<M>>>().cloned()"""))
r("p4-aj-update-struct", (A, """                job.context = context;
                job.context.job_id = job_id.to_string();""", """                job.context = JobContext {
                    job_id: job_id.to_string(),
                    ..context
                };"""))
r("p4-aj-update-map", (A, """        let job = Self::get_job::<M>(job_id).await;
        if let Some(mut job) = job {
            job.data = data;
            if let Some(context) = context {
                job.context = context;
                job.context.job_id = job_id.to_string();
            }
            Self::add_job(job, M::queue_name()).await?;
        } else {
            warn!("Cannot update non existing job {job_id}");
        }

        Ok(())""", """        match Self::get_job::<M>(job_id).await {
            None => {
                warn!("Cannot update non existing job {job_id}");
                Ok(())
            }
            Some(mut job) => {
                job.data = data;
                if let Some(mut context) = context {
                    context.job_id = job_id.into();
                    job.context = context;
                }
                Self::add_job(job, M::queue_name()).await.map(|_| ())
            }
        }"""))
r("p4-aj-getorinsert", (A, """        if let Some(aj_addr) = running.clone() {
            warn!("AJ is running. Return current AJ");
            return aj_addr;
        }

        let addr = match""", """        if running.is_some() {
            warn!("AJ is running. Return current AJ");
            return running.clone().unwrap();
        }

        let addr = match"""))
r("p4-aj-insert", (A, """        *running = Some(addr.clone());

        addr""", """        running.replace(addr.clone());
        addr"""))
r("p4-lib-else", (L, """        if let Some(aj_addr) = get_aj_address() {
            aj_addr.do_send(JustRunJob {
                job: self,
                queue_name: M::queue_name().to_string(),
            });
        }""", """        let Some(aj_addr) = get_aj_address() else {
            return;
        };
        let queue_name = M::queue_name().to_string();
        aj_addr.do_send(JustRunJob { job: self, queue_name });"""))
r("p4-redis-tuple", (RD, """        let items = match queue_direction {
            QueueDirection::Front => conn.lrange(queue, 0, count - 1)?,
            QueueDirection::Back => {
                let mut res: Vec<String> = conn.lrange(queue, -count, -1)?;
                res.reverse();
                res
            }
        };
        Ok(items)""", """        let (start, stop) = match queue_direction {
            QueueDirection::Front => (0, count - 1),
            QueueDirection::Back => (-count, -1),
        };
        let mut items: Vec<String> = conn.lrange(queue, start, stop)?;
        if matches!(queue_direction, QueueDirection::Back) {
            items.reverse();
        }
        Ok(items)"""))
r("p4-redis-conn", (RD, """        let mut conn = self.client.get_connection()?;
        conn.llen(queue)""", """        self.client.get_connection()?.llen(queue)"""))
