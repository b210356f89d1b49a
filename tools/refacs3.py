# backends
LOCK = "self.queues.lock().unwrap()"
r("p3-mem-lock", (M, "    fn queue_push(&self, queue_name: &str, item: &str) -> Result<(), Error> {\n        let mut queues = self.queues.lock().unwrap();", "    fn queue_push(&self, queue_name: &str, item: &str) -> Result<(), Error> {\n        let mut queues = self.lock_queues();"), (M, "        let mut queues = self.queues.lock().unwrap();\n        let mut moving_items", "        let mut queues = self.lock_queues();\n        let mut moving_items"), (M, "impl Backend for InMemory {", "impl InMemory {\n    fn lock_queues(&self) -> MutexGuard<'_, HashMap<String, VecDeque<String>>> {\n        self.queues.lock().unwrap()\n    }\n}\n\nimpl Backend for InMemory {"), (M, "use std::sync::{Arc, Mutex};", "use std::sync::{Arc, Mutex, MutexGuard};"))
r("p3-mem-lock-all", (M, "    fn queue_push(&self, queue_name: &str, item: &str) -> Result<(), Error> {\n        let mut queues = self.queues.lock().unwrap();", "    fn queue_push(&self, queue_name: &str, item: &str) -> Result<(), Error> {\n        let mut queues = self.lock_queues();"), (M, "        let mut queues = self.queues.lock().unwrap();\n        let mut moving_items", "        let mut queues = self.lock_queues();\n        let mut moving_items"), (M, "if let Some(queue) = self.queues.lock().unwrap().get_mut(queue_name)", "if let Some(queue) = self.lock_queues().get_mut(queue_name)"), (M, "        let mut items = vec![];\n        if let Some(queue) = self.queues.lock().unwrap().get(queue) {", "        let mut items = vec![];\n        if let Some(queue) = self.lock_queues().get(queue) {"), (M, "        if let Some(queue) = self.queues.lock().unwrap().get(queue) {\n            Ok(queue.len())", "        if let Some(queue) = self.lock_queues().get(queue) {\n            Ok(queue.len())"), (M, "        let mut storages = self.storages.lock().unwrap();", "        let mut storages = self.lock_storages();"), (M, "        let storages = self.storages.lock().unwrap();", "        let storages = self.lock_storages();"), (M, "impl Backend for InMemory {", "impl InMemory {\n    fn lock_queues(&self) -> std::sync::MutexGuard<'_, HashMap<String, VecDeque<String>>> {\n        self.queues.lock().unwrap()\n    }\n\n    fn lock_storages(&self) -> std::sync::MutexGuard<'_, HashMap<String, HashMap<String, String>>> {\n        self.storages.lock().expect(\"storages poisoned\")\n    }\n}\n\nimpl Backend for InMemory {"))
POP = """                let item = match from_direction {
                    QueueDirection::Front => from_queue.pop_front(),
                    QueueDirection::Back => from_queue.pop_back(),
                };
                if let Some(item) = item {
                    moving_items.push(item);
                }
"""
INS = "fn insert_item_to_queue("
r("p3-mem-pop", (M, POP, """                if let Some(item) = pop_item_from_queue(from_queue, from_direction) {
                    moving_items.push(item);
                }
"""), (M, INS, """fn pop_item_from_queue(queue: &mut VecDeque<String>, direction: QueueDirection) -> Option<String> {
    match direction {
        QueueDirection::Front => queue.pop_front(),
        QueueDirection::Back => queue.pop_back(),
    }
}

""" + INS))
r("p3-mem-pop-letelse", (M, POP, """                let popped = match from_direction {
                    QueueDirection::Front => from_queue.pop_front(),
                    QueueDirection::Back => from_queue.pop_back(),
                };
                let Some(item) = popped else { break };
                moving_items.push(item);
"""))
r("p3-mem-min", (M, "            for _ in 0..count {\n", "            let available = count.min(from_queue.len());\n            for _ in 0..available {\n"))
r("p3-mem-whilelen", (M, "            for _ in 0..count {\n" + POP + "            }\n", """            while moving_items.len() < count {
                let item = match from_direction {
                    QueueDirection::Front => from_queue.pop_front(),
                    QueueDirection::Back => from_queue.pop_back(),
                };
                match item {
                    Some(item) => moving_items.push(item),
                    None => break,
                }
            }
"""))
r("p3-mem-remaining", (M, "            for _ in 0..count {\n" + POP + "            }\n", """            let mut remaining = count;
            while remaining > 0 {
                let item = match from_direction {
                    QueueDirection::Front => from_queue.pop_front(),
                    QueueDirection::Back => from_queue.pop_back(),
                };
                if let Some(item) = item {
                    moving_items.push(item);
                }
                remaining -= 1;
            }
"""))
TO = """            if let Some(to_queue) = queues.get_mut(to_queue) {
                insert_item_to_queue(to_queue, moving_item.clone(), to_direction);
            } else {
                let items = VecDeque::from([moving_item.clone()]);
                queues.insert(to_queue.to_string(), items);
            }
"""
r("p3-mem-target-entry", (M, "        for moving_item in moving_items.iter() {\n" + TO + "        }\n", """        if !moving_items.is_empty() {
            let target = queues.entry(to_queue.to_string()).or_default();
            for moving_item in &moving_items {
                insert_item_to_queue(target, moving_item.clone(), to_direction);
            }
        }
"""))
r("p3-mem-push-helper", (M, TO, "            push_item(&mut queues, to_queue, moving_item.clone(), to_direction);\n"), (M, """        if let Some(queue) = queues.get_mut(queue_name) {
            insert_item_to_queue(queue, item.into(), QueueDirection::Front);
        } else {
            let items = VecDeque::from([item.to_string()]);
            queues.insert(queue_name.to_string(), items);
        }
""", "        push_item(&mut queues, queue_name, item.to_string(), QueueDirection::Front);\n"), (M, INS, """fn push_item(
    queues: &mut HashMap<String, VecDeque<String>>,
    queue_name: &str,
    item: String,
    direction: QueueDirection,
) {
    let queue = queues.entry(queue_name.to_string()).or_default();
    insert_item_to_queue(queue, item, direction);
}

""" + INS))
GET = """            match direction {
                QueueDirection::Front => {
                    for index in 0..count {
                        if let Some(item) = queue.get(index) {
                            items.push(item.to_string());
                        }
                    }
                }
                QueueDirection::Back => {
                    let mut start_index = 0;
                    if queue.len() > count {
                        start_index = queue.len() - count;
                    }
                    for index in (start_index..queue.len()).rev() {
                        if let Some(item) = queue.get(index) {
                            items.push(item.to_string());
                        }
                    }
                }
            }
"""
r("p3-mem-get-collect", (M, "        let mut items = vec![];\n        if let Some(queue) = self.queues.lock().unwrap().get(queue) {\n" + GET + "        }\n\n        Ok(items)\n", """        let queues = self.queues.lock().unwrap();
        let Some(queue) = queues.get(queue) else {
            return Ok(vec![]);
        };
        let items = match direction {
            QueueDirection::Front => queue.iter().take(count).cloned().collect(),
            QueueDirection::Back => queue.iter().rev().take(count).cloned().collect(),
        };
        Ok(items)
"""))
r("p3-mem-get-collect-items", (M, GET, """            items = match direction {
                QueueDirection::Front => queue.iter().take(count).cloned().collect(),
                QueueDirection::Back => queue.iter().rev().take(count).cloned().collect(),
            };
"""))
r("p3-mem-get-map", (M, "        let mut items = vec![];\n        if let Some(queue) = self.queues.lock().unwrap().get(queue) {\n" + GET + "        }\n\n        Ok(items)\n", """        let queues = self.queues.lock().unwrap();
        let items = queues
            .get(queue)
            .map(|queue| match direction {
                QueueDirection::Front => queue.iter().take(count).cloned().collect(),
                QueueDirection::Back => queue.iter().rev().take(count).cloned().collect(),
            })
            .unwrap_or_default();
        Ok(items)
"""))
r("p3-mem-get-extend", (M, GET, """            match direction {
                QueueDirection::Front => items.extend(queue.iter().take(count).cloned()),
                QueueDirection::Back => items.extend(queue.iter().rev().take(count).cloned()),
            }
"""))
r("p3-mem-get-foriter", (M, GET, """            match direction {
                QueueDirection::Front => {
                    for item in queue.iter().take(count) {
                        items.push(item.clone());
                    }
                }
                QueueDirection::Back => {
                    for item in queue.iter().rev().take(count) {
                        items.push(item.clone());
                    }
                }
            }
"""))
r("p3-mem-get-one", (M, GET, """            let total = queue.len().min(count);
            for offset in 0..total {
                let index = match direction {
                    QueueDirection::Front => offset,
                    QueueDirection::Back => queue.len() - 1 - offset,
                };
                items.push(queue[index].clone());
            }
"""))
r("p3-mem-get-map-index", (M, GET, """            match direction {
                QueueDirection::Front => {
                    items = (0..count.min(queue.len())).map(|index| queue[index].clone()).collect();
                }
                QueueDirection::Back => {
                    let start_index = queue.len().saturating_sub(count);
                    items = (start_index..queue.len()).rev().map(|index| queue[index].clone()).collect();
                }
            }
"""))
r("p3-mem-remove-iter", (M, "            queue.retain(|inner_item| inner_item.as_str() != item);", "            queue.retain(|inner_item| inner_item != item);"))
r("p3-mem-remove-guard", (M, """        if let Some(queue) = self.queues.lock().unwrap().get_mut(queue_name) {
            queue.retain(|inner_item| inner_item.as_str() != item);
        }
""", """        let mut queues = self.queues.lock().unwrap();
        match queues.get_mut(queue_name) {
            Some(queue) => queue.retain(|inner_item| inner_item.as_str() != item),
            None => return Ok(()),
        }
"""))
r("p3-mem-remove-contains", (M, "            queue.retain(|inner_item| inner_item.as_str() != item);", "            if queue.iter().any(|inner| inner == item) {\n                queue.retain(|inner_item| inner_item.as_str() != item);\n            }"))
r("p3-mem-count-andthen", (M, """        if let Some(queue) = self.queues.lock().unwrap().get(queue) {
            Ok(queue.len())
        } else {
            Ok(0)
        }
""", """        let queues = self.queues.lock().unwrap();
        let count = queues.get(queue).map_or(0, |queue| queue.len());
        Ok(count)
"""))
r("p3-mem-count-pathmap", (M, """        if let Some(queue) = self.queues.lock().unwrap().get(queue) {
            Ok(queue.len())
        } else {
            Ok(0)
        }
""", """        let queues = self.queues.lock().unwrap();
        Ok(queues.get(queue).map(VecDeque::len).unwrap_or(0))
"""))
r("p3-mem-store-from", (M, """            let mut inner_storage = HashMap::new();
            inner_storage.insert(key.to_string(), value);
            storages.insert(hash.to_string(), inner_storage);
""", "            storages.insert(hash.to_string(), HashMap::from([(key.to_string(), value)]));\n"))
r("p3-mem-sget-q", (M, """        if let Some(storage) = storages.get(hash) {
            Ok(storage.get(key).cloned())
        } else {
            Ok(None)
        }
""", "        Ok(storages.get(hash).and_then(|storage| storage.get(key)).cloned())\n"))
r("p3-mem-alias", (M, "#[derive(Default)]\npub struct InMemory {\n    pub queues: Arc<Mutex<HashMap<String, VecDeque<String>>>>,", "type Queues = HashMap<String, VecDeque<String>>;\n\n#[derive(Default)]\npub struct InMemory {\n    pub queues: Arc<Mutex<Queues>>,"))
r("p3-types-match", (T, """    let res = backend.storage_upsert(STORAGE_HASH, key, value);
    if let Err(e) = &res {
        warn!("[Storage] Upsert failed {key} Failed {:?}", e);
    }

    res
""", """    backend.storage_upsert(STORAGE_HASH, key, value).map_err(|e| {
        warn!("[Storage] Upsert failed {key} Failed {:?}", e);
        e
    })
"""))
r("p3-types-get", (T, """    let item = match value {
        Some(value) => serde_json::from_str(&value).ok(),
        _ => None,
    };
    Ok(item)
""", "    Ok(value.and_then(|value| serde_json::from_str(&value).ok()))\n"))
r("p3-types-get2", (T, """    let value = backend.storage_get(STORAGE_HASH, key)?;
    let item = match value {
        Some(value) => serde_json::from_str(&value).ok(),
        _ => None,
    };
    Ok(item)
""", """    if let Some(value) = backend.storage_get(STORAGE_HASH, key)? {
        return Ok(serde_json::from_str(&value).ok());
    }
    Ok(None)
"""))
r("p3-types-default", (T, """serde_json::to_string(&value).unwrap_or("".into());""", "serde_json::to_string(&value).unwrap_or_default();"))
# plugins
SHOULD = """        if self.job_type_ids.is_empty() {
            return true;
        }

        self.job_type_ids.contains(&job_type_id)
"""
r("p3-plug-or", (PJ, SHOULD, "        self.job_type_ids.is_empty() || self.job_type_ids.contains(&job_type_id)\n"))
r("p3-plug-len", (PJ, SHOULD, "        let unrestricted = self.job_type_ids.len() == 0;\n        unrestricted || self.job_type_ids.iter().any(|id| *id == job_type_id)\n"))
r("p3-plug-early", (PJ, """        if self.should_run(type_id) {
            self.hook.before_run(job_id).await;
        }
""", """        if !self.should_run(type_id) {
            return;
        }
        self.hook.before_run(job_id).await;
"""))
r("p3-plug-applies", (PJ, """        let type_id = TypeId::of::<Job<M>>();
        if self.should_run(type_id) {
            self.hook.change_status(job_id, status).await;
        }
""", """        if self.applies_to::<M>() {
            self.hook.change_status(job_id, status).await;
        }
"""), (PJ, "    pub(crate) fn should_run(", """    fn applies_to<M: Executable + Clone + 'static>(&self) -> bool {
        self.should_run(TypeId::of::<Job<M>>())
    }

    pub(crate) fn should_run("""))
HOOK = """            for plugin in plugins {
                if msg.before {
                    plugin.before_run::<M>(&msg.job_id).await;
                } else {
                    plugin.after_run::<M>(&msg.job_id).await;
                }
            }
"""
r("p3-plug-destruct", (P, HOOK, """            let RunHook { job_id, before, .. } = msg;
            for plugin in plugins.iter() {
                match before {
                    true => plugin.before_run::<M>(&job_id).await,
                    false => plugin.after_run::<M>(&job_id).await,
                }
            }
"""))
r("p3-plug-two", (P, HOOK, """            if msg.before {
                for plugin in plugins {
                    plugin.before_run::<M>(&msg.job_id).await;
                }
            } else {
                for plugin in plugins {
                    plugin.after_run::<M>(&msg.job_id).await;
                }
            }
"""))
r("p3-plug-index", (P, """            for plugin in plugins {
                plugin.change_status::<M>(&msg.job_id, msg.status).await;
            }
""", """            for index in 0..plugins.len() {
                plugins[index].change_status::<M>(&msg.job_id, msg.status).await;
            }
"""))
r("p3-plug-hookmsg", (P, """        let msg: RunHook<M> = RunHook {
            job_id,
            before: true,
            phantom: PhantomData,
        };
        let _ = Self::from_registry().send(msg).await;
""", "        Self::run_hook::<M>(job_id, true).await;\n"), (P, """        let msg: RunHook<M> = RunHook {
            job_id,
            before: false,
            phantom: PhantomData,
        };
        let _ = Self::from_registry().send(msg).await;
    }
""", """        Self::run_hook::<M>(job_id, false).await;
    }

    async fn run_hook<M>(job_id: String, before: bool)
    where
        M: Executable + Clone + Send + 'static,
    {
        let msg: RunHook<M> = RunHook {
            job_id,
            before,
            phantom: PhantomData,
        };
        let _ = Self::from_registry().send(msg).await;
    }
"""))
r("p3-plug-new", (P, "        let msg: ChangeStatus<M> = ChangeStatus {\n            job_id,\n            status,\n            phantom: PhantomData,\n        };\n        Self::from_registry().do_send(msg);", "        let center = Self::from_registry();\n        center.do_send(ChangeStatus::<M> {\n            job_id,\n            status,\n            phantom: PhantomData,\n        });"))
# redis
r("p3-redis-while", (RD, """        for _ in 0..count {
            let result: Option<String> = conn.lmove(
                from_queue,
                to_queue,
                clone_direction(&from_direction),
                clone_direction(&to_direction),
            )?;

            if let Some(item) = result {
                items.push(item)
            }
        }
""", """        while items.len() < count {
            let moved: Option<String> = conn.lmove(
                from_queue,
                to_queue,
                clone_direction(&from_direction),
                clone_direction(&to_direction),
            )?;
            match moved {
                Some(item) => items.push(item),
                None => break,
            }
        }
"""))
r("p3-redis-range", (RD, """        let items = match queue_direction {
            QueueDirection::Front => conn.lrange(queue, 0, count - 1)?,
            QueueDirection::Back => {
                let mut res: Vec<String> = conn.lrange(queue, -count, -1)?;
                res.reverse();
                res
            }
        };
        Ok(items)
""", """        let (start, stop) = match queue_direction {
            QueueDirection::Front => (0, count - 1),
            QueueDirection::Back => (-count, -1),
        };
        let mut items: Vec<String> = conn.lrange(queue, start, stop)?;
        if let QueueDirection::Back = queue_direction {
            items.reverse();
        }
        Ok(items)
"""))
r("p3-redis-direct", (RD, "        self.lrem(queue, item)?;\n        Ok(())\n", "        self.lrem(queue, item).map(|_| ()).map_err(Error::from)\n"))
r("p3-redis-into", (RD, """        let from_direction = from_position.into();
        let to_direction = to_position.into();
        let res = self.lmove(from_queue, to_queue, count, from_direction, to_direction)?;
        Ok(res)
""", """        let res = self.lmove(
            from_queue,
            to_queue,
            count,
            Direction::from(from_position),
            Direction::from(to_position),
        )?;
        Ok(res)
"""))
# aj
r("p3-aj-reg-method", (A, """        registry
            .registry
            .insert(type_id, Box::new(queue_addr.clone()));
        registry
            .registry_by_name
            .insert(queue_name.into(), Box::new(queue_addr.clone()));

        queue_addr
""", """        registry.add(type_id, queue_name, queue_addr.clone());
        queue_addr
"""), (A, "pub fn get_work_queue_address<M>()", """impl Registry {
    fn add<A>(&self, type_id: TypeId, queue_name: &str, addr: A)
    where
        A: Any + Send + Sync + Clone,
    {
        self.registry.insert(type_id, Box::new(addr.clone()));
        self.registry_by_name.insert(queue_name.into(), Box::new(addr));
    }
}

pub fn get_work_queue_address<M>()"""))
r("p3-aj-check-helper", (A, """        if registry.registry_by_name.contains_key(queue_name) {
            panic!("You already register queue with name: {}", queue_name);
        }
        if registry.registry.contains_key(&type_id) {
            panic!("You already register queue with type: {:?}", type_id);
        }
""", """        let name_taken = registry.registry_by_name.contains_key(queue_name);
        let type_taken = registry.registry.contains_key(&type_id);
        if name_taken {
            panic!("You already register queue with name: {}", queue_name);
        }
        if type_taken {
            panic!("You already register queue with type: {:?}", type_id);
        }
"""))
r("p3-aj-assert", (A, """        if registry.registry_by_name.contains_key(queue_name) {
            panic!("You already register queue with name: {}", queue_name);
        }
""", """        assert!(
            !registry.registry_by_name.contains_key(queue_name),
            "You already register queue with name: {}",
            queue_name
        );
"""))
r("p3-aj-ensure", (A, """        let addr = if let Some(addr) = get_work_queue_address() {
            addr
        } else {
            info!("Not found WorkQueue for {}", stringify!(M));
            let message = InitWorkQueue {
                queue_name: queue_name.into(),
                _type: PhantomData,
            };
            let aj_addr = get_aj_address().expect("AJ is not start, please start it via AJ::start");
            aj_addr.send(message).await?
        };
        enqueue_job(addr, job, config).await
    }
""", """        let addr = Self::ensure_queue::<M>(queue_name).await?;
        enqueue_job(addr, job, config).await
    }

    async fn ensure_queue<M>(queue_name: &str) -> Result<Addr<WorkQueue<M>>, Error>
    where
        M: Executable + Send + Sync + Clone + Serialize + DeserializeOwned + 'static,
        WorkQueue<M>: Actor<Context = Context<WorkQueue<M>>>,
    {
        if let Some(addr) = get_work_queue_address() {
            return Ok(addr);
        }
        let message = InitWorkQueue {
            queue_name: queue_name.to_string(),
            _type: PhantomData,
        };
        let aj_addr = get_aj_address().expect("AJ is not start, please start it via AJ::start");
        Ok(aj_addr.send(message).await?)
    }
"""))
r("p3-aj-match-queue", (A, """        let addr = if let Some(addr) = get_work_queue_address() {
            addr
        } else {
""", """        let addr = match get_work_queue_address() {
            Some(addr) => addr,
            None => {
"""), (A, "            aj_addr.send(message).await?\n        };", "            aj_addr.send(message).await?\n        }};"))
r("p3-aj-require", (A, """        let addr: Option<Addr<WorkQueue<M>>> = get_work_queue_address();
        if let Some(queue_addr) = addr {
            cancel_job(queue_addr, job_id).await
        } else {
            Err(Error::NoQueueRegister)
        }
""", "        cancel_job(require_queue::<M>()?, job_id).await\n"), (A, """        let addr: Option<Addr<WorkQueue<M>>> = get_work_queue_address();
        if let Some(queue_addr) = addr {
            retry_job(queue_addr, job_id).await
        } else {
            Err(Error::NoQueueRegister)
        }
""", "        let queue_addr = require_queue::<M>()?;\n        retry_job(queue_addr, job_id).await\n"), (A, "pub fn get_aj_address()", """fn require_queue<M>() -> Result<Addr<WorkQueue<M>>, Error>
where
    M: Executable + Send + Sync + Clone + Serialize + DeserializeOwned + 'static,
    WorkQueue<M>: Actor<Context = Context<WorkQueue<M>>>,
{
    get_work_queue_address::<M>().ok_or(Error::NoQueueRegister)
}

pub fn get_aj_address()"""))
r("p3-aj-update-early", (A, """        let job = Self::get_job::<M>(job_id).await;
        if let Some(mut job) = job {
            job.data = data;
            if let Some(context) = context {
                job.context = context;
                job.context.job_id = job_id.to_string();
            }
            Self::add_job(job, M::queue_name()).await?;
        } else {
            warn!("Cannot update non existing job {job_id}");
        }

        Ok(())
""", """        let Some(mut job) = Self::get_job::<M>(job_id).await else {
            warn!("Cannot update non existing job {job_id}");
            return Ok(());
        };
        job.data = data;
        if let Some(mut context) = context {
            context.job_id = job_id.to_string();
            job = job.set_context(context);
        }
        Self::add_job(job, M::queue_name()).await.map(|_| ())
"""))
r("p3-aj-update-setid", (A, """                job.context = context;
                job.context.job_id = job_id.to_string();
""", "                job = job.set_context(context).set_id(job_id.to_string());\n"))
r("p3-aj-start-launch", (A, """        let addr = match System::try_current() {
            Some(_) => {
                info!("Found Actix Runtime, re-use it!");
                Self::start_in_new_arbiter(backend)
            }
            None => {
                info!("No Actix Runtime, trying start new one in separated thread!");
                std::thread::spawn(|| {
                    // Start the Actix runtime within this new thread
                    let _ = System::new();
                    Self::start_in_new_arbiter(backend)
                })
                .join()
                .expect("Failed to start thread")
            }
        };
        *running = Some(addr.clone());

        addr
    }
""", """        let addr = Self::launch(backend);
        *running = Some(addr.clone());
        addr
    }

    fn launch(backend: impl Backend + Send + Sync + 'static) -> Addr<Self> {
        if System::try_current().is_some() {
            info!("Found Actix Runtime, re-use it!");
            return Self::start_in_new_arbiter(backend);
        }
        info!("No Actix Runtime, trying start new one in separated thread!");
        std::thread::spawn(|| {
            let _ = System::new();
            Self::start_in_new_arbiter(backend)
        })
        .join()
        .expect("Failed to start thread")
    }
"""))
r("p3-aj-start-insert", (A, "        *running = Some(addr.clone());\n", "        running.replace(addr.clone());\n"))
r("p3-aj-start-match", (A, """        if let Some(aj_addr) = running.clone() {
            warn!("AJ is running. Return current AJ");
            return aj_addr;
        }
""", """        if let Some(aj_addr) = running.as_ref() {
            warn!("AJ is running. Return current AJ");
            return aj_addr.clone();
        }
"""))
r("p3-aj-addr-match", (A, """    if let Ok(addr) = AJ_ADDR.read() {
        addr.clone()
    } else {
        None
    }
""", """    match AJ_ADDR.read() {
        Ok(addr) => addr.clone(),
        Err(_) => None,
    }
"""))
r("p3-aj-addr-ok", (A, """    if let Ok(addr) = AJ_ADDR.read() {
        addr.clone()
    } else {
        None
    }
""", "    AJ_ADDR.read().ok().and_then(|addr| addr.clone())\n"))
r("p3-aj-just", (L, """        if let Some(aj_addr) = get_aj_address() {
            aj_addr.do_send(JustRunJob {
                job: self,
                queue_name: M::queue_name().to_string(),
            });
        }
""", """        let Some(aj_addr) = get_aj_address() else {
            return;
        };
        let queue_name = M::queue_name().into();
        aj_addr.do_send(JustRunJob { job: self, queue_name });
"""))
r("p3-q-handle", (Q, "        let job_id = msg.job_id;\n        self.cancel_job(&job_id)", "        self.cancel_job(&msg.job_id)"), (Q, "        self.run_with_config(msg.0, msg.1)", "        let Enqueue(job, config) = msg;\n        self.run_with_config(job, config)"), (Q, "        self.get_job(&msg.job_id).ok().flatten()", "        match self.get_job(&msg.job_id) {\n            Ok(job) => job,\n            Err(_) => None,\n        }"))
r("p3-q-msgs", (Q, "    addr.send::<GetJob<M>>(msg).await.ok().flatten()", "    match addr.send(msg).await {\n        Ok(job) => job,\n        Err(_) => None,\n    }"), (Q, "    addr.send::<RetryJob<M>>(msg).await?\n", "    let retried = addr.send(msg).await?;\n    retried\n"), (Q, "    let msg = UpdateWorkQueue { config };\n\n    addr.send::<UpdateWorkQueue>(msg).await?;\n    Ok(())", "    addr.send(UpdateWorkQueue { config }).await.map_err(Error::from)"))
r("p3-q-getjobnew", (Q, """    let msg: GetJob<M> = GetJob {
        job_id: job_id.to_string(),
        _phantom: PhantomData,
    };
""", "    let msg = GetJob::<M>::new(job_id);\n"), (Q, "impl<M> Handler<GetJob<M>> for WorkQueue<M>", """impl<M> GetJob<M>
where
    M: Executable + Send + Sync + Clone + Serialize + DeserializeOwned + 'static,
{
    fn new(job_id: &str) -> Self {
        Self {
            job_id: job_id.to_string(),
            _phantom: PhantomData,
        }
    }
}

impl<M> Handler<GetJob<M>> for WorkQueue<M>"""))
r("p3-q-config", (Q, "        self.config = msg.config;", "        let WorkQueueConfig {\n            process_tick_duration,\n            max_processing_jobs,\n        } = msg.config;\n        self.config.process_tick_duration = process_tick_duration;\n        self.config.max_processing_jobs = max_processing_jobs;"))
r("p3-q-start", (Q, """        <Self as Actor>::start_in_arbiter(&arbiter.handle(), |ctx| {
            let mut q = WorkQueue::<M>::new(name, backend);
            q.process_jobs(ctx);
            q
        })
""", """        let handle = arbiter.handle();
        Self::start_in_arbiter(&handle, move |ctx| {
            let mut queue = Self::new(name, backend);
            queue.process_jobs(ctx);
            queue
        })
"""))
r("p3-q-task", (Q, """        let this = self.clone();
        let task = async move {
            // TODO: Consider Smart Pointer to wrap job instead of clone
            if let Err(err) = this.execute_job(job.clone()).await {
                error!("[WorkQueue] Execute job {} fail: {:?}", job.id(), err);
                let _ = this.mark_job_is_failed(job);
            }
        };
        wrap_future::<_, Self>(task).spawn(ctx);
""", """        let queue = self.clone();
        let task = async move { queue.run_and_record(job).await };
        wrap_future::<_, Self>(task).spawn(ctx);
    }

    async fn run_and_record(&self, job: Job<M>) {
        let result = self.execute_job(job.clone()).await;
        if let Err(err) = result {
            error!("[WorkQueue] Execute job {} fail: {:?}", job.id(), err);
            let _ = self.mark_job_is_failed(job);
        }
"""))
r("p3-q-task-ctxspawn", (Q, "        wrap_future::<_, Self>(task).spawn(ctx);", "        ctx.spawn(wrap_future::<_, Self>(task));"))
