From 77f3cf9a512bdaca509b8beb7a1e74742cb011e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:49 +0000
Subject: [PATCH 01/14] fix: run the after_run plugin hook after a job instead
 of before_run twice

---
 aj_core/src/plugin/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aj_core/src/plugin/mod.rs b/aj_core/src/plugin/mod.rs
index 710b33a..8231760 100644
--- a/aj_core/src/plugin/mod.rs
+++ b/aj_core/src/plugin/mod.rs
@@ -50,7 +50,7 @@ impl PluginCenter {
     {
         let msg: RunHook<M> = RunHook {
             job_id,
-            before: true,
+            before: false,
             phantom: PhantomData,
         };
         let _ = Self::from_registry().send(msg).await;
-- 
2.43.0


From 5921e43a7c6490f725998519a6ca22969c8a379b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:49 +0000
Subject: [PATCH 02/14] fix: do not panic when several callers initialise the
 same work queue

---
 aj_core/src/aj.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/aj_core/src/aj.rs b/aj_core/src/aj.rs
index fa47a65..005fdcc 100644
--- a/aj_core/src/aj.rs
+++ b/aj_core/src/aj.rs
@@ -278,6 +278,11 @@ where
     type Result = Addr<WorkQueue<M>>;
 
     fn handle(&mut self, msg: InitWorkQueue<M>, _: &mut Self::Context) -> Self::Result {
+        // Callers racing on the first use of a job type all ask for its queue
+        if let Some(addr) = get_work_queue_address::<M>() {
+            return addr;
+        }
+
         self.register(&msg.queue_name)
     }
 }
-- 
2.43.0


From bb418f12cb0afab1b3c4b731e7d840226b48eb88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:49 +0000
Subject: [PATCH 03/14] fix: update_job with a new context keeps updating the
 requested job

---
 aj_core/src/aj.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aj_core/src/aj.rs b/aj_core/src/aj.rs
index 005fdcc..69bfd59 100644
--- a/aj_core/src/aj.rs
+++ b/aj_core/src/aj.rs
@@ -205,6 +205,7 @@ impl AJ {
             job.data = data;
             if let Some(context) = context {
                 job.context = context;
+                job.context.job_id = job_id.to_string();
             }
             Self::add_job(job, M::queue_name()).await?;
         } else {
-- 
2.43.0


From 3a38093fe71994bc407553f3f3c8c123265e5756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:49 +0000
Subject: [PATCH 04/14] fix: Redis queue_get with count 0 returns no item
 instead of the whole queue

---
 aj_core/src/backend/redis.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/aj_core/src/backend/redis.rs b/aj_core/src/backend/redis.rs
index 76e81cc..ee34e26 100644
--- a/aj_core/src/backend/redis.rs
+++ b/aj_core/src/backend/redis.rs
@@ -57,6 +57,11 @@ impl Redis {
         count: usize,
         queue_direction: QueueDirection,
     ) -> RedisResult<Vec<String>> {
+        // LRANGE key 0 -1 is the whole list
+        if count == 0 {
+            return Ok(vec![]);
+        }
+
         let mut conn = self.client.get_connection()?;
         let items = match queue_direction {
             QueueDirection::Front => conn.lrange(queue, 0, count as isize - 1)?,
-- 
2.43.0


From d275ee64c53137e3668f722b02e44047c714182d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:24 +0000
Subject: [PATCH 05/14] fix: saturate the retry delay instead of overflowing
 after many retries

---
 aj_core/src/job/retry.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/aj_core/src/job/retry.rs b/aj_core/src/job/retry.rs
index f49f5fd..14325e0 100644
--- a/aj_core/src/job/retry.rs
+++ b/aj_core/src/job/retry.rs
@@ -55,14 +55,20 @@ impl Retry {
     }
 
     pub fn retry_at(&mut self, now: Option<DateTime<Utc>>) -> DateTime<Utc> {
-        self.retried_times += 1;
+        self.retried_times = self.retried_times.saturating_add(1);
         let final_now = now.unwrap_or(get_now());
-        match &self.strategy {
-            RetryStrategy::Interval(internal_time) => final_now + *internal_time,
+        let delay = match &self.strategy {
+            RetryStrategy::Interval(internal_time) => *internal_time,
             RetryStrategy::ExponentialBackoff(initial_backoff) => {
-                final_now + *initial_backoff * 2_i32.pow(self.retried_times as u32)
+                let factor = 2_i32.saturating_pow(self.retried_times as u32);
+                initial_backoff
+                    .checked_mul(factor)
+                    .unwrap_or(Duration::max_value())
             }
-        }
+        };
+        final_now
+            .checked_add_signed(delay)
+            .unwrap_or(DateTime::<Utc>::MAX_UTC)
     }
 }
 
-- 
2.43.0


From 82afef0a162da0a14bf37624aeb3e0fb9595f11b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:24 +0000
Subject: [PATCH 06/14] fix: complete a cron job that has no further tick
 instead of re-queueing it forever

---
 aj_core/src/job/mod.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/aj_core/src/job/mod.rs b/aj_core/src/job/mod.rs
index aa2aae3..b0b9597 100644
--- a/aj_core/src/job/mod.rs
+++ b/aj_core/src/job/mod.rs
@@ -187,27 +187,27 @@ where
                 }
 
                 let schedule = schedule.unwrap();
-                if let Some(upcoming_event) = schedule.after(&get_now()).next() {
-                    job.context.job_type = JobType::Cron(
-                        cron_expression.clone(),
-                        upcoming_event,
-                        *total_repeat + 1,
-                        context.clone(),
-                    );
-                }
+                // No more tick in this schedule
+                let upcoming_event = schedule.after(&now).next()?;
 
                 if let Some(max_repeat) = context.max_repeat {
-                    if max_repeat < *total_repeat {
+                    if max_repeat <= *total_repeat {
                         return None;
                     }
                 }
 
                 if let Some(end_at) = context.end_at {
-                    if end_at < now {
+                    if end_at < upcoming_event {
                         return None;
                     }
                 }
 
+                job.context.job_type = JobType::Cron(
+                    cron_expression.clone(),
+                    upcoming_event,
+                    *total_repeat + 1,
+                    context.clone(),
+                );
                 Some(job)
             }
             _ => None,
-- 
2.43.0


From cd70edfc30b987c74c016d8c147d7bd0cf6990cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:24 +0000
Subject: [PATCH 07/14] fix: overriding an existing job keeps its status in
 step with its queue

---
 aj_core/src/queue.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/aj_core/src/queue.rs b/aj_core/src/queue.rs
index c2ddfb3..144e7f1 100644
--- a/aj_core/src/queue.rs
+++ b/aj_core/src/queue.rs
@@ -112,16 +112,17 @@ where
         })
     }
 
-    pub fn run_with_config(&self, job: Job<M>, config: EnqueueConfig) -> Result<(), Error> {
-        let key = job.id();
-        let existing_job = get_from_storage::<Job<M>>(self.backend.deref(), key)?;
+    pub fn run_with_config(&self, mut job: Job<M>, config: EnqueueConfig) -> Result<(), Error> {
+        let existing_job = get_from_storage::<Job<M>>(self.backend.deref(), job.id())?;
         if let Some(existing_job) = existing_job {
             if config.override_data && !existing_job.is_running() {
                 info!(
                     "[WorkQueue] Update exising job with new job data: {}",
                     job.id()
                 );
-                upsert_to_storage(self.backend.deref(), key, &job)?;
+                // The job stays in its queue, so it keeps the status of that queue
+                job.context.job_status = existing_job.context.job_status;
+                upsert_to_storage(self.backend.deref(), job.id(), &job)?;
             } else {
                 info!(
                     "[WorkQueue] Job is running, skip update job data: {}",
-- 
2.43.0


From 854e9a05fd9d0c4acf4a53c4bfdee729535f8d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:24 +0000
Subject: [PATCH 08/14] fix: re-running a done job takes it off its done queue
 and honours override_data

---
 aj_core/src/queue.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/aj_core/src/queue.rs b/aj_core/src/queue.rs
index 144e7f1..a8fb583 100644
--- a/aj_core/src/queue.rs
+++ b/aj_core/src/queue.rs
@@ -132,7 +132,11 @@ where
 
             if config.re_run && existing_job.is_done() {
                 info!("[WorkQueue] Re run job {}", existing_job.id());
-                self.enqueue(job)?;
+                self.re_enqueue(if config.override_data {
+                    job
+                } else {
+                    existing_job
+                })?;
             }
 
             return Ok(());
-- 
2.43.0


From a892eabc30f8bb92db71c09c91b1f1348e5fb2a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:12:20 +0000
Subject: [PATCH 09/14] fix: concurrent AJ::start calls yield one running
 instance

Callers racing on AJ::start each found no instance, started one of their own
and overwrote each other's address (or panicked when the lock was taken).
The lock is now held from the check until the new instance is registered, and
looking up the running instance waits for a start in progress.
---
 aj_core/src/aj.rs | 32 +++++++++++++++-----------------
 1 file changed, 15 insertions(+), 17 deletions(-)

diff --git a/aj_core/src/aj.rs b/aj_core/src/aj.rs
index 69bfd59..083e801 100644
--- a/aj_core/src/aj.rs
+++ b/aj_core/src/aj.rs
@@ -47,7 +47,8 @@ where
 }
 
 pub fn get_aj_address() -> Option<Addr<AJ>> {
-    if let Ok(addr) = AJ_ADDR.try_read() {
+    // Wait for a start in progress
+    if let Ok(addr) = AJ_ADDR.read() {
         addr.clone()
     } else {
         None
@@ -65,42 +66,39 @@ impl Actor for AJ {
 impl AJ {
     // Will use memory as Backend for AJ
     pub fn start(backend: impl Backend + Send + Sync + 'static) -> Addr<Self> {
-        if let Some(aj_addr) = get_aj_address() {
+        // Concurrent starts wait here and find the instance of the first one
+        let mut running = AJ_ADDR.write().expect("AJ address must be readable!");
+        if let Some(aj_addr) = running.clone() {
             warn!("AJ is running. Return current AJ");
             return aj_addr;
         }
 
-        match System::try_current() {
+        let addr = match System::try_current() {
             Some(_) => {
                 info!("Found Actix Runtime, re-use it!");
-                Self::register_addr(backend);
+                Self::start_in_new_arbiter(backend)
             }
             None => {
                 info!("No Actix Runtime, trying start new one in separated thread!");
                 std::thread::spawn(|| {
                     // Start the Actix runtime within this new thread
                     let _ = System::new();
-                    Self::register_addr(backend);
+                    Self::start_in_new_arbiter(backend)
                 })
                 .join()
-                .expect("Failed to start thread");
+                .expect("Failed to start thread")
             }
-        }
+        };
+        *running = Some(addr.clone());
 
-        get_aj_address().expect("AJ address must be registered!")
+        addr
     }
 
-    fn register_addr(backend: impl Backend + Send + Sync + 'static) -> Addr<Self> {
+    fn start_in_new_arbiter(backend: impl Backend + Send + Sync + 'static) -> Addr<Self> {
         let arbiter: Arbiter = Arbiter::new();
-        let addr = <Self as Actor>::start_in_arbiter(&arbiter.handle(), |_| Self {
+        <Self as Actor>::start_in_arbiter(&arbiter.handle(), |_| Self {
             backend: Arc::new(backend),
-        });
-
-        if let Ok(ref mut aj_addr) = AJ_ADDR.try_write() {
-            **aj_addr = Some(addr.clone());
-        }
-
-        addr
+        })
     }
 
     pub fn quick_start() -> Addr<Self> {
-- 
2.43.0


From c1a5b9ae122baae3f219200b2c5972534e2f88fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:16 +0000
Subject: [PATCH 10/14] fix: read whole Redis lists when the requested count
 exceeds isize::MAX

A count above isize::MAX was cast to a negative index, so LRANGE counted from
the other end: get(usize::MAX) left out an item that the in-memory backend
returns.
---
 aj_core/src/backend/redis.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/aj_core/src/backend/redis.rs b/aj_core/src/backend/redis.rs
index ee34e26..78e1440 100644
--- a/aj_core/src/backend/redis.rs
+++ b/aj_core/src/backend/redis.rs
@@ -61,12 +61,14 @@ impl Redis {
         if count == 0 {
             return Ok(vec![]);
         }
+        // A larger count wraps around to a negative index, which counts from the end
+        let count = count.min(isize::MAX as usize) as isize;
 
         let mut conn = self.client.get_connection()?;
         let items = match queue_direction {
-            QueueDirection::Front => conn.lrange(queue, 0, count as isize - 1)?,
+            QueueDirection::Front => conn.lrange(queue, 0, count - 1)?,
             QueueDirection::Back => {
-                let mut res: Vec<String> = conn.lrange(queue, -(count as isize), -1)?;
+                let mut res: Vec<String> = conn.lrange(queue, -count, -1)?;
                 res.reverse();
                 res
             }
-- 
2.43.0


From 516cc7db8dfd6cd12e0b43abfba437ebeaf18bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:19:22 +0000
Subject: [PATCH 11/14] fix: job functions without arguments, with a trailing
 comma or with mut arguments compile

---
 aj_macro/src/lib.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/aj_macro/src/lib.rs b/aj_macro/src/lib.rs
index ab82a2b..b4d505f 100644
--- a/aj_macro/src/lib.rs
+++ b/aj_macro/src/lib.rs
@@ -3,7 +3,7 @@ extern crate proc_macro;
 use convert_case::{Case, Casing};
 use proc_macro::TokenStream;
 use quote::quote;
-use syn::{parse_macro_input, DeriveInput, FnArg, ItemFn, Pat, PatType, ReturnType};
+use syn::{parse_macro_input, DeriveInput, FnArg, ItemFn, Pat, PatIdent, PatType, ReturnType};
 
 #[proc_macro_derive(BackgroundJob)]
 pub fn background_job_derive(input: TokenStream) -> TokenStream {
@@ -43,13 +43,13 @@ pub fn job(_attr: TokenStream, item: TokenStream) -> TokenStream {
     );
 
     // Extract input names and types
-    let input_fields: Vec<_> = fn_inputs
+    let fn_args: Vec<_> = fn_inputs
         .iter()
         .filter_map(|arg| {
             if let FnArg::Typed(PatType { pat, ty, .. }) = arg {
-                if let Pat::Ident(ident) = &**pat {
+                if let Pat::Ident(PatIdent { ident, .. }) = &**pat {
                     Some(quote! {
-                        pub #ident: #ty
+                        #ident: #ty
                     })
                 } else {
                     None
@@ -65,7 +65,7 @@ pub fn job(_attr: TokenStream, item: TokenStream) -> TokenStream {
         .iter()
         .filter_map(|arg| {
             if let FnArg::Typed(PatType { pat, .. }) = arg {
-                if let Pat::Ident(ident) = &**pat {
+                if let Pat::Ident(PatIdent { ident, .. }) = &**pat {
                     // TODO: This is a not good way to pass variable from struct to fn logic.
                     // IMHO, the best apporach is transform the original fn code to mapping with struct like destructure, etc to remove clone memory value.
                     Some(quote! { self.#ident.clone() })
@@ -82,7 +82,7 @@ pub fn job(_attr: TokenStream, item: TokenStream) -> TokenStream {
         .iter()
         .filter_map(|arg| {
             if let FnArg::Typed(PatType { pat, .. }) = arg {
-                if let Pat::Ident(ident) = &**pat {
+                if let Pat::Ident(PatIdent { ident, .. }) = &**pat {
                     Some(quote! { #ident })
                 } else {
                     None
@@ -125,7 +125,7 @@ pub fn job(_attr: TokenStream, item: TokenStream) -> TokenStream {
                 aj::export::core::serde::Deserialize,
             )]
             pub struct #job_struct_name {
-                #(#input_fields),*
+                #(pub #fn_args),*
             }
 
             // Automatically implement the trait for the struct
@@ -141,31 +141,31 @@ pub fn job(_attr: TokenStream, item: TokenStream) -> TokenStream {
             }
 
             impl #job_struct_name {
-                fn new(#fn_inputs) -> Self {
+                fn new(#(#fn_args),*) -> Self {
                     Self {
                         #(#input_names),*
                     }
                 }
             }
 
-            pub async fn run(#fn_inputs) -> Result<String, aj::Error> {
+            pub async fn run(#(#fn_args),*) -> Result<String, aj::Error> {
                 let msg = #job_struct_name::new(#(#input_names),*);
                 let job_id = msg.job().run().await?;
                 Ok(job_id)
             }
 
-            pub fn just_run(#fn_inputs) {
+            pub fn just_run(#(#fn_args),*) {
                 let msg = #job_struct_name::new(#(#input_names),*);
                 msg.job().just_run();
             }
 
-            pub async fn run_with_context(#fn_inputs, context: aj::JobContext) -> Result<String, aj::Error> {
+            pub async fn run_with_context(#(#fn_args,)* context: aj::JobContext) -> Result<String, aj::Error> {
                 let msg = #job_struct_name::new(#(#input_names),*);
                 let job_id = msg.job().context(context).run().await?;
                 Ok(job_id)
             }
 
-            pub fn just_run_with_context(#fn_inputs, context: aj::JobContext) {
+            pub fn just_run_with_context(#(#fn_args,)* context: aj::JobContext) {
                 let msg = #job_struct_name::new(#(#input_names),*);
                 msg.job().context(context).just_run();
             }
-- 
2.43.0


From baad949e0152f3eaeea5406990a97d02e3eb00c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:40 +0000
Subject: [PATCH 12/14] fix: a tick starts nothing when it cannot count the
 jobs in progress

A failing count was taken for zero, so the tick started up to the
configured maximum on top of what was already in progress.
---
 aj_core/src/queue.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aj_core/src/queue.rs b/aj_core/src/queue.rs
index a8fb583..2c4195f 100644
--- a/aj_core/src/queue.rs
+++ b/aj_core/src/queue.rs
@@ -246,7 +246,7 @@ where
 
     pub fn pick_jobs_to_process(&self) -> Result<Vec<Job<M>>, Error> {
         let processing_queue = self.format_queue_name(JobStatus::Running);
-        let total_processing_jobs = self.backend.queue_count(&processing_queue).unwrap_or(0);
+        let total_processing_jobs = self.backend.queue_count(&processing_queue)?;
         if total_processing_jobs >= self.config.max_processing_jobs {
             return Ok(vec![]);
         }
-- 
2.43.0


From 7e034053e658898eedd29253887652e788dd7146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:50 +0000
Subject: [PATCH 13/14] fix: re-enqueueing reports a failed push instead of
 losing the job silently

---
 aj_core/src/queue.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/aj_core/src/queue.rs b/aj_core/src/queue.rs
index 2c4195f..c3a3bb6 100644
--- a/aj_core/src/queue.rs
+++ b/aj_core/src/queue.rs
@@ -161,10 +161,7 @@ where
         job.enqueue(self.backend.deref())?;
 
         let queued_queue = self.format_queue_name(JobStatus::Queued);
-        if let Err(e) = self.backend.queue_push(&queued_queue, job.id()) {
-            error!("[WorkQueue] Cannot re enqueue {}: {:?}", job.id(), e);
-        };
-        Ok(())
+        self.backend.queue_push(&queued_queue, job.id())
     }
 
     pub fn mark_job_is_canceled(&self, job_id: &str) {
-- 
2.43.0


From 02b63c0b08d41f52960f6eec7d3766e20cb7a6b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:50 +0000
Subject: [PATCH 14/14] fix: a failed read is reported instead of being taken
 for a missing job

---
 aj_core/src/backend/types.rs | 2 +-
 aj_core/src/queue.rs         | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/aj_core/src/backend/types.rs b/aj_core/src/backend/types.rs
index 4a2886e..37660fe 100644
--- a/aj_core/src/backend/types.rs
+++ b/aj_core/src/backend/types.rs
@@ -61,7 +61,7 @@ pub fn get_from_storage<T: DeserializeOwned>(
     backend: &dyn Backend,
     key: &str,
 ) -> Result<Option<T>, Error> {
-    let value = backend.storage_get(STORAGE_HASH, key).ok().flatten();
+    let value = backend.storage_get(STORAGE_HASH, key)?;
     let item = match value {
         Some(value) => serde_json::from_str(&value).ok(),
         _ => None,
diff --git a/aj_core/src/queue.rs b/aj_core/src/queue.rs
index c3a3bb6..f251909 100644
--- a/aj_core/src/queue.rs
+++ b/aj_core/src/queue.rs
@@ -269,7 +269,8 @@ where
             current_cursor -= job_ids.len() as i32;
 
             for job_id in job_ids {
-                let job = get_from_storage::<Job<M>>(self.backend.deref(), &job_id)?;
+                // A job that cannot be read stays in the queue for a later tick
+                let job = get_from_storage::<Job<M>>(self.backend.deref(), &job_id).unwrap_or(None);
                 if let Some(mut job) = job {
                     if job.is_ready()
                         && ready_jobs.len() < total
-- 
2.43.0

