From 5c50f25644f1c7c55c3dd414475226c455464105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:42 +0000
Subject: [PATCH 01/21] fix: dispatch each waiting job only once

A job whose dependencies had finished stayed in the waiting list until its own
result arrived, so every other job finishing in the meantime started it again.
---
 crates/astro-run/src/workflow/mod.rs | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/crates/astro-run/src/workflow/mod.rs b/crates/astro-run/src/workflow/mod.rs
index 4e7c511..4e8840d 100644
--- a/crates/astro-run/src/workflow/mod.rs
+++ b/crates/astro-run/src/workflow/mod.rs
@@ -96,7 +96,6 @@ impl Workflow {
         workflow_state = WorkflowState::Cancelled;
       }
 
-      waiting_jobs.retain(|(k, _)| k != &key);
       job_results.insert(key, job_result);
 
       if job_results.len() == total_jobs {
@@ -106,21 +105,19 @@ impl Workflow {
         break;
       }
 
-      for (job_id, job) in waiting_jobs.iter() {
-        if !job.depends_on.is_empty() {
-          let mut all_finished = true;
-          for depends_on_key in &job.depends_on {
-            if !job_results.contains_key(depends_on_key) {
-              all_finished = false;
-              break;
-            }
-          }
+      // A job leaves the waiting list when it is dispatched, so it is never dispatched twice
+      waiting_jobs.retain(|(job_id, job)| {
+        let all_finished = job
+          .depends_on
+          .iter()
+          .all(|depends_on_key| job_results.contains_key(depends_on_key));
 
-          if all_finished {
-            self.run_job(job_id.clone(), job.clone(), ctx.clone(), sender.clone());
-          }
+        if all_finished {
+          self.run_job(job_id.clone(), job.clone(), ctx.clone(), sender.clone());
         }
-      }
+
+        !all_finished
+      });
     }
 
     let completed_at = chrono::Utc::now();
-- 
2.43.0


From 5e54c0f7deabbdd5ef193d7c768bc0fe2ae2070d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:42 +0000
Subject: [PATCH 02/21] fix: do not restart the step timeout on every log line

The timer was created anew for each turn of the loop, so a step that kept
writing logs never timed out.
---
 crates/astro-run/src/execution_context/mod.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/astro-run/src/execution_context/mod.rs b/crates/astro-run/src/execution_context/mod.rs
index fb4ea6e..9e17b22 100644
--- a/crates/astro-run/src/execution_context/mod.rs
+++ b/crates/astro-run/src/execution_context/mod.rs
@@ -105,10 +105,16 @@ impl ExecutionContext {
 
     self.call_on_state_change(event).await;
 
+    // The deadline belongs to the whole step: logs and signals must not restart it
+    let deadline = time::sleep(timeout);
+    tokio::pin!(deadline);
+    let mut is_timeout = false;
+
     loop {
       tokio::select! {
         // Timeout
-        _ = time::sleep(timeout) => {
+        _ = &mut deadline, if !is_timeout => {
+          is_timeout = true;
           // Ignore error
           signal.timeout().ok();
         }
-- 
2.43.0


From 8e076b8183dab83159b27196581e81553e2e05f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:42 +0000
Subject: [PATCH 03/21] fix: do not start further steps of a cancelled job

The cancel signal reached only the step that was waiting for it; if the runner
ignored it, or no step was running at that moment, the remaining steps ran.
---
 crates/astro-run/src/execution_context/mod.rs | 8 ++++++++
 crates/astro-run/src/workflow/job.rs          | 6 ++++++
 2 files changed, 14 insertions(+)

diff --git a/crates/astro-run/src/execution_context/mod.rs b/crates/astro-run/src/execution_context/mod.rs
index 9e17b22..208cc27 100644
--- a/crates/astro-run/src/execution_context/mod.rs
+++ b/crates/astro-run/src/execution_context/mod.rs
@@ -205,6 +205,14 @@ impl ExecutionContext {
     self.signal_manager.cancel_job(job_id)
   }
 
+  pub(crate) fn is_job_cancelled(&self, job_id: &JobId) -> bool {
+    self
+      .signal_manager
+      .get_signal(job_id)
+      .map(|signal| signal.is_cancelled())
+      .unwrap_or(false)
+  }
+
   pub(crate) async fn is_match(&self, condition: &Condition) -> bool {
     self.condition_matcher.is_match(condition).await
   }
diff --git a/crates/astro-run/src/workflow/job.rs b/crates/astro-run/src/workflow/job.rs
index f12604a..c5a20df 100644
--- a/crates/astro-run/src/workflow/job.rs
+++ b/crates/astro-run/src/workflow/job.rs
@@ -60,6 +60,12 @@ impl Job {
         skipped = true;
       }
 
+      // No further step is started once the job has been cancelled
+      if !skipped && ctx.is_job_cancelled(&self.id) {
+        job_state = WorkflowState::Cancelled;
+        skipped = true;
+      }
+
       if skipped {
         log::trace!("Step {} is skipped", step.id.to_string());
 
-- 
2.43.0


From ce18d0cdfd1fe4ec02134114e112c01390966507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:42 +0000
Subject: [PATCH 04/21] fix: keep the first result of a stream under concurrent
 ends

The check and the assignment were made under separate locks, so a second end
could overwrite a result that a reader had already seen.
---
 crates/astro-run/src/stream.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/astro-run/src/stream.rs b/crates/astro-run/src/stream.rs
index 0223139..b212f6a 100644
--- a/crates/astro-run/src/stream.rs
+++ b/crates/astro-run/src/stream.rs
@@ -104,12 +104,13 @@ impl StreamSender {
   }
 
   pub fn end(&self, result: RunResult) {
-    if self.is_ended() {
+    let mut state = self.state.lock();
+
+    if state.result.is_some() {
       log::trace!("StreamSender: already ended");
       return;
     }
 
-    let mut state = self.state.lock();
     state.result = Some(result);
 
     if let Some(waker) = state.waker.take() {
-- 
2.43.0


From 44aefc7c8eab0874e3d3a74dcd4ed9be672add0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:42 +0000
Subject: [PATCH 05/21] fix: end the stream as failed when its last sender goes
 away

A runner whose task panicked or dropped its sender without a result left the
step, and with it the whole workflow, waiting forever.
---
 crates/astro-run/src/stream.rs | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/crates/astro-run/src/stream.rs b/crates/astro-run/src/stream.rs
index b212f6a..fba7e68 100644
--- a/crates/astro-run/src/stream.rs
+++ b/crates/astro-run/src/stream.rs
@@ -7,6 +7,7 @@ struct SharedState {
   logs: Vec<Log>,
   result: Option<RunResult>,
   waker: Option<Waker>,
+  senders: usize,
 }
 
 pub struct StreamReceiver {
@@ -58,11 +59,36 @@ impl Stream for StreamReceiver {
   }
 }
 
-#[derive(Clone)]
 pub struct StreamSender {
   state: Arc<Mutex<SharedState>>,
 }
 
+impl Clone for StreamSender {
+  fn clone(&self) -> Self {
+    self.state.lock().senders += 1;
+
+    Self {
+      state: self.state.clone(),
+    }
+  }
+}
+
+impl Drop for StreamSender {
+  fn drop(&mut self) {
+    let mut state = self.state.lock();
+    state.senders -= 1;
+
+    // Nobody is left to report a result, the receiver must not wait for it forever
+    if state.senders == 0 && state.result.is_none() {
+      state.result = Some(RunResult::Failed { exit_code: 1 });
+
+      if let Some(waker) = state.waker.take() {
+        waker.wake();
+      }
+    }
+  }
+}
+
 impl StreamSender {
   fn new(state: Arc<Mutex<SharedState>>) -> Self {
     Self { state }
@@ -128,6 +154,7 @@ pub fn stream() -> (StreamSender, StreamReceiver) {
     logs: Vec::new(),
     waker: None,
     result: None,
+    senders: 1,
   }));
 
   let sender = StreamSender::new(state.clone());
-- 
2.43.0


From 67a5705735296e82c767c04033e8c43ddcd6a16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:42 +0000
Subject: [PATCH 06/21] fix: report a job that panicked as failed

A panic in a runner or plugin killed the job's task without a result and the
workflow waited for it forever.
---
 crates/astro-run/src/execution_context/mod.rs |  4 ++++
 crates/astro-run/src/workflow/mod.rs          | 20 ++++++++++++++++++-
 2 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/crates/astro-run/src/execution_context/mod.rs b/crates/astro-run/src/execution_context/mod.rs
index 208cc27..d655413 100644
--- a/crates/astro-run/src/execution_context/mod.rs
+++ b/crates/astro-run/src/execution_context/mod.rs
@@ -213,6 +213,10 @@ impl ExecutionContext {
       .unwrap_or(false)
   }
 
+  pub(crate) fn unregister_job(&self, job_id: &JobId) {
+    self.signal_manager.unregister_signal(job_id);
+  }
+
   pub(crate) async fn is_match(&self, condition: &Condition) -> bool {
     self.condition_matcher.is_match(condition).await
   }
diff --git a/crates/astro-run/src/workflow/mod.rs b/crates/astro-run/src/workflow/mod.rs
index 4e8840d..ddbcf13 100644
--- a/crates/astro-run/src/workflow/mod.rs
+++ b/crates/astro-run/src/workflow/mod.rs
@@ -149,7 +149,25 @@ impl Workflow {
 
   fn run_job(&self, key: Id, job: job::Job, context: ExecutionContext, sender: Sender<Result>) {
     tokio::spawn(async move {
-      let result = job.run(context).await;
+      let job_id = job.id.clone();
+      let started_at = chrono::Utc::now();
+      let job_context = context.clone();
+
+      let result = match tokio::spawn(async move { job.run(job_context).await }).await {
+        Ok(result) => result,
+        Err(err) => {
+          log::error!("Job {} panicked: {}", key, err);
+          context.unregister_job(&job_id);
+
+          JobRunResult {
+            id: job_id,
+            state: WorkflowState::Failed,
+            started_at: Some(started_at),
+            completed_at: Some(chrono::Utc::now()),
+            steps: vec![],
+          }
+        }
+      };
 
       if let Err(err) = sender.send((key.clone(), result)).await {
         log::error!("Failed to send job result for job {}: {}", key, err);
-- 
2.43.0


From 3dc059b8874a4815dcf6e4238c5c659807ccbb9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:58 +0000
Subject: [PATCH 07/21] fix: reject workflows with circular dependencies

Only workflows in which every job has dependencies were rejected. With one
independent job, a cycle among the others was accepted and the run never ended.
---
 crates/astro-run/src/user_config.rs | 37 +++++++++++++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/crates/astro-run/src/user_config.rs b/crates/astro-run/src/user_config.rs
index 20e07ff..a84110a 100644
--- a/crates/astro-run/src/user_config.rs
+++ b/crates/astro-run/src/user_config.rs
@@ -113,6 +113,43 @@ impl UserWorkflow {
       ));
     }
 
+    Self::validate_acyclic(workflow)
+  }
+
+  /// Every job must become ready at some point, a job that takes part in a cycle
+  /// (or depends on one) would be waited for forever.
+  fn validate_acyclic(workflow: &UserWorkflow) -> Result<()> {
+    let mut waiting: HashMap<&Id, &UserJob> = workflow.jobs.iter().collect();
+
+    loop {
+      let ready: Vec<&Id> = waiting
+        .iter()
+        .filter(|(_, job)| {
+          !job
+            .depends_on
+            .iter()
+            .flatten()
+            .any(|key| waiting.contains_key(key))
+        })
+        .map(|(key, _)| *key)
+        .collect();
+
+      if ready.is_empty() {
+        break;
+      }
+
+      for key in ready {
+        waiting.remove(key);
+      }
+    }
+
+    if let Some(job_name) = waiting.keys().min() {
+      return Err(Error::workflow_config_error(format!(
+        "Job {} has circular dependencies",
+        job_name
+      )));
+    }
+
     Ok(())
   }
 }
-- 
2.43.0


From 86e521c9910a0fa25041046cac9207df63971faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:58 +0000
Subject: [PATCH 08/21] fix: do not let an invalid pattern disable the patterns
 after it

The first invalid pattern ended the search, so the outcome depended on the
order of the patterns.
---
 crates/astro-run/src/types/condition.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/crates/astro-run/src/types/condition.rs b/crates/astro-run/src/types/condition.rs
index 2be4f91..bb02fcf 100644
--- a/crates/astro-run/src/types/condition.rs
+++ b/crates/astro-run/src/types/condition.rs
@@ -110,7 +110,6 @@ fn is_match_patterns(values: &Vec<String>, patterns: &Vec<String>) -> bool {
         }
         Err(err) => {
           log::error!("Invalid glob pattern: {}", err);
-          return false;
         }
       }
     }
-- 
2.43.0


From 99f70eb5e1aca807574ae70bd7c6447ccee57004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:27 +0000
Subject: [PATCH 09/21] fix: match conditions against the complete list of
 changed files

Only the first page of the files of a commit (300) or of a pull request (30) was
considered, so a condition on any later file did not match.
---
 .../execution_context/condition_matcher.rs    | 92 ++++++++++++++-----
 1 file changed, 67 insertions(+), 25 deletions(-)

diff --git a/crates/astro-run/src/execution_context/condition_matcher.rs b/crates/astro-run/src/execution_context/condition_matcher.rs
index 3249f17..565ca93 100644
--- a/crates/astro-run/src/execution_context/condition_matcher.rs
+++ b/crates/astro-run/src/execution_context/condition_matcher.rs
@@ -1,5 +1,8 @@
 use crate::{Condition, ConditionPayload, Error, GithubAuthorization, Result, TriggerEvent};
-use octocrate::{APIConfig, AppAuthorization, GitHubAPI, PersonalAccessToken};
+use octocrate::{
+  pulls::list_files, repos::get_commit, APIConfig, AppAuthorization, GitHubAPI, GitHubResponse,
+  PersonalAccessToken,
+};
 use parking_lot::Mutex;
 use std::sync::Arc;
 
@@ -87,17 +90,33 @@ impl ConditionMatcher {
     } = self.event.as_ref().unwrap();
     let github_api = self.get_github_api_by_repo(repo_owner, repo_name).await?;
 
-    let commit = github_api
-      .repos
-      .get_commit(repo_owner, repo_name, sha)
-      .send()
-      .await
-      .map_err(|e| Error::internal_runtime_error(format!("Failed to get commit: {}", e)))?;
-
-    let files: Vec<String> = commit
-      .files
-      .map(|files| files.iter().map(|f| f.filename.clone()).collect())
-      .unwrap_or(vec![]);
+    let mut files: Vec<String> = vec![];
+
+    // The files of a commit are paginated
+    for page in 1.. {
+      let response = github_api
+        .repos
+        .get_commit(repo_owner, repo_name, sha)
+        .query(&get_commit::Query::builder().page(page).build())
+        .send_with_response()
+        .await
+        .map_err(|e| Error::internal_runtime_error(format!("Failed to get commit: {}", e)))?;
+
+      let has_next_page = has_next_page(&response);
+
+      files.extend(
+        response
+          .data
+          .files
+          .unwrap_or_default()
+          .into_iter()
+          .map(|f| f.filename),
+      );
+
+      if !has_next_page {
+        break;
+      }
+    }
 
     Ok(files)
   }
@@ -111,20 +130,35 @@ impl ConditionMatcher {
     } = self.event.as_ref().unwrap();
     let github_api = self.get_github_api_by_repo(repo_owner, repo_name).await?;
 
-    let pull_request_files = github_api
-      .pulls
-      .list_files(
-        repo_owner,
-        repo_name,
-        pr_number.ok_or(Error::workflow_config_error("pr_number is not provided"))?,
-      )
-      .send()
-      .await
-      .map_err(|e| {
-        Error::internal_runtime_error(format!("Failed to get pull request files: {}", e))
-      })?;
+    let pr_number = pr_number.ok_or(Error::workflow_config_error("pr_number is not provided"))?;
+    let mut files: Vec<String> = vec![];
+
+    for page in 1.. {
+      let response = github_api
+        .pulls
+        .list_files(repo_owner, repo_name, pr_number)
+        .query(
+          &list_files::Query::builder()
+            .per_page(100)
+            .page(page)
+            .build(),
+        )
+        .send_with_response()
+        .await
+        .map_err(|e| {
+          Error::internal_runtime_error(format!("Failed to get pull request files: {}", e))
+        })?;
+
+      let has_next_page = has_next_page(&response);
+
+      files.extend(response.data.into_iter().map(|f| f.filename));
+
+      if !has_next_page {
+        break;
+      }
+    }
 
-    Ok(pull_request_files.into_iter().map(|f| f.filename).collect())
+    Ok(files)
   }
 
   async fn get_github_api_by_repo(
@@ -204,6 +238,14 @@ impl ConditionMatcher {
   }
 }
 
+fn has_next_page<T>(response: &GitHubResponse<T>) -> bool {
+  response
+    .headers
+    .get("link")
+    .and_then(|link| link.to_str().ok())
+    .is_some_and(|link| link.contains(r#"rel="next""#))
+}
+
 #[cfg(test)]
 mod tests {
   use super::*;
-- 
2.43.0


From 3c8e1846be298c5b8448a7b56cd0d382fcdc8e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:49 +0000
Subject: [PATCH 10/21] fix: do not place host steps on the job's runner when
 it has no host support

---
 crates/scheduler/src/default.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/scheduler/src/default.rs b/crates/scheduler/src/default.rs
index 8ca7251..d3b4797 100644
--- a/crates/scheduler/src/default.rs
+++ b/crates/scheduler/src/default.rs
@@ -62,8 +62,9 @@ impl Scheduler for DefaultScheduler {
         if r.id == last_used_id {
           if is_runs_on_host {
             let container_name = container_name.clone().unwrap();
-            return r.support_host && container_name == format!("host/{}", r.os)
-              || container_name == format!("host/{}-{}", r.os, r.arch);
+            return r.support_host
+              && (container_name == format!("host/{}", r.os)
+                || container_name == format!("host/{}-{}", r.os, r.arch));
           }
 
           return true;
-- 
2.43.0


From 92d38f21ecc0f3ffa53c5a1a4317e62ffae8bc6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:47 +0000
Subject: [PATCH 11/21] fix: pick a runner and record its load in one step

---
 crates/scheduler/src/default.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/crates/scheduler/src/default.rs b/crates/scheduler/src/default.rs
index d3b4797..d80699e 100644
--- a/crates/scheduler/src/default.rs
+++ b/crates/scheduler/src/default.rs
@@ -55,7 +55,10 @@ impl Scheduler for DefaultScheduler {
 
     log::trace!("Is runs on host: {}", is_runs_on_host);
 
-    let last_used_id = self.state.lock().job_runners.get(&job_id).cloned();
+    // The pick and its record form one step: a concurrent pick has to see the load of this one
+    let mut state = self.state.lock();
+
+    let last_used_id = state.job_runners.get(&job_id).cloned();
 
     if let Some(last_used_id) = last_used_id {
       runner = runners.iter().find(|r| {
@@ -77,12 +80,11 @@ impl Scheduler for DefaultScheduler {
     }
 
     if runner.is_none() {
-      runner = self.pick_runner(runners, container_name);
+      runner = self.pick_runner(runners, container_name, &state.runs_count);
       log::trace!("Picked runner: {:?}", runner);
     }
 
     if let Some(runner) = &runner {
-      let mut state = self.state.lock();
       state
         .step_runners
         .insert(ctx.command.id.clone(), runner.id.clone());
@@ -134,6 +136,7 @@ impl DefaultScheduler {
     &'b self,
     runners: &'a [RunnerMetadata],
     container: Option<String>,
+    runs_count: &HashMap<String, i32>,
   ) -> Option<&'a RunnerMetadata> {
     let is_runs_on_host = container
       .clone()
@@ -143,15 +146,15 @@ impl DefaultScheduler {
     if is_runs_on_host {
       self.pick_host_runner(runners, container.unwrap())
     } else {
-      self.pick_docker_runner(runners)
+      self.pick_docker_runner(runners, runs_count)
     }
   }
 
   fn pick_docker_runner<'a, 'b: 'a>(
     &'b self,
     runners: &'a [RunnerMetadata],
+    runs_count: &HashMap<String, i32>,
   ) -> Option<&'a RunnerMetadata> {
-    let runs_count = self.state.lock().runs_count.clone();
     let min_runs = runners
       .iter()
       .filter(|r| r.support_docker)
-- 
2.43.0


From 8a5f6161cac1c0538cfbef56ad57cc0847d6bfd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:45 +0000
Subject: [PATCH 12/21] fix: tell the scheduler of a remote client about runs
 and completions

---
 crates/remote-runner/src/client.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/crates/remote-runner/src/client.rs b/crates/remote-runner/src/client.rs
index b06dee4..1f52c25 100644
--- a/crates/remote-runner/src/client.rs
+++ b/crates/remote-runner/src/client.rs
@@ -72,6 +72,8 @@ impl astro_run::Runner for AstroRunRemoteRunnerClient {
   }
 
   async fn on_step_completed(&self, result: astro_run::StepRunResult) -> HookNoopResult {
+    self.scheduler.on_step_completed(result.clone());
+
     let event = ProtocolEvent::StepCompleted(result);
 
     if let Err(err) = self.event_sender.send(event) {
@@ -82,6 +84,8 @@ impl astro_run::Runner for AstroRunRemoteRunnerClient {
   }
 
   async fn on_job_completed(&self, result: astro_run::JobRunResult) -> HookNoopResult {
+    self.scheduler.on_job_completed(result.clone());
+
     let event = ProtocolEvent::JobCompleted(result);
 
     if let Err(err) = self.event_sender.send(event) {
@@ -92,6 +96,8 @@ impl astro_run::Runner for AstroRunRemoteRunnerClient {
   }
 
   async fn on_workflow_completed(&self, result: astro_run::WorkflowRunResult) -> HookNoopResult {
+    self.scheduler.on_workflow_completed(result.clone());
+
     let event = ProtocolEvent::WorkflowCompleted(result);
 
     if let Err(err) = self.event_sender.send(event) {
@@ -112,6 +118,8 @@ impl astro_run::Runner for AstroRunRemoteRunnerClient {
   }
 
   async fn on_run_step(&self, event: astro_run::RunStepEvent) -> HookNoopResult {
+    self.scheduler.on_run_step(event.source.clone());
+
     let event = ProtocolEvent::RunStep(event);
 
     if let Err(err) = self.event_sender.send(event) {
@@ -122,6 +130,8 @@ impl astro_run::Runner for AstroRunRemoteRunnerClient {
   }
 
   async fn on_run_job(&self, event: astro_run::RunJobEvent) -> HookNoopResult {
+    self.scheduler.on_run_job(event.source.clone());
+
     let event = ProtocolEvent::RunJob(event);
 
     if let Err(err) = self.event_sender.send(event) {
@@ -132,6 +142,8 @@ impl astro_run::Runner for AstroRunRemoteRunnerClient {
   }
 
   async fn on_run_workflow(&self, event: astro_run::RunWorkflowEvent) -> HookNoopResult {
+    self.scheduler.on_run_workflow(event.source.clone());
+
     let event = ProtocolEvent::RunWorkflow(event);
 
     if let Err(err) = self.event_sender.send(event) {
-- 
2.43.0


From 399b0abc12a4e674ae61fb7324ba891d9db49e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:09 +0000
Subject: [PATCH 13/21] fix: forward every event to every remote runner

---
 crates/remote-runner/src/client.rs | 90 ++++++++++++++++--------------
 1 file changed, 47 insertions(+), 43 deletions(-)

diff --git a/crates/remote-runner/src/client.rs b/crates/remote-runner/src/client.rs
index 1f52c25..25a6b14 100644
--- a/crates/remote-runner/src/client.rs
+++ b/crates/remote-runner/src/client.rs
@@ -6,7 +6,8 @@ use astro_run_protocol::{ProtocolEvent, RunResponse};
 use astro_run_scheduler::Scheduler;
 use parking_lot::Mutex;
 use std::{collections::HashMap, sync::Arc};
-use tokio::sync::broadcast;
+use tokio::sync::mpsc;
+use tokio::task::JoinSet;
 use tokio_stream::StreamExt;
 
 type GRPCClient = RemoteRunnerClient<tonic::transport::Channel>;
@@ -16,13 +17,14 @@ struct Client {
   id: String,
   metadata: RunnerMetadata,
   client: GRPCClient,
+  /// Events waiting to be sent to this runner
+  events: mpsc::UnboundedSender<ProtocolEvent>,
 }
 
 #[derive(Clone)]
 pub struct AstroRunRemoteRunnerClient {
   clients: Arc<Mutex<HashMap<String, Client>>>,
   scheduler: Arc<Box<dyn Scheduler>>,
-  event_sender: broadcast::Sender<ProtocolEvent>,
 }
 
 #[astro_run::async_trait]
@@ -64,9 +66,7 @@ impl astro_run::Runner for AstroRunRemoteRunnerClient {
   async fn on_log(&self, log: astro_run::WorkflowLog) -> HookNoopResult {
     let event = ProtocolEvent::StepLog(log);
 
-    if let Err(err) = self.event_sender.send(event) {
-      log::error!("Failed to send event: {}", err);
-    }
+    self.send_event(event);
 
     Ok(())
   }
@@ -76,9 +76,7 @@ impl astro_run::Runner for AstroRunRemoteRunnerClient {
 
     let event = ProtocolEvent::StepCompleted(result);
 
-    if let Err(err) = self.event_sender.send(event) {
-      log::error!("Failed to send event: {}", err);
-    }
+    self.send_event(event);
 
     Ok(())
   }
@@ -88,9 +86,7 @@ impl astro_run::Runner for AstroRunRemoteRunnerClient {
 
     let event = ProtocolEvent::JobCompleted(result);
 
-    if let Err(err) = self.event_sender.send(event) {
-      log::error!("Failed to send event: {}", err);
-    }
+    self.send_event(event);
 
     Ok(())
   }
@@ -100,9 +96,7 @@ impl astro_run::Runner for AstroRunRemoteRunnerClient {
 
     let event = ProtocolEvent::WorkflowCompleted(result);
 
-    if let Err(err) = self.event_sender.send(event) {
-      log::error!("Failed to send event: {}", err);
-    }
+    self.send_event(event);
 
     Ok(())
   }
@@ -110,9 +104,7 @@ impl astro_run::Runner for AstroRunRemoteRunnerClient {
   async fn on_state_change(&self, event: astro_run::WorkflowStateEvent) -> HookNoopResult {
     let event = ProtocolEvent::StateChange(event);
 
-    if let Err(err) = self.event_sender.send(event) {
-      log::error!("Failed to send event: {}", err);
-    }
+    self.send_event(event);
 
     Ok(())
   }
@@ -122,9 +114,7 @@ impl astro_run::Runner for AstroRunRemoteRunnerClient {
 
     let event = ProtocolEvent::RunStep(event);
 
-    if let Err(err) = self.event_sender.send(event) {
-      log::error!("Failed to send event: {}", err);
-    }
+    self.send_event(event);
 
     Ok(())
   }
@@ -134,9 +124,7 @@ impl astro_run::Runner for AstroRunRemoteRunnerClient {
 
     let event = ProtocolEvent::RunJob(event);
 
-    if let Err(err) = self.event_sender.send(event) {
-      log::error!("Failed to send event: {}", err);
-    }
+    self.send_event(event);
 
     Ok(())
   }
@@ -146,9 +134,7 @@ impl astro_run::Runner for AstroRunRemoteRunnerClient {
 
     let event = ProtocolEvent::RunWorkflow(event);
 
-    if let Err(err) = self.event_sender.send(event) {
-      log::error!("Failed to send event: {}", err);
-    }
+    self.send_event(event);
 
     Ok(())
   }
@@ -183,18 +169,20 @@ impl AstroRunRemoteRunnerClient {
   where
     T: Into<String>,
   {
-    let mut receiver = self.event_sender.subscribe();
+    let mut forwards = JoinSet::new();
 
     for url in urls {
       let url = url.into();
       match Self::connect(url.clone()).await {
-        Ok(client) => {
+        Ok((client, events)) => {
           let mut clients = self.clients.lock();
-          if clients.contains_key(&client.id) {
+          // A runner whose events are no longer forwarded can be connected again
+          if matches!(clients.get(&client.id), Some(c) if !c.events.is_closed()) {
             log::warn!("Runner already connected: {}", client.id);
             continue;
           }
           log::trace!("Connected to runner: {}", client.metadata.id);
+          forwards.spawn(Self::forward_events(client.client.clone(), events));
           clients.insert(client.id.clone(), client);
         }
         Err(err) => {
@@ -203,20 +191,34 @@ impl AstroRunRemoteRunnerClient {
       }
     }
 
-    while let Ok(event) = receiver.recv().await {
-      let clients = self.clients.lock().clone();
-      for (_, mut client) in clients {
-        if let Err(err) = client.client.send_event(event.clone()).await {
-          log::error!("Failed to send event: {}", err);
-        }
-      }
-    }
+    // Events are forwarded for as long as this call is running
+    std::future::pending::<()>().await;
 
     #[cfg(not(tarpaulin_include))]
     Ok(())
   }
 
-  async fn connect(url: String) -> Result<Client> {
+  /// Queue an event for every connected runner
+  fn send_event(&self, event: ProtocolEvent) {
+    for client in self.clients.lock().values() {
+      if client.events.send(event.clone()).is_err() {
+        log::error!("Failed to send event to {}: not started", client.id);
+      }
+    }
+  }
+
+  async fn forward_events(
+    mut client: GRPCClient,
+    mut events: mpsc::UnboundedReceiver<ProtocolEvent>,
+  ) {
+    while let Some(event) = events.recv().await {
+      if let Err(err) = client.send_event(event).await {
+        log::error!("Failed to send event: {}", err);
+      }
+    }
+  }
+
+  async fn connect(url: String) -> Result<(Client, mpsc::UnboundedReceiver<ProtocolEvent>)> {
     let mut client = GRPCClient::connect(url)
       .await
       .map_err(|e| Error::internal_runtime_error(format!("Failed to connect: {}", e)))?;
@@ -239,11 +241,16 @@ impl AstroRunRemoteRunnerClient {
       )));
     }
 
-    Ok(Client {
+    let (sender, events) = mpsc::unbounded_channel();
+
+    let client = Client {
       id: metadata.id.clone(),
       metadata,
       client,
-    })
+      events: sender,
+    };
+
+    Ok((client, events))
   }
 
   async fn run(sender: astro_run::StreamSender, client: Client, context: Context) -> Result<()> {
@@ -336,11 +343,8 @@ impl AstroRunRemoteRunnerClientBuilder {
       .scheduler
       .unwrap_or_else(|| Box::new(astro_run_scheduler::DefaultScheduler::new()));
 
-    let (event_sender, _) = broadcast::channel(30);
-
     Ok(AstroRunRemoteRunnerClient {
       scheduler: Arc::new(scheduler),
-      event_sender,
       clients: Arc::new(Mutex::new(HashMap::new())),
     })
   }
-- 
2.43.0


From b45ba2bc5bea324190f1e3c70f6600549228503d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:44 +0000
Subject: [PATCH 14/21] fix: keep the signal of a remote run until that run is
 over

The completed event of an earlier run of the same workflow, delivered late,
removed the signal of a step that was running again, so that neither a
cancellation nor a timeout reached it.
---
 crates/remote-runner/src/runner_server.rs | 41 ++++++++++++++++++-----
 1 file changed, 33 insertions(+), 8 deletions(-)

diff --git a/crates/remote-runner/src/runner_server.rs b/crates/remote-runner/src/runner_server.rs
index cfc4125..6b190d9 100644
--- a/crates/remote-runner/src/runner_server.rs
+++ b/crates/remote-runner/src/runner_server.rs
@@ -15,7 +15,27 @@ pub struct AstroRunRemoteRunnerServer {
   support_host: bool,
   runner: Arc<Box<dyn Runner>>,
   plugin_driver: SharedPluginDriver,
-  signals: Arc<Mutex<HashMap<StepId, astro_run::AstroRunSignal>>>,
+  signals: Signals,
+}
+
+type Signals = Arc<Mutex<HashMap<StepId, Arc<astro_run::AstroRunSignal>>>>;
+
+/// Removes the signal of a run when the run is over
+struct SignalGuard {
+  id: StepId,
+  signal: Arc<astro_run::AstroRunSignal>,
+  signals: Signals,
+}
+
+impl Drop for SignalGuard {
+  fn drop(&mut self) {
+    let mut signals = self.signals.lock();
+
+    // The step may be running again by now
+    if matches!(signals.get(&self.id), Some(signal) if Arc::ptr_eq(signal, &self.signal)) {
+      signals.remove(&self.id);
+    }
+  }
 }
 
 impl AstroRunRemoteRunnerServer {
@@ -43,10 +63,12 @@ impl AstroRunRemoteRunnerServer {
     runner: Arc<Box<dyn Runner>>,
     sender: mpsc::Sender<Result<RunResponse, tonic::Status>>,
     ctx: astro_run::Context,
+    guard: SignalGuard,
   ) {
     let id = ctx.id.clone();
 
     tokio::spawn(async move {
+      let _guard = guard;
       let mut stream = runner.run(ctx).await?;
 
       while let Some(log) = stream.next().await {
@@ -85,14 +107,22 @@ impl RemoteRunnerExt for AstroRunRemoteRunnerServer {
 
     let context = request.into_inner();
 
+    let signal = Arc::new(context.signal.clone());
+
     self
       .signals
       .lock()
-      .insert(context.id.clone(), context.signal.clone());
+      .insert(context.id.clone(), signal.clone());
+
+    let guard = SignalGuard {
+      id: context.id.clone(),
+      signal,
+      signals: self.signals.clone(),
+    };
 
     let runner = self.runner.clone();
 
-    Self::run(runner, tx, context);
+    Self::run(runner, tx, context, guard);
 
     Ok(tonic::Response::new(ReceiverStream::new(rx)))
   }
@@ -121,11 +151,6 @@ impl RemoteRunnerExt for AstroRunRemoteRunnerServer {
         }
       }
       ProtocolEvent::StepCompleted(result) => {
-        // Remove signal once step is completed
-        let step_id = &result.id;
-
-        self.signals.lock().remove(step_id);
-
         // Dispatch event to plugins and runner
         self.plugin_driver.on_step_completed(result.clone()).await;
         if let Err(err) = self.runner.on_step_completed(result).await {
-- 
2.43.0


From 9d9eb0c38bb4cdaca077ed81640e27604fbac577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:34 +0000
Subject: [PATCH 15/21] fix: report the whole output of a command, also after
 one of its streams is closed

---
 crates/runner/src/command.rs | 78 ++++++++++++++++++------------------
 1 file changed, 39 insertions(+), 39 deletions(-)

diff --git a/crates/runner/src/command.rs b/crates/runner/src/command.rs
index bfff992..46564f5 100644
--- a/crates/runner/src/command.rs
+++ b/crates/runner/src/command.rs
@@ -5,7 +5,7 @@ use std::{
   process::Stdio,
 };
 use tokio::{
-  io::{AsyncBufReadExt, BufReader},
+  io::{AsyncBufReadExt, AsyncRead, BufReader},
   process::Command as Cmd,
 };
 
@@ -73,44 +73,11 @@ impl Command {
       "Failed to get stderr from child process".to_string(),
     ))?;
 
-    let out = BufReader::new(out);
-    let err = BufReader::new(err);
-
-    let mut lines = out.lines();
-    let mut errors = err.lines();
-
-    loop {
-      tokio::select! {
-        line = lines.next_line() => {
-          match line {
-            Ok(Some(line)) => {
-              sender.log(line);
-            }
-            Ok(None) => {
-                break;
-            }
-            Err(err) => {
-              sender.error(err.to_string());
-              break;
-            }
-          }
-        }
-        error = errors.next_line() => {
-          match error {
-            Ok(Some(error)) => {
-              sender.error(error);
-            }
-            Ok(None) => {
-              break;
-            }
-            Err(err) => {
-              sender.error(err.to_string());
-              break;
-            }
-          }
-        }
-      }
-    }
+    // One of the streams may be closed long before the other, read both to their end
+    tokio::join!(
+      read_lines(out, &sender, StreamSender::log),
+      read_lines(err, &sender, StreamSender::error),
+    );
 
     let status = child.wait().await.map_err(|err| {
       Error::internal_runtime_error(format!("Failed to wait for child process: {}", err))
@@ -164,6 +131,39 @@ impl Command {
   }
 }
 
+/// Log every line of the output, also those which are not valid text
+async fn read_lines<R: AsyncRead + Unpin>(
+  output: R,
+  sender: &StreamSender,
+  log: fn(&StreamSender, String),
+) {
+  let mut reader = BufReader::new(output);
+  let mut line = vec![];
+
+  loop {
+    line.clear();
+
+    match reader.read_until(b'\n', &mut line).await {
+      Ok(0) => break,
+      Ok(_) => {
+        if line.ends_with(b"\n") {
+          line.pop();
+
+          if line.ends_with(b"\r") {
+            line.pop();
+          }
+        }
+
+        log(sender, String::from_utf8_lossy(&line).into_owned());
+      }
+      Err(err) => {
+        sender.error(err.to_string());
+        break;
+      }
+    }
+  }
+}
+
 #[cfg(test)]
 mod tests {
   use super::*;
-- 
2.43.0


From 8f9a657bf09e259e681ffb9548f7255137f4c143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:47 +0000
Subject: [PATCH 16/21] fix: stop the command of a cancelled or timed out step
 with its children

---
 crates/runner/src/command.rs | 35 +++++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/crates/runner/src/command.rs b/crates/runner/src/command.rs
index 46564f5..eac49a3 100644
--- a/crates/runner/src/command.rs
+++ b/crates/runner/src/command.rs
@@ -1,5 +1,7 @@
 use astro_run::{Error, Result, RunResult, StreamSender};
 use serde::{Deserialize, Serialize};
+#[cfg(unix)]
+use std::os::unix::process::CommandExt;
 use std::{
   path::{Path, PathBuf},
   process::Stdio,
@@ -58,7 +60,13 @@ impl Command {
 
   pub async fn run(&mut self, sender: StreamSender) -> Result<()> {
     let mut command = self.build_command();
+
+    // The command gets a process group of its own, so that it can be stopped with its children
+    #[cfg(unix)]
+    command.as_std_mut().process_group(0);
+
     let mut child = command
+      .kill_on_drop(true)
       .stdout(Stdio::piped())
       .stderr(Stdio::piped())
       .spawn()
@@ -66,6 +74,9 @@ impl Command {
         Error::internal_runtime_error(format!("Failed to spawn child process: {}", err))
       })?;
 
+    #[cfg(unix)]
+    let group = child.id().map(ProcessGroup);
+
     let out = child.stdout.take().ok_or(Error::internal_runtime_error(
       "Failed to get stdout from child process".to_string(),
     ))?;
@@ -83,6 +94,10 @@ impl Command {
       Error::internal_runtime_error(format!("Failed to wait for child process: {}", err))
     })?;
 
+    // The command has ended by itself
+    #[cfg(unix)]
+    std::mem::forget(group);
+
     let res = status
       .code()
       .map(|code| {
@@ -131,6 +146,26 @@ impl Command {
   }
 }
 
+/// The process group of a running command, stopped when it goes out of scope: the command is
+/// dropped before it ends when its step is cancelled or timed out.
+#[cfg(unix)]
+struct ProcessGroup(u32);
+
+#[cfg(unix)]
+impl Drop for ProcessGroup {
+  fn drop(&mut self) {
+    let status = std::process::Command::new("sh")
+      .arg("-c")
+      .arg(format!("kill -s KILL -- -{}", self.0))
+      .stderr(Stdio::null())
+      .status();
+
+    if let Err(err) = status {
+      log::error!("Failed to stop process group {}: {}", self.0, err);
+    }
+  }
+}
+
 /// Log every line of the output, also those which are not valid text
 async fn read_lines<R: AsyncRead + Unpin>(
   output: R,
-- 
2.43.0


From 6d1561a319037d60ddd61777cf30ea3cdd11fd9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:47 +0000
Subject: [PATCH 17/21] fix: end a step whose signal came before it was started
 as that signal says

---
 crates/runner/src/executors/docker.rs | 7 +++++++
 crates/runner/src/executors/host.rs   | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/crates/runner/src/executors/docker.rs b/crates/runner/src/executors/docker.rs
index 8623861..7f9cc71 100644
--- a/crates/runner/src/executors/docker.rs
+++ b/crates/runner/src/executors/docker.rs
@@ -73,6 +73,13 @@ impl Executor for DockerExecutor {
       log::trace!("Step run finished");
     } else {
       log::trace!("Step is already completed");
+
+      // The step has not been started, but it has to end as the signal says
+      if ctx.signal.is_cancelled() {
+        sender.cancelled();
+      } else {
+        sender.timeout();
+      }
     }
 
     Ok(())
diff --git a/crates/runner/src/executors/host.rs b/crates/runner/src/executors/host.rs
index fb1f244..a25a90f 100644
--- a/crates/runner/src/executors/host.rs
+++ b/crates/runner/src/executors/host.rs
@@ -57,6 +57,13 @@ impl Executor for HostExecutor {
       log::trace!("Step run finished");
     } else {
       log::trace!("Step run has been completed before it started");
+
+      // The step has not been started, but it has to end as the signal says
+      if ctx.signal.is_cancelled() {
+        sender.cancelled();
+      } else {
+        sender.timeout();
+      }
     }
 
     Ok(())
-- 
2.43.0


From d78b4c406b68e09d940d19fa224d0f1064ab947f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:09 +0000
Subject: [PATCH 18/21] fix: finish a step when its command has ended

The executors waited for a signal after a command that ended by itself: the
after-run hooks were not called and the step's own directory was not removed.
The job's data directory belongs to all steps of the job, it is removed with
the workflow.
---
 crates/runner/src/executors/docker.rs |  6 ++++--
 crates/runner/src/executors/host.rs   | 10 ++++------
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/crates/runner/src/executors/docker.rs b/crates/runner/src/executors/docker.rs
index 7f9cc71..9b19fb8 100644
--- a/crates/runner/src/executors/docker.rs
+++ b/crates/runner/src/executors/docker.rs
@@ -48,8 +48,10 @@ impl Executor for DockerExecutor {
 
       // Run the command
       tokio::select! {
-        Err(err) = command.run(sender.clone()) => {
-          log::error!("Step run error: {}", err);
+        result = command.run(sender.clone()) => {
+          if let Err(err) = result {
+            log::error!("Step run error: {}", err);
+          }
         }
         signal = ctx.signal.recv() => {
           log::trace!("Killing running docker: {}", metadata.docker_name);
diff --git a/crates/runner/src/executors/host.rs b/crates/runner/src/executors/host.rs
index a25a90f..b07ad59 100644
--- a/crates/runner/src/executors/host.rs
+++ b/crates/runner/src/executors/host.rs
@@ -37,11 +37,12 @@ impl Executor for HostExecutor {
 
       tokio::select! {
         // Run the command
-        Err(err) = command.run(sender.clone()) => {
-          log::error!("Step run error: {}", err);
+        result = command.run(sender.clone()) => {
+          if let Err(err) = result {
+            log::error!("Step run error: {}", err);
+          }
         }
         signal = ctx.signal.recv() => {
-          // TODO: cancel the command
           log::trace!("Step run received signal: {:?}", signal);
           if let astro_run::Signal::Cancel = signal {
             sender.cancelled();
@@ -51,9 +52,6 @@ impl Executor for HostExecutor {
         }
       }
 
-      // Clean up working directory
-      fs::remove_dir_all(&metadata.job_data_directory).await?;
-
       log::trace!("Step run finished");
     } else {
       log::trace!("Step run has been completed before it started");
-- 
2.43.0


From 9a76f7cea99ab0a3e156f7b95b5b4cf13f6a4760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:09 +0000
Subject: [PATCH 19/21] fix: forget the trigger event of a workflow once it is
 completed

---
 crates/runner/src/astro_runner.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/runner/src/astro_runner.rs b/crates/runner/src/astro_runner.rs
index 749c753..9072f82 100644
--- a/crates/runner/src/astro_runner.rs
+++ b/crates/runner/src/astro_runner.rs
@@ -98,7 +98,7 @@ impl AstroRunner {
   }
 
   fn cleanup_workflow_working_directory(&self, result: astro_run::WorkflowRunResult) -> Result<()> {
-    let event = self.state.lock().workflow_events.get(&result.id).cloned();
+    let event = self.state.lock().workflow_events.remove(&result.id);
 
     let mut directory = self.working_directory.clone();
 
-- 
2.43.0


From 489a781417781bc38a1e488323a2a2c158e65e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:09 +0000
Subject: [PATCH 20/21] fix: complete the entrypoint before it is executed

---
 crates/runner/src/utils.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/runner/src/utils.rs b/crates/runner/src/utils.rs
index dd14606..a635635 100644
--- a/crates/runner/src/utils.rs
+++ b/crates/runner/src/utils.rs
@@ -26,6 +26,9 @@ pub async fn create_executable_file(file_path: &PathBuf, content: &String) -> Re
 
   file.write_all(content.as_bytes()).await?;
 
+  // The content is written in the background, the file must be complete when it is executed
+  file.flush().await?;
+
   // Fix Text file busy
   drop(file);
 
-- 
2.43.0


From 0dcb578300d4cce6ea9427eea9b7029237e9945e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:22 +0000
Subject: [PATCH 21/21] fix: pass configured texts to docker without letting
 the shell interpret them

---
 crates/runner/src/docker.rs           | 49 +++++++++++++++++++++++----
 crates/runner/src/executors/docker.rs |  4 +--
 2 files changed, 44 insertions(+), 9 deletions(-)

diff --git a/crates/runner/src/docker.rs b/crates/runner/src/docker.rs
index 64fc7bd..ad8055e 100644
--- a/crates/runner/src/docker.rs
+++ b/crates/runner/src/docker.rs
@@ -1,6 +1,41 @@
 use crate::command::Command;
 use std::collections::HashMap;
 
+/// Quote a text for the shell, which must not interpret any part of it.
+fn quote(text: impl AsRef<str>) -> String {
+  let (escape, special) = if cfg!(target_os = "windows") {
+    ('`', "`\"$")
+  } else {
+    ('\\', "\\`\"$")
+  };
+
+  let mut quoted = String::from('"');
+
+  for c in text.as_ref().chars() {
+    if special.contains(c) {
+      quoted.push(escape);
+    }
+
+    quoted.push(c);
+  }
+
+  quoted.push('"');
+
+  quoted
+}
+
+/// A text as one argument of a shell command, quoted if it has to be.
+pub fn argument(text: impl AsRef<str>) -> String {
+  let text = text.as_ref();
+  let is_plain = |c: char| c.is_ascii_alphanumeric() || "_-./:=@+,%".contains(c);
+
+  if !text.is_empty() && text.chars().all(is_plain) {
+    text.to_string()
+  } else {
+    quote(text)
+  }
+}
+
 #[derive(Debug, Clone)]
 pub struct Docker {
   pub image: String,
@@ -60,7 +95,7 @@ impl Docker {
   pub fn volume(mut self, from: impl Into<String>, to: impl Into<String>) -> Self {
     self
       .volumes
-      .push(format!("\"{}:{}\"", from.into(), to.into()));
+      .push(quote(format!("{}:{}", from.into(), to.into())));
     self
   }
 
@@ -76,7 +111,7 @@ impl Docker {
 
     for security_opt in &self.security_opts {
       docker_command.push("--security-opt".to_string());
-      docker_command.push(security_opt.to_string());
+      docker_command.push(argument(security_opt));
     }
 
     for volume in &self.volumes {
@@ -86,25 +121,25 @@ impl Docker {
 
     for (key, value) in &self.environments {
       docker_command.push("-e".to_string());
-      docker_command.push(format!("{}=\"{}\"", key, value));
+      docker_command.push(format!("{}={}", argument(key), quote(value)));
     }
 
     if let Some(working_dir) = &self.working_dir {
       docker_command.push("-w".to_string());
-      docker_command.push(working_dir.to_string());
+      docker_command.push(argument(working_dir));
     }
 
     if let Some(entrypoint) = &self.entrypoint {
       docker_command.push("--entrypoint".to_string());
-      docker_command.push(entrypoint.to_string());
+      docker_command.push(argument(entrypoint));
     }
 
     if let Some(name) = &self.name {
       docker_command.push("--name".to_string());
-      docker_command.push(name.to_string());
+      docker_command.push(argument(name));
     }
 
-    docker_command.push(self.image.clone());
+    docker_command.push(argument(&self.image));
 
     docker_command.join(" ")
   }
diff --git a/crates/runner/src/executors/docker.rs b/crates/runner/src/executors/docker.rs
index 9b19fb8..aefa5f9 100644
--- a/crates/runner/src/executors/docker.rs
+++ b/crates/runner/src/executors/docker.rs
@@ -1,6 +1,6 @@
 use crate::{
   command::Command,
-  docker::Docker,
+  docker::{argument, Docker},
   executors::Executor,
   metadata::{Metadata, PathBufTryToString},
   utils,
@@ -56,7 +56,7 @@ impl Executor for DockerExecutor {
         signal = ctx.signal.recv() => {
           log::trace!("Killing running docker: {}", metadata.docker_name);
           // Kill the container on step run error
-          Command::new(format!("docker kill {}", metadata.docker_name))
+          Command::new(format!("docker kill {}", argument(&metadata.docker_name)))
             .exec()
             .await
             .ok();
-- 
2.43.0

