From 256e243eb89429c14240552c4785acd9d5015917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:55 +0000
Subject: [PATCH 01/17] fix: num_ready of a queue must not wrap when a shutdown
 zeroed it first

---
 src/sync.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sync.rs b/src/sync.rs
index 1af1d8d..d5f1d97 100644
--- a/src/sync.rs
+++ b/src/sync.rs
@@ -632,7 +632,8 @@ impl ReadyTrackerClient {
             let (task, _priority) = receiver.recv().await?;
             if !task.taken.fetch_or(true, SeqCst) {
                 let mut x = self.queuestate.get_mut(&task.affinity.data).expect("bar");
-                x.num_ready -= 1;
+                // a shutdown sets num_ready to zero while items may still be in the queues
+                x.num_ready = x.num_ready.saturating_sub(1);
                 x.num_inflight += 1;
                 self.ratecounter_launch.update(std::time::Instant::now());
                 return Ok(task.id);
-- 
2.43.0


From b7ab3bf1ece03269eea85236263191a5c63f2fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:12 +0000
Subject: [PATCH 02/17] fix: call a task's preamble once, before it starts

Both the local runner and the /start handler call it before the task starts;
send_started called it a second time while the task was already running.
---
 src/sync.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/sync.rs b/src/sync.rs
index d5f1d97..d274988 100644
--- a/src/sync.rs
+++ b/src/sync.rs
@@ -645,12 +645,11 @@ impl ReadyTrackerClient {
     pub async fn send_started(
         &self,
         v: NodeIndex,
-        cmd: &Cmd,
+        _cmd: &Cmd,
         host: &str,
         pid: u32,
         slurm_jobid: String,
     ) {
-        cmd.call_preamble();
         let r = self
             .s
             .send(Event::Started(StartedEvent {
-- 
2.43.0


From b6252954bef78c1c19451153c227353c73e5de57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:57 +0000
Subject: [PATCH 03/17] fix: feed a task's fd_input while its output is read

The input was written completely before the output was read: a task that wrote
more than a pipe holds before it read its input, or that exited without reading
all of it, hung the run. The child's ends of the pipes were nonblocking, so that
a task got EAGAIN when it read faster than it was fed.
---
 src/bin/execgraph-remote.rs | 32 ++++++++---------
 src/localrunner.rs          | 68 ++++++++++++++++++++++++++++---------
 2 files changed, 66 insertions(+), 34 deletions(-)

diff --git a/src/bin/execgraph-remote.rs b/src/bin/execgraph-remote.rs
index a3ab2f8..6767a3b 100644
--- a/src/bin/execgraph-remote.rs
+++ b/src/bin/execgraph-remote.rs
@@ -5,7 +5,7 @@ use execgraph::{
     http_extensions::reqwest::{RequestBuilderExt, ResponseExt},
     httpinterface::*,
     localrunner::{
-        wait_with_output, ChildOutput, ChildProcessError
+        make_pipes, wait_with_output, write_all_input, ChildOutput, ChildProcessError
     },
 };
 use execgraph::logfile2::ValueMaps;
@@ -18,7 +18,6 @@ use notify::Watcher;
 use reqwest::header::{HeaderMap, HeaderValue};
 use std::{convert::TryInto, io::Read, os::unix::prelude::AsRawFd, sync::atomic::AtomicBool, time::Duration};
 use thiserror::Error;
-use tokio::io::AsyncWriteExt;
 use tokio_command_fds::{CommandFdExt, FdMapping};
 use tokio_util::sync::CancellationToken;
 use tracing::warn;
@@ -306,13 +305,8 @@ async fn run_command(
         }
     });
 
-    let (read_fd3, write_fd3) = tokio_pipe::pipe().expect("Unable to create pipe");
-    let (fd4_read_pipe, fd4_write_pipe) = if start.fd_input.is_some() {
-        let (read, write) = tokio_pipe::pipe().expect("Cannot create pipe");
-        (Some(read), Some(write))
-    } else {
-        (None, None)
-    };
+    let ((read_fd3, write_fd3), (fd4_read_pipe, fd4_write_pipe)) =
+        make_pipes(start.fd_input.is_some())?;
     let mut fd_mapping = vec![
         // Map the pipe as FD 3 in the child process.
         FdMapping {
@@ -390,13 +384,14 @@ async fn run_command(
         }
     };
 
-    // dump input into fd4 immediately
-    if let Some(p) = fd4_write_pipe {
-        let (_fd, buf) = start.fd_input.as_ref().unwrap();
-        let mut writer = tokio::io::BufWriter::new(p);
-        writer.write_all(buf).await.unwrap();
-        writer.flush().await.unwrap();
-    }
+    // dump input into fd4 while the child's output is being read: the child may write a lot of
+    // output before it reads its input, or exit without reading all of it.
+    let fd_input = start.fd_input;
+    let write_input = async move {
+        if let (Some(p), Some((_fd, buf))) = (fd4_write_pipe, fd_input) {
+            write_all_input(p, &buf).await;
+        }
+    };
 
     let pid = child
        .id()
@@ -418,14 +413,15 @@ async fn run_command(
         }
     };
 
-    let mut child_futures = std::pin::pin!(wait_with_output(child, read_fd3));
+    let mut child_futures =
+        std::pin::pin!(futures::future::join(write_input, wait_with_output(child, read_fd3)));
 
     let mut stderr_prefix: Option<String> = None;
 
     // Wait for the command to finish
     let output: ChildOutput = loop {
         let output = tokio::select! {
-            maybe_output = &mut child_futures => {
+            (_, maybe_output) = &mut child_futures => {
                 maybe_output?
             },
             _ = token3.cancelled() => {
diff --git a/src/localrunner.rs b/src/localrunner.rs
index f521600..a3df5c4 100644
--- a/src/localrunner.rs
+++ b/src/localrunner.rs
@@ -16,7 +16,7 @@ use tokio::{
     process::Command,
 };
 use tokio_command_fds::{CommandFdExt, FdMapping};
-use tokio_pipe::PipeRead;
+use tokio_pipe::{PipeRead, PipeWrite};
 use tracing::debug;
 
 use crate::{
@@ -48,13 +48,8 @@ pub async fn run_local_process_loop(
         cmd.call_preamble();
 
         // we're making a pipe to pass to the child process as fd3.
-        let (fd3_read_pipe, fd3_write_pipe) = tokio_pipe::pipe().expect("Cannot create pipe");
-        let (fd4_read_pipe, fd4_write_pipe) = if cmd.fd_input.is_some() {
-            let (read, write) = tokio_pipe::pipe().expect("Cannot create pipe");
-            (Some(read), Some(write))
-        } else {
-            (None, None)
-        };
+        let ((fd3_read_pipe, fd3_write_pipe), (fd4_read_pipe, fd4_write_pipe)) =
+            make_pipes(cmd.fd_input.is_some()).expect("Cannot create pipe");
         let mut fd_mapping = vec![
             // Map the pipe as FD 3 in the child process.
             FdMapping {
@@ -113,13 +108,14 @@ pub async fn run_local_process_loop(
             }
         };
 
-        // Dump input into fd4 immediately
-        if let Some(p) = fd4_write_pipe {
-            let (_fd, buf) = cmd.fd_input.as_ref().unwrap();
-            let mut writer = tokio::io::BufWriter::new(p);
-            writer.write_all(buf).await.unwrap();
-            writer.flush().await.unwrap();
-        }
+        // Dump input into fd4 while the child's output is being read: the child may write a lot of
+        // output before it reads its input, or exit without reading all of it.
+        let write_input = async move {
+            if let Some(p) = fd4_write_pipe {
+                let (_fd, buf) = cmd.fd_input.as_ref().unwrap();
+                write_all_input(p, buf).await;
+            }
+        };
 
         // Get PID from fd3, or if it doesn't send one, just the child PID
         let pid = child
@@ -141,7 +137,7 @@ pub async fn run_local_process_loop(
                 debug!("Received cancellation {:#?}", cmd.display);
                 return;
             },
-            output = wait_with_output(child, fd3_read_pipe) => {
+            (_, output) = futures::future::join(write_input, wait_with_output(child, fd3_read_pipe)) => {
                 output.unwrap()
             }
         };
@@ -158,6 +154,46 @@ pub async fn run_local_process_loop(
     );
 }
 
+type OutputPipe = (PipeRead, PipeWrite);
+type InputPipe = (Option<PipeRead>, Option<PipeWrite>);
+
+/// Make the pipe for a task's fd3 and, if it has an fd_input, the pipe for that. Both ends of a
+/// tokio_pipe are nonblocking: the ends which the task inherits are made blocking.
+pub fn make_pipes(has_input: bool) -> std::io::Result<(OutputPipe, InputPipe)> {
+    let (fd3_read, fd3_write) = tokio_pipe::pipe()?;
+    set_blocking(&fd3_write)?;
+    if has_input {
+        let (read, write) = tokio_pipe::pipe()?;
+        set_blocking(&read)?;
+        Ok(((fd3_read, fd3_write), (Some(read), Some(write))))
+    } else {
+        Ok(((fd3_read, fd3_write), (None, None)))
+    }
+}
+
+fn set_blocking(pipe: &impl AsRawFd) -> std::io::Result<()> {
+    let fd = pipe.as_raw_fd();
+    unsafe {
+        let flags = libc::fcntl(fd, libc::F_GETFL);
+        if flags == -1 || libc::fcntl(fd, libc::F_SETFL, flags & !libc::O_NONBLOCK) == -1 {
+            return Err(std::io::Error::last_os_error());
+        }
+    }
+    Ok(())
+}
+
+/// Write a task's input to its pipe, and close the pipe. It is not an error if the task doesn't read all of it.
+pub async fn write_all_input(pipe: PipeWrite, buf: &[u8]) {
+    let mut writer = tokio::io::BufWriter::new(pipe);
+    let r = match writer.write_all(buf).await {
+        Ok(()) => writer.flush().await,
+        Err(e) => Err(e),
+    };
+    if let Err(e) = r {
+        debug!("The task did not read all of its input: {}", e);
+    }
+}
+
 pub async fn wait_with_output(
     mut child: tokio::process::Child,
     fd: PipeRead,
-- 
2.43.0


From 4803f721974518f64fee26e2e1e8ff390f42ce8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:06 +0000
Subject: [PATCH 04/17] fix: a task that cannot be started or waited for fails,
 and does not hang the run

Failing to make a pipe, to map its file descriptors (fd_input on fd 3) or to read
its output panicked in the local runner, and the run never ended.
---
 src/bin/execgraph-remote.rs |  4 +--
 src/localrunner.rs          | 61 +++++++++++++++++++++++++------------
 2 files changed, 43 insertions(+), 22 deletions(-)

diff --git a/src/bin/execgraph-remote.rs b/src/bin/execgraph-remote.rs
index 6767a3b..50c8b5a 100644
--- a/src/bin/execgraph-remote.rs
+++ b/src/bin/execgraph-remote.rs
@@ -330,8 +330,8 @@ async fn run_command(
         .stdout(std::process::Stdio::piped())
         .stderr(std::process::Stdio::piped())
         .fd_mappings(fd_mapping)
-        .unwrap()
-        .spawn();
+        .map_err(anyhow::Error::from)
+        .and_then(|command| command.spawn().map_err(anyhow::Error::from));
 
     // Deadlock potential: After spawning the command and passing it the
     // write end of the pipe we need to close it ourselves
diff --git a/src/localrunner.rs b/src/localrunner.rs
index a3df5c4..59d9926 100644
--- a/src/localrunner.rs
+++ b/src/localrunner.rs
@@ -49,7 +49,13 @@ pub async fn run_local_process_loop(
 
         // we're making a pipe to pass to the child process as fd3.
         let ((fd3_read_pipe, fd3_write_pipe), (fd4_read_pipe, fd4_write_pipe)) =
-            make_pipes(cmd.fd_input.is_some()).expect("Cannot create pipe");
+            match make_pipes(cmd.fd_input.is_some()) {
+                Ok(pipes) => pipes,
+                Err(e) => {
+                    send_unable_to_start(tracker, subgraph_node_id, cmd, &hostname, e.into()).await;
+                    continue;
+                }
+            };
         let mut fd_mapping = vec![
             // Map the pipe as FD 3 in the child process.
             FdMapping {
@@ -80,8 +86,8 @@ pub async fn run_local_process_loop(
                 .stderr(Stdio::inherit()),
         }
         .fd_mappings(fd_mapping)
-        .unwrap()
-        .spawn();
+        .map_err(anyhow::Error::from)
+        .and_then(|command| command.spawn().map_err(anyhow::Error::from));
 
         // Deadlock potential: After spawning the command and passing it the
         // write end of the pipe we need to close it ourselves
@@ -92,18 +98,7 @@ pub async fn run_local_process_loop(
         let child = match maybe_child {
             Ok(child) => child,
             Err(e) => {
-                tracker
-                    .send_started(subgraph_node_id, cmd, &hostname, 0, "".to_string())
-                    .await;
-                tracker
-                    .send_finished(
-                        FinishedEvent::new_error(
-                            subgraph_node_id,
-                            -1,
-                            format!("Unable to start {:#?}: {:#?}", &cmd.cmdline[0], e),
-                        ),
-                    )
-                    .await;
+                send_unable_to_start(tracker, subgraph_node_id, cmd, &hostname, e).await;
                 continue;
             }
         };
@@ -126,7 +121,7 @@ pub async fn run_local_process_loop(
             .send_started(subgraph_node_id, cmd, &hostname, pid, "".to_string())
             .await;
 
-        let output: ChildOutput = tokio::select! {
+        let output = tokio::select! {
             cancel = token.soft_cancelled(start_time) => {
                 if let CancellationState::CancelledAfterTime(_) = cancel {
                     // if we were soft canceled, send a finished notification.
@@ -138,14 +133,20 @@ pub async fn run_local_process_loop(
                 return;
             },
             (_, output) = futures::future::join(write_input, wait_with_output(child, fd3_read_pipe)) => {
-                output.unwrap()
+                output
             }
         };
 
         tracing::debug!("Finished cmd");
-        tracker
-            .send_finished(output.to_event(subgraph_node_id))
-            .await;
+        let event = match output {
+            Ok(output) => output.to_event(subgraph_node_id),
+            Err(e) => FinishedEvent::new_error(
+                subgraph_node_id,
+                -1,
+                format!("Unable to wait for {:#?}: {:#?}", &cmd.cmdline[0], e),
+            ),
+        };
+        tracker.send_finished(event).await;
     }
 
     debug!(
@@ -154,6 +155,26 @@ pub async fn run_local_process_loop(
     );
 }
 
+/// Report a task whose process could not be started as a failed one
+async fn send_unable_to_start(
+    tracker: &ReadyTrackerClient,
+    subgraph_node_id: NodeIndex,
+    cmd: &Cmd,
+    hostname: &str,
+    e: anyhow::Error,
+) {
+    tracker
+        .send_started(subgraph_node_id, cmd, hostname, 0, "".to_string())
+        .await;
+    tracker
+        .send_finished(FinishedEvent::new_error(
+            subgraph_node_id,
+            -1,
+            format!("Unable to start {:#?}: {:#?}", &cmd.cmdline[0], e),
+        ))
+        .await;
+}
+
 type OutputPipe = (PipeRead, PipeWrite);
 type InputPipe = (Option<PipeRead>, Option<PipeWrite>);
 
-- 
2.43.0


From fc6e079ed74cc5efd15fe933595cab7e926319ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:36 +0000
Subject: [PATCH 05/17] fix: a second execute() must not run what depends on a
 failed task

Tasks that failed in an earlier execute() of the same session were taken out of the
graph like the ones that succeeded, so that the tasks depending on them ran.
---
 src/execgraph.rs | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/src/execgraph.rs b/src/execgraph.rs
index 6cb05a5..e6c939b 100644
--- a/src/execgraph.rs
+++ b/src/execgraph.rs
@@ -497,7 +497,7 @@ fn get_subgraph<'a, 'b: 'a>(
     // or if we've already exeuted the task in a previous call to execute
     let mut filtered_subgraph = subgraph.filter_map(
         |_n, &w| {
-            if completed.contains(&w.key) {
+            if completed.contains(&w.key) && !logfile.has_failure(&w.key) {
                 // if we already ran this command within this process, don't record it
                 // in reused_old_keys. that's only for stuff that was run in a previous
                 // session
@@ -522,26 +522,28 @@ fn get_subgraph<'a, 'b: 'a>(
         |_e, &w| Some(w),
     );
 
-    // If we are skipping failures, we need to further filter the graph down
-    // to not include the failures or any downstream tasks, and add the failures
-    // that were important to `reused_old_keys`.
-    if !rerun_failures {
+    // Tasks that failed earlier in this session are not run again, and if we are skipping
+    // failures neither are those that failed in a previous session. We need to further filter
+    // the graph down to not include these failures or any downstream tasks, and add the failures
+    // of a previous session to `reused_old_keys`.
+    let failures = filtered_subgraph
+        .node_indices()
+        .filter(|&n| {
+            let w = filtered_subgraph[n];
+            logfile.has_failure(&w.key) && (!rerun_failures || completed.contains(&w.key))
+        })
+        .collect::<HashSet<NodeIndex>>();
+    if !failures.is_empty() {
         trace!("Recomputing transitive closure of filtered subgraph");
         let tc = transitive_closure_dag(&filtered_subgraph)?;
-        let failures = tc
-            .node_indices()
-            .filter(|&n| {
-                let w = tc[n];
-                logfile.has_failure(&w.key)
-            })
-            .collect::<HashSet<NodeIndex>>();
-
         trace!("Found N={} commands that previously failed", failures.len());
         filtered_subgraph = filtered_subgraph.filter_map(
             |n, &w| {
                 if failures.contains(&n) {
                     trace!("Skipping {} because it previously failed", w.key);
-                    reused_old_keys.insert(w.key.clone());
+                    if !completed.contains(&w.key) {
+                        reused_old_keys.insert(w.key.clone());
+                    }
                     return None;
                 }
                 for e in tc.edges_directed(n, Direction::Incoming) {
-- 
2.43.0


From d48cfa0fe07ef97db6c6250976f133bd20cd6606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:36 +0000
Subject: [PATCH 06/17] fix: an /end from another slurm job must not make its
 task vanish

The transaction was removed before the job id was compared, and on a mismatch the
task was never reported finished: the run never ended.
---
 src/server.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/server.rs b/src/server.rs
index ddc1ffe..c8ec981 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -460,18 +460,18 @@ async fn end_handler(
         None => return Err(AppError::BadRequest),
     };
 
+    // If the RPC trying to end a job is coming from a different slurm jobid
+    // than the RPC which started the job, something fishy is going on. The
+    // transaction stays open then.
     let cstate = {
         let (_transaction_id, cstate) = state
             .connections
-            .remove(&request.transaction_id)
+            .remove_if(&request.transaction_id, |_, cstate| {
+                cstate.slurm_jobid == runner_slurm_jobid
+            })
             .ok_or(AppError::NoSuchTransaction)?;
         cstate
     };
-    // If the RPC trying to end a job is coming from a different slurm jobid
-    // than the RPC which started the job, something fishy is going on.
-    if cstate.slurm_jobid != runner_slurm_jobid {
-        return Err(AppError::NoSuchTransaction);
-    };
 
     state.timeouts.cancel(cstate.timer_id);
     let flag = AsyncFlag::new();
-- 
2.43.0


From 1f67777d0e042ca8350e6947e1420ae0195d9337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:36 +0000
Subject: [PATCH 07/17] fix: a repeated /begun must not bring down the
 scheduler

A second start report of a running task panicked the servicer, and with it the run.
---
 src/server.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/server.rs b/src/server.rs
index c8ec981..9cb375e 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -52,6 +52,7 @@ struct ConnectionState {
     timer_id: TimerID,
     disconnect_error_message: String,
     slurm_jobid: String,
+    begun: bool,
 }
 
 pub struct State<'a> {
@@ -387,6 +388,7 @@ async fn start_request_impl(
             node_id,
             disconnect_error_message: request.disconnect_error_message,
             slurm_jobid: runner_slurm_jobid,
+            begun: false,
         },
     );
 
@@ -408,7 +410,7 @@ async fn begun_handler(
     if authorization.token() != state.authorization_token {
         return Err(AppError::Unauthorized);
     };
-    let cstate = state
+    let mut cstate = state
         .connections
         .get_mut(&request.transaction_id)
         .ok_or(AppError::NoSuchTransaction)?;
@@ -424,6 +426,11 @@ async fn begun_handler(
         None => return Err(AppError::BadRequest),
     };
 
+    // a transaction begins once
+    if std::mem::replace(&mut cstate.begun, true) {
+        return Err(AppError::BadRequest);
+    }
+
     state
         .tracker
         .send_started(
-- 
2.43.0


From 59630f5efdbf68d46ad45d5a57ef0d8f64c24072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:36 +0000
Subject: [PATCH 08/17] fix: a transaction that ends while a soft cancellation
 is carried out must not stop the ping reaper

The reaper panicked when /end removed a transaction between the scan for the ones to
cancel and their removal. No dead runner was detected from then on.
---
 src/server.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/server.rs b/src/server.rs
index 9cb375e..b8b4487 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -137,7 +137,10 @@ impl<'a> State<'a> {
                     }
                 }
                 for key in keys_to_remove {
-                    expired.push(self.connections.remove(&key).unwrap().1);
+                    // it may have ended in the meantime
+                    if let Some((_, cstate)) = self.connections.remove(&key) {
+                        expired.push(cstate);
+                    }
                 }
             }
 
-- 
2.43.0


From cadd418f987f95376cb080866bce0dae3462d44c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:12 +0000
Subject: [PATCH 09/17] fix: a soft cancel must not replace a concurrent hard
 cancel

The state was checked and then replaced: a hard cancel that came in between was
undone, and whoever looked after that never saw it.
---
 src/fancy_cancellation_token.rs | 34 +++++++++++++++++----------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/src/fancy_cancellation_token.rs b/src/fancy_cancellation_token.rs
index f3fcfcf..1a1d0b4 100644
--- a/src/fancy_cancellation_token.rs
+++ b/src/fancy_cancellation_token.rs
@@ -77,24 +77,26 @@ impl CancellationToken {
     }
 
     pub fn cancel(&self, state: CancellationState) {
-        if let CancellationState::CancelledAfterTime(new_time) = state {
-            // if we're trying to do a soft cancel, check the current state
-            let existing = self.inner.receiver.borrow();
-            match *existing {
-                Some(CancellationState::CancelledAfterTime(existing_time))
-                    if new_time > existing_time =>
-                {
-                    // if the existing time is older than the new time, no need to do anything
-                    return;
-                }
-                Some(CancellationState::HardCancelled) => {
-                    // if we're already hard canceled, don't override it with a new soft cancel
-                    return;
+        self.inner.sender.send_if_modified(|existing| {
+            if let CancellationState::CancelledAfterTime(new_time) = state {
+                // if we're trying to do a soft cancel, check the current state
+                match *existing {
+                    Some(CancellationState::CancelledAfterTime(existing_time))
+                        if new_time > existing_time =>
+                    {
+                        // if the existing time is older than the new time, no need to do anything
+                        return false;
+                    }
+                    Some(CancellationState::HardCancelled) => {
+                        // if we're already hard canceled, don't override it with a new soft cancel
+                        return false;
+                    }
+                    _ => {}
                 }
-                _ => {}
             }
-        }
-        self.inner.sender.send_replace(Some(state));
+            *existing = Some(state);
+            true
+        });
     }
 }
 
-- 
2.43.0


From dca0bbccdb337a8ee10df772588da95e166cd3dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:12 +0000
Subject: [PATCH 10/17] fix: a runner that cannot read a task's output must not
 overflow its stack

The conversion of the error called itself.
---
 src/bin/execgraph-remote.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin/execgraph-remote.rs b/src/bin/execgraph-remote.rs
index 50c8b5a..ef0634e 100644
--- a/src/bin/execgraph-remote.rs
+++ b/src/bin/execgraph-remote.rs
@@ -627,7 +627,7 @@ enum RemoteError {
 
 impl From<ChildProcessError> for RemoteError {
     fn from(e: ChildProcessError) -> Self {
-        e.into()
+        RemoteError::AnyhowError(e.into())
     }
 }
 
-- 
2.43.0


From 720eea034524f9ef7904bc2d6a6153420d51a570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:12 +0000
Subject: [PATCH 11/17] fix: call the function in a capsule with the C calling
 convention

---
 src/execgraph.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/execgraph.rs b/src/execgraph.rs
index e6c939b..9115247 100644
--- a/src/execgraph.rs
+++ b/src/execgraph.rs
@@ -96,7 +96,7 @@ impl Capsule {
                 assert!(!ptr.is_null()); // guarenteed by https://docs.python.org/3/c-api/capsule.html#c.PyCapsule_IsValid
                 let f = std::mem::transmute::<
                     *mut std::ffi::c_void,
-                    fn(*const std::ffi::c_void, u32, u32, u32, u64) -> i32,
+                    extern "C" fn(*const std::ffi::c_void, u32, u32, u32, u64) -> i32,
                 >(ptr);
                 Ok(f(ctx, success_u32, runcount, signaled_or_lost, ntasks))
             } else {
-- 
2.43.0


From cde4a927ece10b4a3e60df35ab8bae6daf810eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:12 +0000
Subject: [PATCH 12/17] fix: a lock on a lock file that was removed must not
 count

The owner of a log removes its lock file and then releases the lock. One that opened
the file just before it was removed got the lock on it, and another one that on the
file made next: two writers of one log.
---
 src/logfile2.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/logfile2.rs b/src/logfile2.rs
index 583a37c..a32ac04 100644
--- a/src/logfile2.rs
+++ b/src/logfile2.rs
@@ -6,6 +6,7 @@ use std::{
     env,
     io::{BufRead, Seek, Write},
     marker::PhantomData,
+    os::unix::fs::MetadataExt,
     path::PathBuf,
     time::SystemTime,
 };
@@ -190,6 +191,12 @@ impl LogFile<LogFileRW> {
             .write(true)
             .open(&lockf_path)?;
         lockf.try_lock(FileLockMode::Exclusive)?;
+        // the previous owner removes the lock file before it releases the lock: if we opened it
+        // before it was removed, then our lock doesn't exclude anyone
+        match std::fs::metadata(&lockf_path) {
+            Ok(m) if m.ino() == lockf.metadata()?.ino() => {}
+            _ => return Err(LogfileError::AlreadyLocked),
+        }
         let mut lockf = std::io::BufWriter::new(lockf);
         serde_json::to_writer(&mut lockf, &LogEntry::new_header("", vec![])?)?;
         lockf.flush()?;
-- 
2.43.0


From b8cf2ce2db76a3d19ec32d57d17e34f408924004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:46 +0000
Subject: [PATCH 13/17] fix: execute() must wait for its tasks when the
 servicer fails

The spawned tasks hold references to the tracker and the graph, which are local to
execute(). When the servicer failed (the log could not be written, a postamble failed)
execute() panicked and freed them while the tasks were running.
---
 src/execgraph.rs | 13 ++++++++-----
 src/sync.rs      |  5 +++++
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/execgraph.rs b/src/execgraph.rs
index 9115247..65d652e 100644
--- a/src/execgraph.rs
+++ b/src/execgraph.rs
@@ -11,7 +11,7 @@ use anyhow::{anyhow, Result};
 use base64::{engine::general_purpose::STANDARD as b64, Engine};
 use bitvec::array::BitArray;
 use derivative::Derivative;
-use futures::future::join_all;
+use futures::{future::join_all, FutureExt};
 use hyper::Server;
 use petgraph::prelude::*;
 use std::{
@@ -19,6 +19,7 @@ use std::{
     convert::TryInto,
     ffi::OsString,
     net::SocketAddr,
+    panic::{resume_unwind, AssertUnwindSafe},
     sync::Arc,
 };
 use tokio::{process::Command, sync::oneshot};
@@ -385,14 +386,16 @@ impl ExecGraph {
         // run the background service that will send commands to the ready channel
         // to be picked up by the tasks spawned above. background_serve should wait for
         // sigint
-        servicer
-            .background_serve(token.clone())
-            .await
-            .expect("background_serve failed");
+        let served = AssertUnwindSafe(servicer.background_serve(token.clone()))
+            .catch_unwind()
+            .await;
+        servicer.close();
         token.cancel(CancellationState::HardCancelled);
 
+        // even if the servicer failed: the spawned tasks refer to the tracker and the graph
         debug!("Joining {} handles", handles.len());
         join_all(handles).await;
+        served.unwrap_or_else(|panic| resume_unwind(panic))?;
         debug!("Draining servicer");
         servicer.drain().expect("failed to drain queue");
 
diff --git a/src/sync.rs b/src/sync.rs
index d274988..70d5137 100644
--- a/src/sync.rs
+++ b/src/sync.rs
@@ -251,6 +251,11 @@ impl<'a> ReadyTrackerServer<'a> {
         Ok(())
     }
 
+    /// Stop giving out tasks
+    pub fn close(&mut self) {
+        self.ready = None;
+    }
+
     #[tracing::instrument(skip_all)]
     pub async fn background_serve(&mut self, token: CancellationToken) -> Result<()> {
         self.n_unready_tasks_approximate_for_eta_purposes_only.store(self.statuses.len().try_into().expect("Overflow"), SeqCst);
-- 
2.43.0


From 7308462db85199aff6cbe59274b55ce927d8ceac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:15 +0000
Subject: [PATCH 14/17] fix: a log whose last line was torn by a crash can be
 opened again

A process that is killed leaves part of a line at the end of the log. Opening the log
for the next run failed on it, or appended to it.
---
 src/logfile2.rs | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/logfile2.rs b/src/logfile2.rs
index a32ac04..c9af86c 100644
--- a/src/logfile2.rs
+++ b/src/logfile2.rs
@@ -206,6 +206,7 @@ impl LogFile<LogFileRW> {
             .create(true)
             .write(true)
             .open(&path)?;
+        remove_torn_line(&mut f)?;
         let (runcounts, header) = LogFile::<LogFileRO>::load_runcounts(&mut f)?;
         Ok(LogFile {
             f: BufReaderWriter::new_reader(f),
@@ -284,6 +285,29 @@ impl LogFile<LogFileRW> {
     }
 }
 
+/// If the process that wrote the log was killed, then the last line may be incomplete. Remove it,
+/// or end it if it lacks only its newline, so that the next entry starts on a line of its own.
+fn remove_torn_line(f: &mut std::fs::File) -> Result<()> {
+    let mut reader = std::io::BufReader::new(&*f);
+    let mut line = Vec::new();
+    let mut complete = 0;
+    loop {
+        line.clear();
+        reader.read_until(b'\n', &mut line)?;
+        if line.last() != Some(&b'\n') {
+            break;
+        }
+        complete += line.len() as u64;
+    }
+    if serde_json::from_slice::<LogEntry>(&line).is_ok() {
+        f.write_all(b"\n")?;
+    } else if !line.is_empty() {
+        f.set_len(complete)?;
+    }
+    f.seek(std::io::SeekFrom::Start(0))?;
+    Ok(())
+}
+
 impl LogFile<LogFileRO> {
     #[tracing::instrument]
     fn new<P: AsRef<std::path::Path> + std::fmt::Debug>(path: P) -> Result<Self> {
-- 
2.43.0


From 44cabf70bec39eab4f6539afccfd3d1b23c1e807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:07 +0000
Subject: [PATCH 15/17] fix: the start request carried by /end also respects
 the set of cancelled slurm jobs

---
 src/server.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/server.rs b/src/server.rs
index b8b4487..ee44455 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -330,6 +330,16 @@ async fn start_handler(
         None => return Err(AppError::BadRequest),
     };
 
+    Ok(Postcard(
+        start_request_impl(state, request, runner_slurm_jobid).await?,
+    ))
+}
+
+async fn start_request_impl(
+    state: Arc<State<'static>>,
+    request: StartRequest,
+    runner_slurm_jobid: String,
+) -> Result<StartResponse, AppError> {
     // If this jobid has been scanceled, don't give out a job and just tell the runner
     // to shut down. This happens with a read lock on cancelled_slurm_jobids so if someone
     // is modying the set of cancelled_slurm_jobids, we have to wait till they finish to
@@ -341,16 +351,6 @@ async fn start_handler(
         }
     }
 
-    Ok(Postcard(
-        start_request_impl(state, request, runner_slurm_jobid).await?,
-    ))
-}
-
-async fn start_request_impl(
-    state: Arc<State<'static>>,
-    request: StartRequest,
-    runner_slurm_jobid: String,
-) -> Result<StartResponse, AppError> {
     // Grab the next task off the ready queue, which might pause if we're rate limited.
     // Hold the connection for up to ``HOLD_RATELIMITED_TIME`` (30 seconds), and then if
     // we're still rate limited, respond to the execgraph-remote with a "RateLimited"
-- 
2.43.0


From 9a9c021bacbec39db09449f8e716c27ae397eaa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:39 +0000
Subject: [PATCH 16/17] fix: do not lose output when the console or log.txt
 takes only part of a write

---
 src/logging.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/logging.rs b/src/logging.rs
index a1f7d22..445a8d9 100644
--- a/src/logging.rs
+++ b/src/logging.rs
@@ -72,12 +72,13 @@ impl ConsoleAndFile {
 
 impl<'a> std::io::Write for &'a ConsoleAndFile {
     fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
+        // either of the two may take only a part of buf, so that no count below buf.len() is right for both
         let mut guard = self.0.lock().unwrap();
-        guard.1.write(buf)?;
-        match guard.0.as_mut() {
-            Some(f) => f.write(buf),
-            None => Ok(0),
+        guard.1.write_all(buf)?;
+        if let Some(f) = guard.0.as_mut() {
+            f.write_all(buf)?;
         }
+        Ok(buf.len())
     }
 
     fn flush(&mut self) -> std::io::Result<()> {
-- 
2.43.0


From 7a6878063a5cffa23e9f86d485065916db5b88c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:10 +0000
Subject: [PATCH 17/17] fix: flush the log when execute() has nothing to run
 but has written backrefs

---
 src/execgraph.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/execgraph.rs b/src/execgraph.rs
index 65d652e..d8c4c33 100644
--- a/src/execgraph.rs
+++ b/src/execgraph.rs
@@ -268,6 +268,7 @@ impl ExecGraph {
         )?);
         if subgraph.raw_nodes().is_empty() {
             trace!("Short-circuiting execution because subgraph N=0.");
+            self.logfile.flush()?;
             return Ok((0, vec![]));
         }
         trace!(
-- 
2.43.0

