From cc107b0ed9b4d98231aa1c9f362404a67bef0072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:08 +0000
Subject: [PATCH 01/29] fix: hand queue storage operations over in the order
 they took effect

Persistence operations were sent to the writer after the queue lock had been
released, so two concurrent operations on one queue could reach storage in the
opposite order (e.g. an ack's DELETE before the push's INSERT): after a restart
acknowledged messages reappeared, dead letters doubled or attempts were lost.
---
 src/brokers/queue/manager.rs | 110 +++++++++++++++--------------------
 1 file changed, 48 insertions(+), 62 deletions(-)

diff --git a/src/brokers/queue/manager.rs b/src/brokers/queue/manager.rs
index 7b923af..5969f7b 100644
--- a/src/brokers/queue/manager.rs
+++ b/src/brokers/queue/manager.rs
@@ -165,7 +165,7 @@ impl QueueManager {
                     let shared = entry.value().clone();
                     let now = current_time_ms();
 
-                    let (requeued, dlq_msgs) = {
+                    let requeued = {
                         let mut inner = Self::lock(&shared.inner);
                         
                         // Check if processing is needed
@@ -181,27 +181,24 @@ impl QueueManager {
                             inner.dlq.push((*dlq_msg).clone());
                         }
 
-                        (requeued, dlq_msgs)
-                    };
-
-                    if requeued.is_empty() && dlq_msgs.is_empty() {
-                        continue;
-                    }
+                        // Persist under the lock: storage must see ops in state order
+                        for msg in &requeued {
+                            shared.store.execute(StorageOp::UpdateState {
+                                id: msg.id,
+                                visible_at: 0,
+                                attempts: msg.attempts,
+                            });
+                        }
 
-                    for msg in &requeued {
-                        shared.store.execute(StorageOp::UpdateState {
-                            id: msg.id,
-                            visible_at: 0,
-                            attempts: msg.attempts,
-                        });
-                    }
+                        for dlq_msg in dlq_msgs {
+                            shared.store.execute(StorageOp::MoveToDLQ {
+                                id: dlq_msg.id,
+                                msg: dlq_msg,
+                            });
+                        }
 
-                    for dlq_msg in dlq_msgs {
-                        shared.store.execute(StorageOp::MoveToDLQ {
-                            id: dlq_msg.id,
-                            msg: dlq_msg,
-                        });
-                    }
+                        requeued
+                    };
 
                     if !requeued.is_empty() {
                         shared.notify.notify_waiters();
@@ -221,6 +218,7 @@ impl QueueManager {
         self.queues.get(name).map(|r| r.value().clone())
     }
 
+    /// Must be called with the queue lock held, so that storage sees ops in state order.
     fn persist_batch_state(&self, shared: &Arc<QueueShared>, msgs: &[Message]) {
         for msg in msgs {
             shared.store.execute(StorageOp::UpdateState {
@@ -285,9 +283,9 @@ impl QueueManager {
         {
             let mut inner = Self::lock(&shared.inner);
             inner.state.push(msg.clone());
+            shared.store.execute(StorageOp::Insert(msg));
         }
 
-        shared.store.execute(StorageOp::Insert(msg));
         shared.notify.notify_waiters();
 
         Ok(())
@@ -296,11 +294,9 @@ impl QueueManager {
     pub async fn pop(&self, queue_name: &str) -> Option<Message> {
         let shared = self.get_queue(queue_name)?;
 
-        let (msg_opt, _) = {
-            let mut inner = Self::lock(&shared.inner);
-            let vt = inner.config.visibility_timeout_ms;
-            inner.state.pop(vt)
-        };
+        let mut inner = Self::lock(&shared.inner);
+        let vt = inner.config.visibility_timeout_ms;
+        let (msg_opt, _) = inner.state.pop(vt);
 
         if let Some(msg) = &msg_opt {
             shared.store.execute(StorageOp::UpdateState {
@@ -319,10 +315,8 @@ impl QueueManager {
             None => return false,
         };
 
-        let result = {
-            let mut inner = Self::lock(&shared.inner);
-            inner.state.ack(id)
-        };
+        let mut inner = Self::lock(&shared.inner);
+        let result = inner.state.ack(id);
 
         if result {
             shared.store.execute(StorageOp::Delete(id));
@@ -337,17 +331,13 @@ impl QueueManager {
             None => return false,
         };
 
-        let (requeued, dlq_msg) = {
-            let mut inner = Self::lock(&shared.inner);
-            let max_retries = inner.config.max_retries;
-            let (requeued, dlq_msg) = inner.state.nack(id, reason, max_retries);
+        let mut inner = Self::lock(&shared.inner);
+        let max_retries = inner.config.max_retries;
+        let (requeued, dlq_msg) = inner.state.nack(id, reason, max_retries);
 
-            if let Some(ref dlq_message) = dlq_msg {
-                inner.dlq.push(dlq_message.clone());
-            }
-
-            (requeued, dlq_msg)
-        };
+        if let Some(ref dlq_message) = dlq_msg {
+            inner.dlq.push(dlq_message.clone());
+        }
 
         if let Some(msg) = requeued {
             shared.store.execute(StorageOp::UpdateState {
@@ -355,6 +345,7 @@ impl QueueManager {
                 visible_at: msg.visible_at,
                 attempts: msg.attempts,
             });
+            drop(inner);
             shared.notify.notify_waiters();
             return true;
         }
@@ -382,10 +373,10 @@ impl QueueManager {
             let mut inner = Self::lock(&shared.inner);
             let vt = inner.config.visibility_timeout_ms;
             let (msgs, _) = inner.state.take_batch(max_val, vt);
+            self.persist_batch_state(&shared, &msgs);
             msgs
         };
         if !msgs.is_empty() {
-            self.persist_batch_state(&shared, &msgs);
             return Ok(msgs);
         }
 
@@ -405,10 +396,10 @@ impl QueueManager {
                 let mut inner = Self::lock(&shared.inner);
                 let vt = inner.config.visibility_timeout_ms;
                 let (msgs, _) = inner.state.take_batch(max_val, vt);
+                self.persist_batch_state(&shared, &msgs);
                 msgs
             };
             if !msgs.is_empty() {
-                self.persist_batch_state(&shared, &msgs);
                 return Ok(msgs);
             }
 
@@ -468,22 +459,22 @@ impl QueueManager {
         let shared = self.get_queue(queue_name)
             .ok_or_else(|| format!("Queue '{}' not found", queue_name))?;
 
-        let new_msg = {
+        let moved = {
             let mut inner = Self::lock(&shared.inner);
             if let Some(dlq_msg) = inner.dlq.remove(&message_id) {
-                let new_msg = dlq_msg.clone().to_message();
-                inner.state.push(new_msg.clone());
-                Some(new_msg)
+                let msg = dlq_msg.to_message();
+                inner.state.push(msg.clone());
+                shared.store.execute(StorageOp::MoveToMain {
+                    id: message_id,
+                    msg,
+                });
+                true
             } else {
-                None
+                false
             }
         };
 
-        if let Some(msg) = new_msg {
-            shared.store.execute(StorageOp::MoveToMain {
-                id: message_id,
-                msg,
-            });
+        if moved {
             shared.notify.notify_waiters();
             Ok(true)
         } else {
@@ -496,10 +487,8 @@ impl QueueManager {
         let shared = self.get_queue(queue_name)
             .ok_or_else(|| format!("Queue '{}' not found", queue_name))?;
 
-        let removed = {
-            let mut inner = Self::lock(&shared.inner);
-            inner.dlq.remove(&message_id).is_some()
-        };
+        let mut inner = Self::lock(&shared.inner);
+        let removed = inner.dlq.remove(&message_id).is_some();
 
         if removed {
             shared.store.execute(StorageOp::DeleteDLQ(message_id));
@@ -513,12 +502,9 @@ impl QueueManager {
         let shared = self.get_queue(queue_name)
             .ok_or_else(|| format!("Queue '{}' not found", queue_name))?;
 
-        let count = {
-            let mut inner = Self::lock(&shared.inner);
-            let count = inner.dlq.len();
-            inner.dlq.clear();
-            count
-        };
+        let mut inner = Self::lock(&shared.inner);
+        let count = inner.dlq.len();
+        inner.dlq.clear();
 
         shared.store.execute(StorageOp::PurgeDLQ);
         Ok(count)
-- 
2.43.0


From f832ec3ae19a29962a32a81846198d96379a519d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:42 +0000
Subject: [PATCH 02/29] fix: serialize queue creation and deletion

delete_queue removed the queue from the map, waited for the writer and then
deleted the files; a create of the same name in between lost its files and was
no longer durable. A client disconnect during the wait left the files of a
deleted queue behind, and the queue came back on the next start.
---
 src/brokers/queue/manager.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/brokers/queue/manager.rs b/src/brokers/queue/manager.rs
index 5969f7b..ed840d6 100644
--- a/src/brokers/queue/manager.rs
+++ b/src/brokers/queue/manager.rs
@@ -46,6 +46,8 @@ pub struct QueueManager {
     queues: Arc<DashMap<String, Arc<QueueShared>>>,
     config: Arc<SystemQueueConfig>,
     cancel: CancellationToken,
+    /// Serializes creation and deletion: both work on the queue's files
+    lifecycle: Arc<tokio::sync::Mutex<()>>,
 }
 
 impl QueueManager {
@@ -63,6 +65,7 @@ impl QueueManager {
             queues: queues.clone(),
             config: system_config.clone(),
             cancel: cancel.clone(),
+            lifecycle: Arc::new(tokio::sync::Mutex::new(())),
         };
 
         // WARM START: Discover and restore queues from filesystem
@@ -236,6 +239,8 @@ impl QueueManager {
     pub async fn create_queue(&self, name: String, options: QueueCreateOptions) -> Result<(), String> {
         use dashmap::mapref::entry::Entry;
 
+        let _lifecycle = self.lifecycle.lock().await;
+
         match self.queues.entry(name.clone()) {
             Entry::Occupied(_) => Ok(()),
             Entry::Vacant(v) => {
@@ -256,6 +261,16 @@ impl QueueManager {
     }
 
     pub async fn delete_queue(&self, name: String) -> Result<(), String> {
+        // In its own task: a client that disconnects must not leave a half-deleted queue behind
+        let manager = self.clone();
+        tokio::spawn(async move { manager.delete_queue_files(name).await })
+            .await
+            .map_err(|e| format!("Queue deletion failed: {}", e))
+    }
+
+    async fn delete_queue_files(&self, name: String) {
+        let _lifecycle = self.lifecycle.lock().await;
+
         if let Some((_, shared)) = self.queues.remove(&name) {
             shared.store.shutdown().await;
         }
@@ -271,8 +286,6 @@ impl QueueManager {
         let _ = std::fs::remove_file(wal_path);
         let _ = std::fs::remove_file(shm_path);
         let _ = std::fs::remove_file(config_path);
-
-        Ok(())
     }
 
     pub async fn push(&self, queue_name: String, payload: Bytes, priority: u8) -> Result<(), String> {
-- 
2.43.0


From e4c6593dc3b72785d04f42ed48c4760c23da17d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:55 +0000
Subject: [PATCH 03/29] fix: apply the retry limit to leases that ran out while
 the server was down

Recovery turned every expired lease into a ready message, so a message on its
last attempt was delivered once more instead of going to the dead-letter queue.
---
 src/brokers/queue/domain/persistence.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/brokers/queue/domain/persistence.rs b/src/brokers/queue/domain/persistence.rs
index 700342a..01fec5f 100644
--- a/src/brokers/queue/domain/persistence.rs
+++ b/src/brokers/queue/domain/persistence.rs
@@ -7,7 +7,7 @@ use rusqlite::{params, types::Type, Connection, Result};
 use tracing::{error, info};
 use uuid::Uuid;
 
-use crate::brokers::queue::domain::queue::{Message, MessageState, current_time_ms};
+use crate::brokers::queue::domain::queue::{Message, MessageState};
 use crate::brokers::queue::domain::dlq::DlqMessage;
 
 // ==========================================
@@ -286,10 +286,9 @@ fn load_all_messages(conn: &Connection) -> Result<Vec<Message>> {
         let attempts: u32 = row.get(4)?;
         let created_at = row.get::<_, i64>(5)? as u64;
  
-         let now = current_time_ms();
-         
-         // Reconstruct State
-         let state = if visible_at > now && attempts > 0 {
+         // Reconstruct State (a lease that ran out while the server was down is left
+         // to the timeout task, which also applies the retry limit)
+         let state = if visible_at > 0 && attempts > 0 {
              MessageState::InFlight(visible_at)
          } else {
              MessageState::Ready
-- 
2.43.0


From ad12129e1ab76ddf841ad36ce030c7e7f97b5461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:26 +0000
Subject: [PATCH 04/29] fix: restore queues whose name ends in .db under their
 own name

trim_end_matches strips every trailing ".db", so after a restart the queue
"jobs.db" came back empty under the name "jobs" (or replaced that queue).
---
 src/brokers/queue/manager.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/brokers/queue/manager.rs b/src/brokers/queue/manager.rs
index ed840d6..97e62c1 100644
--- a/src/brokers/queue/manager.rs
+++ b/src/brokers/queue/manager.rs
@@ -76,8 +76,8 @@ impl QueueManager {
                     let path = entry.path();
                     if path.is_file() {
                         if let Some(filename) = path.file_name().and_then(|n| n.to_str()) {
-                            if filename.ends_with(".db") && !filename.ends_with(".db-wal") && !filename.ends_with(".db-shm") {
-                                let queue_name = filename.trim_end_matches(".db").to_string();
+                            if let Some(queue_name) = filename.strip_suffix(".db") {
+                                let queue_name = queue_name.to_string();
 
                                 let config_path = persistence_path.join(format!("{}.config.json", queue_name));
                                 let config = if let Ok(data) = std::fs::read_to_string(&config_path) {
-- 
2.43.0


From 52c283c3f358a1a6b9ec46a1684de8bea5f73946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:27 +0000
Subject: [PATCH 05/29] fix: extreme consume batch sizes and visibility
 timeouts

A huge batchSize made the server allocate that many slots up front (capacity
overflow or allocation failure, which aborts the process), and a huge
visibilityTimeoutMs overflowed the lease deadline.
---
 src/brokers/queue/domain/queue.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/brokers/queue/domain/queue.rs b/src/brokers/queue/domain/queue.rs
index 02284ef..0544203 100644
--- a/src/brokers/queue/domain/queue.rs
+++ b/src/brokers/queue/domain/queue.rs
@@ -139,7 +139,7 @@ impl QueueState {
 
     /// Take up to `max` messages for batch consumption.
     pub fn take_batch(&mut self, max: usize, visibility_timeout_ms: u64) -> (Vec<Message>, bool) {
-        let mut result = Vec::with_capacity(max);
+        let mut result = Vec::new();
         let mut any_earliest = false;
 
         while result.len() < max {
@@ -392,7 +392,7 @@ impl QueueState {
             None => return (None, false),
         };
 
-        let timeout = now + visibility_timeout_ms;
+        let timeout = now.saturating_add(visibility_timeout_ms);
         self.transition_to(next_id, MessageState::InFlight(timeout));
 
         // Update message fields
-- 
2.43.0


From 3cf8b4d797b68661d8ea4c9e2c560fc7f0034a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:37 +0000
Subject: [PATCH 06/29] fix: refuse queue and topic names that are not plain
 file names

Names are used to build paths below the data directories. "../x" or "a/b"
reached files outside or of other queues and topics, deleting the topic ".."
removed the parent of the data directory, deleting "" removed all topics, and a
queue whose name cannot be a file name was accepted but silently not durable.
---
 src/brokers/mod.rs            | 12 ++++++++++++
 src/brokers/queue/manager.rs  |  3 +++
 src/brokers/stream/manager.rs | 14 ++++++++++++++
 3 files changed, 29 insertions(+)

diff --git a/src/brokers/mod.rs b/src/brokers/mod.rs
index a1e92e7..48a0c4b 100644
--- a/src/brokers/mod.rs
+++ b/src/brokers/mod.rs
@@ -3,3 +3,15 @@ pub mod queue;
 #[path = "pub-sub/mod.rs"]
 pub mod pub_sub;
 pub mod stream;
+
+/// Checks that a client-chosen name can be used as (part of) one file name inside a
+/// broker's data directory; `suffix_len` bytes are appended to it.
+pub(crate) fn check_file_name(name: &str, suffix_len: usize) -> Result<(), String> {
+    if name.contains(['/', '\\', '\0']) {
+        return Err("Invalid name: contains a path separator or NUL".to_string());
+    }
+    if name.len() + suffix_len > 255 {
+        return Err("Invalid name: too long".to_string());
+    }
+    Ok(())
+}
diff --git a/src/brokers/queue/manager.rs b/src/brokers/queue/manager.rs
index 97e62c1..7577e81 100644
--- a/src/brokers/queue/manager.rs
+++ b/src/brokers/queue/manager.rs
@@ -13,6 +13,7 @@ use bytes::Bytes;
 use uuid::Uuid;
 use tracing::{error, info};
 
+use crate::brokers::check_file_name;
 use crate::brokers::queue::domain::queue::{QueueConfig, QueueState, Message, current_time_ms};
 use crate::brokers::queue::options::QueueCreateOptions;
 use crate::brokers::queue::domain::dlq::{DlqMessage, DlqState};
@@ -239,6 +240,7 @@ impl QueueManager {
     pub async fn create_queue(&self, name: String, options: QueueCreateOptions) -> Result<(), String> {
         use dashmap::mapref::entry::Entry;
 
+        check_file_name(&name, ".config.json".len())?;
         let _lifecycle = self.lifecycle.lock().await;
 
         match self.queues.entry(name.clone()) {
@@ -261,6 +263,7 @@ impl QueueManager {
     }
 
     pub async fn delete_queue(&self, name: String) -> Result<(), String> {
+        check_file_name(&name, ".config.json".len())?;
         // In its own task: a client that disconnects must not leave a half-deleted queue behind
         let manager = self.clone();
         tokio::spawn(async move { manager.delete_queue_files(name).await })
diff --git a/src/brokers/stream/manager.rs b/src/brokers/stream/manager.rs
index be786fc..ea90ab9 100644
--- a/src/brokers/stream/manager.rs
+++ b/src/brokers/stream/manager.rs
@@ -11,6 +11,7 @@ use tokio::time::{sleep_until, Instant};
 use tokio_util::sync::CancellationToken;
 use tracing::info;
 
+use crate::brokers::check_file_name;
 use crate::brokers::stream::options::{SeekTarget, StreamCreateOptions};
 use crate::brokers::stream::config::SystemStreamConfig;
 use crate::brokers::stream::domain::group::ConsumerGroup;
@@ -92,7 +93,16 @@ impl StreamManager {
         self.cancel.cancel();
     }
 
+    /// A topic is a directory below the persistence path, named like the topic.
+    fn check_topic_name(name: &str) -> Result<(), String> {
+        if name.is_empty() || name == "." || name == ".." {
+            return Err(format!("Invalid name: '{}'", name));
+        }
+        check_file_name(name, 0)
+    }
+
     pub async fn create_topic(&self, name: String, options: StreamCreateOptions) -> Result<(), String> {
+        Self::check_topic_name(&name)?;
         self.deleted_topics.remove(&name);
 
         if self.topics.contains_key(&name) {
@@ -136,6 +146,7 @@ impl StreamManager {
     }
 
     pub async fn delete_topic(&self, name: String) -> Result<(), String> {
+        Self::check_topic_name(&name)?;
         self.deleted_topics.insert(name.clone(), ());
 
         let topic_path = PathBuf::from(&self.config.persistence_path).join(&name);
@@ -412,6 +423,9 @@ impl StreamManager {
     }
 
     pub async fn exists(&self, name: &str) -> bool {
+        if Self::check_topic_name(name).is_err() {
+            return false;
+        }
         if self.topics.contains_key(name) {
             return true;
         }
-- 
2.43.0


From 430b87b0aaca261659d4585c1e8662f7166fdf6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:28 +0000
Subject: [PATCH 07/29] fix: hand stream messages to storage in sequence order

publish appended under the topic lock but sent the message to the storage
actor after releasing it, so concurrent publishers could reach the disk out
of order. Reads from disk then returned messages out of order or skipped
some, and a restart continued the numbering from a wrong position.
---
 src/brokers/stream/manager.rs | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/brokers/stream/manager.rs b/src/brokers/stream/manager.rs
index ea90ab9..25746fd 100644
--- a/src/brokers/stream/manager.rs
+++ b/src/brokers/stream/manager.rs
@@ -165,21 +165,23 @@ impl StreamManager {
         let topic_ref = self.get_topic(topic).ok_or("Topic not found")?;
         let persisted_seq = topic_ref.persisted_seq.clone();
 
-        let (seq, timestamp) = {
+        let seq = {
             let mut inner = Self::lock_topic(&topic_ref.inner);
-            inner.state.append(payload.clone())
+            let (seq, timestamp) = inner.state.append(payload.clone());
+
+            // Under the lock: storage must receive the messages in sequence order
+            let _ = self.storage_tx.send(StorageCommand::Append {
+                topic_name: topic.to_string(),
+                messages: vec![MessageToAppend {
+                    seq,
+                    timestamp,
+                    payload,
+                }],
+                persisted_seq,
+            });
+            seq
         };
 
-        let _ = self.storage_tx.send(StorageCommand::Append {
-            topic_name: topic.to_string(),
-            messages: vec![MessageToAppend {
-                seq,
-                timestamp,
-                payload,
-            }],
-            persisted_seq,
-        });
-
         topic_ref.notify.notify_waiters();
         Ok(seq)
     }
-- 
2.43.0


From 7c73f8df62ff64d6a490e94883fb05a80a60a71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:08 +0000
Subject: [PATCH 08/29] fix: clean up after connections that end with an error

A connection that ended by a reset or a protocol error returned before the
cleanup: its subscriptions stayed registered and its consumer group members
kept their messages until the ack wait ran out.
---
 src/transport/tcp/connection.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/transport/tcp/connection.rs b/src/transport/tcp/connection.rs
index 5897216..ff09430 100644
--- a/src/transport/tcp/connection.rs
+++ b/src/transport/tcp/connection.rs
@@ -56,7 +56,7 @@ pub async fn handle_connection(socket: TcpStream, engine: NexoEngine) -> Result<
     // ==========================================
     let mut request_set = tokio::task::JoinSet::new();
 
-    loop {
+    let outcome = loop {
         tokio::select! {
             // EVENT A: We received a command from the Client
             Some(frame) = inbound_rx.recv() => {
@@ -79,17 +79,17 @@ pub async fn handle_connection(socket: TcpStream, engine: NexoEngine) -> Result<
 
             // EVENT B: The TCP Socket crashed or disconnected
             socket_result = &mut socket_task => {
-                match socket_result {
-                    Ok(Ok(())) => break, // Clean disconnect
-                    Ok(Err(err)) => return Err(format!("Protocol error: {err:?}")),
-                    Err(err) => return Err(format!("Socket task panicked: {err:?}")),
-                }
+                break match socket_result {
+                    Ok(Ok(())) => Ok(()), // Clean disconnect
+                    Ok(Err(err)) => Err(format!("Protocol error: {err:?}")),
+                    Err(err) => Err(format!("Socket task panicked: {err:?}")),
+                };
             }
 
             // EVENT C: A background request finished, clean up its memory
             _ = request_set.join_next(), if !request_set.is_empty() => {}
         }
-    }
+    };
 
     // ==========================================
     // ACT 4: CLEANUP & DISCONNECT
@@ -101,7 +101,7 @@ pub async fn handle_connection(socket: TcpStream, engine: NexoEngine) -> Result<
     engine.pubsub.disconnect(&client_id);
     engine.stream.disconnect(client_id.0.clone()).await;
 
-    Ok(())
+    outcome
 }
 
 
-- 
2.43.0


From 4331ad49b1922d595590a8f2c67dacd0afaa2a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:06 +0000
Subject: [PATCH 09/29] fix: refuse fetches of non-members also while the group
 is back-pressured

---
 src/brokers/stream/domain/group.rs | 2 +-
 src/brokers/stream/manager.rs      | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/brokers/stream/domain/group.rs b/src/brokers/stream/domain/group.rs
index 566ab33..1dd06b9 100644
--- a/src/brokers/stream/domain/group.rs
+++ b/src/brokers/stream/domain/group.rs
@@ -364,7 +364,7 @@ impl ConsumerGroup {
         log.get(idx).cloned()
     }
 
-    fn ensure_active_consumer(&self, consumer_id: &str, generation: u64) -> Result<(), String> {
+    pub fn ensure_active_consumer(&self, consumer_id: &str, generation: u64) -> Result<(), String> {
         if generation != self.generation {
             return Err("FENCED".to_string());
         }
diff --git a/src/brokers/stream/manager.rs b/src/brokers/stream/manager.rs
index 25746fd..6b47364 100644
--- a/src/brokers/stream/manager.rs
+++ b/src/brokers/stream/manager.rs
@@ -700,6 +700,7 @@ impl StreamManager {
 
             let was_clamped = group_ref.clamp_head(head_seq);
 
+            group_ref.ensure_active_consumer(consumer_id, generation)?;
             if group_ref.is_backpressured() {
                 return Ok(FetchAttempt::Ready(Vec::new()));
             }
-- 
2.43.0


From f535b752d158d7c574e9a304c9ba156dd0450743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:06 +0000
Subject: [PATCH 10/29] fix: redeliver messages that left memory before
 delivering new ones

---
 src/brokers/stream/domain/group.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/brokers/stream/domain/group.rs b/src/brokers/stream/domain/group.rs
index 1dd06b9..c462cff 100644
--- a/src/brokers/stream/domain/group.rs
+++ b/src/brokers/stream/domain/group.rs
@@ -116,9 +116,10 @@ impl ConsumerGroup {
                         result.push(msg);
                     }
                 } else {
-                    // Cold message: put back and stop (needs disk read or wait for RAM)
+                    // Cold message: put back and stop (needs a disk read, which newer
+                    // messages must not put off)
                     self.redeliver.push_front(seq);
-                    break;
+                    return Ok(result);
                 }
             } else {
                 break;
-- 
2.43.0


From 36b2377bb68db059162c8926ecf5f98b8f8cfad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:54 +0000
Subject: [PATCH 11/29] fix: continue numbering after an empty last stream
 segment

---
 src/brokers/stream/domain/topic.rs | 8 ++++++++
 src/brokers/stream/manager.rs      | 6 +++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/brokers/stream/domain/topic.rs b/src/brokers/stream/domain/topic.rs
index 5aa7545..b5b810c 100644
--- a/src/brokers/stream/domain/topic.rs
+++ b/src/brokers/stream/domain/topic.rs
@@ -96,6 +96,14 @@ impl TopicState {
         }
     }
 
+    /// Numbering continues at `seq` at least; messages before it are on disk only.
+    pub fn continue_at(&mut self, seq: u64) {
+        if self.log.is_empty() && self.next_seq < seq {
+            self.next_seq = seq;
+            self.ram_start_seq = seq;
+        }
+    }
+
     pub fn append(&mut self, payload: Bytes) -> (u64, u64) {
         let seq = self.next_seq;
         let timestamp = SystemTime::now()
diff --git a/src/brokers/stream/manager.rs b/src/brokers/stream/manager.rs
index 6b47364..06159ba 100644
--- a/src/brokers/stream/manager.rs
+++ b/src/brokers/stream/manager.rs
@@ -504,7 +504,11 @@ impl StreamManager {
         }
 
         let recovered = recover_topic(&name, PathBuf::from(config.persistence_path.clone())).await;
-        let state = TopicState::restore(name.clone(), config.ram_soft_limit, recovered.head_seq.max(1), recovered.messages);
+        let mut state = TopicState::restore(name.clone(), config.ram_soft_limit, recovered.head_seq.max(1), recovered.messages);
+        if let Some(last_segment) = recovered.segments.last() {
+            // A last segment without messages still tells where numbering continues
+            state.continue_at(last_segment.start_seq);
+        }
 
         let ack_wait = Duration::from_millis(config.ack_wait_ms);
         let persisted_seq = Arc::new(AtomicU64::new(state.next_seq.saturating_sub(1)));
-- 
2.43.0


From 55f23441e36c6bfd4e8fe80d59d2cdc49c1882a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:55 +0000
Subject: [PATCH 12/29] fix: cut off a half-written stream record on recovery

---
 src/brokers/stream/domain/persistence.rs | 27 ++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/brokers/stream/domain/persistence.rs b/src/brokers/stream/domain/persistence.rs
index b932816..ec58e3f 100644
--- a/src/brokers/stream/domain/persistence.rs
+++ b/src/brokers/stream/domain/persistence.rs
@@ -452,7 +452,9 @@ pub async fn recover_topic(topic_name: &str, base_path: PathBuf) -> RecoveredSta
     if let Ok(segments) = find_segments(&base_path).await {
         state.head_seq = segments.first().map(|seg| seg.start_seq).unwrap_or(1);
         if let Some(last_segment) = segments.last() {
-            state.messages = load_segment_file(&last_segment.path).await;
+            let (messages, valid_len) = load_segment_file(&last_segment.path).await;
+            state.messages = messages;
+            truncate_segment(&last_segment.path, valid_len).await;
         }
         state.segments = segments;
     }
@@ -528,12 +530,28 @@ async fn write_group_entry<W: tokio::io::AsyncWrite + std::marker::Unpin>(writer
     Ok(())
 }
 
-async fn load_segment_file(path: &PathBuf) -> VecDeque<Message> {
+/// Cut off a half-written record, so that later ones are not appended behind it.
+async fn truncate_segment(path: &PathBuf, valid_len: u64) {
+    let Ok(metadata) = tokio::fs::metadata(path).await else { return };
+    if metadata.len() <= valid_len { return; }
+    warn!("Discarding {} bytes of an incomplete record in {:?}", metadata.len() - valid_len, path);
+    let result = match OpenOptions::new().write(true).open(path).await {
+        Ok(file) => file.set_len(valid_len).await,
+        Err(e) => Err(e),
+    };
+    if let Err(e) = result {
+        error!("Failed to truncate segment {:?}: {}", path, e);
+    }
+}
+
+/// Messages of a segment file, and the length of the part of the file that holds them.
+async fn load_segment_file(path: &PathBuf) -> (VecDeque<Message>, u64) {
     use bytes::Buf;
     let mut msgs = VecDeque::new();
+    let mut valid_len = 0;
     let file = match File::open(path).await {
         Ok(f) => f,
-        Err(_) => return msgs,
+        Err(_) => return (msgs, u64::MAX),
     };
 
     let mut reader = BufReader::new(file);
@@ -562,8 +580,9 @@ async fn load_segment_file(path: &PathBuf) -> VecDeque<Message> {
         let payload = Bytes::copy_from_slice(&cursor.copy_to_bytes(payload_len));
 
         msgs.push_back(Message { seq, timestamp, payload });
+        valid_len += 8 + len as u64;
     }
-    msgs
+    (msgs, valid_len)
 }
 
 async fn load_groups_file(path: &PathBuf) -> Result<HashMap<String, u64>, std::io::Error> {
-- 
2.43.0


From ffdb5fc37b54db1aec1f79b33969349538ab659a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:55 +0000
Subject: [PATCH 13/29] fix: stream group progress must not get ahead of the
 stored messages

---
 src/brokers/stream/domain/persistence.rs | 14 ++++++++++++++
 src/brokers/stream/manager.rs            |  2 +-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/brokers/stream/domain/persistence.rs b/src/brokers/stream/domain/persistence.rs
index ec58e3f..d4ebd52 100644
--- a/src/brokers/stream/domain/persistence.rs
+++ b/src/brokers/stream/domain/persistence.rs
@@ -173,6 +173,11 @@ impl StorageManager {
                 let _ = reply.send(msgs);
             }
             StorageCommand::SaveGroups { topic_name, groups_data } => {
+                // Progress must not get ahead of the messages it counts as settled
+                if let Err(e) = self.flush_topic(&topic_name).await {
+                    error!("Failed to flush {} before saving groups: {}", topic_name, e);
+                    return;
+                }
                 let base_path = self.base_path.join(&topic_name);
                 if let Err(e) = save_groups_file(&base_path, &groups_data).await {
                     error!("Failed to save groups for {}: {}", topic_name, e);
@@ -281,6 +286,15 @@ impl StorageManager {
         Ok(self.open_files.get_mut(path).unwrap())
     }
 
+    async fn flush_topic(&mut self, topic_name: &str) -> std::io::Result<()> {
+        if let Some(ctx) = self.topics.get(topic_name) {
+            if let Some(writer) = self.open_files.get_mut(&ctx.active_path) {
+                writer.flush().await?;
+            }
+        }
+        Ok(())
+    }
+
     async fn flush_all(&mut self) {
         for (_, writer) in self.open_files.iter_mut() {
             let _ = writer.flush().await;
diff --git a/src/brokers/stream/manager.rs b/src/brokers/stream/manager.rs
index 06159ba..e1fa1cf 100644
--- a/src/brokers/stream/manager.rs
+++ b/src/brokers/stream/manager.rs
@@ -516,7 +516,7 @@ impl StreamManager {
         for (group_id, ack_floor) in recovered.groups_data {
             groups.insert(
                 group_id.clone(),
-                ConsumerGroup::restore(group_id, ack_floor, state.head_seq, config.max_ack_pending, ack_wait, config.max_deliveries),
+                ConsumerGroup::restore(group_id, ack_floor.min(state.next_seq.saturating_sub(1)), state.head_seq, config.max_ack_pending, ack_wait, config.max_deliveries),
             );
         }
 
-- 
2.43.0


From 620510561634855fd0c96fd30b32b95181e9339a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:52 +0000
Subject: [PATCH 14/29] fix: a disk read of a disconnected client must not
 block its group

The read was marked in the group and only unmarked by the fetch that started it.
When the client disconnected during the read, nobody unmarked it, and every later
fetch of that group that needs the disk returned empty at once.
---
 src/brokers/stream/manager.rs | 35 ++++++++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/src/brokers/stream/manager.rs b/src/brokers/stream/manager.rs
index e1fa1cf..06e1772 100644
--- a/src/brokers/stream/manager.rs
+++ b/src/brokers/stream/manager.rs
@@ -40,6 +40,26 @@ struct TopicInner {
     full_config: TopicConfig,
 }
 
+/// A group's read from disk. Dropped with the fetch when its client disconnects: the
+/// group must not stay marked as reading then.
+struct ColdRead<'a> {
+    topic_ref: &'a TopicShared,
+    group: &'a str,
+    finished: bool,
+}
+
+impl Drop for ColdRead<'_> {
+    fn drop(&mut self) {
+        if self.finished {
+            return;
+        }
+        let mut inner = StreamManager::lock_topic(&self.topic_ref.inner);
+        if let Some(group_ref) = inner.groups.get_mut(self.group) {
+            group_ref.is_fetching_cold = false;
+        }
+    }
+}
+
 enum FetchAttempt {
     Ready(Vec<Message>),
     NeedColdRead { from_seq: u64 },
@@ -740,6 +760,8 @@ impl StreamManager {
     }
 
     async fn cold_fetch(&self, topic_ref: &Arc<TopicShared>, topic: &str, group: &str, consumer_id: &str, generation: u64, limit: usize, from_seq: u64, group_cancel: &CancellationToken) -> Result<Vec<Message>, String> {
+        let mut reading = ColdRead { topic_ref: topic_ref.as_ref(), group, finished: false };
+
         let (tx, rx) = oneshot::channel();
         if self.storage_tx.send(StorageCommand::ColdRead {
             topic_name: topic.to_string(),
@@ -747,25 +769,16 @@ impl StreamManager {
             limit,
             reply: tx,
         }).is_err() {
-            let mut inner = Self::lock_topic(&topic_ref.inner);
-            if let Some(group_ref) = inner.groups.get_mut(group) {
-                group_ref.is_fetching_cold = false;
-            }
             return Err("Disk read failed".to_string());
         }
 
         let messages = match rx.await {
             Ok(messages) => messages,
-            Err(_) => {
-                let mut inner = Self::lock_topic(&topic_ref.inner);
-                if let Some(group_ref) = inner.groups.get_mut(group) {
-                    group_ref.is_fetching_cold = false;
-                }
-                return Err("Disk read failed".to_string());
-            }
+            Err(_) => return Err("Disk read failed".to_string()),
         };
 
         let mut inner = Self::lock_topic(&topic_ref.inner);
+        reading.finished = true;
         let head_seq = inner.state.head_seq;
         if let Some(group_ref) = inner.groups.get_mut(group) {
             group_ref.is_fetching_cold = false;
-- 
2.43.0


From a650efb96bb1cd6286bc30fe5ad04113fb37b3bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:53 +0000
Subject: [PATCH 15/29] fix: restore stream topics from the configured data
 directory

The path a topic was created under was saved with its configuration and used again
on restart. After the data directory had been moved, or given by another relative
path, topics came back empty and their messages were written to the old place.
---
 src/brokers/stream/manager.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/brokers/stream/manager.rs b/src/brokers/stream/manager.rs
index 06e1772..a7c4e23 100644
--- a/src/brokers/stream/manager.rs
+++ b/src/brokers/stream/manager.rs
@@ -471,7 +471,11 @@ impl StreamManager {
     async fn load_topic_config(base_path: &PathBuf, options: StreamCreateOptions, config: &SystemStreamConfig) -> TopicConfig {
         let config_path = base_path.join("config.json");
         if let Ok(data) = tokio::fs::read_to_string(&config_path).await {
-            serde_json::from_str(&data).unwrap_or_else(|_| TopicConfig::from_options(options, config))
+            match serde_json::from_str::<TopicConfig>(&data) {
+                // The data may have been moved since the topic was created
+                Ok(saved) => TopicConfig { persistence_path: config.persistence_path.clone(), ..saved },
+                Err(_) => TopicConfig::from_options(options, config),
+            }
         } else {
             TopicConfig::from_options(options, config)
         }
-- 
2.43.0


From 73d4f5623e9b8040584ebebc8b14e63665730930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:22 +0000
Subject: [PATCH 16/29] fix: stream operations that overlap a topic's deletion

A publish, join or group save that had looked the topic up before it was deleted
was stored after the deletion: the files came back, and with them, on the next
start, the topic. Fetches waiting on the deleted topic sat out their whole wait.
A topic could be created in the middle of its own deletion, or reported as existing
while it could not be used, and a client disconnecting at the wrong moment left
half-created or half-deleted files. Creation and deletion now run one at a time and
to their end, and a deleted topic refuses operations that still hold it.
---
 src/brokers/stream/manager.rs | 143 +++++++++++++++++++++-------------
 1 file changed, 87 insertions(+), 56 deletions(-)

diff --git a/src/brokers/stream/manager.rs b/src/brokers/stream/manager.rs
index a7c4e23..abf6566 100644
--- a/src/brokers/stream/manager.rs
+++ b/src/brokers/stream/manager.rs
@@ -37,6 +37,8 @@ struct TopicInner {
     groups: HashMap<String, ConsumerGroup>,
     client_map: HashMap<String, Vec<ConsumerBinding>>,
     groups_dirty: bool,
+    /// Set when the topic is deleted: whoever still holds it must not use it any more
+    deleted: bool,
     full_config: TopicConfig,
 }
 
@@ -75,16 +77,16 @@ pub struct JoinGroupResult {
 #[derive(Clone)]
 pub struct StreamManager {
     topics: Arc<DashMap<String, Arc<TopicShared>>>,
-    deleted_topics: Arc<DashMap<String, ()>>,
     storage_tx: mpsc::UnboundedSender<StorageCommand>,
     config: Arc<SystemStreamConfig>,
     cancel: CancellationToken,
+    /// Serializes creation and deletion: both work on the topic's files
+    lifecycle: Arc<tokio::sync::Mutex<()>>,
 }
 
 impl StreamManager {
     pub async fn new(config: Arc<SystemStreamConfig>) -> Self {
         let topics = Arc::new(DashMap::new());
-        let deleted_topics = Arc::new(DashMap::new());
         let (storage_tx, storage_rx) = mpsc::unbounded_channel();
 
         let storage_manager = StorageManager::new(
@@ -98,10 +100,10 @@ impl StreamManager {
 
         let manager = Self {
             topics,
-            deleted_topics,
             storage_tx,
             config,
             cancel: CancellationToken::new(),
+            lifecycle: Arc::new(tokio::sync::Mutex::new(())),
         };
 
         manager.bootstrap_from_disk().await;
@@ -123,7 +125,16 @@ impl StreamManager {
 
     pub async fn create_topic(&self, name: String, options: StreamCreateOptions) -> Result<(), String> {
         Self::check_topic_name(&name)?;
-        self.deleted_topics.remove(&name);
+
+        // In its own task: a client that disconnects must not leave a half-created topic behind
+        let manager = self.clone();
+        tokio::spawn(async move { manager.create_topic_files(name, options).await })
+            .await
+            .map_err(|e| format!("Topic creation failed: {}", e))?
+    }
+
+    async fn create_topic_files(&self, name: String, options: StreamCreateOptions) -> Result<(), String> {
+        let _lifecycle = self.lifecycle.lock().await;
 
         if self.topics.contains_key(&name) {
             return Ok(());
@@ -167,18 +178,43 @@ impl StreamManager {
 
     pub async fn delete_topic(&self, name: String) -> Result<(), String> {
         Self::check_topic_name(&name)?;
-        self.deleted_topics.insert(name.clone(), ());
+
+        // In its own task: a client that disconnects must not leave a half-deleted topic behind
+        let manager = self.clone();
+        tokio::spawn(async move { manager.delete_topic_files(name).await })
+            .await
+            .map_err(|e| format!("Topic deletion failed: {}", e))
+    }
+
+    async fn delete_topic_files(&self, name: String) {
+        let _lifecycle = self.lifecycle.lock().await;
+
+        let (del_tx, del_rx) = oneshot::channel();
+        let drop_command = StorageCommand::DropTopic {
+            topic_name: name.clone(),
+            reply: del_tx,
+        };
 
         let topic_path = PathBuf::from(&self.config.persistence_path).join(&name);
-        if self.topics.remove(&name).is_some() || tokio::fs::metadata(&topic_path).await.map(|meta| meta.is_dir()).unwrap_or(false) {
-            let (del_tx, del_rx) = oneshot::channel();
-            let _ = self.storage_tx.send(StorageCommand::DropTopic {
-                topic_name: name,
-                reply: del_tx,
-            });
-            let _ = del_rx.await;
+        if let Some((_, topic_ref)) = self.topics.remove(&name) {
+            {
+                let mut inner = Self::lock_topic(&topic_ref.inner);
+                inner.deleted = true;
+                inner.groups_dirty = false;
+                inner.client_map.clear();
+                for (_, group) in inner.groups.drain() {
+                    group.cancel.cancel();
+                }
+                // Under the lock: nothing may be stored for this topic after it is dropped
+                let _ = self.storage_tx.send(drop_command);
+            }
+            topic_ref.notify.notify_waiters();
+        } else if tokio::fs::metadata(&topic_path).await.map(|meta| meta.is_dir()).unwrap_or(false) {
+            let _ = self.storage_tx.send(drop_command);
+        } else {
+            return;
         }
-        Ok(())
+        let _ = del_rx.await;
     }
 
     pub async fn publish(&self, topic: &str, payload: Bytes) -> Result<u64, String> {
@@ -186,7 +222,7 @@ impl StreamManager {
         let persisted_seq = topic_ref.persisted_seq.clone();
 
         let seq = {
-            let mut inner = Self::lock_topic(&topic_ref.inner);
+            let mut inner = Self::lock_live(&topic_ref)?;
             let (seq, timestamp) = inner.state.append(payload.clone());
 
             // Under the lock: storage must receive the messages in sequence order
@@ -308,7 +344,7 @@ impl StreamManager {
     pub async fn seek(&self, group: &str, topic: &str, target: SeekTarget) -> Result<(), String> {
         let topic_ref = self.get_topic(topic).ok_or("Topic not found")?;
         {
-            let mut inner = Self::lock_topic(&topic_ref.inner);
+            let mut inner = Self::lock_live(&topic_ref)?;
             let last_seq = inner.state.next_seq.saturating_sub(1);
             let head_seq = inner.state.head_seq;
             let max_ack_pending = inner.full_config.max_ack_pending;
@@ -363,7 +399,7 @@ impl StreamManager {
 
     pub async fn join_group(&self, group: &str, topic: &str, connection_client_id: &str) -> Result<JoinGroupResult, String> {
         let topic_ref = self.get_topic(topic).ok_or("Topic not found")?;
-        let mut inner = Self::lock_topic(&topic_ref.inner);
+        let mut inner = Self::lock_live(&topic_ref)?;
         let head_seq = inner.state.head_seq;
         let max_ack_pending = inner.full_config.max_ack_pending;
         let ack_wait = Duration::from_millis(inner.full_config.ack_wait_ms);
@@ -445,15 +481,7 @@ impl StreamManager {
     }
 
     pub async fn exists(&self, name: &str) -> bool {
-        if Self::check_topic_name(name).is_err() {
-            return false;
-        }
-        if self.topics.contains_key(name) {
-            return true;
-        }
-
-        let path = PathBuf::from(&self.config.persistence_path).join(name);
-        tokio::fs::metadata(path).await.map(|meta| meta.is_dir()).unwrap_or(false)
+        self.topics.contains_key(name)
     }
 
     fn get_topic(&self, topic: &str) -> Option<Arc<TopicShared>> {
@@ -464,6 +492,15 @@ impl StreamManager {
         mutex.lock().unwrap_or_else(|poisoned| poisoned.into_inner())
     }
 
+    /// Locks a topic that has not been deleted in the meantime.
+    fn lock_live(topic_ref: &TopicShared) -> Result<MutexGuard<'_, TopicInner>, String> {
+        let inner = Self::lock_topic(&topic_ref.inner);
+        if inner.deleted {
+            return Err("Topic not found".to_string());
+        }
+        Ok(inner)
+    }
+
     fn collect_topics(topics: &Arc<DashMap<String, Arc<TopicShared>>>) -> Vec<(String, Arc<TopicShared>)> {
         topics.iter().map(|entry| (entry.key().clone(), entry.value().clone())).collect()
     }
@@ -503,10 +540,6 @@ impl StreamManager {
             };
 
             let name = topic_name.to_string();
-            if self.deleted_topics.contains_key(&name) {
-                continue;
-            }
-
             let topic_config = Self::load_topic_config(&path, StreamCreateOptions::default(), &self.config).await;
             let topic_ref = Self::build_topic_shared(name.clone(), topic_config).await;
 
@@ -550,6 +583,7 @@ impl StreamManager {
                 groups,
                 client_map: HashMap::new(),
                 groups_dirty: false,
+                deleted: false,
                 full_config: config,
             }),
             notify: Notify::new(),
@@ -594,22 +628,18 @@ impl StreamManager {
                         _ = timer.tick() => {}
                     }
                     for (topic_name, topic_ref) in StreamManager::collect_topics(&topics) {
-                        let groups_data = {
-                            let mut inner = StreamManager::lock_topic(&topic_ref.inner);
-                            if !inner.groups_dirty {
-                                None
-                            } else {
-                                inner.groups_dirty = false;
-                                Some(inner.groups.iter().map(|(id, group)| (id.clone(), group.ack_floor)).collect::<HashMap<_, _>>())
-                            }
-                        };
-
-                        if let Some(groups_data) = groups_data {
-                            let _ = storage_tx.send(StorageCommand::SaveGroups {
-                                topic_name,
-                                groups_data,
-                            });
+                        let mut inner = StreamManager::lock_topic(&topic_ref.inner);
+                        if !inner.groups_dirty {
+                            continue;
                         }
+                        inner.groups_dirty = false;
+                        let groups_data = inner.groups.iter().map(|(id, group)| (id.clone(), group.ack_floor)).collect::<HashMap<_, _>>();
+
+                        // Under the lock: a deleted topic's groups must not be stored again
+                        let _ = storage_tx.send(StorageCommand::SaveGroups {
+                            topic_name,
+                            groups_data,
+                        });
                     }
                 }
             }
@@ -629,19 +659,20 @@ impl StreamManager {
                         _ = timer.tick() => {}
                     }
                     for (topic_name, topic_ref) in StreamManager::collect_topics(&topics) {
-                        let (retention, max_segment_size) = {
-                            let inner = StreamManager::lock_topic(&topic_ref.inner);
-                            (inner.full_config.retention.clone(), inner.full_config.max_segment_size)
-                        };
-
                         let (reply_tx, reply_rx) = oneshot::channel();
-                        if storage_tx.send(StorageCommand::ApplyRetention {
-                            topic_name,
-                            retention,
-                            max_segment_size,
-                            reply: reply_tx,
-                        }).is_err() {
-                            continue;
+                        {
+                            let Ok(inner) = StreamManager::lock_live(&topic_ref) else {
+                                continue;
+                            };
+                            // Under the lock: a new topic of the same name has its own limits
+                            if storage_tx.send(StorageCommand::ApplyRetention {
+                                topic_name,
+                                retention: inner.full_config.retention.clone(),
+                                max_segment_size: inner.full_config.max_segment_size,
+                                reply: reply_tx,
+                            }).is_err() {
+                                continue;
+                            }
                         }
 
                         let Ok(outcome) = reply_rx.await else {
-- 
2.43.0


From 2339144131c731e8119d4eb57ca06667e2bc66d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:23 +0000
Subject: [PATCH 17/29] fix: creation and deletion of a stream topic survive a
 crash as a whole

A crash while a topic's directory was being removed left some of its files, and the
next start restored a topic with a part of the messages, or with default settings.
A deletion is now marked in the directory first and finished on the next start; the
configuration is written with a rename, and directories without content are not
taken for topics.
---
 src/brokers/stream/domain/persistence.rs | 43 +++++++++++++++++++++-
 src/brokers/stream/manager.rs            | 47 ++++++++++++++----------
 2 files changed, 69 insertions(+), 21 deletions(-)

diff --git a/src/brokers/stream/domain/persistence.rs b/src/brokers/stream/domain/persistence.rs
index d4ebd52..c8966cc 100644
--- a/src/brokers/stream/domain/persistence.rs
+++ b/src/brokers/stream/domain/persistence.rs
@@ -24,6 +24,9 @@ use crc32fast::Hasher;
 use crate::brokers::stream::options::RetentionOptions;
 use crate::brokers::stream::domain::message::Message;
 
+pub const CONFIG_FILE: &str = "config.json";
+const DELETED_MARKER: &str = "deleted";
+
 // ==========================================
 // DATA STRUCTURES
 // ==========================================
@@ -194,7 +197,7 @@ impl StorageManager {
                 }
                 let topic_path = self.base_path.join(&topic_name);
                 if topic_path.exists() {
-                    let _ = std::fs::remove_dir_all(&topic_path);
+                    delete_topic_dir(&topic_path);
                 }
                 let _ = reply.send(());
             }
@@ -482,6 +485,44 @@ pub async fn recover_topic(topic_name: &str, base_path: PathBuf) -> RecoveredSta
     state
 }
 
+/// From here on, the topic is not restored any more.
+pub fn mark_topic_deleted(topic_path: &Path) {
+    if let Err(e) = std::fs::write(topic_path.join(DELETED_MARKER), b"") {
+        error!("Failed to mark {:?} as deleted: {}", topic_path, e);
+    }
+}
+
+/// Deletes a topic's directory so that a crash in between leaves a topic that is either
+/// complete or marked as deleted.
+fn delete_topic_dir(topic_path: &Path) {
+    mark_topic_deleted(topic_path);
+    if let Ok(entries) = std::fs::read_dir(topic_path) {
+        for path in entries.flatten().map(|entry| entry.path()) {
+            if path.is_file() && !path.ends_with(DELETED_MARKER) {
+                let _ = std::fs::remove_file(path);
+            }
+        }
+    }
+    let _ = std::fs::remove_dir_all(topic_path);
+}
+
+/// Finishes a deletion that was interrupted by a crash.
+pub fn discard_deleted_topic(topic_path: &Path) -> bool {
+    let interrupted = topic_path.join(DELETED_MARKER).exists();
+    if interrupted {
+        delete_topic_dir(topic_path);
+    }
+    interrupted
+}
+
+/// Whether a directory holds a topic, and not just what a crash during its creation or
+/// deletion has left of it.
+pub fn is_topic_dir(topic_path: &Path) -> bool {
+    std::fs::read_dir(topic_path)
+        .map(|entries| entries.flatten().any(|entry| !entry.file_name().to_string_lossy().ends_with(".tmp")))
+        .unwrap_or(false)
+}
+
 /// Find all segment files for a topic, sorted by start_seq.
 pub async fn find_segments(base_path: &Path) -> std::io::Result<Vec<Segment>> {
     let mut segments = Vec::new();
diff --git a/src/brokers/stream/manager.rs b/src/brokers/stream/manager.rs
index abf6566..c158679 100644
--- a/src/brokers/stream/manager.rs
+++ b/src/brokers/stream/manager.rs
@@ -1,5 +1,5 @@
 use std::collections::HashMap;
-use std::path::PathBuf;
+use std::path::{Path, PathBuf};
 use std::sync::atomic::{AtomicU64, Ordering};
 use std::sync::{Arc, Mutex, MutexGuard};
 use std::time::Duration;
@@ -17,7 +17,9 @@ use crate::brokers::stream::config::SystemStreamConfig;
 use crate::brokers::stream::domain::group::ConsumerGroup;
 use crate::brokers::stream::domain::message::Message;
 use crate::brokers::stream::snapshot::{ConsumerGroupSnapshot, StreamSnapshot, TopicSnapshot};
-use crate::brokers::stream::domain::persistence::{recover_topic, MessageToAppend, StorageCommand, StorageManager};
+use crate::brokers::stream::domain::persistence::{
+    discard_deleted_topic, is_topic_dir, mark_topic_deleted, recover_topic, MessageToAppend, StorageCommand, StorageManager, CONFIG_FILE,
+};
 use crate::brokers::stream::domain::topic::{TopicConfig, TopicState};
 
 struct TopicShared {
@@ -141,27 +143,15 @@ impl StreamManager {
         }
 
         let base_path = PathBuf::from(&self.config.persistence_path).join(&name);
-        let existed_on_disk = tokio::fs::metadata(&base_path).await.map(|meta| meta.is_dir()).unwrap_or(false);
+        discard_deleted_topic(&base_path);
         let topic_config = Self::load_topic_config(&base_path, options, &self.config).await;
 
         info!("[StreamManager] Creating topic '{}'", name);
 
-        if !existed_on_disk {
-            if let Err(e) = tokio::fs::create_dir_all(&base_path).await {
-                tracing::error!("Failed to create topic directory at {:?}: {}", base_path, e);
-            } else {
-                let config_path = base_path.join("config.json");
-                if let Ok(data) = serde_json::to_string_pretty(&topic_config) {
-                    let _ = tokio::fs::write(&config_path, data).await;
-                }
-            }
-        } else {
-            let config_path = base_path.join("config.json");
-            if !config_path.exists() {
-                if let Ok(data) = serde_json::to_string_pretty(&topic_config) {
-                    let _ = tokio::fs::write(&config_path, data).await;
-                }
-            }
+        if let Err(e) = tokio::fs::create_dir_all(&base_path).await {
+            tracing::error!("Failed to create topic directory at {:?}: {}", base_path, e);
+        } else if !base_path.join(CONFIG_FILE).exists() {
+            Self::save_topic_config(&base_path, &topic_config).await;
         }
 
         let shared = Self::build_topic_shared(name.clone(), topic_config).await;
@@ -196,6 +186,10 @@ impl StreamManager {
         };
 
         let topic_path = PathBuf::from(&self.config.persistence_path).join(&name);
+        if self.topics.contains_key(&name) {
+            // First of all: nobody may see the topic gone that a crash would bring back
+            mark_topic_deleted(&topic_path);
+        }
         if let Some((_, topic_ref)) = self.topics.remove(&name) {
             {
                 let mut inner = Self::lock_topic(&topic_ref.inner);
@@ -505,8 +499,17 @@ impl StreamManager {
         topics.iter().map(|entry| (entry.key().clone(), entry.value().clone())).collect()
     }
 
+    /// Atomic: a crash must not leave a part of the configuration behind.
+    async fn save_topic_config(base_path: &Path, topic_config: &TopicConfig) {
+        let Ok(data) = serde_json::to_string_pretty(topic_config) else { return };
+        let tmp_path = base_path.join("config.json.tmp");
+        if tokio::fs::write(&tmp_path, data).await.is_ok() {
+            let _ = tokio::fs::rename(&tmp_path, base_path.join(CONFIG_FILE)).await;
+        }
+    }
+
     async fn load_topic_config(base_path: &PathBuf, options: StreamCreateOptions, config: &SystemStreamConfig) -> TopicConfig {
-        let config_path = base_path.join("config.json");
+        let config_path = base_path.join(CONFIG_FILE);
         if let Ok(data) = tokio::fs::read_to_string(&config_path).await {
             match serde_json::from_str::<TopicConfig>(&data) {
                 // The data may have been moved since the topic was created
@@ -539,6 +542,10 @@ impl StreamManager {
                 continue;
             };
 
+            if discard_deleted_topic(&path) || !is_topic_dir(&path) {
+                continue;
+            }
+
             let name = topic_name.to_string();
             let topic_config = Self::load_topic_config(&path, StreamCreateOptions::default(), &self.config).await;
             let topic_ref = Self::build_topic_shared(name.clone(), topic_config).await;
-- 
2.43.0


From 3bf540d400d63c8dab0f3ed69c955222937a7b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:42 +0000
Subject: [PATCH 18/29] fix: refuse stream group names too long to be stored

Names of more than 65535 bytes were written to groups.log with a truncated length;
reading the file back lost them and the positions of all groups stored after them.
---
 src/brokers/stream/manager.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/brokers/stream/manager.rs b/src/brokers/stream/manager.rs
index c158679..18feb2b 100644
--- a/src/brokers/stream/manager.rs
+++ b/src/brokers/stream/manager.rs
@@ -125,6 +125,14 @@ impl StreamManager {
         check_file_name(name, 0)
     }
 
+    /// A group's name is stored with a two-byte length.
+    fn check_group_name(group: &str) -> Result<(), String> {
+        if group.len() > u16::MAX as usize {
+            return Err("Invalid group name: too long".to_string());
+        }
+        Ok(())
+    }
+
     pub async fn create_topic(&self, name: String, options: StreamCreateOptions) -> Result<(), String> {
         Self::check_topic_name(&name)?;
 
@@ -336,6 +344,7 @@ impl StreamManager {
     }
 
     pub async fn seek(&self, group: &str, topic: &str, target: SeekTarget) -> Result<(), String> {
+        Self::check_group_name(group)?;
         let topic_ref = self.get_topic(topic).ok_or("Topic not found")?;
         {
             let mut inner = Self::lock_live(&topic_ref)?;
@@ -392,6 +401,7 @@ impl StreamManager {
     }
 
     pub async fn join_group(&self, group: &str, topic: &str, connection_client_id: &str) -> Result<JoinGroupResult, String> {
+        Self::check_group_name(group)?;
         let topic_ref = self.get_topic(topic).ok_or("Topic not found")?;
         let mut inner = Self::lock_live(&topic_ref)?;
         let head_seq = inner.state.head_seq;
-- 
2.43.0


From ed9c74a761eb7fb7e96d108a3f231a020d5003b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:08 +0000
Subject: [PATCH 19/29] fix: retained values that expired while the server was
 down stay expired

---
 src/brokers/pub-sub/domain/retained.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/brokers/pub-sub/domain/retained.rs b/src/brokers/pub-sub/domain/retained.rs
index 0a1a683..a3e58a6 100644
--- a/src/brokers/pub-sub/domain/retained.rs
+++ b/src/brokers/pub-sub/domain/retained.rs
@@ -35,7 +35,7 @@ impl RetainedMessage {
                 let remaining = unix_ts - now_unix;
                 Some(Instant::now() + std::time::Duration::from_secs(remaining))
             } else {
-                None
+                Some(Instant::now()) // its time to live passed while the server was down
             }
         });
         Self { data, expires_at, expires_at_unix }
-- 
2.43.0


From 27347c288d236e3872a7bbbe8e7a55d999e6cdd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:52 +0000
Subject: [PATCH 20/29] fix: keep empty leading topic levels when rebuilding
 topic names

---
 src/brokers/pub-sub/domain/radix_tree.rs | 52 ++++++++++++++----------
 src/brokers/pub-sub/manager.rs           |  7 ++--
 2 files changed, 33 insertions(+), 26 deletions(-)

diff --git a/src/brokers/pub-sub/domain/radix_tree.rs b/src/brokers/pub-sub/domain/radix_tree.rs
index 8fcc38f..6157a15 100644
--- a/src/brokers/pub-sub/domain/radix_tree.rs
+++ b/src/brokers/pub-sub/domain/radix_tree.rs
@@ -23,6 +23,14 @@ pub(crate) struct Node {
     pub(crate) retained: Option<RetainedMessage>,
 }
 
+/// Path of a child: the root has no path of its own, while a level may be empty ("/a", "")
+fn join_path(parent: Option<&str>, level: &str) -> String {
+    match parent {
+        Some(parent) => format!("{}/{}", parent, level),
+        None => level.to_string(),
+    }
+}
+
 impl Node {
     pub(crate) fn new() -> Self {
         Self {
@@ -141,11 +149,11 @@ impl Node {
         current.retained = retained;
     }
 
-    pub(crate) fn collect_retained_for_pattern(&self, pattern: &[String], current_path: &str, results: &mut Vec<(String, Bytes)>) {
+    pub(crate) fn collect_retained_for_pattern(&self, pattern: &[String], current_path: Option<&str>, results: &mut Vec<(String, Bytes)>) {
         if pattern.is_empty() {
             if let Some(retained) = &self.retained {
                 if !retained.is_expired() {
-                    results.push((current_path.to_string(), retained.data.clone()));
+                    results.push((current_path.unwrap_or_default().to_string(), retained.data.clone()));
                 }
             }
             return;
@@ -156,40 +164,40 @@ impl Node {
 
         if head == "+" {
             for (key, child) in &self.children {
-                let next_path = if current_path.is_empty() { key.clone() } else { format!("{}/{}", current_path, key) };
-                child.collect_retained_for_pattern(tail, &next_path, results);
+                let next_path = join_path(current_path, key);
+                child.collect_retained_for_pattern(tail, Some(&next_path), results);
             }
         } else if head == "#" {
             self.collect_all_retained_for_subscribe(current_path, results);
         } else {
             if let Some(child) = self.children.get(head) {
-                let next_path = if current_path.is_empty() { head.clone() } else { format!("{}/{}", current_path, head) };
-                child.collect_retained_for_pattern(tail, &next_path, results);
+                let next_path = join_path(current_path, head);
+                child.collect_retained_for_pattern(tail, Some(&next_path), results);
             }
         }
     }
 
-    pub(crate) fn collect_all_retained_for_subscribe(&self, current_path: &str, results: &mut Vec<(String, Bytes)>) {
+    pub(crate) fn collect_all_retained_for_subscribe(&self, current_path: Option<&str>, results: &mut Vec<(String, Bytes)>) {
         if let Some(retained) = &self.retained {
             if !retained.is_expired() {
-                results.push((current_path.to_string(), retained.data.clone()));
+                results.push((current_path.unwrap_or_default().to_string(), retained.data.clone()));
             }
         }
         for (key, child) in &self.children {
-            let next_path = if current_path.is_empty() { key.clone() } else { format!("{}/{}", current_path, key) };
-            child.collect_all_retained_for_subscribe(&next_path, results);
+            let next_path = join_path(current_path, key);
+            child.collect_all_retained_for_subscribe(Some(&next_path), results);
         }
     }
 
-    pub(crate) fn collect_all_retained(&self, current_path: &str, results: &mut Vec<(String, Bytes, Option<i64>)>) {
+    pub(crate) fn collect_all_retained(&self, current_path: Option<&str>, results: &mut Vec<(String, Bytes, Option<i64>)>) {
         if let Some(retained) = &self.retained {
             if !retained.is_expired() {
-                results.push((current_path.to_string(), retained.data.clone(), retained.expires_at_unix.map(|v| v as i64)));
+                results.push((current_path.unwrap_or_default().to_string(), retained.data.clone(), retained.expires_at_unix.map(|v| v as i64)));
             }
         }
         for (key, child) in &self.children {
-            let next_path = if current_path.is_empty() { key.clone() } else { format!("{}/{}", current_path, key) };
-            child.collect_all_retained(&next_path, results);
+            let next_path = join_path(current_path, key);
+            child.collect_all_retained(Some(&next_path), results);
         }
     }
 
@@ -224,8 +232,8 @@ impl Node {
         cleaned
     }
 
-    pub(crate) fn collect_filtered_topics(&self, base_path: &str, search: Option<&str>, topics: &mut Vec<TopicSnapshot>) {
-        if !base_path.is_empty() {
+    pub(crate) fn collect_filtered_topics(&self, base_path: Option<&str>, search: Option<&str>, topics: &mut Vec<TopicSnapshot>) {
+        if let Some(base_path) = base_path {
             let matches = search.map_or(true, |s| base_path.contains(s));
             if matches && (!self.subscribers.is_empty() || self.retained.is_some()) {
                 topics.push(TopicSnapshot {
@@ -239,18 +247,18 @@ impl Node {
         }
 
         for (child_name, child_node) in &self.children {
-            let full_path = if base_path.is_empty() { child_name.clone() } else { format!("{}/{}", base_path, child_name) };
-            child_node.collect_filtered_topics(&full_path, search, topics);
+            let full_path = join_path(base_path, child_name);
+            child_node.collect_filtered_topics(Some(&full_path), search, topics);
         }
 
         if let Some(plus_node) = &self.plus_child {
-            let full_path = if base_path.is_empty() { "+".to_string() } else { format!("{}/+", base_path) };
-            plus_node.collect_filtered_topics(&full_path, search, topics);
+            let full_path = join_path(base_path, "+");
+            plus_node.collect_filtered_topics(Some(&full_path), search, topics);
         }
 
         if let Some(hash_node) = &self.hash_child {
-            let full_path = if base_path.is_empty() { "#".to_string() } else { format!("{}/#", base_path) };
-            hash_node.collect_filtered_topics(&full_path, search, topics);
+            let full_path = join_path(base_path, "#");
+            hash_node.collect_filtered_topics(Some(&full_path), search, topics);
         }
     }
 }
diff --git a/src/brokers/pub-sub/manager.rs b/src/brokers/pub-sub/manager.rs
index 5548465..a5d609c 100644
--- a/src/brokers/pub-sub/manager.rs
+++ b/src/brokers/pub-sub/manager.rs
@@ -62,7 +62,7 @@ impl PubSubManager {
                     let entries = {
                         let root = flush_tree.read();
                         let mut results = Vec::new();
-                        root.collect_all_retained("", &mut results);
+                        root.collect_all_retained(None, &mut results);
                         results
                     };
 
@@ -132,10 +132,9 @@ impl PubSubManager {
         root.insert_subscriber(&parts, client_id);
 
         let mut retained = Vec::new();
-        root.collect_retained_for_pattern(&parts, "", &mut retained);
+        root.collect_retained_for_pattern(&parts, None, &mut retained);
 
         for (p, b) in retained {
-            let p = if p.starts_with('/') { p[1..].to_string() } else { p };
             let msg = Arc::new(PubSubMessage::new(p, b));
             let _ = sender.send(msg);
         }
@@ -201,7 +200,7 @@ impl PubSubManager {
         let mut all_topics = Vec::new();
         {
             let root = self.tree.read();
-            root.collect_filtered_topics("", search, &mut all_topics);
+            root.collect_filtered_topics(None, search, &mut all_topics);
         }
 
         all_topics.sort_by(|a, b| a.full_path.cmp(&b.full_path));
-- 
2.43.0


From c7afe227003202b7464e0cad6a0d67d8a0c3b1dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:15 +0000
Subject: [PATCH 21/29] fix: concurrent subscribe, unsubscribe and disconnect
 of a client leave no stray subscription

---
 src/brokers/pub-sub/manager.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/brokers/pub-sub/manager.rs b/src/brokers/pub-sub/manager.rs
index a5d609c..1f300d4 100644
--- a/src/brokers/pub-sub/manager.rs
+++ b/src/brokers/pub-sub/manager.rs
@@ -120,6 +120,8 @@ impl PubSubManager {
     }
 
     pub fn subscribe(&self, client_id: &ClientId, pattern: &str) {
+        // One lock for both updates, so that concurrent requests leave them consistent
+        let mut root = self.tree.write();
         let sender = if let Some(mut info) = self.clients.get_mut(client_id) {
             info.subscriptions.insert(pattern.to_string());
             info.sender.clone()
@@ -128,7 +130,6 @@ impl PubSubManager {
         };
 
         let parts: Vec<String> = pattern.split('/').map(|s| s.to_string()).collect();
-        let mut root = self.tree.write();
         root.insert_subscriber(&parts, client_id);
 
         let mut retained = Vec::new();
@@ -141,11 +142,11 @@ impl PubSubManager {
     }
 
     pub fn unsubscribe(&self, client_id: &ClientId, pattern: &str) {
+        let mut root = self.tree.write();
         if let Some(mut info) = self.clients.get_mut(client_id) {
             info.subscriptions.remove(pattern);
         }
         let parts: Vec<String> = pattern.split('/').map(|s| s.to_string()).collect();
-        let mut root = self.tree.write();
         root.remove_subscriber(&parts, client_id);
     }
 
-- 
2.43.0


From d5201df4df3caf87a4ce5ed79c6a8918338bb93f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:15 +0000
Subject: [PATCH 22/29] fix: finish requests in progress before cleaning up
 after a connection

---
 src/transport/tcp/connection.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/transport/tcp/connection.rs b/src/transport/tcp/connection.rs
index ff09430..f7db6b9 100644
--- a/src/transport/tcp/connection.rs
+++ b/src/transport/tcp/connection.rs
@@ -96,7 +96,8 @@ pub async fn handle_connection(socket: TcpStream, engine: NexoEngine) -> Result<
     // ==========================================
     tracing::debug!("Client {:?} disconnected", client_id);
 
-    request_set.abort_all();
+    // Wait for requests that are executing, so that none of them acts after the cleanup
+    request_set.shutdown().await;
     bridge_handle.abort();
     engine.pubsub.disconnect(&client_id);
     engine.stream.disconnect(client_id.0.clone()).await;
-- 
2.43.0


From 705aa507ad5eaa5d64002dc04725731b3fc1b3da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:20 +0000
Subject: [PATCH 23/29] fix: unsubscribing keeps other patterns that share the
 same '#' subscription

---
 src/brokers/pub-sub/manager.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/brokers/pub-sub/manager.rs b/src/brokers/pub-sub/manager.rs
index 1f300d4..18a0ebb 100644
--- a/src/brokers/pub-sub/manager.rs
+++ b/src/brokers/pub-sub/manager.rs
@@ -14,6 +14,19 @@ use crate::brokers::pub_sub::domain::retained::RetainedMessage;
 use crate::brokers::pub_sub::snapshot::{PubSubSnapshot, WildcardSubscription, WildcardSubscriptions};
 use crate::brokers::pub_sub::{ClientId, ClientInfo, ClientRegistry, PubSubMessage};
 
+/// The part of a pattern that takes part in matching: everything up to the first '#' level
+fn effective(pattern: &str) -> &str {
+    let mut end = 0;
+    for level in pattern.split('/') {
+        end += level.len();
+        if level == "#" {
+            return &pattern[..end];
+        }
+        end += 1;
+    }
+    pattern
+}
+
 pub struct PubSubManager {
     tree: Arc<RwLock<Node>>,
     clients: ClientRegistry,
@@ -145,6 +158,10 @@ impl PubSubManager {
         let mut root = self.tree.write();
         if let Some(mut info) = self.clients.get_mut(client_id) {
             info.subscriptions.remove(pattern);
+            // Levels after a '#' do not count: keep the entry while another pattern of the client shares it
+            if info.subscriptions.iter().any(|sub| effective(sub) == effective(pattern)) {
+                return;
+            }
         }
         let parts: Vec<String> = pattern.split('/').map(|s| s.to_string()).collect();
         root.remove_subscriber(&parts, client_id);
-- 
2.43.0


From 4d651d419c2dad3de68ef4739c34c93bd61693d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:42 +0000
Subject: [PATCH 24/29] fix: times to live beyond the clock's range do not
 panic

---
 src/brokers/pub-sub/domain/retained.rs | 10 ++++++----
 src/brokers/store/domain/map.rs        |  5 +++--
 src/brokers/store/http.rs              |  7 ++++---
 3 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/brokers/pub-sub/domain/retained.rs b/src/brokers/pub-sub/domain/retained.rs
index a3e58a6..25fec7b 100644
--- a/src/brokers/pub-sub/domain/retained.rs
+++ b/src/brokers/pub-sub/domain/retained.rs
@@ -14,12 +14,14 @@ pub(crate) struct RetainedMessage {
 
 impl RetainedMessage {
     pub(crate) fn new(data: Bytes, ttl_seconds: Option<u64>) -> Self {
-        let expires_at = ttl_seconds.map(|secs| Instant::now() + std::time::Duration::from_secs(secs));
-        let expires_at_unix = ttl_seconds.map(|secs| {
+        let expires_at = ttl_seconds.and_then(|secs| Instant::now().checked_add(std::time::Duration::from_secs(secs)));
+        let expires_at_unix = ttl_seconds.and_then(|secs| {
             SystemTime::now()
                 .duration_since(UNIX_EPOCH)
                 .unwrap()
-                .as_secs() + secs
+                .as_secs()
+                .checked_add(secs)
+                .filter(|unix_ts| *unix_ts <= i64::MAX as u64) // as stored
         });
         Self { data, expires_at, expires_at_unix }
     }
@@ -33,7 +35,7 @@ impl RetainedMessage {
             let now_unix = SystemTime::now().duration_since(UNIX_EPOCH).unwrap().as_secs();
             if unix_ts > now_unix {
                 let remaining = unix_ts - now_unix;
-                Some(Instant::now() + std::time::Duration::from_secs(remaining))
+                Instant::now().checked_add(std::time::Duration::from_secs(remaining))
             } else {
                 Some(Instant::now()) // its time to live passed while the server was down
             }
diff --git a/src/brokers/store/domain/map.rs b/src/brokers/store/domain/map.rs
index 353d9dc..681aacc 100644
--- a/src/brokers/store/domain/map.rs
+++ b/src/brokers/store/domain/map.rs
@@ -57,9 +57,10 @@ impl MapStore {
     pub fn set(&self, key: String, value: Bytes, ttl: Option<u64>) {
         let expires_at = match ttl {
             Some(0) | None => {
-                Some(Instant::now() + Duration::from_secs(self.config.default_ttl_secs))
+                Instant::now().checked_add(Duration::from_secs(self.config.default_ttl_secs))
             }
-            Some(secs) => Some(Instant::now() + Duration::from_secs(secs)),
+            // A time to live beyond what the clock can represent never ends
+            Some(secs) => Instant::now().checked_add(Duration::from_secs(secs)),
         };
 
         self.inner.insert(key, Entry {
diff --git a/src/brokers/store/http.rs b/src/brokers/store/http.rs
index 05f426e..39976d8 100644
--- a/src/brokers/store/http.rs
+++ b/src/brokers/store/http.rs
@@ -57,10 +57,11 @@ async fn get_store(
         .map(|entry| {
             let exp_at = match entry.expires_at {
                 Some(expiry) => {
-                    let sys_now = std::time::SystemTime::now();
+                    let sys_now = chrono::Utc::now();
                     let dur = expiry.saturating_duration_since(now);
-                    let future_sys = sys_now + dur;
-                    chrono::DateTime::<chrono::Utc>::from(future_sys).to_rfc3339()
+                    chrono::Duration::from_std(dur).ok()
+                        .and_then(|dur| sys_now.checked_add_signed(dur))
+                        .map_or("Never".to_string(), |future| future.to_rfc3339())
                 }
                 None => "Never".to_string(),
             };
-- 
2.43.0


From eb8bdc0ac662f879d7a68fe2ab5bde343cf9c326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:43 +0000
Subject: [PATCH 25/29] fix: a failed accept must not stop the server

---
 src/main.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index e6f29be..3c6337a 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -49,10 +49,15 @@ async fn main() {
     tracing::info!(address = %addr, "Nexo listening");
 
     loop {
-        let (socket, client_addr) = listener
-            .accept()
-            .await
-            .expect("Failed to accept connection");
+        let (socket, client_addr) = match listener.accept().await {
+            Ok(accepted) => accepted,
+            Err(e) => {
+                // E.g. out of file descriptors: the clients already connected must not suffer
+                tracing::error!(error = %e, "Failed to accept connection");
+                tokio::time::sleep(std::time::Duration::from_millis(50)).await;
+                continue;
+            }
+        };
 
         let engine_clone = engine.clone();
 
-- 
2.43.0


From cc040ee2c5c3c8e485b008bf942cf12407de1670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:46 +0000
Subject: [PATCH 26/29] fix: refuse topics with more levels than the stack can
 hold

---
 src/brokers/pub-sub/tcp.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/brokers/pub-sub/tcp.rs b/src/brokers/pub-sub/tcp.rs
index 32d4e46..5350dc0 100644
--- a/src/brokers/pub-sub/tcp.rs
+++ b/src/brokers/pub-sub/tcp.rs
@@ -31,11 +31,22 @@ enum PubSubCommand {
     Unsubscribe { topic: String },
 }
 
+/// The tree of topics is walked recursively: its depth must stay bounded
+const MAX_TOPIC_LEVELS: usize = 1024;
+
+fn read_topic(cursor: &mut PayloadCursor) -> Result<String, ParseError> {
+    let topic = cursor.read_string()?;
+    if topic.split('/').count() > MAX_TOPIC_LEVELS {
+        return Err(ParseError::Invalid(format!("Topic has more than {} levels", MAX_TOPIC_LEVELS)));
+    }
+    Ok(topic)
+}
+
 impl PubSubCommand {
     fn parse(opcode: u8, cursor: &mut PayloadCursor) -> Result<Self, ParseError> {
         match opcode {
             OP_PUB => {
-                let topic = cursor.read_string()?;
+                let topic = read_topic(cursor)?;
                 let json_str = cursor.read_string()?;
                 let options: PubSubPublishOptions = serde_json::from_str(&json_str)
                     .map_err(|e| ParseError::Invalid(format!("Invalid JSON options: {}", e)))?;
@@ -43,11 +54,11 @@ impl PubSubCommand {
                 Ok(Self::Publish { topic, options, payload })
             }
             OP_SUB => {
-                let topic = cursor.read_string()?;
+                let topic = read_topic(cursor)?;
                 Ok(Self::Subscribe { topic })
             }
             OP_UNSUB => {
-                let topic = cursor.read_string()?;
+                let topic = read_topic(cursor)?;
                 Ok(Self::Unsubscribe { topic })
             }
             _ => Err(ParseError::Invalid(format!("Unknown PubSub opcode: 0x{:02X}", opcode))),
-- 
2.43.0


From 4ef6a449e4fb395e5e3258bdd74453bce3022344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:53 +0000
Subject: [PATCH 27/29] fix: pub/sub inspection with large offsets and expired
 retained values

---
 src/brokers/pub-sub/domain/radix_tree.rs | 7 +++----
 src/brokers/pub-sub/manager.rs           | 2 +-
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/brokers/pub-sub/domain/radix_tree.rs b/src/brokers/pub-sub/domain/radix_tree.rs
index 6157a15..4a8de59 100644
--- a/src/brokers/pub-sub/domain/radix_tree.rs
+++ b/src/brokers/pub-sub/domain/radix_tree.rs
@@ -235,13 +235,12 @@ impl Node {
     pub(crate) fn collect_filtered_topics(&self, base_path: Option<&str>, search: Option<&str>, topics: &mut Vec<TopicSnapshot>) {
         if let Some(base_path) = base_path {
             let matches = search.map_or(true, |s| base_path.contains(s));
-            if matches && (!self.subscribers.is_empty() || self.retained.is_some()) {
+            let retained = self.retained.as_ref().filter(|r| !r.is_expired());
+            if matches && (!self.subscribers.is_empty() || retained.is_some()) {
                 topics.push(TopicSnapshot {
                     full_path: base_path.to_string(),
                     subscribers: self.subscribers.len(),
-                    retained_payload: self.retained.as_ref()
-                        .filter(|r| !r.is_expired())
-                        .map(|retained| retained.data.clone()),
+                    retained_payload: retained.map(|retained| retained.data.clone()),
                 });
             }
         }
diff --git a/src/brokers/pub-sub/manager.rs b/src/brokers/pub-sub/manager.rs
index 18a0ebb..3e7009e 100644
--- a/src/brokers/pub-sub/manager.rs
+++ b/src/brokers/pub-sub/manager.rs
@@ -224,7 +224,7 @@ impl PubSubManager {
         all_topics.sort_by(|a, b| a.full_path.cmp(&b.full_path));
         let total_topics = all_topics.len();
         
-        let end = (offset + limit).min(total_topics);
+        let end = offset.saturating_add(limit).min(total_topics);
         let paginated = if offset < total_topics {
             all_topics[offset..end].to_vec()
         } else {
-- 
2.43.0


From c26a777678846bc0367ba024fe757c5e2d0e95f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:54 +0000
Subject: [PATCH 28/29] fix: store inspection pages over the entries that exist

---
 src/brokers/store/manager.rs | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/src/brokers/store/manager.rs b/src/brokers/store/manager.rs
index dae4448..3609b0e 100644
--- a/src/brokers/store/manager.rs
+++ b/src/brokers/store/manager.rs
@@ -18,10 +18,12 @@ impl StoreManager {
     }
 
     pub fn scan(&self, limit: usize, offset: usize, filter: Option<String>) -> StoreSnapshot {
-        let total = self.map.len();
         let now = Instant::now();
 
-        let entries = self.map.iter()
+        // Page over the entries that exist: unexpired and matching the filter
+        let mut total = 0;
+        let mut entries = Vec::new();
+        for entry in self.map.iter()
             .filter(|entry| {
                 if let Some(ref f) = filter {
                     entry.key().contains(f)
@@ -29,23 +31,19 @@ impl StoreManager {
                     true
                 }
             })
-            .skip(offset)
-            .take(limit)
-            .filter_map(|entry| {
+            .filter(|entry| entry.value().expires_at.map_or(true, |expiry| expiry > now))
+        {
+            total += 1;
+            if total > offset && entries.len() < limit {
                 let val = entry.value();
-                if let Some(expiry) = val.expires_at {
-                    if expiry <= now {
-                        return None;
-                    }
-                }
                 let MapValue(payload) = val.value.clone();
-                Some(KeyEntry {
+                entries.push(KeyEntry {
                     key: entry.key().clone(),
                     payload,
                     expires_at: val.expires_at,
-                })
-            })
-            .collect();
+                });
+            }
+        }
 
         StoreSnapshot { entries, total }
     }
-- 
2.43.0


From ecad443548987bff05222417d02f09a0aea1d70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:39 +0000
Subject: [PATCH 29/29] fix: opening and closing a queue database concurrently
 must not deadlock

---
 src/brokers/queue/domain/persistence.rs | 59 ++++++++++++++++---------
 1 file changed, 37 insertions(+), 22 deletions(-)

diff --git a/src/brokers/queue/domain/persistence.rs b/src/brokers/queue/domain/persistence.rs
index 01fec5f..4983bcb 100644
--- a/src/brokers/queue/domain/persistence.rs
+++ b/src/brokers/queue/domain/persistence.rs
@@ -1,5 +1,5 @@
-use std::path::PathBuf;
-use std::sync::Mutex;
+use std::path::{Path, PathBuf};
+use std::sync::{Arc, Mutex};
 use std::time::Duration;
 use tokio::sync::mpsc;
 use tokio::task::JoinHandle;
@@ -55,6 +55,9 @@ pub struct QueueStore {
     sender: Mutex<Option<mpsc::UnboundedSender<StorageOp>>>,
     writer_handle: Mutex<Option<JoinHandle<()>>>,
     db_path: PathBuf,
+    /// Held while a connection to the DB is set up or used for recovery: SQLite can
+    /// deadlock when one thread opens a WAL database that another thread is closing.
+    setup_lock: Arc<Mutex<()>>,
 }
 
 impl QueueStore {
@@ -75,21 +78,26 @@ impl QueueStore {
 
         let (tx, rx) = mpsc::unbounded_channel();
         
+        let setup_lock = Arc::new(Mutex::new(()));
+
         let path_clone = db_path.clone();
+        let lock_clone = setup_lock.clone();
         let handle = tokio::spawn(async move {
-            run_writer(rx, path_clone, flush_ms, batch_size).await;
+            run_writer(rx, path_clone, lock_clone, flush_ms, batch_size).await;
         });
 
         Self {
             sender: Mutex::new(Some(tx)),
             writer_handle: Mutex::new(Some(handle)),
             db_path,
+            setup_lock,
         }
     }
 
     /// Recover all messages from DB (Read-Only connection)
     /// Returns (main_messages, dlq_messages)
     pub fn recover(&self) -> Result<(Vec<Message>, Vec<DlqMessage>), String> {
+        let _guard = self.setup_lock.lock().unwrap(); // released after the connection is closed
         let conn = Connection::open(&self.db_path)
             .map_err(|e| format!("Failed to open DB for recovery: {}", e))?;
 
@@ -129,28 +137,11 @@ impl QueueStore {
 async fn run_writer(
     mut rx: mpsc::UnboundedReceiver<StorageOp>,
     db_path: PathBuf,
+    setup_lock: Arc<Mutex<()>>,
     flush_ms: u64,
     batch_size: usize,
 ) {
-    let mut conn = match Connection::open(&db_path) {
-        Ok(c) => c,
-        Err(e) => {
-            error!("FATAL: Cannot open queue DB at {:?}: {}", db_path, e);
-            return;
-        }
-    };
-    if let Err(e) = conn.execute_batch(
-        // Writer connection pragmas for high-throughput batch operations
-        // synchronous=OFF for performance (data is flushed periodically via timer)
-        "PRAGMA journal_mode = WAL;
-         PRAGMA synchronous = OFF;
-         PRAGMA cache_size = -64000;
-         PRAGMA temp_store = MEMORY;
-         PRAGMA mmap_size = 268435456;
-         PRAGMA page_size = 8192;"
-    ) {
-        error!("Failed to set writer pragmas: {}", e);
-    }
+    let Some(mut conn) = open_writer(&db_path, &setup_lock) else { return };
 
     info!("Queue Persistence Writer started for {:?}", db_path);
 
@@ -198,6 +189,30 @@ async fn run_writer(
     }
 }
 
+fn open_writer(db_path: &Path, setup_lock: &Mutex<()>) -> Option<Connection> {
+    let _guard = setup_lock.lock().unwrap();
+    let conn = match Connection::open(db_path) {
+        Ok(c) => c,
+        Err(e) => {
+            error!("FATAL: Cannot open queue DB at {:?}: {}", db_path, e);
+            return None;
+        }
+    };
+    if let Err(e) = conn.execute_batch(
+        // Writer connection pragmas for high-throughput batch operations
+        // synchronous=OFF for performance (data is flushed periodically via timer)
+        "PRAGMA journal_mode = WAL;
+         PRAGMA synchronous = OFF;
+         PRAGMA cache_size = -64000;
+         PRAGMA temp_store = MEMORY;
+         PRAGMA mmap_size = 268435456;
+         PRAGMA page_size = 8192;"
+    ) {
+        error!("Failed to set writer pragmas: {}", e);
+    }
+    Some(conn)
+}
+
 fn flush_batch(conn: &mut Connection, batch: &mut Vec<StorageOp>) {
     let tx = match conn.transaction() {
         Ok(t) => t,
-- 
2.43.0

