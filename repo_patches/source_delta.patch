From c5a5412925e8a248568bbbf286e892267393be74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:29 +0000
Subject: [PATCH 01/50] fix: store SET with a huge TTL panics instead of
 answering

---
 src/brokers/store/domain/map.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/brokers/store/domain/map.rs b/src/brokers/store/domain/map.rs
index 353d9dc..02a0634 100644
--- a/src/brokers/store/domain/map.rs
+++ b/src/brokers/store/domain/map.rs
@@ -55,12 +55,12 @@ impl MapStore {
     }
 
     pub fn set(&self, key: String, value: Bytes, ttl: Option<u64>) {
-        let expires_at = match ttl {
-            Some(0) | None => {
-                Some(Instant::now() + Duration::from_secs(self.config.default_ttl_secs))
-            }
-            Some(secs) => Some(Instant::now() + Duration::from_secs(secs)),
+        // A TTL too large to represent as an instant never elapses: store it without expiry.
+        let secs = match ttl {
+            Some(0) | None => self.config.default_ttl_secs,
+            Some(secs) => secs,
         };
+        let expires_at = Instant::now().checked_add(Duration::from_secs(secs));
 
         self.inner.insert(key, Entry {
             value: MapValue(value),
-- 
2.43.0


From 7b5130f296899366895f0270c7c7eb534d64766a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:30 +0000
Subject: [PATCH 02/50] fix: retained publish with a huge TTL panics

---
 src/brokers/pub-sub/domain/retained.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/brokers/pub-sub/domain/retained.rs b/src/brokers/pub-sub/domain/retained.rs
index 0a1a683..77022f4 100644
--- a/src/brokers/pub-sub/domain/retained.rs
+++ b/src/brokers/pub-sub/domain/retained.rs
@@ -14,12 +14,13 @@ pub(crate) struct RetainedMessage {
 
 impl RetainedMessage {
     pub(crate) fn new(data: Bytes, ttl_seconds: Option<u64>) -> Self {
-        let expires_at = ttl_seconds.map(|secs| Instant::now() + std::time::Duration::from_secs(secs));
+        let expires_at = ttl_seconds.and_then(|secs| Instant::now().checked_add(std::time::Duration::from_secs(secs)));
         let expires_at_unix = ttl_seconds.map(|secs| {
             SystemTime::now()
                 .duration_since(UNIX_EPOCH)
                 .unwrap()
-                .as_secs() + secs
+                .as_secs()
+                .saturating_add(secs)
         });
         Self { data, expires_at, expires_at_unix }
     }
@@ -33,7 +34,7 @@ impl RetainedMessage {
             let now_unix = SystemTime::now().duration_since(UNIX_EPOCH).unwrap().as_secs();
             if unix_ts > now_unix {
                 let remaining = unix_ts - now_unix;
-                Some(Instant::now() + std::time::Duration::from_secs(remaining))
+                Instant::now().checked_add(std::time::Duration::from_secs(remaining))
             } else {
                 None
             }
-- 
2.43.0


From 8c34a1649c85c200d66b78b23ac3b96047e5fa7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:30 +0000
Subject: [PATCH 03/50] fix: retained value that expired while the server was
 down comes back without expiry

---
 src/brokers/pub-sub/domain/retained.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/brokers/pub-sub/domain/retained.rs b/src/brokers/pub-sub/domain/retained.rs
index 77022f4..c8c246e 100644
--- a/src/brokers/pub-sub/domain/retained.rs
+++ b/src/brokers/pub-sub/domain/retained.rs
@@ -36,7 +36,8 @@ impl RetainedMessage {
                 let remaining = unix_ts - now_unix;
                 Instant::now().checked_add(std::time::Duration::from_secs(remaining))
             } else {
-                None
+                // Elapsed while the server was down: already expired, not "never expires"
+                Some(Instant::now())
             }
         });
         Self { data, expires_at, expires_at_unix }
-- 
2.43.0


From 5eb1399e0bbfbda4ff65a3bb16af592d03312701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:12 +0000
Subject: [PATCH 04/50] fix: retained topics with a leading empty level are
 delivered and persisted under another topic's name

---
 src/brokers/pub-sub/domain/radix_tree.rs | 52 ++++++++++++++----------
 src/brokers/pub-sub/manager.rs           |  7 ++--
 2 files changed, 33 insertions(+), 26 deletions(-)

diff --git a/src/brokers/pub-sub/domain/radix_tree.rs b/src/brokers/pub-sub/domain/radix_tree.rs
index 8fcc38f..696bcbe 100644
--- a/src/brokers/pub-sub/domain/radix_tree.rs
+++ b/src/brokers/pub-sub/domain/radix_tree.rs
@@ -23,6 +23,14 @@ pub(crate) struct Node {
     pub(crate) retained: Option<RetainedMessage>,
 }
 
+/// Path of a child node; `None` is the root, which is not the same as an empty first level.
+fn join_path(parent: Option<&str>, level: &str) -> String {
+    match parent {
+        Some(parent) => format!("{}/{}", parent, level),
+        None => level.to_string(),
+    }
+}
+
 impl Node {
     pub(crate) fn new() -> Self {
         Self {
@@ -141,11 +149,11 @@ impl Node {
         current.retained = retained;
     }
 
-    pub(crate) fn collect_retained_for_pattern(&self, pattern: &[String], current_path: &str, results: &mut Vec<(String, Bytes)>) {
+    pub(crate) fn collect_retained_for_pattern(&self, pattern: &[String], current_path: Option<&str>, results: &mut Vec<(String, Bytes)>) {
         if pattern.is_empty() {
             if let Some(retained) = &self.retained {
                 if !retained.is_expired() {
-                    results.push((current_path.to_string(), retained.data.clone()));
+                    results.push((current_path.unwrap_or_default().to_string(), retained.data.clone()));
                 }
             }
             return;
@@ -156,40 +164,40 @@ impl Node {
 
         if head == "+" {
             for (key, child) in &self.children {
-                let next_path = if current_path.is_empty() { key.clone() } else { format!("{}/{}", current_path, key) };
-                child.collect_retained_for_pattern(tail, &next_path, results);
+                let next_path = join_path(current_path, key);
+                child.collect_retained_for_pattern(tail, Some(&next_path), results);
             }
         } else if head == "#" {
             self.collect_all_retained_for_subscribe(current_path, results);
         } else {
             if let Some(child) = self.children.get(head) {
-                let next_path = if current_path.is_empty() { head.clone() } else { format!("{}/{}", current_path, head) };
-                child.collect_retained_for_pattern(tail, &next_path, results);
+                let next_path = join_path(current_path, head);
+                child.collect_retained_for_pattern(tail, Some(&next_path), results);
             }
         }
     }
 
-    pub(crate) fn collect_all_retained_for_subscribe(&self, current_path: &str, results: &mut Vec<(String, Bytes)>) {
+    pub(crate) fn collect_all_retained_for_subscribe(&self, current_path: Option<&str>, results: &mut Vec<(String, Bytes)>) {
         if let Some(retained) = &self.retained {
             if !retained.is_expired() {
-                results.push((current_path.to_string(), retained.data.clone()));
+                results.push((current_path.unwrap_or_default().to_string(), retained.data.clone()));
             }
         }
         for (key, child) in &self.children {
-            let next_path = if current_path.is_empty() { key.clone() } else { format!("{}/{}", current_path, key) };
-            child.collect_all_retained_for_subscribe(&next_path, results);
+            let next_path = join_path(current_path, key);
+            child.collect_all_retained_for_subscribe(Some(&next_path), results);
         }
     }
 
-    pub(crate) fn collect_all_retained(&self, current_path: &str, results: &mut Vec<(String, Bytes, Option<i64>)>) {
+    pub(crate) fn collect_all_retained(&self, current_path: Option<&str>, results: &mut Vec<(String, Bytes, Option<i64>)>) {
         if let Some(retained) = &self.retained {
             if !retained.is_expired() {
-                results.push((current_path.to_string(), retained.data.clone(), retained.expires_at_unix.map(|v| v as i64)));
+                results.push((current_path.unwrap_or_default().to_string(), retained.data.clone(), retained.expires_at_unix.map(|v| v as i64)));
             }
         }
         for (key, child) in &self.children {
-            let next_path = if current_path.is_empty() { key.clone() } else { format!("{}/{}", current_path, key) };
-            child.collect_all_retained(&next_path, results);
+            let next_path = join_path(current_path, key);
+            child.collect_all_retained(Some(&next_path), results);
         }
     }
 
@@ -224,8 +232,8 @@ impl Node {
         cleaned
     }
 
-    pub(crate) fn collect_filtered_topics(&self, base_path: &str, search: Option<&str>, topics: &mut Vec<TopicSnapshot>) {
-        if !base_path.is_empty() {
+    pub(crate) fn collect_filtered_topics(&self, base_path: Option<&str>, search: Option<&str>, topics: &mut Vec<TopicSnapshot>) {
+        if let Some(base_path) = base_path {
             let matches = search.map_or(true, |s| base_path.contains(s));
             if matches && (!self.subscribers.is_empty() || self.retained.is_some()) {
                 topics.push(TopicSnapshot {
@@ -239,18 +247,18 @@ impl Node {
         }
 
         for (child_name, child_node) in &self.children {
-            let full_path = if base_path.is_empty() { child_name.clone() } else { format!("{}/{}", base_path, child_name) };
-            child_node.collect_filtered_topics(&full_path, search, topics);
+            let full_path = join_path(base_path, child_name);
+            child_node.collect_filtered_topics(Some(&full_path), search, topics);
         }
 
         if let Some(plus_node) = &self.plus_child {
-            let full_path = if base_path.is_empty() { "+".to_string() } else { format!("{}/+", base_path) };
-            plus_node.collect_filtered_topics(&full_path, search, topics);
+            let full_path = join_path(base_path, "+");
+            plus_node.collect_filtered_topics(Some(&full_path), search, topics);
         }
 
         if let Some(hash_node) = &self.hash_child {
-            let full_path = if base_path.is_empty() { "#".to_string() } else { format!("{}/#", base_path) };
-            hash_node.collect_filtered_topics(&full_path, search, topics);
+            let full_path = join_path(base_path, "#");
+            hash_node.collect_filtered_topics(Some(&full_path), search, topics);
         }
     }
 }
diff --git a/src/brokers/pub-sub/manager.rs b/src/brokers/pub-sub/manager.rs
index 5548465..a5d609c 100644
--- a/src/brokers/pub-sub/manager.rs
+++ b/src/brokers/pub-sub/manager.rs
@@ -62,7 +62,7 @@ impl PubSubManager {
                     let entries = {
                         let root = flush_tree.read();
                         let mut results = Vec::new();
-                        root.collect_all_retained("", &mut results);
+                        root.collect_all_retained(None, &mut results);
                         results
                     };
 
@@ -132,10 +132,9 @@ impl PubSubManager {
         root.insert_subscriber(&parts, client_id);
 
         let mut retained = Vec::new();
-        root.collect_retained_for_pattern(&parts, "", &mut retained);
+        root.collect_retained_for_pattern(&parts, None, &mut retained);
 
         for (p, b) in retained {
-            let p = if p.starts_with('/') { p[1..].to_string() } else { p };
             let msg = Arc::new(PubSubMessage::new(p, b));
             let _ = sender.send(msg);
         }
@@ -201,7 +200,7 @@ impl PubSubManager {
         let mut all_topics = Vec::new();
         {
             let root = self.tree.read();
-            root.collect_filtered_topics("", search, &mut all_topics);
+            root.collect_filtered_topics(None, search, &mut all_topics);
         }
 
         all_topics.sort_by(|a, b| a.full_path.cmp(&b.full_path));
-- 
2.43.0


From 5ab357618aa7834b554b503fb6913ede82aa6f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:57 +0000
Subject: [PATCH 05/50] fix: queue persistence operations reach the writer in
 another order than the state changed

Storage operations were sent after the queue lock was released, so two
requests on one message could be persisted in the wrong order: an
acknowledged message could be re-inserted by its own late push, and a
delivery or retry could be lost. Send them while holding the lock.
---
 src/brokers/queue/manager.rs | 114 ++++++++++++++---------------------
 1 file changed, 46 insertions(+), 68 deletions(-)

diff --git a/src/brokers/queue/manager.rs b/src/brokers/queue/manager.rs
index 7b923af..1b5328d 100644
--- a/src/brokers/queue/manager.rs
+++ b/src/brokers/queue/manager.rs
@@ -165,7 +165,9 @@ impl QueueManager {
                     let shared = entry.value().clone();
                     let now = current_time_ms();
 
-                    let (requeued, dlq_msgs) = {
+                    // Storage ops are sent under the state lock so that the writer
+                    // sees them in the order the state changed.
+                    let requeued = {
                         let mut inner = Self::lock(&shared.inner);
                         
                         // Check if processing is needed
@@ -177,31 +179,24 @@ impl QueueManager {
                         let max_retries = inner.config.max_retries;
                         let (requeued, dlq_msgs) = inner.state.process_expired(max_retries);
 
-                        for ref dlq_msg in &dlq_msgs {
-                            inner.dlq.push((*dlq_msg).clone());
+                        for msg in &requeued {
+                            shared.store.execute(StorageOp::UpdateState {
+                                id: msg.id,
+                                visible_at: 0,
+                                attempts: msg.attempts,
+                            });
                         }
 
-                        (requeued, dlq_msgs)
-                    };
-
-                    if requeued.is_empty() && dlq_msgs.is_empty() {
-                        continue;
-                    }
-
-                    for msg in &requeued {
-                        shared.store.execute(StorageOp::UpdateState {
-                            id: msg.id,
-                            visible_at: 0,
-                            attempts: msg.attempts,
-                        });
-                    }
+                        for dlq_msg in dlq_msgs {
+                            inner.dlq.push(dlq_msg.clone());
+                            shared.store.execute(StorageOp::MoveToDLQ {
+                                id: dlq_msg.id,
+                                msg: dlq_msg,
+                            });
+                        }
 
-                    for dlq_msg in dlq_msgs {
-                        shared.store.execute(StorageOp::MoveToDLQ {
-                            id: dlq_msg.id,
-                            msg: dlq_msg,
-                        });
-                    }
+                        requeued
+                    };
 
                     if !requeued.is_empty() {
                         shared.notify.notify_waiters();
@@ -285,9 +280,9 @@ impl QueueManager {
         {
             let mut inner = Self::lock(&shared.inner);
             inner.state.push(msg.clone());
+            shared.store.execute(StorageOp::Insert(msg));
         }
 
-        shared.store.execute(StorageOp::Insert(msg));
         shared.notify.notify_waiters();
 
         Ok(())
@@ -296,11 +291,9 @@ impl QueueManager {
     pub async fn pop(&self, queue_name: &str) -> Option<Message> {
         let shared = self.get_queue(queue_name)?;
 
-        let (msg_opt, _) = {
-            let mut inner = Self::lock(&shared.inner);
-            let vt = inner.config.visibility_timeout_ms;
-            inner.state.pop(vt)
-        };
+        let mut inner = Self::lock(&shared.inner);
+        let vt = inner.config.visibility_timeout_ms;
+        let (msg_opt, _) = inner.state.pop(vt);
 
         if let Some(msg) = &msg_opt {
             shared.store.execute(StorageOp::UpdateState {
@@ -319,10 +312,8 @@ impl QueueManager {
             None => return false,
         };
 
-        let result = {
-            let mut inner = Self::lock(&shared.inner);
-            inner.state.ack(id)
-        };
+        let mut inner = Self::lock(&shared.inner);
+        let result = inner.state.ack(id);
 
         if result {
             shared.store.execute(StorageOp::Delete(id));
@@ -337,17 +328,9 @@ impl QueueManager {
             None => return false,
         };
 
-        let (requeued, dlq_msg) = {
-            let mut inner = Self::lock(&shared.inner);
-            let max_retries = inner.config.max_retries;
-            let (requeued, dlq_msg) = inner.state.nack(id, reason, max_retries);
-
-            if let Some(ref dlq_message) = dlq_msg {
-                inner.dlq.push(dlq_message.clone());
-            }
-
-            (requeued, dlq_msg)
-        };
+        let mut inner = Self::lock(&shared.inner);
+        let max_retries = inner.config.max_retries;
+        let (requeued, dlq_msg) = inner.state.nack(id, reason, max_retries);
 
         if let Some(msg) = requeued {
             shared.store.execute(StorageOp::UpdateState {
@@ -355,11 +338,13 @@ impl QueueManager {
                 visible_at: msg.visible_at,
                 attempts: msg.attempts,
             });
+            drop(inner);
             shared.notify.notify_waiters();
             return true;
         }
 
         if let Some(dlq_message) = dlq_msg {
+            inner.dlq.push(dlq_message.clone());
             shared.store.execute(StorageOp::MoveToDLQ {
                 id: dlq_message.id,
                 msg: dlq_message,
@@ -382,10 +367,10 @@ impl QueueManager {
             let mut inner = Self::lock(&shared.inner);
             let vt = inner.config.visibility_timeout_ms;
             let (msgs, _) = inner.state.take_batch(max_val, vt);
+            self.persist_batch_state(&shared, &msgs);
             msgs
         };
         if !msgs.is_empty() {
-            self.persist_batch_state(&shared, &msgs);
             return Ok(msgs);
         }
 
@@ -405,10 +390,10 @@ impl QueueManager {
                 let mut inner = Self::lock(&shared.inner);
                 let vt = inner.config.visibility_timeout_ms;
                 let (msgs, _) = inner.state.take_batch(max_val, vt);
+                self.persist_batch_state(&shared, &msgs);
                 msgs
             };
             if !msgs.is_empty() {
-                self.persist_batch_state(&shared, &msgs);
                 return Ok(msgs);
             }
 
@@ -468,27 +453,25 @@ impl QueueManager {
         let shared = self.get_queue(queue_name)
             .ok_or_else(|| format!("Queue '{}' not found", queue_name))?;
 
-        let new_msg = {
+        let moved = {
             let mut inner = Self::lock(&shared.inner);
             if let Some(dlq_msg) = inner.dlq.remove(&message_id) {
-                let new_msg = dlq_msg.clone().to_message();
+                let new_msg = dlq_msg.to_message();
                 inner.state.push(new_msg.clone());
-                Some(new_msg)
+                shared.store.execute(StorageOp::MoveToMain {
+                    id: message_id,
+                    msg: new_msg,
+                });
+                true
             } else {
-                None
+                false
             }
         };
 
-        if let Some(msg) = new_msg {
-            shared.store.execute(StorageOp::MoveToMain {
-                id: message_id,
-                msg,
-            });
+        if moved {
             shared.notify.notify_waiters();
-            Ok(true)
-        } else {
-            Ok(false)
         }
+        Ok(moved)
     }
 
     /// Delete a specific message from DLQ
@@ -496,10 +479,8 @@ impl QueueManager {
         let shared = self.get_queue(queue_name)
             .ok_or_else(|| format!("Queue '{}' not found", queue_name))?;
 
-        let removed = {
-            let mut inner = Self::lock(&shared.inner);
-            inner.dlq.remove(&message_id).is_some()
-        };
+        let mut inner = Self::lock(&shared.inner);
+        let removed = inner.dlq.remove(&message_id).is_some();
 
         if removed {
             shared.store.execute(StorageOp::DeleteDLQ(message_id));
@@ -513,12 +494,9 @@ impl QueueManager {
         let shared = self.get_queue(queue_name)
             .ok_or_else(|| format!("Queue '{}' not found", queue_name))?;
 
-        let count = {
-            let mut inner = Self::lock(&shared.inner);
-            let count = inner.dlq.len();
-            inner.dlq.clear();
-            count
-        };
+        let mut inner = Self::lock(&shared.inner);
+        let count = inner.dlq.len();
+        inner.dlq.clear();
 
         shared.store.execute(StorageOp::PurgeDLQ);
         Ok(count)
-- 
2.43.0


From 99288ad3a1e7b94b424de3247abd26057191d57a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:23 +0000
Subject: [PATCH 06/50] fix: a message whose visibility timeout elapsed while
 the server was down is retried beyond max_retries

Recovery treated it as plainly ready, so it was delivered once more even
when its retries were used up. Recover it as in flight and let the
timeout task requeue or dead-letter it.
---
 src/brokers/queue/domain/persistence.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/brokers/queue/domain/persistence.rs b/src/brokers/queue/domain/persistence.rs
index 700342a..46753b4 100644
--- a/src/brokers/queue/domain/persistence.rs
+++ b/src/brokers/queue/domain/persistence.rs
@@ -7,7 +7,7 @@ use rusqlite::{params, types::Type, Connection, Result};
 use tracing::{error, info};
 use uuid::Uuid;
 
-use crate::brokers::queue::domain::queue::{Message, MessageState, current_time_ms};
+use crate::brokers::queue::domain::queue::{Message, MessageState};
 use crate::brokers::queue::domain::dlq::DlqMessage;
 
 // ==========================================
@@ -286,10 +286,9 @@ fn load_all_messages(conn: &Connection) -> Result<Vec<Message>> {
         let attempts: u32 = row.get(4)?;
         let created_at = row.get::<_, i64>(5)? as u64;
  
-         let now = current_time_ms();
-         
-         // Reconstruct State
-         let state = if visible_at > now && attempts > 0 {
+         // Reconstruct State. A visibility timeout that elapsed while the server was
+         // down is left to the timeout task, which applies the retry limit.
+         let state = if visible_at > 0 && attempts > 0 {
              MessageState::InFlight(visible_at)
          } else {
              MessageState::Ready
-- 
2.43.0


From b9fda66047efbe3babaccb1ee583527582bc68e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:26 +0000
Subject: [PATCH 07/50] fix: concurrent publishes reach the stream log out of
 sequence order

---
 src/brokers/stream/manager.rs | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/src/brokers/stream/manager.rs b/src/brokers/stream/manager.rs
index be786fc..ddea057 100644
--- a/src/brokers/stream/manager.rs
+++ b/src/brokers/stream/manager.rs
@@ -154,21 +154,22 @@ impl StreamManager {
         let topic_ref = self.get_topic(topic).ok_or("Topic not found")?;
         let persisted_seq = topic_ref.persisted_seq.clone();
 
-        let (seq, timestamp) = {
+        // The append must reach the storage actor in sequence order: enqueue it before releasing the topic.
+        let seq = {
             let mut inner = Self::lock_topic(&topic_ref.inner);
-            inner.state.append(payload.clone())
+            let (seq, timestamp) = inner.state.append(payload.clone());
+            let _ = self.storage_tx.send(StorageCommand::Append {
+                topic_name: topic.to_string(),
+                messages: vec![MessageToAppend {
+                    seq,
+                    timestamp,
+                    payload,
+                }],
+                persisted_seq,
+            });
+            seq
         };
 
-        let _ = self.storage_tx.send(StorageCommand::Append {
-            topic_name: topic.to_string(),
-            messages: vec![MessageToAppend {
-                seq,
-                timestamp,
-                payload,
-            }],
-            persisted_seq,
-        });
-
         topic_ref.notify.notify_waiters();
         Ok(seq)
     }
-- 
2.43.0


From 0a4295ce0d82123429a254287af3a12c94e1306b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:01 +0000
Subject: [PATCH 08/50] fix: a connection ending with an error leaves its
 subscriptions and group memberships behind

---
 src/transport/tcp/connection.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/transport/tcp/connection.rs b/src/transport/tcp/connection.rs
index 5897216..1ede06f 100644
--- a/src/transport/tcp/connection.rs
+++ b/src/transport/tcp/connection.rs
@@ -56,7 +56,7 @@ pub async fn handle_connection(socket: TcpStream, engine: NexoEngine) -> Result<
     // ==========================================
     let mut request_set = tokio::task::JoinSet::new();
 
-    loop {
+    let outcome = loop {
         tokio::select! {
             // EVENT A: We received a command from the Client
             Some(frame) = inbound_rx.recv() => {
@@ -80,28 +80,29 @@ pub async fn handle_connection(socket: TcpStream, engine: NexoEngine) -> Result<
             // EVENT B: The TCP Socket crashed or disconnected
             socket_result = &mut socket_task => {
                 match socket_result {
-                    Ok(Ok(())) => break, // Clean disconnect
-                    Ok(Err(err)) => return Err(format!("Protocol error: {err:?}")),
-                    Err(err) => return Err(format!("Socket task panicked: {err:?}")),
+                    Ok(Ok(())) => break Ok(()), // Clean disconnect
+                    Ok(Err(err)) => break Err(format!("Protocol error: {err:?}")),
+                    Err(err) => break Err(format!("Socket task panicked: {err:?}")),
                 }
             }
 
             // EVENT C: A background request finished, clean up its memory
             _ = request_set.join_next(), if !request_set.is_empty() => {}
         }
-    }
+    };
 
     // ==========================================
     // ACT 4: CLEANUP & DISCONNECT
     // ==========================================
     tracing::debug!("Client {:?} disconnected", client_id);
 
-    request_set.abort_all();
+    // Wait for the aborted requests: one still running could register state after the cleanup below.
+    request_set.shutdown().await;
     bridge_handle.abort();
     engine.pubsub.disconnect(&client_id);
     engine.stream.disconnect(client_id.0.clone()).await;
 
-    Ok(())
+    outcome
 }
 
 
-- 
2.43.0


From d05787fc0685c9aeff0f4e478c42f507a535043d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:13 +0000
Subject: [PATCH 09/50] fix: a connection closed during a cold read blocks its
 stream group forever

---
 src/brokers/stream/manager.rs | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/src/brokers/stream/manager.rs b/src/brokers/stream/manager.rs
index ddea057..3e68f2a 100644
--- a/src/brokers/stream/manager.rs
+++ b/src/brokers/stream/manager.rs
@@ -45,6 +45,21 @@ enum FetchAttempt {
     Wait,
 }
 
+/// Marks the end of a group's cold read when dropped.
+struct ColdReadGuard<'a> {
+    topic: &'a TopicShared,
+    group: &'a str,
+}
+
+impl Drop for ColdReadGuard<'_> {
+    fn drop(&mut self) {
+        let mut inner = StreamManager::lock_topic(&self.topic.inner);
+        if let Some(group_ref) = inner.groups.get_mut(self.group) {
+            group_ref.is_fetching_cold = false;
+        }
+    }
+}
+
 pub struct JoinGroupResult {
     pub ack_floor: u64,
     pub consumer_id: String,
@@ -720,6 +735,9 @@ impl StreamManager {
     }
 
     async fn cold_fetch(&self, topic_ref: &Arc<TopicShared>, topic: &str, group: &str, consumer_id: &str, generation: u64, limit: usize, from_seq: u64, group_cancel: &CancellationToken) -> Result<Vec<Message>, String> {
+        // Released on every exit, including the request being dropped with its connection while the disk is read.
+        let cold_read = ColdReadGuard { topic: topic_ref.as_ref(), group };
+
         let (tx, rx) = oneshot::channel();
         if self.storage_tx.send(StorageCommand::ColdRead {
             topic_name: topic.to_string(),
@@ -727,26 +745,14 @@ impl StreamManager {
             limit,
             reply: tx,
         }).is_err() {
-            let mut inner = Self::lock_topic(&topic_ref.inner);
-            if let Some(group_ref) = inner.groups.get_mut(group) {
-                group_ref.is_fetching_cold = false;
-            }
             return Err("Disk read failed".to_string());
         }
 
-        let messages = match rx.await {
-            Ok(messages) => messages,
-            Err(_) => {
-                let mut inner = Self::lock_topic(&topic_ref.inner);
-                if let Some(group_ref) = inner.groups.get_mut(group) {
-                    group_ref.is_fetching_cold = false;
-                }
-                return Err("Disk read failed".to_string());
-            }
-        };
+        let messages = rx.await.map_err(|_| "Disk read failed".to_string())?;
 
         let mut inner = Self::lock_topic(&topic_ref.inner);
         let head_seq = inner.state.head_seq;
+        std::mem::forget(cold_read); // ended below, in one step with registering what was read
         if let Some(group_ref) = inner.groups.get_mut(group) {
             group_ref.is_fetching_cold = false;
             if group_cancel.is_cancelled() {
-- 
2.43.0


From 55c2c4aafea674767d7e194c195f6a1619409d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:31 +0000
Subject: [PATCH 10/50] fix: a crash while a new stream segment is started
 loses the whole log on recovery

---
 src/brokers/stream/domain/persistence.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/brokers/stream/domain/persistence.rs b/src/brokers/stream/domain/persistence.rs
index b932816..8ddaf58 100644
--- a/src/brokers/stream/domain/persistence.rs
+++ b/src/brokers/stream/domain/persistence.rs
@@ -451,8 +451,10 @@ pub async fn recover_topic(topic_name: &str, base_path: PathBuf) -> RecoveredSta
 
     if let Ok(segments) = find_segments(&base_path).await {
         state.head_seq = segments.first().map(|seg| seg.start_seq).unwrap_or(1);
-        if let Some(last_segment) = segments.last() {
-            state.messages = load_segment_file(&last_segment.path).await;
+        // The newest segment may hold no complete record yet: the log then ends in the one before it.
+        for segment in segments.iter().rev() {
+            state.messages = load_segment_file(&segment.path).await;
+            if !state.messages.is_empty() { break; }
         }
         state.segments = segments;
     }
-- 
2.43.0


From ea5ca83d32d3cfcb6d2becc310e3ec2d51102853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:31 +0000
Subject: [PATCH 11/50] fix: messages appended behind a record torn by a crash
 are unreadable

---
 src/brokers/stream/domain/persistence.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/brokers/stream/domain/persistence.rs b/src/brokers/stream/domain/persistence.rs
index 8ddaf58..a3e49fd 100644
--- a/src/brokers/stream/domain/persistence.rs
+++ b/src/brokers/stream/domain/persistence.rs
@@ -533,6 +533,7 @@ async fn write_group_entry<W: tokio::io::AsyncWrite + std::marker::Unpin>(writer
 async fn load_segment_file(path: &PathBuf) -> VecDeque<Message> {
     use bytes::Buf;
     let mut msgs = VecDeque::new();
+    let mut valid_len: u64 = 0;
     let file = match File::open(path).await {
         Ok(f) => f,
         Err(_) => return msgs,
@@ -564,6 +565,18 @@ async fn load_segment_file(path: &PathBuf) -> VecDeque<Message> {
         let payload = Bytes::copy_from_slice(&cursor.copy_to_bytes(payload_len));
 
         msgs.push_back(Message { seq, timestamp, payload });
+        valid_len += 8 + len as u64;
+    }
+
+    // Cut off an incomplete record left by a crash: what is appended behind it could not be read back.
+    if tokio::fs::metadata(path).await.map_or(false, |meta| meta.len() > valid_len) {
+        warn!("Truncating {:?} to its last complete record ({} bytes)", path, valid_len);
+        match OpenOptions::new().write(true).open(path).await {
+            Ok(file) => if let Err(e) = file.set_len(valid_len).await {
+                error!("Failed to truncate {:?}: {}", path, e);
+            },
+            Err(e) => error!("Failed to truncate {:?}: {}", path, e),
+        }
     }
     msgs
 }
-- 
2.43.0


From 68594b805fe6bd668ed1700abc26ca6ec6c8f0dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:31 +0000
Subject: [PATCH 12/50] fix: a group's saved position can lie beyond the
 recovered stream log and skip messages

---
 src/brokers/stream/manager.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/brokers/stream/manager.rs b/src/brokers/stream/manager.rs
index 3e68f2a..e71436c 100644
--- a/src/brokers/stream/manager.rs
+++ b/src/brokers/stream/manager.rs
@@ -16,7 +16,7 @@ use crate::brokers::stream::config::SystemStreamConfig;
 use crate::brokers::stream::domain::group::ConsumerGroup;
 use crate::brokers::stream::domain::message::Message;
 use crate::brokers::stream::snapshot::{ConsumerGroupSnapshot, StreamSnapshot, TopicSnapshot};
-use crate::brokers::stream::domain::persistence::{recover_topic, MessageToAppend, StorageCommand, StorageManager};
+use crate::brokers::stream::domain::persistence::{recover_topic, save_groups_file, MessageToAppend, StorageCommand, StorageManager};
 use crate::brokers::stream::domain::topic::{TopicConfig, TopicState};
 
 struct TopicShared {
@@ -509,7 +509,17 @@ impl StreamManager {
         let ack_wait = Duration::from_millis(config.ack_wait_ms);
         let persisted_seq = Arc::new(AtomicU64::new(state.next_seq.saturating_sub(1)));
         let mut groups = HashMap::new();
-        for (group_id, ack_floor) in recovered.groups_data {
+        // The messages a group acknowledged last may not have been flushed before a crash: their positions
+        // will be given to new messages, so the corrected floors are saved before any is accepted.
+        let last_seq = state.next_seq.saturating_sub(1);
+        let mut groups_data = recovered.groups_data;
+        if groups_data.values().any(|ack_floor| *ack_floor > last_seq) {
+            groups_data.values_mut().for_each(|ack_floor| *ack_floor = (*ack_floor).min(last_seq));
+            if let Err(e) = save_groups_file(&base_path, &groups_data).await {
+                tracing::error!("Failed to save groups for {}: {}", name, e);
+            }
+        }
+        for (group_id, ack_floor) in groups_data {
             groups.insert(
                 group_id.clone(),
                 ConsumerGroup::restore(group_id, ack_floor, state.head_seq, config.max_ack_pending, ack_wait, config.max_deliveries),
-- 
2.43.0


From 22e5828b90e88bf65584ed7488f4238b31850747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:31 +0000
Subject: [PATCH 13/50] fix: stream topics are recovered from the path they
 were created under instead of the configured one

---
 src/brokers/stream/manager.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/brokers/stream/manager.rs b/src/brokers/stream/manager.rs
index e71436c..957752d 100644
--- a/src/brokers/stream/manager.rs
+++ b/src/brokers/stream/manager.rs
@@ -451,7 +451,11 @@ impl StreamManager {
     async fn load_topic_config(base_path: &PathBuf, options: StreamCreateOptions, config: &SystemStreamConfig) -> TopicConfig {
         let config_path = base_path.join("config.json");
         if let Ok(data) = tokio::fs::read_to_string(&config_path).await {
-            serde_json::from_str(&data).unwrap_or_else(|_| TopicConfig::from_options(options, config))
+            let mut topic_config: TopicConfig = serde_json::from_str(&data)
+                .unwrap_or_else(|_| TopicConfig::from_options(options, config));
+            // Where the data lives is decided by this server, not by the one that created the topic.
+            topic_config.persistence_path = config.persistence_path.clone();
+            topic_config
         } else {
             TopicConfig::from_options(options, config)
         }
-- 
2.43.0


From 20ff904a58656b37bf53edb05562890b9c93670a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:14 +0000
Subject: [PATCH 14/50] fix: a read overtaken by retention returns nothing
 while newer messages are buffered

---
 src/brokers/stream/domain/persistence.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/brokers/stream/domain/persistence.rs b/src/brokers/stream/domain/persistence.rs
index a3e49fd..b7720c3 100644
--- a/src/brokers/stream/domain/persistence.rs
+++ b/src/brokers/stream/domain/persistence.rs
@@ -169,6 +169,12 @@ impl StorageManager {
                 self.handle_append(topic_name, messages, persisted_seq).await;
             }
             StorageCommand::ColdRead { topic_name, from_seq, limit, reply } => {
+                // Retention may have left only messages that are still buffered.
+                if let Some(ctx) = self.topics.get(&topic_name) {
+                    if let Some(writer) = self.open_files.get_mut(&ctx.active_path) {
+                        let _ = writer.flush().await;
+                    }
+                }
                 let msgs = self.cold_read(&topic_name, from_seq, limit).await;
                 let _ = reply.send(msgs);
             }
-- 
2.43.0


From 36dc633978c1f34dda1c02bfef588394c55aa572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:45 +0000
Subject: [PATCH 15/50] fix: overlapping subscribe, unsubscribe and disconnect
 leave a subscriber in the topic tree

---
 src/brokers/pub-sub/manager.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/brokers/pub-sub/manager.rs b/src/brokers/pub-sub/manager.rs
index a5d609c..c330ffa 100644
--- a/src/brokers/pub-sub/manager.rs
+++ b/src/brokers/pub-sub/manager.rs
@@ -120,12 +120,12 @@ impl PubSubManager {
     }
 
     pub fn subscribe(&self, client_id: &ClientId, pattern: &str) {
-        let sender = if let Some(mut info) = self.clients.get_mut(client_id) {
-            info.subscriptions.insert(pattern.to_string());
-            info.sender.clone()
-        } else {
+        // The client's entry stays locked until the tree is updated: an unsubscribe or disconnect in between
+        // would leave a subscriber in the tree that nothing removes.
+        let Some(mut info) = self.clients.get_mut(client_id) else {
             return;
         };
+        info.subscriptions.insert(pattern.to_string());
 
         let parts: Vec<String> = pattern.split('/').map(|s| s.to_string()).collect();
         let mut root = self.tree.write();
@@ -136,12 +136,13 @@ impl PubSubManager {
 
         for (p, b) in retained {
             let msg = Arc::new(PubSubMessage::new(p, b));
-            let _ = sender.send(msg);
+            let _ = info.sender.send(msg);
         }
     }
 
     pub fn unsubscribe(&self, client_id: &ClientId, pattern: &str) {
-        if let Some(mut info) = self.clients.get_mut(client_id) {
+        let mut info = self.clients.get_mut(client_id);
+        if let Some(info) = info.as_mut() {
             info.subscriptions.remove(pattern);
         }
         let parts: Vec<String> = pattern.split('/').map(|s| s.to_string()).collect();
-- 
2.43.0


From 0e11f7ac144dd6fbd02f69672d3a9fbec0a300ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:27 +0000
Subject: [PATCH 16/50] fix: a huge consume batch size or visibility timeout
 takes the whole server down

---
 src/brokers/queue/domain/queue.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/brokers/queue/domain/queue.rs b/src/brokers/queue/domain/queue.rs
index 02284ef..788126e 100644
--- a/src/brokers/queue/domain/queue.rs
+++ b/src/brokers/queue/domain/queue.rs
@@ -139,7 +139,8 @@ impl QueueState {
 
     /// Take up to `max` messages for batch consumption.
     pub fn take_batch(&mut self, max: usize, visibility_timeout_ms: u64) -> (Vec<Message>, bool) {
-        let mut result = Vec::with_capacity(max);
+        // `max` comes from the client: bound the reservation by what is there
+        let mut result = Vec::with_capacity(max.min(self.registry.len()));
         let mut any_earliest = false;
 
         while result.len() < max {
@@ -392,7 +393,7 @@ impl QueueState {
             None => return (None, false),
         };
 
-        let timeout = now + visibility_timeout_ms;
+        let timeout = now.saturating_add(visibility_timeout_ms);
         self.transition_to(next_id, MessageState::InFlight(timeout));
 
         // Update message fields
-- 
2.43.0


From dbb5327a20c0ee72662d73cceca0dcc72b18d560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:05 +0000
Subject: [PATCH 17/50] fix: a group name over 65535 bytes loses the saved
 positions of all groups

---
 src/brokers/stream/manager.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/brokers/stream/manager.rs b/src/brokers/stream/manager.rs
index 957752d..9798a33 100644
--- a/src/brokers/stream/manager.rs
+++ b/src/brokers/stream/manager.rs
@@ -290,6 +290,7 @@ impl StreamManager {
 
     pub async fn seek(&self, group: &str, topic: &str, target: SeekTarget) -> Result<(), String> {
         let topic_ref = self.get_topic(topic).ok_or("Topic not found")?;
+        Self::check_group_name(group)?;
         {
             let mut inner = Self::lock_topic(&topic_ref.inner);
             let last_seq = inner.state.next_seq.saturating_sub(1);
@@ -346,6 +347,7 @@ impl StreamManager {
 
     pub async fn join_group(&self, group: &str, topic: &str, connection_client_id: &str) -> Result<JoinGroupResult, String> {
         let topic_ref = self.get_topic(topic).ok_or("Topic not found")?;
+        Self::check_group_name(group)?;
         let mut inner = Self::lock_topic(&topic_ref.inner);
         let head_seq = inner.state.head_seq;
         let max_ack_pending = inner.full_config.max_ack_pending;
@@ -440,6 +442,14 @@ impl StreamManager {
         self.topics.get(topic).map(|entry| entry.value().clone())
     }
 
+    /// groups.log stores the length of a group name in 16 bits.
+    fn check_group_name(group: &str) -> Result<(), String> {
+        if group.len() > u16::MAX as usize {
+            return Err(format!("Group name is longer than {} bytes", u16::MAX));
+        }
+        Ok(())
+    }
+
     fn lock_topic<T>(mutex: &Mutex<T>) -> MutexGuard<'_, T> {
         mutex.lock().unwrap_or_else(|poisoned| poisoned.into_inner())
     }
-- 
2.43.0


From 3b44726f768756b67bd3241a185e5da15112e20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:07 +0000
Subject: [PATCH 18/50] fix: a topic with very many levels overflows the stack
 and ends the server

---
 src/brokers/pub-sub/tcp.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/brokers/pub-sub/tcp.rs b/src/brokers/pub-sub/tcp.rs
index 32d4e46..4a929ba 100644
--- a/src/brokers/pub-sub/tcp.rs
+++ b/src/brokers/pub-sub/tcp.rs
@@ -31,11 +31,23 @@ enum PubSubCommand {
     Unsubscribe { topic: String },
 }
 
+/// The topic tree is walked (and dropped) recursively, one call per level: without a bound a single
+/// request with enough slashes overflows the stack, which ends the process.
+const MAX_TOPIC_LEVELS: usize = 200;
+
+fn read_topic(cursor: &mut PayloadCursor) -> Result<String, ParseError> {
+    let topic = cursor.read_string()?;
+    if topic.split('/').count() > MAX_TOPIC_LEVELS {
+        return Err(ParseError::Invalid(format!("Topic has more than {} levels", MAX_TOPIC_LEVELS)));
+    }
+    Ok(topic)
+}
+
 impl PubSubCommand {
     fn parse(opcode: u8, cursor: &mut PayloadCursor) -> Result<Self, ParseError> {
         match opcode {
             OP_PUB => {
-                let topic = cursor.read_string()?;
+                let topic = read_topic(cursor)?;
                 let json_str = cursor.read_string()?;
                 let options: PubSubPublishOptions = serde_json::from_str(&json_str)
                     .map_err(|e| ParseError::Invalid(format!("Invalid JSON options: {}", e)))?;
@@ -43,11 +55,11 @@ impl PubSubCommand {
                 Ok(Self::Publish { topic, options, payload })
             }
             OP_SUB => {
-                let topic = cursor.read_string()?;
+                let topic = read_topic(cursor)?;
                 Ok(Self::Subscribe { topic })
             }
             OP_UNSUB => {
-                let topic = cursor.read_string()?;
+                let topic = read_topic(cursor)?;
                 Ok(Self::Unsubscribe { topic })
             }
             _ => Err(ParseError::Invalid(format!("Unknown PubSub opcode: 0x{:02X}", opcode))),
-- 
2.43.0


From 52913dbd1208e06471408d531e890cf030cab08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:13 +0000
Subject: [PATCH 19/50] fix: listing the store panics when an entry's expiry is
 beyond the calendar

---
 src/brokers/store/http.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/brokers/store/http.rs b/src/brokers/store/http.rs
index 05f426e..34094af 100644
--- a/src/brokers/store/http.rs
+++ b/src/brokers/store/http.rs
@@ -55,15 +55,16 @@ async fn get_store(
     let keys = entries
         .into_iter()
         .map(|entry| {
-            let exp_at = match entry.expires_at {
-                Some(expiry) => {
-                    let sys_now = std::time::SystemTime::now();
-                    let dur = expiry.saturating_duration_since(now);
-                    let future_sys = sys_now + dur;
-                    chrono::DateTime::<chrono::Utc>::from(future_sys).to_rfc3339()
-                }
-                None => "Never".to_string(),
-            };
+            // An expiry beyond the calendar (the TTL is chosen by the client) is as good as never
+            let exp_at = entry.expires_at
+                .and_then(|expiry| {
+                    let future_sys = std::time::SystemTime::now()
+                        .checked_add(expiry.saturating_duration_since(now))?;
+                    let unix = future_sys.duration_since(std::time::UNIX_EPOCH).ok()?;
+                    chrono::DateTime::<chrono::Utc>::from_timestamp(i64::try_from(unix.as_secs()).ok()?, unix.subsec_nanos())
+                })
+                .map(|at| at.to_rfc3339())
+                .unwrap_or_else(|| "Never".to_string());
             KeyDetail {
                 key: entry.key,
                 value: payload_to_json_value(&entry.payload),
-- 
2.43.0


From 88e9802fe183794104a0b2b61c0a7cc7fbd89ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:13 +0000
Subject: [PATCH 20/50] fix: a huge offset panics the pub/sub listing

---
 src/brokers/pub-sub/manager.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/brokers/pub-sub/manager.rs b/src/brokers/pub-sub/manager.rs
index c330ffa..8a2368d 100644
--- a/src/brokers/pub-sub/manager.rs
+++ b/src/brokers/pub-sub/manager.rs
@@ -207,7 +207,7 @@ impl PubSubManager {
         all_topics.sort_by(|a, b| a.full_path.cmp(&b.full_path));
         let total_topics = all_topics.len();
         
-        let end = (offset + limit).min(total_topics);
+        let end = offset.saturating_add(limit).min(total_topics);
         let paginated = if offset < total_topics {
             all_topics[offset..end].to_vec()
         } else {
-- 
2.43.0


From fe84539430d01c98099867776cd43607d797a317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:23 +0000
Subject: [PATCH 21/50] fix: the store listing counts and pages over expired
 and non-matching entries

---
 src/brokers/store/manager.rs | 39 +++++++++++++++++-------------------
 1 file changed, 18 insertions(+), 21 deletions(-)

diff --git a/src/brokers/store/manager.rs b/src/brokers/store/manager.rs
index dae4448..119c657 100644
--- a/src/brokers/store/manager.rs
+++ b/src/brokers/store/manager.rs
@@ -18,34 +18,31 @@ impl StoreManager {
     }
 
     pub fn scan(&self, limit: usize, offset: usize, filter: Option<String>) -> StoreSnapshot {
-        let total = self.map.len();
         let now = Instant::now();
+        let mut total = 0;
+        let mut entries = Vec::new();
 
-        let entries = self.map.iter()
-            .filter(|entry| {
-                if let Some(ref f) = filter {
-                    entry.key().contains(f)
-                } else {
-                    true
-                }
-            })
-            .skip(offset)
-            .take(limit)
-            .filter_map(|entry| {
-                let val = entry.value();
-                if let Some(expiry) = val.expires_at {
-                    if expiry <= now {
-                        return None;
-                    }
+        // Pages are cut from, and the total counts, what the listing can show: live entries that match
+        for entry in self.map.iter() {
+            if let Some(ref f) = filter {
+                if !entry.key().contains(f) {
+                    continue;
                 }
+            }
+            let val = entry.value();
+            if val.expires_at.map_or(false, |expiry| expiry <= now) {
+                continue;
+            }
+            if total >= offset && entries.len() < limit {
                 let MapValue(payload) = val.value.clone();
-                Some(KeyEntry {
+                entries.push(KeyEntry {
                     key: entry.key().clone(),
                     payload,
                     expires_at: val.expires_at,
-                })
-            })
-            .collect();
+                });
+            }
+            total += 1;
+        }
 
         StoreSnapshot { entries, total }
     }
-- 
2.43.0


From 5955130e1645d491d705d39b8b8dc8c2418b2d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:54 +0000
Subject: [PATCH 22/50] fix: queue and stream names address files outside their
 own (path separators, dots, empty, too long)

---
 src/brokers/disk_name.rs                 | 55 ++++++++++++++++++++++++
 src/brokers/mod.rs                       |  1 +
 src/brokers/queue/manager.rs             | 26 ++++++-----
 src/brokers/stream/domain/persistence.rs | 32 +++++++++++---
 src/brokers/stream/manager.rs            | 16 ++++---
 5 files changed, 106 insertions(+), 24 deletions(-)
 create mode 100644 src/brokers/disk_name.rs

diff --git a/src/brokers/disk_name.rs b/src/brokers/disk_name.rs
new file mode 100644
index 0000000..33ba487
--- /dev/null
+++ b/src/brokers/disk_name.rs
@@ -0,0 +1,55 @@
+//! File names for client-chosen names: what a client calls a queue or a stream must never
+//! address anything but that queue's or stream's own files.
+//!
+//! Ordinary names map to themselves. `/`, NUL and the special names `.` and `..` are percent-escaped;
+//! `%` itself only where it could be taken for an escape, or leads the name (file names that start
+//! with a `%` that is no escape are never produced, so the brokers can use them for themselves).
+
+/// Leaves room for the longest suffix a broker appends (255 bytes is the usual file name limit).
+const MAX_LEN: usize = 240;
+
+const ESCAPES: [(&str, char); 4] = [("%2F", '/'), ("%00", '\0'), ("%2E", '.'), ("%25", '%')];
+
+fn unescape(s: &str) -> Option<char> {
+    ESCAPES.iter().find(|(escape, _)| s.starts_with(escape)).map(|(_, c)| *c)
+}
+
+/// Whether `name` has a file name of its own.
+pub fn check(name: &str) -> Result<(), String> {
+    if encode(name).len() > MAX_LEN {
+        return Err(format!("Name is too long ({} bytes)", name.len()));
+    }
+    Ok(())
+}
+
+pub fn encode(name: &str) -> String {
+    let mut out = String::with_capacity(name.len());
+    for (i, c) in name.char_indices() {
+        match c {
+            '/' => out.push_str("%2F"),
+            '\0' => out.push_str("%00"),
+            '.' if i == 0 && (name == "." || name == "..") => out.push_str("%2E"),
+            '%' if i == 0 || unescape(&name[i..]).is_some() => out.push_str("%25"),
+            c => out.push(c),
+        }
+    }
+    out
+}
+
+pub fn decode(file_name: &str) -> String {
+    let mut out = String::with_capacity(file_name.len());
+    let mut rest = file_name;
+    while let Some(c) = rest.chars().next() {
+        match unescape(rest) {
+            Some(escaped) => {
+                out.push(escaped);
+                rest = &rest[3..];
+            }
+            None => {
+                out.push(c);
+                rest = &rest[c.len_utf8()..];
+            }
+        }
+    }
+    out
+}
diff --git a/src/brokers/mod.rs b/src/brokers/mod.rs
index a1e92e7..e2af119 100644
--- a/src/brokers/mod.rs
+++ b/src/brokers/mod.rs
@@ -1,3 +1,4 @@
+pub mod disk_name;
 pub mod store;
 pub mod queue;
 #[path = "pub-sub/mod.rs"]
diff --git a/src/brokers/queue/manager.rs b/src/brokers/queue/manager.rs
index 1b5328d..b3498ba 100644
--- a/src/brokers/queue/manager.rs
+++ b/src/brokers/queue/manager.rs
@@ -13,6 +13,7 @@ use bytes::Bytes;
 use uuid::Uuid;
 use tracing::{error, info};
 
+use crate::brokers::disk_name;
 use crate::brokers::queue::domain::queue::{QueueConfig, QueueState, Message, current_time_ms};
 use crate::brokers::queue::options::QueueCreateOptions;
 use crate::brokers::queue::domain::dlq::{DlqMessage, DlqState};
@@ -74,9 +75,9 @@ impl QueueManager {
                     if path.is_file() {
                         if let Some(filename) = path.file_name().and_then(|n| n.to_str()) {
                             if filename.ends_with(".db") && !filename.ends_with(".db-wal") && !filename.ends_with(".db-shm") {
-                                let queue_name = filename.trim_end_matches(".db").to_string();
+                                let queue_name = disk_name::decode(filename.trim_end_matches(".db"));
 
-                                let config_path = persistence_path.join(format!("{}.config.json", queue_name));
+                                let config_path = Self::file_path(&system_config, &queue_name, "config.json");
                                 let config = if let Ok(data) = std::fs::read_to_string(&config_path) {
                                     serde_json::from_str(&data).unwrap_or_else(|_| QueueConfig::from_options(QueueCreateOptions::default(), &system_config))
                                 } else {
@@ -101,9 +102,12 @@ impl QueueManager {
     // INTERNAL HELPERS
     // ==========================================
 
+    fn file_path(config: &SystemQueueConfig, name: &str, suffix: &str) -> std::path::PathBuf {
+        std::path::PathBuf::from(&config.persistence_path).join(format!("{}.{}", disk_name::encode(name), suffix))
+    }
+
     fn build_queue(name: String, config: QueueConfig, system_config: &SystemQueueConfig) -> Arc<QueueShared> {
-        let persistence_path = std::path::PathBuf::from(&system_config.persistence_path);
-        let db_path = persistence_path.join(format!("{}.db", name));
+        let db_path = Self::file_path(system_config, &name, "db");
         let store = QueueStore::new(
             db_path,
             system_config.default_flush_ms,
@@ -231,6 +235,8 @@ impl QueueManager {
     // ==========================================
 
     pub async fn create_queue(&self, name: String, options: QueueCreateOptions) -> Result<(), String> {
+        disk_name::check(&name)?;
+
         use dashmap::mapref::entry::Entry;
 
         match self.queues.entry(name.clone()) {
@@ -239,8 +245,7 @@ impl QueueManager {
                 let config = QueueConfig::from_options(options, &self.config);
 
                 // Persist config
-                let persistence_path = std::path::PathBuf::from(&self.config.persistence_path);
-                let config_path = persistence_path.join(format!("{}.config.json", name));
+                let config_path = Self::file_path(&self.config, &name, "config.json");
                 if let Ok(data) = serde_json::to_string_pretty(&config) {
                     let _ = std::fs::write(&config_path, data);
                 }
@@ -258,11 +263,10 @@ impl QueueManager {
         }
 
         // Delete Persistence (safe: writer has flushed and closed)
-        let base_path = std::path::PathBuf::from(&self.config.persistence_path);
-        let db_path = base_path.join(format!("{}.db", name));
-        let wal_path = base_path.join(format!("{}.db-wal", name));
-        let shm_path = base_path.join(format!("{}.db-shm", name));
-        let config_path = base_path.join(format!("{}.config.json", name));
+        let db_path = Self::file_path(&self.config, &name, "db");
+        let wal_path = Self::file_path(&self.config, &name, "db-wal");
+        let shm_path = Self::file_path(&self.config, &name, "db-shm");
+        let config_path = Self::file_path(&self.config, &name, "config.json");
 
         let _ = std::fs::remove_file(db_path);
         let _ = std::fs::remove_file(wal_path);
diff --git a/src/brokers/stream/domain/persistence.rs b/src/brokers/stream/domain/persistence.rs
index b7720c3..2938cbc 100644
--- a/src/brokers/stream/domain/persistence.rs
+++ b/src/brokers/stream/domain/persistence.rs
@@ -21,6 +21,7 @@ use tokio::sync::{mpsc, oneshot};
 use tracing::{error, info, debug, warn};
 use crc32fast::Hasher;
 
+use crate::brokers::disk_name;
 use crate::brokers::stream::options::RetentionOptions;
 use crate::brokers::stream::domain::message::Message;
 
@@ -179,13 +180,13 @@ impl StorageManager {
                 let _ = reply.send(msgs);
             }
             StorageCommand::SaveGroups { topic_name, groups_data } => {
-                let base_path = self.base_path.join(&topic_name);
+                let base_path = topic_dir(&self.base_path, &topic_name);
                 if let Err(e) = save_groups_file(&base_path, &groups_data).await {
                     error!("Failed to save groups for {}: {}", topic_name, e);
                 }
             }
             StorageCommand::ApplyRetention { topic_name, retention, max_segment_size: _, reply } => {
-                let base_path = self.base_path.join(&topic_name);
+                let base_path = topic_dir(&self.base_path, &topic_name);
                 let outcome = self.apply_retention(&topic_name, &base_path, &retention).await;
                 let _ = reply.send(outcome);
             }
@@ -193,7 +194,7 @@ impl StorageManager {
                 if let Some(ctx) = self.topics.remove(&topic_name) {
                     self.open_files.pop(&ctx.active_path);
                 }
-                let topic_path = self.base_path.join(&topic_name);
+                let topic_path = topic_dir(&self.base_path, &topic_name);
                 if topic_path.exists() {
                     let _ = std::fs::remove_dir_all(&topic_path);
                 }
@@ -211,7 +212,7 @@ impl StorageManager {
         if messages.is_empty() { return; }
 
         let highest_seq = messages.last().unwrap().seq;
-        let base_topic_path = self.base_path.join(&topic_name);
+        let base_topic_path = topic_dir(&self.base_path, &topic_name);
 
         if !self.topics.contains_key(&topic_name) {
             if !base_topic_path.exists() {
@@ -306,7 +307,7 @@ impl StorageManager {
     }
 
     async fn cold_read(&self, topic_name: &str, from_seq: u64, limit: usize) -> Vec<Message> {
-        let base_path = self.base_path.join(topic_name);
+        let base_path = topic_dir(&self.base_path, topic_name);
         let segments = find_segments(&base_path).await.unwrap_or_default();
         let mut all_msgs = Vec::new();
         let Some(first_segment) = segments.first() else {
@@ -449,9 +450,28 @@ pub async fn read_log_segment(path: &PathBuf, start_seq: u64, limit: usize) -> V
     msgs
 }
 
+/// Directory of the empty topic name (never produced by `disk_name::encode`).
+const EMPTY_NAME_DIR: &str = "%empty";
+
+/// The directory holding a topic's files: a direct child of the data directory, whatever the topic is called.
+pub fn topic_dir(base_path: &Path, topic_name: &str) -> PathBuf {
+    match topic_name {
+        "" => base_path.join(EMPTY_NAME_DIR),
+        name => base_path.join(disk_name::encode(name)),
+    }
+}
+
+/// The topic whose files a directory holds.
+pub fn topic_name_of_dir(dir_name: &str) -> String {
+    match dir_name {
+        EMPTY_NAME_DIR => String::new(),
+        dir_name => disk_name::decode(dir_name),
+    }
+}
+
 /// Recover topic state from filesystem.
 pub async fn recover_topic(topic_name: &str, base_path: PathBuf) -> RecoveredState {
-    let base_path = base_path.join(topic_name);
+    let base_path = topic_dir(&base_path, topic_name);
     let mut state = RecoveredState::default();
     if !base_path.exists() { return state; }
 
diff --git a/src/brokers/stream/manager.rs b/src/brokers/stream/manager.rs
index 9798a33..190b5d3 100644
--- a/src/brokers/stream/manager.rs
+++ b/src/brokers/stream/manager.rs
@@ -1,5 +1,5 @@
 use std::collections::HashMap;
-use std::path::PathBuf;
+use std::path::{Path, PathBuf};
 use std::sync::atomic::{AtomicU64, Ordering};
 use std::sync::{Arc, Mutex, MutexGuard};
 use std::time::Duration;
@@ -11,12 +11,13 @@ use tokio::time::{sleep_until, Instant};
 use tokio_util::sync::CancellationToken;
 use tracing::info;
 
+use crate::brokers::disk_name;
 use crate::brokers::stream::options::{SeekTarget, StreamCreateOptions};
 use crate::brokers::stream::config::SystemStreamConfig;
 use crate::brokers::stream::domain::group::ConsumerGroup;
 use crate::brokers::stream::domain::message::Message;
 use crate::brokers::stream::snapshot::{ConsumerGroupSnapshot, StreamSnapshot, TopicSnapshot};
-use crate::brokers::stream::domain::persistence::{recover_topic, save_groups_file, MessageToAppend, StorageCommand, StorageManager};
+use crate::brokers::stream::domain::persistence::{recover_topic, save_groups_file, topic_dir, topic_name_of_dir, MessageToAppend, StorageCommand, StorageManager};
 use crate::brokers::stream::domain::topic::{TopicConfig, TopicState};
 
 struct TopicShared {
@@ -108,13 +109,14 @@ impl StreamManager {
     }
 
     pub async fn create_topic(&self, name: String, options: StreamCreateOptions) -> Result<(), String> {
+        disk_name::check(&name)?;
         self.deleted_topics.remove(&name);
 
         if self.topics.contains_key(&name) {
             return Ok(());
         }
 
-        let base_path = PathBuf::from(&self.config.persistence_path).join(&name);
+        let base_path = topic_dir(Path::new(&self.config.persistence_path), &name);
         let existed_on_disk = tokio::fs::metadata(&base_path).await.map(|meta| meta.is_dir()).unwrap_or(false);
         let topic_config = Self::load_topic_config(&base_path, options, &self.config).await;
 
@@ -153,7 +155,7 @@ impl StreamManager {
     pub async fn delete_topic(&self, name: String) -> Result<(), String> {
         self.deleted_topics.insert(name.clone(), ());
 
-        let topic_path = PathBuf::from(&self.config.persistence_path).join(&name);
+        let topic_path = topic_dir(Path::new(&self.config.persistence_path), &name);
         if self.topics.remove(&name).is_some() || tokio::fs::metadata(&topic_path).await.map(|meta| meta.is_dir()).unwrap_or(false) {
             let (del_tx, del_rx) = oneshot::channel();
             let _ = self.storage_tx.send(StorageCommand::DropTopic {
@@ -434,7 +436,7 @@ impl StreamManager {
             return true;
         }
 
-        let path = PathBuf::from(&self.config.persistence_path).join(name);
+        let path = topic_dir(Path::new(&self.config.persistence_path), name);
         tokio::fs::metadata(path).await.map(|meta| meta.is_dir()).unwrap_or(false)
     }
 
@@ -492,7 +494,7 @@ impl StreamManager {
                 continue;
             };
 
-            let name = topic_name.to_string();
+            let name = topic_name_of_dir(topic_name);
             if self.deleted_topics.contains_key(&name) {
                 continue;
             }
@@ -512,7 +514,7 @@ impl StreamManager {
     }
 
     async fn build_topic_shared(name: String, config: TopicConfig) -> Arc<TopicShared> {
-        let base_path = PathBuf::from(&config.persistence_path).join(&name);
+        let base_path = topic_dir(Path::new(&config.persistence_path), &name);
         if let Err(e) = tokio::fs::create_dir_all(&base_path).await {
             tracing::error!("Failed to create topic directory at {:?}: {}", base_path, e);
         }
-- 
2.43.0


From 4318e309a11de7b9f8d1acc09cf1e743d07ac692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:54 +0000
Subject: [PATCH 23/50] fix: a queue whose name ends in .db comes back under
 another name

---
 src/brokers/queue/manager.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/brokers/queue/manager.rs b/src/brokers/queue/manager.rs
index b3498ba..1e8f5e8 100644
--- a/src/brokers/queue/manager.rs
+++ b/src/brokers/queue/manager.rs
@@ -74,8 +74,8 @@ impl QueueManager {
                     let path = entry.path();
                     if path.is_file() {
                         if let Some(filename) = path.file_name().and_then(|n| n.to_str()) {
-                            if filename.ends_with(".db") && !filename.ends_with(".db-wal") && !filename.ends_with(".db-shm") {
-                                let queue_name = disk_name::decode(filename.trim_end_matches(".db"));
+                            if let Some(stem) = filename.strip_suffix(".db") {
+                                let queue_name = disk_name::decode(stem);
 
                                 let config_path = Self::file_path(&system_config, &queue_name, "config.json");
                                 let config = if let Ok(data) = std::fs::read_to_string(&config_path) {
-- 
2.43.0


From 6d1401117e1f4d335f0565fe50a2156e067b3f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:34 +0000
Subject: [PATCH 24/50] fix: creating a queue can deadlock the server inside
 SQLite

---
 src/brokers/queue/domain/persistence.rs | 31 ++++++++++++++-----------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/src/brokers/queue/domain/persistence.rs b/src/brokers/queue/domain/persistence.rs
index 46753b4..8155761 100644
--- a/src/brokers/queue/domain/persistence.rs
+++ b/src/brokers/queue/domain/persistence.rs
@@ -65,19 +65,28 @@ impl QueueStore {
     ) -> Self {
         // SYNCHRONOUS INIT: Ensure DB schema exists before anything else
         // This prevents race conditions where recover() runs before Writer creates tables.
-        if let Ok(conn) = Connection::open(&db_path) {
-            if let Err(e) = init_db(&conn) {
-                error!("FATAL: Failed to initialize Queue DB at {:?}: {}", db_path, e);
+        // The writer goes on with the same connection: one thread closing the only connection to a database
+        // while another opens it can deadlock inside SQLite, with its global mutex held.
+        let conn = match Connection::open(&db_path) {
+            Ok(conn) => {
+                if let Err(e) = init_db(&conn) {
+                    error!("FATAL: Failed to initialize Queue DB at {:?}: {}", db_path, e);
+                }
+                Some(conn)
             }
-        } else {
-            error!("FATAL: Failed to open Queue DB for initialization at {:?}", db_path);
-        }
+            Err(e) => {
+                error!("FATAL: Cannot open queue DB at {:?}: {}", db_path, e);
+                None
+            }
+        };
 
         let (tx, rx) = mpsc::unbounded_channel();
         
         let path_clone = db_path.clone();
         let handle = tokio::spawn(async move {
-            run_writer(rx, path_clone, flush_ms, batch_size).await;
+            if let Some(conn) = conn {
+                run_writer(rx, conn, path_clone, flush_ms, batch_size).await;
+            }
         });
 
         Self {
@@ -128,17 +137,11 @@ impl QueueStore {
 
 async fn run_writer(
     mut rx: mpsc::UnboundedReceiver<StorageOp>,
+    mut conn: Connection,
     db_path: PathBuf,
     flush_ms: u64,
     batch_size: usize,
 ) {
-    let mut conn = match Connection::open(&db_path) {
-        Ok(c) => c,
-        Err(e) => {
-            error!("FATAL: Cannot open queue DB at {:?}: {}", db_path, e);
-            return;
-        }
-    };
     if let Err(e) = conn.execute_batch(
         // Writer connection pragmas for high-throughput batch operations
         // synchronous=OFF for performance (data is flushed periodically via timer)
-- 
2.43.0


From 203a5aa4091788d89ddd515bfdc72f1735bff66f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:27 +0000
Subject: [PATCH 25/50] fix: a queue created while one of the same name is
 being deleted loses its files

---
 src/brokers/queue/manager.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/brokers/queue/manager.rs b/src/brokers/queue/manager.rs
index 1e8f5e8..a9cbb87 100644
--- a/src/brokers/queue/manager.rs
+++ b/src/brokers/queue/manager.rs
@@ -47,6 +47,8 @@ pub struct QueueManager {
     queues: Arc<DashMap<String, Arc<QueueShared>>>,
     config: Arc<SystemQueueConfig>,
     cancel: CancellationToken,
+    /// Held while a queue's files are created or removed
+    lifecycle: Arc<tokio::sync::Mutex<()>>,
 }
 
 impl QueueManager {
@@ -64,6 +66,7 @@ impl QueueManager {
             queues: queues.clone(),
             config: system_config.clone(),
             cancel: cancel.clone(),
+            lifecycle: Arc::new(tokio::sync::Mutex::new(())),
         };
 
         // WARM START: Discover and restore queues from filesystem
@@ -236,6 +239,7 @@ impl QueueManager {
 
     pub async fn create_queue(&self, name: String, options: QueueCreateOptions) -> Result<(), String> {
         disk_name::check(&name)?;
+        let _lifecycle = self.lifecycle.lock().await;
 
         use dashmap::mapref::entry::Entry;
 
@@ -258,6 +262,16 @@ impl QueueManager {
     }
 
     pub async fn delete_queue(&self, name: String) -> Result<(), String> {
+        // On a task of its own: the request may be dropped with its connection, and a deletion must not stop half-way.
+        let manager = self.clone();
+        tokio::spawn(async move { manager.delete_queue_files(name).await })
+            .await
+            .map_err(|e| format!("Deletion failed: {}", e))
+    }
+
+    async fn delete_queue_files(&self, name: String) {
+        // Until the files are gone, a queue created under the same name would lose its own to this deletion.
+        let _lifecycle = self.lifecycle.lock().await;
         if let Some((_, shared)) = self.queues.remove(&name) {
             shared.store.shutdown().await;
         }
@@ -272,8 +286,6 @@ impl QueueManager {
         let _ = std::fs::remove_file(wal_path);
         let _ = std::fs::remove_file(shm_path);
         let _ = std::fs::remove_file(config_path);
-
-        Ok(())
     }
 
     pub async fn push(&self, queue_name: String, payload: Bytes, priority: u8) -> Result<(), String> {
-- 
2.43.0


From 024eb789d46d63c1e8b98762a12ca6dd3ed1dbe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:55 +0000
Subject: [PATCH 26/50] fix: a stream created, published to or saved while one
 of its name is being deleted is lost or mixed up with it

---
 src/brokers/stream/manager.rs | 100 +++++++++++++++++++++-------------
 1 file changed, 62 insertions(+), 38 deletions(-)

diff --git a/src/brokers/stream/manager.rs b/src/brokers/stream/manager.rs
index 190b5d3..172aafd 100644
--- a/src/brokers/stream/manager.rs
+++ b/src/brokers/stream/manager.rs
@@ -37,6 +37,9 @@ struct TopicInner {
     groups: HashMap<String, ConsumerGroup>,
     client_map: HashMap<String, Vec<ConsumerBinding>>,
     groups_dirty: bool,
+    /// Set when the topic is deleted: its name may by now belong to another one, so that nothing about this
+    /// one may be sent to the storage actor any more.
+    deleted: bool,
     full_config: TopicConfig,
 }
 
@@ -74,6 +77,8 @@ pub struct StreamManager {
     storage_tx: mpsc::UnboundedSender<StorageCommand>,
     config: Arc<SystemStreamConfig>,
     cancel: CancellationToken,
+    /// Held while a topic's files are created or removed
+    lifecycle: Arc<tokio::sync::Mutex<()>>,
 }
 
 impl StreamManager {
@@ -97,6 +102,7 @@ impl StreamManager {
             storage_tx,
             config,
             cancel: CancellationToken::new(),
+            lifecycle: Arc::new(tokio::sync::Mutex::new(())),
         };
 
         manager.bootstrap_from_disk().await;
@@ -110,6 +116,15 @@ impl StreamManager {
 
     pub async fn create_topic(&self, name: String, options: StreamCreateOptions) -> Result<(), String> {
         disk_name::check(&name)?;
+        // On a task of its own: the request may be dropped with its connection, and a topic must not be left half-made.
+        let manager = self.clone();
+        tokio::spawn(async move { manager.create_topic_files(name, options).await })
+            .await
+            .map_err(|e| format!("Creation failed: {}", e))?
+    }
+
+    async fn create_topic_files(&self, name: String, options: StreamCreateOptions) -> Result<(), String> {
+        let _lifecycle = self.lifecycle.lock().await;
         self.deleted_topics.remove(&name);
 
         if self.topics.contains_key(&name) {
@@ -153,10 +168,24 @@ impl StreamManager {
     }
 
     pub async fn delete_topic(&self, name: String) -> Result<(), String> {
+        // On a task of its own: the request may be dropped with its connection, and a deletion must not stop half-way.
+        let manager = self.clone();
+        tokio::spawn(async move { manager.delete_topic_files(name).await })
+            .await
+            .map_err(|e| format!("Deletion failed: {}", e))
+    }
+
+    async fn delete_topic_files(&self, name: String) {
+        let _lifecycle = self.lifecycle.lock().await;
         self.deleted_topics.insert(name.clone(), ());
 
         let topic_path = topic_dir(Path::new(&self.config.persistence_path), &name);
-        if self.topics.remove(&name).is_some() || tokio::fs::metadata(&topic_path).await.map(|meta| meta.is_dir()).unwrap_or(false) {
+        let removed = self.topics.remove(&name);
+        if removed.is_some() || tokio::fs::metadata(&topic_path).await.map(|meta| meta.is_dir()).unwrap_or(false) {
+            if let Some((_, topic_ref)) = removed {
+                // What is in progress under the lock reaches the storage actor before the deletion, the rest not at all.
+                Self::lock_topic(&topic_ref.inner).deleted = true;
+            }
             let (del_tx, del_rx) = oneshot::channel();
             let _ = self.storage_tx.send(StorageCommand::DropTopic {
                 topic_name: name,
@@ -164,7 +193,6 @@ impl StreamManager {
             });
             let _ = del_rx.await;
         }
-        Ok(())
     }
 
     pub async fn publish(&self, topic: &str, payload: Bytes) -> Result<u64, String> {
@@ -174,6 +202,9 @@ impl StreamManager {
         // The append must reach the storage actor in sequence order: enqueue it before releasing the topic.
         let seq = {
             let mut inner = Self::lock_topic(&topic_ref.inner);
+            if inner.deleted {
+                return Err("Topic not found".to_string());
+            }
             let (seq, timestamp) = inner.state.append(payload.clone());
             let _ = self.storage_tx.send(StorageCommand::Append {
                 topic_name: topic.to_string(),
@@ -432,12 +463,7 @@ impl StreamManager {
     }
 
     pub async fn exists(&self, name: &str) -> bool {
-        if self.topics.contains_key(name) {
-            return true;
-        }
-
-        let path = topic_dir(Path::new(&self.config.persistence_path), name);
-        tokio::fs::metadata(path).await.map(|meta| meta.is_dir()).unwrap_or(false)
+        self.topics.contains_key(name)
     }
 
     fn get_topic(&self, topic: &str) -> Option<Arc<TopicShared>> {
@@ -548,6 +574,7 @@ impl StreamManager {
                 groups,
                 client_map: HashMap::new(),
                 groups_dirty: false,
+                deleted: false,
                 full_config: config,
             }),
             notify: Notify::new(),
@@ -592,17 +619,10 @@ impl StreamManager {
                         _ = timer.tick() => {}
                     }
                     for (topic_name, topic_ref) in StreamManager::collect_topics(&topics) {
-                        let groups_data = {
-                            let mut inner = StreamManager::lock_topic(&topic_ref.inner);
-                            if !inner.groups_dirty {
-                                None
-                            } else {
-                                inner.groups_dirty = false;
-                                Some(inner.groups.iter().map(|(id, group)| (id.clone(), group.ack_floor)).collect::<HashMap<_, _>>())
-                            }
-                        };
-
-                        if let Some(groups_data) = groups_data {
+                        let mut inner = StreamManager::lock_topic(&topic_ref.inner);
+                        if inner.groups_dirty && !inner.deleted {
+                            inner.groups_dirty = false;
+                            let groups_data = inner.groups.iter().map(|(id, group)| (id.clone(), group.ack_floor)).collect::<HashMap<_, _>>();
                             let _ = storage_tx.send(StorageCommand::SaveGroups {
                                 topic_name,
                                 groups_data,
@@ -627,19 +647,17 @@ impl StreamManager {
                         _ = timer.tick() => {}
                     }
                     for (topic_name, topic_ref) in StreamManager::collect_topics(&topics) {
-                        let (retention, max_segment_size) = {
-                            let inner = StreamManager::lock_topic(&topic_ref.inner);
-                            (inner.full_config.retention.clone(), inner.full_config.max_segment_size)
-                        };
-
                         let (reply_tx, reply_rx) = oneshot::channel();
-                        if storage_tx.send(StorageCommand::ApplyRetention {
-                            topic_name,
-                            retention,
-                            max_segment_size,
-                            reply: reply_tx,
-                        }).is_err() {
-                            continue;
+                        {
+                            let inner = StreamManager::lock_topic(&topic_ref.inner);
+                            if inner.deleted || storage_tx.send(StorageCommand::ApplyRetention {
+                                topic_name,
+                                retention: inner.full_config.retention.clone(),
+                                max_segment_size: inner.full_config.max_segment_size,
+                                reply: reply_tx,
+                            }).is_err() {
+                                continue;
+                            }
                         }
 
                         let Ok(outcome) = reply_rx.await else {
@@ -765,13 +783,19 @@ impl StreamManager {
         let cold_read = ColdReadGuard { topic: topic_ref.as_ref(), group };
 
         let (tx, rx) = oneshot::channel();
-        if self.storage_tx.send(StorageCommand::ColdRead {
-            topic_name: topic.to_string(),
-            from_seq,
-            limit,
-            reply: tx,
-        }).is_err() {
-            return Err("Disk read failed".to_string());
+        {
+            let inner = Self::lock_topic(&topic_ref.inner);
+            if inner.deleted {
+                return Err("Topic not found".to_string());
+            }
+            if self.storage_tx.send(StorageCommand::ColdRead {
+                topic_name: topic.to_string(),
+                from_seq,
+                limit,
+                reply: tx,
+            }).is_err() {
+                return Err("Disk read failed".to_string());
+            }
         }
 
         let messages = rx.await.map_err(|_| "Disk read failed".to_string())?;
-- 
2.43.0


From de4989622083fa91db07c400910f5dfd9e100c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:57 +0000
Subject: [PATCH 27/50] fix: a crash while a stream is created or deleted
 leaves it with wrong options or a part of its messages

---
 src/brokers/stream/domain/persistence.rs | 15 ++++++++++++++-
 src/brokers/stream/manager.rs            | 24 +++++++++++++++++-------
 2 files changed, 31 insertions(+), 8 deletions(-)

diff --git a/src/brokers/stream/domain/persistence.rs b/src/brokers/stream/domain/persistence.rs
index 2938cbc..feb628c 100644
--- a/src/brokers/stream/domain/persistence.rs
+++ b/src/brokers/stream/domain/persistence.rs
@@ -196,7 +196,13 @@ impl StorageManager {
                 }
                 let topic_path = topic_dir(&self.base_path, &topic_name);
                 if topic_path.exists() {
-                    let _ = std::fs::remove_dir_all(&topic_path);
+                    // Moved out of the way first: a crash must not leave a topic with a part of its files.
+                    let unfinished = unfinished_dir(&self.base_path);
+                    let removed_path = match std::fs::rename(&topic_path, &unfinished) {
+                        Ok(()) => unfinished,
+                        Err(_) => topic_path,
+                    };
+                    let _ = std::fs::remove_dir_all(&removed_path);
                 }
                 let _ = reply.send(());
             }
@@ -453,6 +459,13 @@ pub async fn read_log_segment(path: &PathBuf, start_seq: u64, limit: usize) -> V
 /// Directory of the empty topic name (never produced by `disk_name::encode`).
 const EMPTY_NAME_DIR: &str = "%empty";
 
+/// Leads the directories of topics being created or removed (never produced by `disk_name::encode`).
+pub const UNFINISHED_PREFIX: &str = "%unfinished-";
+
+pub fn unfinished_dir(base_path: &Path) -> PathBuf {
+    base_path.join(format!("{}{}", UNFINISHED_PREFIX, uuid::Uuid::new_v4()))
+}
+
 /// The directory holding a topic's files: a direct child of the data directory, whatever the topic is called.
 pub fn topic_dir(base_path: &Path, topic_name: &str) -> PathBuf {
     match topic_name {
diff --git a/src/brokers/stream/manager.rs b/src/brokers/stream/manager.rs
index 172aafd..094a623 100644
--- a/src/brokers/stream/manager.rs
+++ b/src/brokers/stream/manager.rs
@@ -17,7 +17,7 @@ use crate::brokers::stream::config::SystemStreamConfig;
 use crate::brokers::stream::domain::group::ConsumerGroup;
 use crate::brokers::stream::domain::message::Message;
 use crate::brokers::stream::snapshot::{ConsumerGroupSnapshot, StreamSnapshot, TopicSnapshot};
-use crate::brokers::stream::domain::persistence::{recover_topic, save_groups_file, topic_dir, topic_name_of_dir, MessageToAppend, StorageCommand, StorageManager};
+use crate::brokers::stream::domain::persistence::{recover_topic, save_groups_file, topic_dir, topic_name_of_dir, unfinished_dir, MessageToAppend, StorageCommand, StorageManager, UNFINISHED_PREFIX};
 use crate::brokers::stream::domain::topic::{TopicConfig, TopicState};
 
 struct TopicShared {
@@ -138,13 +138,12 @@ impl StreamManager {
         info!("[StreamManager] Creating topic '{}'", name);
 
         if !existed_on_disk {
-            if let Err(e) = tokio::fs::create_dir_all(&base_path).await {
+            // Made aside and moved into place: a crash must not leave a topic with other options than asked for.
+            let unfinished = unfinished_dir(Path::new(&self.config.persistence_path));
+            if let Err(e) = Self::make_topic_dir(&unfinished, &base_path, &topic_config).await {
                 tracing::error!("Failed to create topic directory at {:?}: {}", base_path, e);
-            } else {
-                let config_path = base_path.join("config.json");
-                if let Ok(data) = serde_json::to_string_pretty(&topic_config) {
-                    let _ = tokio::fs::write(&config_path, data).await;
-                }
+                let _ = tokio::fs::remove_dir_all(&unfinished).await;
+                return Err(format!("Failed to create topic: {}", e));
             }
         } else {
             let config_path = base_path.join("config.json");
@@ -486,6 +485,12 @@ impl StreamManager {
         topics.iter().map(|entry| (entry.key().clone(), entry.value().clone())).collect()
     }
 
+    async fn make_topic_dir(unfinished: &Path, base_path: &Path, config: &TopicConfig) -> std::io::Result<()> {
+        tokio::fs::create_dir_all(unfinished).await?;
+        tokio::fs::write(unfinished.join("config.json"), serde_json::to_string_pretty(config)?).await?;
+        tokio::fs::rename(unfinished, base_path).await
+    }
+
     async fn load_topic_config(base_path: &PathBuf, options: StreamCreateOptions, config: &SystemStreamConfig) -> TopicConfig {
         let config_path = base_path.join("config.json");
         if let Ok(data) = tokio::fs::read_to_string(&config_path).await {
@@ -520,6 +525,11 @@ impl StreamManager {
                 continue;
             };
 
+            if topic_name.starts_with(UNFINISHED_PREFIX) {
+                let _ = tokio::fs::remove_dir_all(&path).await;
+                continue;
+            }
+
             let name = topic_name_of_dir(topic_name);
             if self.deleted_topics.contains_key(&name) {
                 continue;
-- 
2.43.0


From d5eb3334decb7a0c85a953e68f0da2cc215157ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:58 +0000
Subject: [PATCH 28/50] fix: the pub/sub listing shows and counts topics whose
 only content is an expired retained value

---
 src/brokers/pub-sub/domain/radix_tree.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/brokers/pub-sub/domain/radix_tree.rs b/src/brokers/pub-sub/domain/radix_tree.rs
index 696bcbe..f6f7910 100644
--- a/src/brokers/pub-sub/domain/radix_tree.rs
+++ b/src/brokers/pub-sub/domain/radix_tree.rs
@@ -235,13 +235,12 @@ impl Node {
     pub(crate) fn collect_filtered_topics(&self, base_path: Option<&str>, search: Option<&str>, topics: &mut Vec<TopicSnapshot>) {
         if let Some(base_path) = base_path {
             let matches = search.map_or(true, |s| base_path.contains(s));
-            if matches && (!self.subscribers.is_empty() || self.retained.is_some()) {
+            let retained = self.retained.as_ref().filter(|r| !r.is_expired());
+            if matches && (!self.subscribers.is_empty() || retained.is_some()) {
                 topics.push(TopicSnapshot {
                     full_path: base_path.to_string(),
                     subscribers: self.subscribers.len(),
-                    retained_payload: self.retained.as_ref()
-                        .filter(|r| !r.is_expired())
-                        .map(|retained| retained.data.clone()),
+                    retained_payload: retained.map(|retained| retained.data.clone()),
                 });
             }
         }
-- 
2.43.0


From d4c762752e6e97554e9a4dd4285d8c00e6e9910f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:58 +0000
Subject: [PATCH 29/50] fix: a literal subscription with # or + inside a level
 is listed as a wildcard

---
 src/brokers/pub-sub/manager.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/brokers/pub-sub/manager.rs b/src/brokers/pub-sub/manager.rs
index 8a2368d..eee024c 100644
--- a/src/brokers/pub-sub/manager.rs
+++ b/src/brokers/pub-sub/manager.rs
@@ -222,14 +222,14 @@ impl PubSubManager {
         for entry in self.clients.iter() {
             let client_id = entry.key().0.clone();
             for sub in &entry.subscriptions {
-                if sub.contains('#') {
+                if sub.split('/').any(|level| level == "#") {
                     if search.map_or(true, |s| sub.contains(s)) {
                         wildcards.multi_level.push(WildcardSubscription {
                             pattern: sub.clone(),
                             client_id: client_id.clone(),
                         });
                     }
-                } else if sub.contains('+') {
+                } else if sub.split('/').any(|level| level == "+") {
                     if search.map_or(true, |s| sub.contains(s)) {
                         wildcards.single_level.push(WildcardSubscription {
                             pattern: sub.clone(),
-- 
2.43.0


From a4cbf03fcaeffc3bd74abe14eca2db3c6b880b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:06 +0000
Subject: [PATCH 30/50] fix: after 2^31 requests every request of an SDK client
 fails (negative request id)

---
 sdk/ts/src/connection.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sdk/ts/src/connection.ts b/sdk/ts/src/connection.ts
index b6420af..eff4806 100644
--- a/sdk/ts/src/connection.ts
+++ b/sdk/ts/src/connection.ts
@@ -213,7 +213,7 @@ export class NexoConnection extends EventEmitter {
     options?: { timeoutMs?: number }
   ): Promise<{ status: ResponseStatus, cursor: Cursor }> {
     const id = this.nextId;
-    this.nextId = (this.nextId + 1) & 0xFFFFFFFF || 1;
+    this.nextId = (this.nextId + 1) >>> 0 || 1;
 
     this.writer.begin();
     if (build) build(this.writer);
@@ -259,7 +259,7 @@ export class NexoConnection extends EventEmitter {
     if (!this.isConnected) return;
 
     const id = this.nextId;
-    this.nextId = (this.nextId + 1) & 0xFFFFFFFF || 1;
+    this.nextId = (this.nextId + 1) >>> 0 || 1;
 
     this.writer.begin();
     if (build) build(this.writer);
-- 
2.43.0


From f5a6e1f9833d8405c7c0a50b430ac903166c594d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:06 +0000
Subject: [PATCH 31/50] fix: requests outstanding when an SDK client
 disconnects never settle

---
 sdk/ts/src/connection.ts | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sdk/ts/src/connection.ts b/sdk/ts/src/connection.ts
index eff4806..102a3b1 100644
--- a/sdk/ts/src/connection.ts
+++ b/sdk/ts/src/connection.ts
@@ -271,6 +271,7 @@ export class NexoConnection extends EventEmitter {
     this.shouldReconnect = false;
     this.isReconnecting = false;
     this.stopSweep();
+    this.pending.forEach(p => p.reject(new ConnectionClosedError()));
     this.pending.clear();
     this.socket.destroy();
     this.isConnected = false;
-- 
2.43.0


From 33ceaedcb0154f77e77dae9c25569d26b6f5430d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:06 +0000
Subject: [PATCH 32/50] fix: an SDK client that disconnects while it is
 reconnecting connects again

---
 sdk/ts/src/connection.ts | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sdk/ts/src/connection.ts b/sdk/ts/src/connection.ts
index 102a3b1..32c5cf2 100644
--- a/sdk/ts/src/connection.ts
+++ b/sdk/ts/src/connection.ts
@@ -135,6 +135,7 @@ export class NexoConnection extends EventEmitter {
 
     while (this.shouldReconnect && !this.isConnected) {
       await new Promise(r => setTimeout(r, this.config.reconnectDelayMs));
+      if (!this.shouldReconnect) return;
 
       try {
         await this.createSocketAndConnect();
-- 
2.43.0


From 19f30e6564f7e054d950182d1af80612657187ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:06 +0000
Subject: [PATCH 33/50] fix: a message that is empty or malformed JSON ends the
 process of an SDK subscriber, or fails the batch it is in

---
 sdk/ts/src/codec.ts | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/sdk/ts/src/codec.ts b/sdk/ts/src/codec.ts
index 9ae0676..f1fd582 100644
--- a/sdk/ts/src/codec.ts
+++ b/sdk/ts/src/codec.ts
@@ -32,13 +32,19 @@ export class Cursor {
    * to the end of the buffer.
    */
   decodeAny(): any {
+    // Nothing at all, not even a type: what other clients may publish
+    if (this.offset >= this.buf.length) return null;
     const type = this.buf.readUInt8(this.offset++);
     const start = this.offset;
     const end = this.buf.length;
     this.offset = end;
     switch (type) {
-      case DataType.JSON:
-        return start === end ? null : JSON.parse(this.buf.toString('utf8', start, end));
+      case DataType.JSON: {
+        if (start === end) return null;
+        const text = this.buf.toString('utf8', start, end);
+        // One malformed value must not take its whole batch, or the process, with it
+        try { return JSON.parse(text); } catch { return text; }
+      }
       case DataType.STRING:
         return this.buf.toString('utf8', start, end);
       case DataType.RAW:
-- 
2.43.0


From f9e117a4ed78c08edba1b80d22a6a9f9793c71e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:43 +0000
Subject: [PATCH 34/50] fix: exists() answers false when the connection is lost
 or the request times out

---
 sdk/ts/src/brokers/queue.ts  | 6 ++++--
 sdk/ts/src/brokers/stream.ts | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/sdk/ts/src/brokers/queue.ts b/sdk/ts/src/brokers/queue.ts
index 326c6ea..401e203 100644
--- a/sdk/ts/src/brokers/queue.ts
+++ b/sdk/ts/src/brokers/queue.ts
@@ -2,7 +2,7 @@ import { NexoConnection } from '../connection';
 import { Cursor } from '../codec';
 import { Logger } from '../utils/logger';
 import { DEFAULT_CONFIG } from '../config';
-import { ConnectionClosedError } from '../errors';
+import { ConnectionClosedError, NexoError } from '../errors';
 import { runConcurrent } from '../utils/concurrent';
 
 enum QueueOpcode {
@@ -32,7 +32,9 @@ const QueueCommands = {
     try {
       const res = await conn.send(QueueOpcode.Q_EXISTS, w => w.string(name));
       return res.status === 0x00;
-    } catch {
+    } catch (e) {
+      // Only the server can say that it does not exist
+      if (e instanceof NexoError) throw e;
       return false;
     }
   },
diff --git a/sdk/ts/src/brokers/stream.ts b/sdk/ts/src/brokers/stream.ts
index 7c7f9b8..7e22403 100644
--- a/sdk/ts/src/brokers/stream.ts
+++ b/sdk/ts/src/brokers/stream.ts
@@ -2,7 +2,7 @@ import { NexoConnection } from '../connection';
 import { Cursor } from '../codec';
 import { Logger } from '../utils/logger';
 import { DEFAULT_CONFIG } from '../config';
-import { ConnectionClosedError, NotConnectedError } from '../errors';
+import { ConnectionClosedError, NexoError, NotConnectedError } from '../errors';
 import { runConcurrent } from '../utils/concurrent';
 
 const FETCH_TIMEOUT_MARGIN_MS = 5000;
@@ -185,7 +185,9 @@ export class NexoStream<T = any> {
     try {
       const res = await this.conn.send(StreamOpcode.S_EXISTS, w => w.string(this.name));
       return res.status === 0x00;
-    } catch {
+    } catch (e) {
+      // Only the server can say that it does not exist
+      if (e instanceof NexoError) throw e;
       return false;
     }
   }
-- 
2.43.0


From 26e0bc90ac30f916d49de151957077b00f00dafe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:40 +0000
Subject: [PATCH 35/50] fix: two subscribe() calls at once start two consumers
 on one queue handle

---
 sdk/ts/src/brokers/queue.ts | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/sdk/ts/src/brokers/queue.ts b/sdk/ts/src/brokers/queue.ts
index 401e203..d2e5e4b 100644
--- a/sdk/ts/src/brokers/queue.ts
+++ b/sdk/ts/src/brokers/queue.ts
@@ -233,13 +233,19 @@ export class NexoQueue<T = any> {
   async subscribe(callback: (data: T) => Promise<any> | any, options: QueueSubscribeOptions = {}): Promise<{ stop: () => void }> {
     if (this.isSubscribed) throw new Error(`Queue '${this.name}' already subscribed.`);
 
+    // Taken before waiting for the server: another subscribe() may come in between
+    this.isSubscribed = true;
+
     // Fail Fast: Check existence first
-    if (!(await this.exists())) {
-      throw new Error(`Queue '${this.name}' not found`);
+    try {
+      if (!(await this.exists())) {
+        throw new Error(`Queue '${this.name}' not found`);
+      }
+    } catch (e) {
+      this.isSubscribed = false;
+      throw e;
     }
 
-    this.isSubscribed = true;
-
     const batchSize = options.batchSize ?? DEFAULT_CONFIG.queue.batchSize;
     const waitMs = options.waitMs ?? DEFAULT_CONFIG.queue.waitMs;
     const concurrency = options.concurrency ?? DEFAULT_CONFIG.queue.concurrency;
-- 
2.43.0


From fc1c557c88a3d5965b99b3312f4fded7f35ee8a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:29 +0000
Subject: [PATCH 36/50] fix: running out of file descriptors while accepting a
 connection ends the server

---
 src/main.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index e6f29be..c0b7449 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -49,10 +49,15 @@ async fn main() {
     tracing::info!(address = %addr, "Nexo listening");
 
     loop {
-        let (socket, client_addr) = listener
-            .accept()
-            .await
-            .expect("Failed to accept connection");
+        let (socket, client_addr) = match listener.accept().await {
+            Ok(accepted) => accepted,
+            Err(e) => {
+                // Out of descriptors, or the client is gone already: the connections there are must not suffer.
+                tracing::error!(error = %e, "Failed to accept connection");
+                tokio::time::sleep(std::time::Duration::from_millis(50)).await;
+                continue;
+            }
+        };
 
         let engine_clone = engine.clone();
 
-- 
2.43.0


From 50e5782d9d370abc4a4b2b099e55eb4d27eab1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:14 +0000
Subject: [PATCH 37/50] fix: queue changes that could not be written at once
 (disk full, I/O error) were never written

---
 src/brokers/queue/domain/persistence.rs | 46 +++++++++++++++----------
 1 file changed, 28 insertions(+), 18 deletions(-)

diff --git a/src/brokers/queue/domain/persistence.rs b/src/brokers/queue/domain/persistence.rs
index 8155761..47aeb70 100644
--- a/src/brokers/queue/domain/persistence.rs
+++ b/src/brokers/queue/domain/persistence.rs
@@ -3,7 +3,7 @@ use std::sync::Mutex;
 use std::time::Duration;
 use tokio::sync::mpsc;
 use tokio::task::JoinHandle;
-use rusqlite::{params, types::Type, Connection, Result};
+use rusqlite::{params, types::Type, Connection, ErrorCode, Result};
 use tracing::{error, info};
 use uuid::Uuid;
 
@@ -161,6 +161,7 @@ async fn run_writer(
     flush_timer.set_missed_tick_behavior(tokio::time::MissedTickBehavior::Skip);
 
     let mut batch = Vec::with_capacity(batch_size);
+    let mut failing = false; // what could not be written is tried again at the timer only
 
     loop {
         tokio::select! {
@@ -177,8 +178,8 @@ async fn run_writer(
                             }
                         }
 
-                        if batch.len() >= batch_size {
-                            flush_batch(&mut conn, &mut batch);
+                        if batch.len() >= batch_size && !failing {
+                            failing = !flush_batch(&mut conn, &mut batch);
                         }
                     }
                     None => {
@@ -194,33 +195,42 @@ async fn run_writer(
             
             _ = flush_timer.tick() => {
                 if !batch.is_empty() {
-                    flush_batch(&mut conn, &mut batch);
+                    failing = !flush_batch(&mut conn, &mut batch);
                 }
             }
         }
     }
 }
 
-fn flush_batch(conn: &mut Connection, batch: &mut Vec<StorageOp>) {
-    let tx = match conn.transaction() {
-        Ok(t) => t,
+/// Writes all of the batch, or keeps it for another attempt (disk full, I/O error, no free descriptor, ...).
+fn flush_batch(conn: &mut Connection, batch: &mut Vec<StorageOp>) -> bool {
+    match write_batch(conn, batch) {
+        Ok(()) => {
+            batch.clear();
+            true
+        }
         Err(e) => {
-            error!("Failed to start transaction: {}", e);
-            return;
+            error!("Failed to write batch, keeping {} ops: {}", batch.len(), e);
+            false
         }
-    };
+    }
+}
 
-    for op in batch.iter() {
-        if let Err(e) = exec_op(&tx, op) {
-            error!("Failed to exec op {:?}: {}", op, e);
+fn write_batch(conn: &mut Connection, batch: &[StorageOp]) -> Result<()> {
+    let tx = conn.transaction()?;
+
+    for op in batch {
+        match exec_op(&tx, op) {
+            Ok(()) => {}
+            // An op the data does not allow never succeeds: it must not hold up the others.
+            Err(e) if e.sqlite_error_code() == Some(ErrorCode::ConstraintViolation) => {
+                error!("Failed to exec op {:?}: {}", op, e);
+            }
+            Err(e) => return Err(e),
         }
     }
 
-    if let Err(e) = tx.commit() {
-        error!("Failed to commit batch: {}", e);
-    }
-    
-    batch.clear();
+    tx.commit()
 }
 
 // ==========================================
-- 
2.43.0


From 9949fb6db0c7fa7a741daef6afbdd751931718dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:04 +0000
Subject: [PATCH 38/50] fix: a queue whose database could not be opened or
 initialized was created all the same and never persisted

---
 src/brokers/queue/domain/persistence.rs | 26 +++-----
 src/brokers/queue/manager.rs            | 82 +++++++++++++++----------
 2 files changed, 56 insertions(+), 52 deletions(-)

diff --git a/src/brokers/queue/domain/persistence.rs b/src/brokers/queue/domain/persistence.rs
index 47aeb70..3194fa2 100644
--- a/src/brokers/queue/domain/persistence.rs
+++ b/src/brokers/queue/domain/persistence.rs
@@ -62,38 +62,28 @@ impl QueueStore {
         db_path: PathBuf, 
         flush_ms: u64,
         batch_size: usize,
-    ) -> Self {
+    ) -> Result<Self, String> {
         // SYNCHRONOUS INIT: Ensure DB schema exists before anything else
         // This prevents race conditions where recover() runs before Writer creates tables.
         // The writer goes on with the same connection: one thread closing the only connection to a database
         // while another opens it can deadlock inside SQLite, with its global mutex held.
-        let conn = match Connection::open(&db_path) {
-            Ok(conn) => {
-                if let Err(e) = init_db(&conn) {
-                    error!("FATAL: Failed to initialize Queue DB at {:?}: {}", db_path, e);
-                }
-                Some(conn)
-            }
-            Err(e) => {
-                error!("FATAL: Cannot open queue DB at {:?}: {}", db_path, e);
-                None
-            }
-        };
+        let conn = Connection::open(&db_path)
+            .map_err(|e| format!("Cannot open queue DB at {:?}: {}", db_path, e))?;
+        init_db(&conn)
+            .map_err(|e| format!("Failed to initialize Queue DB at {:?}: {}", db_path, e))?;
 
         let (tx, rx) = mpsc::unbounded_channel();
         
         let path_clone = db_path.clone();
         let handle = tokio::spawn(async move {
-            if let Some(conn) = conn {
-                run_writer(rx, conn, path_clone, flush_ms, batch_size).await;
-            }
+            run_writer(rx, conn, path_clone, flush_ms, batch_size).await;
         });
 
-        Self {
+        Ok(Self {
             sender: Mutex::new(Some(tx)),
             writer_handle: Mutex::new(Some(handle)),
             db_path,
-        }
+        })
     }
 
     /// Recover all messages from DB (Read-Only connection)
diff --git a/src/brokers/queue/manager.rs b/src/brokers/queue/manager.rs
index a9cbb87..e8a8a52 100644
--- a/src/brokers/queue/manager.rs
+++ b/src/brokers/queue/manager.rs
@@ -87,9 +87,13 @@ impl QueueManager {
                                     QueueConfig::from_options(QueueCreateOptions::default(), &system_config)
                                 };
 
-                                let shared = Self::build_queue(queue_name.clone(), config, &system_config);
-                                queues.insert(queue_name.clone(), shared);
-                                info!("[QueueManager] Warm start: Restored queue '{}'", queue_name);
+                                match Self::build_queue(queue_name.clone(), config, &system_config) {
+                                    Ok(shared) => {
+                                        queues.insert(queue_name.clone(), shared);
+                                        info!("[QueueManager] Warm start: Restored queue '{}'", queue_name);
+                                    }
+                                    Err(e) => error!("[QueueManager] Warm start: Failed to restore queue '{}': {}", queue_name, e),
+                                }
                             }
                         }
                     }
@@ -109,40 +113,34 @@ impl QueueManager {
         std::path::PathBuf::from(&config.persistence_path).join(format!("{}.{}", disk_name::encode(name), suffix))
     }
 
-    fn build_queue(name: String, config: QueueConfig, system_config: &SystemQueueConfig) -> Arc<QueueShared> {
+    fn build_queue(name: String, config: QueueConfig, system_config: &SystemQueueConfig) -> Result<Arc<QueueShared>, String> {
         let db_path = Self::file_path(system_config, &name, "db");
         let store = QueueStore::new(
             db_path,
             system_config.default_flush_ms,
             system_config.writer_batch_size,
-        );
+        )?;
 
         let mut main_state = QueueState::new();
         let mut dlq_state = DlqState::new();
 
         // Recovery
-        match store.recover() {
-            Ok((main_messages, dlq_messages)) => {
-                let main_count = main_messages.len();
-                let dlq_count = dlq_messages.len();
+        let (main_messages, dlq_messages) = store.recover()?;
+        let main_count = main_messages.len();
+        let dlq_count = dlq_messages.len();
 
-                for msg in main_messages {
-                    main_state.push(msg);
-                }
-                for msg in dlq_messages {
-                    dlq_state.push(msg);
-                }
+        for msg in main_messages {
+            main_state.push(msg);
+        }
+        for msg in dlq_messages {
+            dlq_state.push(msg);
+        }
 
-                if main_count > 0 || dlq_count > 0 {
-                    info!("Queue '{}': Recovered {} main + {} DLQ messages from storage", name, main_count, dlq_count);
-                }
-            }
-            Err(e) => {
-                error!("Queue '{}': Persistence recovery failed: {}", name, e);
-            }
+        if main_count > 0 || dlq_count > 0 {
+            info!("Queue '{}': Recovered {} main + {} DLQ messages from storage", name, main_count, dlq_count);
         }
 
-        Arc::new(QueueShared {
+        Ok(Arc::new(QueueShared {
             inner: Mutex::new(QueueInner {
                 name,
                 state: main_state,
@@ -151,7 +149,7 @@ impl QueueManager {
             }),
             notify: Notify::new(),
             store,
-        })
+        }))
     }
 
     fn spawn_timeout_task(&self) {
@@ -250,13 +248,25 @@ impl QueueManager {
 
                 // Persist config
                 let config_path = Self::file_path(&self.config, &name, "config.json");
-                if let Ok(data) = serde_json::to_string_pretty(&config) {
-                    let _ = std::fs::write(&config_path, data);
+                let existed_on_disk = Self::file_path(&self.config, &name, "db").exists();
+                let saved = serde_json::to_string_pretty(&config)
+                    .map_err(std::io::Error::from)
+                    .and_then(|data| std::fs::write(&config_path, data))
+                    .map_err(|e| e.to_string());
+
+                match saved.and_then(|()| Self::build_queue(name.clone(), config, &self.config)) {
+                    Ok(shared) => {
+                        v.insert(shared);
+                        Ok(())
+                    }
+                    Err(e) => {
+                        error!("Failed to create queue '{}': {}", name, e);
+                        if !existed_on_disk {
+                            self.remove_files(&name);
+                        }
+                        Err(format!("Failed to create queue: {}", e))
+                    }
                 }
-
-                let shared = Self::build_queue(name, config, &self.config);
-                v.insert(shared);
-                Ok(())
             }
         }
     }
@@ -277,10 +287,14 @@ impl QueueManager {
         }
 
         // Delete Persistence (safe: writer has flushed and closed)
-        let db_path = Self::file_path(&self.config, &name, "db");
-        let wal_path = Self::file_path(&self.config, &name, "db-wal");
-        let shm_path = Self::file_path(&self.config, &name, "db-shm");
-        let config_path = Self::file_path(&self.config, &name, "config.json");
+        self.remove_files(&name);
+    }
+
+    fn remove_files(&self, name: &str) {
+        let db_path = Self::file_path(&self.config, name, "db");
+        let wal_path = Self::file_path(&self.config, name, "db-wal");
+        let shm_path = Self::file_path(&self.config, name, "db-shm");
+        let config_path = Self::file_path(&self.config, name, "config.json");
 
         let _ = std::fs::remove_file(db_path);
         let _ = std::fs::remove_file(wal_path);
-- 
2.43.0


From 60f8ee7353bfa7eee6b6cc46c528eeb7a8205947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:04 +0000
Subject: [PATCH 39/50] fix: retained values that could not be written at once
 (disk full, I/O error) were not written until the next change

---
 src/brokers/pub-sub/manager.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/brokers/pub-sub/manager.rs b/src/brokers/pub-sub/manager.rs
index eee024c..d62f303 100644
--- a/src/brokers/pub-sub/manager.rs
+++ b/src/brokers/pub-sub/manager.rs
@@ -68,6 +68,7 @@ impl PubSubManager {
 
                     if let Err(e) = persistence::flush(&mut conn, &entries) {
                         tracing::error!("Failed to flush retained messages to SQLite: {}", e);
+                        flush_dirty.store(true, Ordering::Relaxed); // try again at the next tick
                     }
                 }
             }
-- 
2.43.0


From 3f0445ef47be086ebb701b0b574a052adba5af83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:10 +0000
Subject: [PATCH 40/50] fix: a failed write of stream messages (disk full, I/O
 error, no free descriptor) lost them, and made what was written behind them
 unreadable

---
 src/brokers/stream/domain/persistence.rs | 182 ++++++++++++++++-------
 1 file changed, 131 insertions(+), 51 deletions(-)

diff --git a/src/brokers/stream/domain/persistence.rs b/src/brokers/stream/domain/persistence.rs
index feb628c..435939a 100644
--- a/src/brokers/stream/domain/persistence.rs
+++ b/src/brokers/stream/domain/persistence.rs
@@ -101,6 +101,30 @@ pub struct TopicContext {
     persisted_seq: Arc<AtomicU64>,
     highest_pending_seq: u64,
     current_file_size: u64,
+    /// How much of the active file is known to be written
+    written_size: u64,
+    /// What was appended since, until it is known to be written too
+    unwritten: Vec<u8>,
+    /// A write failed: behind `written_size` the file may hold any part of `unwritten`
+    write_failed: bool,
+}
+
+impl TopicContext {
+    fn set_written(&mut self) {
+        self.written_size = self.current_file_size;
+        self.unwritten.clear();
+        self.write_failed = false;
+    }
+
+    /// Cut off what failed writes left behind and write all of it again.
+    async fn rewrite(&mut self) -> std::io::Result<()> {
+        let mut file = OpenOptions::new().create(true).append(true).open(&self.active_path).await?;
+        file.set_len(self.written_size).await?;
+        file.write_all(&self.unwritten).await?;
+        file.flush().await?;
+        self.set_written();
+        Ok(())
+    }
 }
 
 // ==========================================
@@ -115,6 +139,8 @@ pub struct StorageManager {
     flush_interval: Duration,
     max_segment_size: u64,
     dirty_topics: HashSet<String>,
+    /// Appends to topics whose files could not be looked at yet
+    postponed: HashMap<String, Vec<(Vec<MessageToAppend>, Arc<AtomicU64>)>>,
 }
 
 impl StorageManager {
@@ -133,6 +159,7 @@ impl StorageManager {
             flush_interval: Duration::from_millis(flush_interval_ms),
             max_segment_size,
             dirty_topics: HashSet::new(),
+            postponed: HashMap::new(),
         }
     }
 
@@ -171,9 +198,9 @@ impl StorageManager {
             }
             StorageCommand::ColdRead { topic_name, from_seq, limit, reply } => {
                 // Retention may have left only messages that are still buffered.
-                if let Some(ctx) = self.topics.get(&topic_name) {
-                    if let Some(writer) = self.open_files.get_mut(&ctx.active_path) {
-                        let _ = writer.flush().await;
+                if let Some(ctx) = self.topics.get_mut(&topic_name) {
+                    if Self::flush_writer(&mut self.open_files, &ctx.active_path).await.is_err() {
+                        ctx.write_failed = true;
                     }
                 }
                 let msgs = self.cold_read(&topic_name, from_seq, limit).await;
@@ -194,6 +221,7 @@ impl StorageManager {
                 if let Some(ctx) = self.topics.remove(&topic_name) {
                     self.open_files.pop(&ctx.active_path);
                 }
+                self.postponed.remove(&topic_name);
                 let topic_path = topic_dir(&self.base_path, &topic_name);
                 if topic_path.exists() {
                     // Moved out of the way first: a crash must not leave a topic with a part of its files.
@@ -220,28 +248,23 @@ impl StorageManager {
         let highest_seq = messages.last().unwrap().seq;
         let base_topic_path = topic_dir(&self.base_path, &topic_name);
 
+        if let Some(postponed) = self.postponed.get_mut(&topic_name) {
+            postponed.push((messages, persisted_seq));
+            return;
+        }
+
         if !self.topics.contains_key(&topic_name) {
-            if !base_topic_path.exists() {
-                if let Err(e) = tokio::fs::create_dir_all(&base_topic_path).await {
-                    error!("FATAL: Failed to create topic dir {:?}: {}", base_topic_path, e);
+            // A failure to look at the files there are says nothing about them: the append is tried again later.
+            match Self::open_topic(&base_topic_path, &persisted_seq).await {
+                Ok(ctx) => {
+                    self.topics.insert(topic_name.clone(), ctx);
+                }
+                Err(e) => {
+                    error!("StorageManager: Failed to open topic {:?}: {}", base_topic_path, e);
+                    self.postponed.entry(topic_name).or_default().push((messages, persisted_seq));
                     return;
                 }
             }
-            
-            let segments = find_segments(&base_topic_path).await.unwrap_or_default();
-            let (active_path, file_size) = if let Some(last) = segments.last() {
-                let size = tokio::fs::metadata(&last.path).await.map(|m| m.len()).unwrap_or(0);
-                (last.path.clone(), size)
-            } else {
-                (base_topic_path.join("1.log"), 0)
-            };
-
-            self.topics.insert(topic_name.clone(), TopicContext {
-                active_path,
-                persisted_seq: persisted_seq.clone(),
-                highest_pending_seq: 0,
-                current_file_size: file_size,
-            });
         } else {
             self.topics.get_mut(&topic_name).unwrap().persisted_seq = persisted_seq;
         }
@@ -252,40 +275,81 @@ impl StorageManager {
         }
         let bytes_len = buffer.len() as u64;
 
-        let path = {
-            let ctx = self.topics.get_mut(&topic_name).unwrap();
-            if ctx.current_file_size + bytes_len > self.max_segment_size && ctx.current_file_size > 0 {
-                if let Some(mut old_writer) = self.open_files.pop(&ctx.active_path) {
-                    let _ = old_writer.flush().await;
+        let ctx = self.topics.get_mut(&topic_name).unwrap();
+        if !ctx.write_failed && ctx.current_file_size + bytes_len > self.max_segment_size && ctx.current_file_size > 0 {
+            match Self::flush_writer(&mut self.open_files, &ctx.active_path).await {
+                Ok(()) => {
+                    self.open_files.pop(&ctx.active_path);
+                    let first_seq = messages.first().unwrap().seq;
+                    ctx.active_path = base_topic_path.join(format!("{}.log", first_seq));
+                    ctx.current_file_size = 0;
+                    ctx.set_written();
                 }
-                let first_seq = messages.first().unwrap().seq;
-                ctx.active_path = base_topic_path.join(format!("{}.log", first_seq));
-                ctx.current_file_size = 0;
+                Err(_) => ctx.write_failed = true,
             }
-            ctx.active_path.clone()
+        }
+        ctx.current_file_size += bytes_len;
+        ctx.highest_pending_seq = highest_seq;
+        ctx.unwritten.extend_from_slice(&buffer);
+        self.dirty_topics.insert(topic_name.clone());
+        if ctx.write_failed {
+            return; // flush_all writes it
+        }
+
+        let path = ctx.active_path.clone();
+        let written = match self.get_or_open_writer(&path).await {
+            Ok(writer) => writer.write_all(&buffer).await,
+            Err(e) => Err(e),
+        };
+        if let Err(e) = written {
+            error!("StorageManager: Failed to write to {:?}: {}", path, e);
+            self.open_files.pop(&path);
+            self.topics.get_mut(&topic_name).unwrap().write_failed = true;
+        }
+    }
+
+    async fn open_topic(base_topic_path: &Path, persisted_seq: &Arc<AtomicU64>) -> std::io::Result<TopicContext> {
+        tokio::fs::create_dir_all(base_topic_path).await?;
+        let segments = find_segments(base_topic_path).await?;
+        let (active_path, file_size) = if let Some(last) = segments.last() {
+            (last.path.clone(), tokio::fs::metadata(&last.path).await?.len())
+        } else {
+            (base_topic_path.join("1.log"), 0)
         };
+        Ok(TopicContext {
+            active_path,
+            persisted_seq: persisted_seq.clone(),
+            highest_pending_seq: 0,
+            current_file_size: file_size,
+            written_size: file_size,
+            unwritten: Vec::new(),
+            write_failed: false,
+        })
+    }
 
-        match self.get_or_open_writer(&path).await {
-            Ok(writer) => {
-                if let Err(e) = writer.write_all(&buffer).await {
-                    error!("StorageManager: Failed to write to {:?}: {}", path, e);
-                    self.open_files.pop(&path);
-                    return;
-                }
-                let ctx = self.topics.get_mut(&topic_name).unwrap();
-                ctx.current_file_size += bytes_len;
-                ctx.highest_pending_seq = highest_seq;
-                self.dirty_topics.insert(topic_name.clone());
-            }
-            Err(e) => error!("StorageManager: Failed to open file {:?}: {}", path, e),
+    /// Flush the open writer of a file, if any; one that fails is closed.
+    async fn flush_writer(open_files: &mut LruCache<PathBuf, BufWriter<File>>, path: &PathBuf) -> std::io::Result<()> {
+        let Some(writer) = open_files.get_mut(path) else {
+            return Ok(());
+        };
+        let flushed = writer.flush().await;
+        if let Err(e) = &flushed {
+            error!("StorageManager: Failed to write to {:?}: {}", path, e);
+            open_files.pop(path);
         }
+        flushed
     }
 
     async fn get_or_open_writer(&mut self, path: &PathBuf) -> Result<&mut BufWriter<File>, std::io::Error> {
         if !self.open_files.contains(path) {
             if self.open_files.len() == self.open_files.cap().get() {
-                if let Some((_, mut evicted_writer)) = self.open_files.pop_lru() {
-                    let _ = evicted_writer.flush().await;
+                if let Some((evicted_path, mut evicted_writer)) = self.open_files.pop_lru() {
+                    if let Err(e) = evicted_writer.flush().await {
+                        error!("StorageManager: Failed to write to {:?}: {}", evicted_path, e);
+                        for ctx in self.topics.values_mut().filter(|ctx| ctx.active_path == evicted_path) {
+                            ctx.write_failed = true;
+                        }
+                    }
                 }
             }
             let file = OpenOptions::new().create(true).append(true).open(path).await?;
@@ -295,19 +359,35 @@ impl StorageManager {
     }
 
     async fn flush_all(&mut self) {
-        for (_, writer) in self.open_files.iter_mut() {
-            let _ = writer.flush().await;
+        for (topic_name, appends) in std::mem::take(&mut self.postponed) {
+            for (messages, persisted_seq) in appends {
+                self.handle_append(topic_name.clone(), messages, persisted_seq).await;
+            }
         }
 
-        if !self.dirty_topics.is_empty() {
-            let topics_to_flush: Vec<String> = self.dirty_topics.drain().collect();
-            for name in topics_to_flush {
-                if let Some(ctx) = self.topics.get_mut(&name) {
+        let topics_to_flush: Vec<String> = self.dirty_topics.drain().collect();
+        for name in topics_to_flush {
+            let Some(ctx) = self.topics.get_mut(&name) else {
+                continue;
+            };
+            let flushed = if ctx.write_failed {
+                ctx.rewrite().await
+            } else {
+                Self::flush_writer(&mut self.open_files, &ctx.active_path).await
+            };
+            match flushed {
+                Ok(()) => {
+                    ctx.set_written();
                     if ctx.highest_pending_seq > 0 {
                         ctx.persisted_seq.store(ctx.highest_pending_seq, Ordering::Release);
                         ctx.highest_pending_seq = 0;
                     }
                 }
+                Err(e) => {
+                    error!("StorageManager: Failed to flush topic '{}', trying again later: {}", name, e);
+                    ctx.write_failed = true;
+                    self.dirty_topics.insert(name);
+                }
             }
         }
     }
-- 
2.43.0


From afc64e94609a614bd6ad9d674cfe9144bdcdc56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:21 +0000
Subject: [PATCH 41/50] fix: group positions that could not be saved at once
 (disk full, I/O error) were not saved until the next change

---
 src/brokers/stream/domain/persistence.rs | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/brokers/stream/domain/persistence.rs b/src/brokers/stream/domain/persistence.rs
index 435939a..ace484d 100644
--- a/src/brokers/stream/domain/persistence.rs
+++ b/src/brokers/stream/domain/persistence.rs
@@ -141,6 +141,8 @@ pub struct StorageManager {
     dirty_topics: HashSet<String>,
     /// Appends to topics whose files could not be looked at yet
     postponed: HashMap<String, Vec<(Vec<MessageToAppend>, Arc<AtomicU64>)>>,
+    /// Group positions that could not be saved yet
+    unsaved_groups: HashMap<String, HashMap<String, u64>>,
 }
 
 impl StorageManager {
@@ -160,6 +162,7 @@ impl StorageManager {
             max_segment_size,
             dirty_topics: HashSet::new(),
             postponed: HashMap::new(),
+            unsaved_groups: HashMap::new(),
         }
     }
 
@@ -207,10 +210,7 @@ impl StorageManager {
                 let _ = reply.send(msgs);
             }
             StorageCommand::SaveGroups { topic_name, groups_data } => {
-                let base_path = topic_dir(&self.base_path, &topic_name);
-                if let Err(e) = save_groups_file(&base_path, &groups_data).await {
-                    error!("Failed to save groups for {}: {}", topic_name, e);
-                }
+                self.save_groups(topic_name, groups_data).await;
             }
             StorageCommand::ApplyRetention { topic_name, retention, max_segment_size: _, reply } => {
                 let base_path = topic_dir(&self.base_path, &topic_name);
@@ -222,6 +222,7 @@ impl StorageManager {
                     self.open_files.pop(&ctx.active_path);
                 }
                 self.postponed.remove(&topic_name);
+                self.unsaved_groups.remove(&topic_name);
                 let topic_path = topic_dir(&self.base_path, &topic_name);
                 if topic_path.exists() {
                     // Moved out of the way first: a crash must not leave a topic with a part of its files.
@@ -358,7 +359,21 @@ impl StorageManager {
         Ok(self.open_files.get_mut(path).unwrap())
     }
 
+    async fn save_groups(&mut self, topic_name: String, groups_data: HashMap<String, u64>) {
+        let base_path = topic_dir(&self.base_path, &topic_name);
+        if let Err(e) = save_groups_file(&base_path, &groups_data).await {
+            error!("Failed to save groups for {}, trying again later: {}", topic_name, e);
+            self.unsaved_groups.insert(topic_name, groups_data);
+        } else {
+            self.unsaved_groups.remove(&topic_name);
+        }
+    }
+
     async fn flush_all(&mut self) {
+        for (topic_name, groups_data) in std::mem::take(&mut self.unsaved_groups) {
+            self.save_groups(topic_name, groups_data).await;
+        }
+
         for (topic_name, appends) in std::mem::take(&mut self.postponed) {
             for (messages, persisted_seq) in appends {
                 self.handle_append(topic_name.clone(), messages, persisted_seq).await;
-- 
2.43.0


From fb4b2f299e96c4c3e770812b75b1bc043b3de9a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:12 +0000
Subject: [PATCH 42/50] fix: reading a stream skipped segments that could not
 be opened or read, and retention took them for gone

---
 src/brokers/stream/domain/persistence.rs | 67 +++++++++++++++---------
 1 file changed, 42 insertions(+), 25 deletions(-)

diff --git a/src/brokers/stream/domain/persistence.rs b/src/brokers/stream/domain/persistence.rs
index ace484d..ae1adb5 100644
--- a/src/brokers/stream/domain/persistence.rs
+++ b/src/brokers/stream/domain/persistence.rs
@@ -214,8 +214,13 @@ impl StorageManager {
             }
             StorageCommand::ApplyRetention { topic_name, retention, max_segment_size: _, reply } => {
                 let base_path = topic_dir(&self.base_path, &topic_name);
-                let outcome = self.apply_retention(&topic_name, &base_path, &retention).await;
-                let _ = reply.send(outcome);
+                // Without an answer the head stays where it is.
+                match self.apply_retention(&topic_name, &base_path, &retention).await {
+                    Ok(outcome) => {
+                        let _ = reply.send(outcome);
+                    }
+                    Err(e) => error!("Failed to apply retention to {}: {}", topic_name, e),
+                }
             }
             StorageCommand::DropTopic { topic_name, reply } => {
                 if let Some(ctx) = self.topics.remove(&topic_name) {
@@ -409,8 +414,14 @@ impl StorageManager {
 
     async fn cold_read(&self, topic_name: &str, from_seq: u64, limit: usize) -> Vec<Message> {
         let base_path = topic_dir(&self.base_path, topic_name);
-        let segments = find_segments(&base_path).await.unwrap_or_default();
         let mut all_msgs = Vec::new();
+        let segments = match find_segments(&base_path).await {
+            Ok(segments) => segments,
+            Err(e) => {
+                error!("Failed to list segments of {}: {}", topic_name, e);
+                return all_msgs;
+            }
+        };
         let Some(first_segment) = segments.first() else {
             return all_msgs;
         };
@@ -421,28 +432,33 @@ impl StorageManager {
         if let Some(idx) = segments.iter().rposition(|s| s.start_seq <= current_from_seq) {
             for segment in segments.iter().skip(idx) {
                 if remaining_limit == 0 { break; }
-                let msgs = read_log_segment(&segment.path, current_from_seq, remaining_limit).await;
+                let (msgs, failure) = read_log_segment(&segment.path, current_from_seq, remaining_limit).await;
                 if !msgs.is_empty() {
                     current_from_seq = msgs.last().unwrap().seq + 1;
                     remaining_limit = remaining_limit.saturating_sub(msgs.len());
                     all_msgs.extend(msgs);
                 }
+                // Going on behind what could not be read would leave it out.
+                if let Some(e) = failure {
+                    error!("Failed to read {:?}: {}", segment.path, e);
+                    break;
+                }
             }
         }
         all_msgs
     }
 
-    async fn apply_retention(&mut self, _topic_name: &str, base_path: &PathBuf, retention: &RetentionOptions) -> RetentionOutcome {
+    async fn apply_retention(&mut self, _topic_name: &str, base_path: &PathBuf, retention: &RetentionOptions) -> std::io::Result<RetentionOutcome> {
         if retention.max_age_ms.is_none() && retention.max_bytes.is_none() {
-            return RetentionOutcome {
-                head_seq: find_segments(base_path).await.unwrap_or_default().first().map(|s| s.start_seq).unwrap_or(1),
-            };
+            return Ok(RetentionOutcome {
+                head_seq: find_segments(base_path).await?.first().map(|s| s.start_seq).unwrap_or(1),
+            });
         }
-        let mut segments = find_segments(base_path).await.unwrap_or_default();
+        let mut segments = find_segments(base_path).await?;
         if segments.len() <= 1 {
-            return RetentionOutcome {
+            return Ok(RetentionOutcome {
                 head_seq: segments.first().map(|s| s.start_seq).unwrap_or(1),
-            };
+            });
         }
 
         if let Some(max_age) = retention.max_age_ms {
@@ -483,8 +499,8 @@ impl StorageManager {
             }
         }
 
-        let head_seq = find_segments(base_path).await.unwrap_or_default().first().map(|s| s.start_seq).unwrap_or(1);
-        RetentionOutcome { head_seq }
+        let head_seq = find_segments(base_path).await?.first().map(|s| s.start_seq).unwrap_or(1);
+        Ok(RetentionOutcome { head_seq })
     }
 }
 
@@ -509,27 +525,29 @@ pub fn serialize_message(buf: &mut Vec<u8>, seq: u64, timestamp: u64, payload: &
     buf.put_slice(payload);
 }
 
-/// Read messages from a log segment file starting at a given seq.
-pub async fn read_log_segment(path: &PathBuf, start_seq: u64, limit: usize) -> Vec<Message> {
-    use bytes::Buf;
+/// Read messages from a log segment file starting at a given seq, and what kept it from reading on (other than the end).
+pub async fn read_log_segment(path: &PathBuf, start_seq: u64, limit: usize) -> (Vec<Message>, Option<std::io::Error>) {
     let mut msgs = Vec::new();
-    let file = match File::open(path).await {
-        Ok(f) => f,
-        Err(_) => return msgs,
-    };
+    let result = read_log_records(path, start_seq, limit, &mut msgs).await;
+    (msgs, result.err().filter(|e| e.kind() != std::io::ErrorKind::UnexpectedEof))
+}
+
+async fn read_log_records(path: &PathBuf, start_seq: u64, limit: usize, msgs: &mut Vec<Message>) -> std::io::Result<()> {
+    use bytes::Buf;
+    let file = File::open(path).await?;
     let mut reader = BufReader::new(file);
 
     loop {
         let mut len_buf = [0u8; 4];
-        if reader.read_exact(&mut len_buf).await.is_err() { break; }
+        reader.read_exact(&mut len_buf).await?;
         let len = u32::from_be_bytes(len_buf);
 
         let mut crc_buf = [0u8; 4];
-        if reader.read_exact(&mut crc_buf).await.is_err() { break; }
+        reader.read_exact(&mut crc_buf).await?;
         let stored_crc = u32::from_be_bytes(crc_buf);
 
         let mut content_buf = vec![0u8; len as usize];
-        if reader.read_exact(&mut content_buf).await.is_err() { break; }
+        reader.read_exact(&mut content_buf).await?;
 
         let mut hasher = Hasher::new();
         hasher.update(&content_buf);
@@ -545,10 +563,9 @@ pub async fn read_log_segment(path: &PathBuf, start_seq: u64, limit: usize) -> V
 
         if seq >= start_seq {
             msgs.push(Message { seq, timestamp, payload });
-            if msgs.len() >= limit { break; }
+            if msgs.len() >= limit { return Ok(()); }
         }
     }
-    msgs
 }
 
 /// Directory of the empty topic name (never produced by `disk_name::encode`).
-- 
2.43.0


From 657fe0a9bb292b7b915f96e06711854a10f540a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:44 +0000
Subject: [PATCH 43/50] fix: deleting a queue or stream was confirmed although
 its files could not be removed, and it came back after a restart

---
 src/brokers/queue/manager.rs             | 24 +++++++++++++++---------
 src/brokers/stream/domain/persistence.rs | 14 +++++++-------
 src/brokers/stream/manager.rs            | 10 +++++++---
 3 files changed, 29 insertions(+), 19 deletions(-)

diff --git a/src/brokers/queue/manager.rs b/src/brokers/queue/manager.rs
index e8a8a52..9b0982d 100644
--- a/src/brokers/queue/manager.rs
+++ b/src/brokers/queue/manager.rs
@@ -262,7 +262,7 @@ impl QueueManager {
                     Err(e) => {
                         error!("Failed to create queue '{}': {}", name, e);
                         if !existed_on_disk {
-                            self.remove_files(&name);
+                            let _ = self.remove_files(&name);
                         }
                         Err(format!("Failed to create queue: {}", e))
                     }
@@ -276,10 +276,10 @@ impl QueueManager {
         let manager = self.clone();
         tokio::spawn(async move { manager.delete_queue_files(name).await })
             .await
-            .map_err(|e| format!("Deletion failed: {}", e))
+            .map_err(|e| format!("Deletion failed: {}", e))?
     }
 
-    async fn delete_queue_files(&self, name: String) {
+    async fn delete_queue_files(&self, name: String) -> Result<(), String> {
         // Until the files are gone, a queue created under the same name would lose its own to this deletion.
         let _lifecycle = self.lifecycle.lock().await;
         if let Some((_, shared)) = self.queues.remove(&name) {
@@ -287,19 +287,25 @@ impl QueueManager {
         }
 
         // Delete Persistence (safe: writer has flushed and closed)
-        self.remove_files(&name);
+        self.remove_files(&name).map_err(|e| {
+            error!("Failed to remove the files of queue '{}': {}", name, e);
+            format!("Failed to delete queue: {}", e)
+        })
     }
 
-    fn remove_files(&self, name: &str) {
+    fn remove_files(&self, name: &str) -> std::io::Result<()> {
         let db_path = Self::file_path(&self.config, name, "db");
         let wal_path = Self::file_path(&self.config, name, "db-wal");
         let shm_path = Self::file_path(&self.config, name, "db-shm");
         let config_path = Self::file_path(&self.config, name, "config.json");
 
-        let _ = std::fs::remove_file(db_path);
-        let _ = std::fs::remove_file(wal_path);
-        let _ = std::fs::remove_file(shm_path);
-        let _ = std::fs::remove_file(config_path);
+        for path in [db_path, wal_path, shm_path, config_path] {
+            match std::fs::remove_file(&path) {
+                Err(e) if path.exists() => return Err(e),
+                _ => {}
+            }
+        }
+        Ok(())
     }
 
     pub async fn push(&self, queue_name: String, payload: Bytes, priority: u8) -> Result<(), String> {
diff --git a/src/brokers/stream/domain/persistence.rs b/src/brokers/stream/domain/persistence.rs
index ae1adb5..99b76ce 100644
--- a/src/brokers/stream/domain/persistence.rs
+++ b/src/brokers/stream/domain/persistence.rs
@@ -92,7 +92,7 @@ pub enum StorageCommand {
 
     DropTopic {
         topic_name: String,
-        reply: oneshot::Sender<()>,
+        reply: oneshot::Sender<std::io::Result<()>>,
     }
 }
 
@@ -229,16 +229,16 @@ impl StorageManager {
                 self.postponed.remove(&topic_name);
                 self.unsaved_groups.remove(&topic_name);
                 let topic_path = topic_dir(&self.base_path, &topic_name);
+                let mut removed = Ok(());
                 if topic_path.exists() {
                     // Moved out of the way first: a crash must not leave a topic with a part of its files.
                     let unfinished = unfinished_dir(&self.base_path);
-                    let removed_path = match std::fs::rename(&topic_path, &unfinished) {
-                        Ok(()) => unfinished,
-                        Err(_) => topic_path,
-                    };
-                    let _ = std::fs::remove_dir_all(&removed_path);
+                    removed = std::fs::rename(&topic_path, &unfinished);
+                    if removed.is_ok() {
+                        let _ = std::fs::remove_dir_all(&unfinished);
+                    }
                 }
-                let _ = reply.send(());
+                let _ = reply.send(removed);
             }
         }
     }
diff --git a/src/brokers/stream/manager.rs b/src/brokers/stream/manager.rs
index 094a623..ce4ed94 100644
--- a/src/brokers/stream/manager.rs
+++ b/src/brokers/stream/manager.rs
@@ -171,10 +171,10 @@ impl StreamManager {
         let manager = self.clone();
         tokio::spawn(async move { manager.delete_topic_files(name).await })
             .await
-            .map_err(|e| format!("Deletion failed: {}", e))
+            .map_err(|e| format!("Deletion failed: {}", e))?
     }
 
-    async fn delete_topic_files(&self, name: String) {
+    async fn delete_topic_files(&self, name: String) -> Result<(), String> {
         let _lifecycle = self.lifecycle.lock().await;
         self.deleted_topics.insert(name.clone(), ());
 
@@ -190,8 +190,12 @@ impl StreamManager {
                 topic_name: name,
                 reply: del_tx,
             });
-            let _ = del_rx.await;
+            if let Ok(Err(e)) = del_rx.await {
+                tracing::error!("Failed to remove {:?}: {}", topic_path, e);
+                return Err(format!("Failed to delete topic: {}", e));
+            }
         }
+        Ok(())
     }
 
     pub async fn publish(&self, topic: &str, payload: Bytes) -> Result<u64, String> {
-- 
2.43.0


From 209b6d31ddb01b4fb488384e66ec0398d2cb3d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:44 +0000
Subject: [PATCH 44/50] fix: retention went on behind a segment it could not
 remove, leaving a hole in the stream

---
 src/brokers/stream/domain/persistence.rs | 43 ++++++++++++++----------
 1 file changed, 25 insertions(+), 18 deletions(-)

diff --git a/src/brokers/stream/domain/persistence.rs b/src/brokers/stream/domain/persistence.rs
index 99b76ce..4a70baf 100644
--- a/src/brokers/stream/domain/persistence.rs
+++ b/src/brokers/stream/domain/persistence.rs
@@ -463,24 +463,19 @@ impl StorageManager {
 
         if let Some(max_age) = retention.max_age_ms {
             let limit = std::time::SystemTime::now() - Duration::from_millis(max_age);
-            let mut survivors = Vec::new();
-            let last_start_seq = segments.last().map(|seg| seg.start_seq);
-            for seg in segments {
-                let mut deleted = false;
-                if Some(seg.start_seq) != last_start_seq {
-                    if let Ok(metadata) = tokio::fs::metadata(&seg.path).await {
-                        if let Ok(modified) = metadata.modified() {
-                            if modified < limit {
-                                self.open_files.pop(&seg.path);
-                                let _ = tokio::fs::remove_file(&seg.path).await;
-                                deleted = true;
-                            }
-                        }
-                    }
+            let mut removed = 0;
+            // Only from the oldest on: going on behind a segment that stays would leave a hole.
+            for seg in &segments[..segments.len() - 1] {
+                let expired = match tokio::fs::metadata(&seg.path).await.and_then(|m| m.modified()) {
+                    Ok(modified) => modified < limit,
+                    Err(_) => false,
+                };
+                if !expired || !self.remove_segment(seg).await {
+                    break;
                 }
-                if !deleted { survivors.push(seg); }
+                removed += 1;
             }
-            segments = survivors;
+            segments.drain(..removed);
         }
 
         if let Some(max_bytes) = retention.max_bytes {
@@ -492,8 +487,9 @@ impl StorageManager {
             while current_total > max_bytes && i < segments.len().saturating_sub(1) {
                 let seg = &segments[i];
                 let size = tokio::fs::metadata(&seg.path).await.map(|m| m.len()).unwrap_or(0);
-                self.open_files.pop(&seg.path);
-                let _ = tokio::fs::remove_file(&seg.path).await;
+                if !self.remove_segment(seg).await {
+                    break;
+                }
                 current_total = current_total.saturating_sub(size);
                 i += 1;
             }
@@ -502,6 +498,17 @@ impl StorageManager {
         let head_seq = find_segments(base_path).await?.first().map(|s| s.start_seq).unwrap_or(1);
         Ok(RetentionOutcome { head_seq })
     }
+
+    async fn remove_segment(&mut self, seg: &Segment) -> bool {
+        self.open_files.pop(&seg.path);
+        match tokio::fs::remove_file(&seg.path).await {
+            Err(e) if seg.path.exists() => {
+                error!("Failed to remove {:?}: {}", seg.path, e);
+                false
+            }
+            _ => true,
+        }
+    }
 }
 
 // ==========================================
-- 
2.43.0


From 55f734f2be644bba2814734f37fdd608a0a6113b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:48 +0000
Subject: [PATCH 45/50] fix: unsubscribing a pattern takes away others of the
 client that differ behind a '#'

'a/#' and 'a/#/b' share their place in the subscription tree; removing either removed both.
---
 src/brokers/pub-sub/manager.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/brokers/pub-sub/manager.rs b/src/brokers/pub-sub/manager.rs
index d62f303..c1d97b6 100644
--- a/src/brokers/pub-sub/manager.rs
+++ b/src/brokers/pub-sub/manager.rs
@@ -21,6 +21,12 @@ pub struct PubSubManager {
     config: Arc<PubSubConfig>,
 }
 
+/// The levels of a pattern that matter: a '#' matches everything from its place on, whatever follows it.
+fn tree_path(pattern: &str) -> impl Iterator<Item = &str> {
+    let mut ended = false;
+    pattern.split('/').take_while(move |level| !std::mem::replace(&mut ended, *level == "#"))
+}
+
 impl PubSubManager {
     pub fn new(config: Arc<PubSubConfig>) -> Self {
         let tree = Arc::new(RwLock::new(Node::new()));
@@ -145,6 +151,10 @@ impl PubSubManager {
         let mut info = self.clients.get_mut(client_id);
         if let Some(info) = info.as_mut() {
             info.subscriptions.remove(pattern);
+            // Patterns that differ only behind a '#' share their place in the tree
+            if info.subscriptions.iter().any(|other| tree_path(other).eq(tree_path(pattern))) {
+                return;
+            }
         }
         let parts: Vec<String> = pattern.split('/').map(|s| s.to_string()).collect();
         let mut root = self.tree.write();
-- 
2.43.0


From f7753b6fc5597b94f54b6aa9837fddab2aea89ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:27 +0000
Subject: [PATCH 46/50] fix: SDK stream subscription stopped while rejoining
 stays a member and keeps messages

stop() found no consumer id to leave with; the join under way then made it a member, which fetched a
batch, dropped it and never left.
---
 sdk/ts/src/brokers/stream.ts | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/sdk/ts/src/brokers/stream.ts b/sdk/ts/src/brokers/stream.ts
index 7e22403..832bb10 100644
--- a/sdk/ts/src/brokers/stream.ts
+++ b/sdk/ts/src/brokers/stream.ts
@@ -77,17 +77,23 @@ class StreamSubscription<T> {
 
   async stop(): Promise<void> {
     this.active = false;
-    if (this.consumerId !== null) {
-      try {
-        await this.conn.send(StreamOpcode.S_LEAVE, w => w
-          .string(this.streamName)
-          .string(this.group)
-          .string(this.consumerId!)
-          .u64(this.generation)
-        );
-      } catch { /* connection may already be closed */ }
-    }
+    const left = this.consumerId;
+    await this.leave();
     await this.loopDone;
+    // A rejoin that was under way has made it a member again
+    if (this.consumerId !== left) await this.leave();
+  }
+
+  private async leave(): Promise<void> {
+    if (this.consumerId === null) return;
+    try {
+      await this.conn.send(StreamOpcode.S_LEAVE, w => w
+        .string(this.streamName)
+        .string(this.group)
+        .string(this.consumerId!)
+        .u64(this.generation)
+      );
+    } catch { /* connection may already be closed */ }
   }
 
   private async join(): Promise<void> {
@@ -105,7 +111,7 @@ class StreamSubscription<T> {
     while (this.active) {
       try {
         if (this.consumerId === null) await this.join();
-        await this.pollOnce();
+        if (this.active) await this.pollOnce();
       } catch (e: any) {
         if (!this.active) break;
         this.consumerId = null;
-- 
2.43.0


From 71e6ac737adb425658b27ec2684e9cc9f3204112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:27 +0000
Subject: [PATCH 47/50] fix: SDK unsubscribe() called twice removes a later
 subscription

The answer to the second request deleted the handler of a subscribe() made after the first.
---
 sdk/ts/src/brokers/pubsub.ts | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/sdk/ts/src/brokers/pubsub.ts b/sdk/ts/src/brokers/pubsub.ts
index 5155207..86a3c9a 100644
--- a/sdk/ts/src/brokers/pubsub.ts
+++ b/sdk/ts/src/brokers/pubsub.ts
@@ -38,6 +38,7 @@ type Handler = (data: any) => void;
 export class NexoPubSub {
   private exact = new Map<string, Handler>();
   private wild = new Map<string, { parts: string[], cb: Handler }>();
+  private leaving = new Map<string, Promise<void>>();
 
   constructor(private conn: NexoConnection, private logger: Logger) {
     conn.onPush = (topic, data) => this.dispatch(topic, data);
@@ -85,9 +86,23 @@ export class NexoPubSub {
   async unsubscribe(topic: string): Promise<void> {
     if (!this.exact.has(topic) && !this.wild.has(topic)) return;
 
-    await PubSubCommands.unsubscribe(this.conn, topic);
-    this.exact.delete(topic);
-    this.wild.delete(topic);
+    // One at a time: the answer to a second request could come after, and undo, a new subscribe()
+    let done = this.leaving.get(topic);
+    if (!done) {
+      done = this.leave(topic);
+      this.leaving.set(topic, done);
+    }
+    return done;
+  }
+
+  private async leave(topic: string): Promise<void> {
+    try {
+      await PubSubCommands.unsubscribe(this.conn, topic);
+      this.exact.delete(topic);
+      this.wild.delete(topic);
+    } finally {
+      this.leaving.delete(topic);
+    }
   }
 
   private dispatch(topic: string, data: any) {
-- 
2.43.0


From f364d926f485408b8202a30480ba192a02a6cf2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:03 +0000
Subject: [PATCH 48/50] fix: a cleared or expired retained value leaves its
 topic in the routing tree for ever

---
 src/brokers/pub-sub/domain/radix_tree.rs | 26 +++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/brokers/pub-sub/domain/radix_tree.rs b/src/brokers/pub-sub/domain/radix_tree.rs
index f6f7910..c11fe8b 100644
--- a/src/brokers/pub-sub/domain/radix_tree.rs
+++ b/src/brokers/pub-sub/domain/radix_tree.rs
@@ -142,11 +142,30 @@ impl Node {
     }
 
     pub(crate) fn set_retained(&mut self, parts: &[String], retained: Option<RetainedMessage>) {
+        let Some(retained) = retained else {
+            self.clear_retained(parts);
+            return;
+        };
         let mut current = self;
         for part in parts {
             current = current.children.entry(part.clone()).or_insert_with(Node::new);
         }
-        current.retained = retained;
+        current.retained = Some(retained);
+    }
+
+    /// Nodes that hold nothing any more are removed with the value.
+    fn clear_retained(&mut self, parts: &[String]) {
+        match parts.split_first() {
+            None => self.retained = None,
+            Some((head, tail)) => {
+                if let Some(child) = self.children.get_mut(head) {
+                    child.clear_retained(tail);
+                    if child.is_empty() {
+                        self.children.remove(head);
+                    }
+                }
+            }
+        }
     }
 
     pub(crate) fn collect_retained_for_pattern(&self, pattern: &[String], current_path: Option<&str>, results: &mut Vec<(String, Bytes)>) {
@@ -211,11 +230,12 @@ impl Node {
             }
         }
         
-        for child in self.children.values_mut() {
+        self.children.retain(|_, child| {
             if child.cleanup_expired_retained() {
                 cleaned = true;
             }
-        }
+            !child.is_empty()
+        });
         
         if let Some(ref mut plus_child) = self.plus_child {
             if plus_child.cleanup_expired_retained() {
-- 
2.43.0


From e6ae488724dea45e4c83abd778360cfe2419633a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:25 +0000
Subject: [PATCH 49/50] fix: every name ever passed to a stream deletion is
 kept in memory for ever

---
 src/brokers/stream/manager.rs | 9 ---------
 1 file changed, 9 deletions(-)

diff --git a/src/brokers/stream/manager.rs b/src/brokers/stream/manager.rs
index ce4ed94..0f9d03c 100644
--- a/src/brokers/stream/manager.rs
+++ b/src/brokers/stream/manager.rs
@@ -73,7 +73,6 @@ pub struct JoinGroupResult {
 #[derive(Clone)]
 pub struct StreamManager {
     topics: Arc<DashMap<String, Arc<TopicShared>>>,
-    deleted_topics: Arc<DashMap<String, ()>>,
     storage_tx: mpsc::UnboundedSender<StorageCommand>,
     config: Arc<SystemStreamConfig>,
     cancel: CancellationToken,
@@ -84,7 +83,6 @@ pub struct StreamManager {
 impl StreamManager {
     pub async fn new(config: Arc<SystemStreamConfig>) -> Self {
         let topics = Arc::new(DashMap::new());
-        let deleted_topics = Arc::new(DashMap::new());
         let (storage_tx, storage_rx) = mpsc::unbounded_channel();
 
         let storage_manager = StorageManager::new(
@@ -98,7 +96,6 @@ impl StreamManager {
 
         let manager = Self {
             topics,
-            deleted_topics,
             storage_tx,
             config,
             cancel: CancellationToken::new(),
@@ -125,7 +122,6 @@ impl StreamManager {
 
     async fn create_topic_files(&self, name: String, options: StreamCreateOptions) -> Result<(), String> {
         let _lifecycle = self.lifecycle.lock().await;
-        self.deleted_topics.remove(&name);
 
         if self.topics.contains_key(&name) {
             return Ok(());
@@ -176,7 +172,6 @@ impl StreamManager {
 
     async fn delete_topic_files(&self, name: String) -> Result<(), String> {
         let _lifecycle = self.lifecycle.lock().await;
-        self.deleted_topics.insert(name.clone(), ());
 
         let topic_path = topic_dir(Path::new(&self.config.persistence_path), &name);
         let removed = self.topics.remove(&name);
@@ -535,10 +530,6 @@ impl StreamManager {
             }
 
             let name = topic_name_of_dir(topic_name);
-            if self.deleted_topics.contains_key(&name) {
-                continue;
-            }
-
             let topic_config = Self::load_topic_config(&path, StreamCreateOptions::default(), &self.config).await;
             let topic_ref = Self::build_topic_shared(name.clone(), topic_config).await;
 
-- 
2.43.0


From f4e48d3e277719b1244bfbeec9e4e5f5e34eb0c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:26 +0000
Subject: [PATCH 50/50] fix: members dropped by a seek stay bound to their
 client in memory as long as it is connected

---
 src/brokers/stream/manager.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/brokers/stream/manager.rs b/src/brokers/stream/manager.rs
index 0f9d03c..c30ba10 100644
--- a/src/brokers/stream/manager.rs
+++ b/src/brokers/stream/manager.rs
@@ -336,6 +336,11 @@ impl StreamManager {
                 SeekTarget::Beginning => group_ref.seek_beginning(head_seq),
                 SeekTarget::End => group_ref.seek_end(last_seq),
             }
+            // The group's members are gone, and with them what ties them to their clients
+            inner.client_map.retain(|_, bindings| {
+                bindings.retain(|binding| binding.group_id != group);
+                !bindings.is_empty()
+            });
             inner.groups_dirty = true;
         }
         topic_ref.notify.notify_waiters();
-- 
2.43.0

