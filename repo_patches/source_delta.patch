From 1aff1afd2d7ea7e94191312f62fb9fd3ba6dc5f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:10 +0000
Subject: [PATCH 01/24] fix: report errors at the innermost block that contains
 the failing instruction

The location table was keyed by block end only, so an error in the header
of a compound block was attributed to its first nested block, and the last
nested block was overwritten by its parent.
---
 src/bytecode.rs | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/src/bytecode.rs b/src/bytecode.rs
index 6a24123..d6dad39 100644
--- a/src/bytecode.rs
+++ b/src/bytecode.rs
@@ -1440,9 +1440,28 @@ struct ByteCodeBuilder<'a: 'b, 'b> {
     call_holes: Vec<(usize, &'a ast::FnRef, Option<&'a ast::Entity>)>, // (hole pos, function, entity)
     closure_holes: VecDeque<(usize, &'a [ast::VariableDef], &'a [ast::VariableRef], &'a [ast::Stmt], Option<&'a ast::Entity>)>, // (hole pos, params, captures, stmts, entity)
     ins_locations: BTreeMap<usize, &'a str>,
+    cur_block: Option<(usize, &'a str)>, // (start pos, location) of the innermost block with a location that is currently being appended
     string_arena: &'b typed_arena::Arena<CompactString>,
 }
 impl<'a: 'b, 'b> ByteCodeBuilder<'a, 'b> {
+    fn begin_block(&mut self, location: Option<&'a str>) -> Option<(usize, &'a str)> {
+        let outer = self.cur_block;
+        if let Some(location) = location {
+            let pos = self.ins.len();
+            if let Some((outer_start, outer_location)) = outer {
+                // anything the outer block appended before this block still belongs to the outer block
+                if outer_start < pos { self.ins_locations.entry(pos).or_insert(outer_location); }
+            }
+            self.cur_block = Some((pos, location));
+        }
+        outer
+    }
+    fn end_block(&mut self, location: Option<&'a str>, outer: Option<(usize, &'a str)>) {
+        if let Some(location) = location {
+            self.ins_locations.entry(self.ins.len()).or_insert(location);
+        }
+        self.cur_block = outer;
+    }
     fn append_simple_ins(&mut self, entity: Option<&'a ast::Entity>, values: &[&'a ast::Expr], op: Instruction<'a>) -> Result<(), CompileError<'a>> {
         for value in values {
             self.append_expr(value, entity)?;
@@ -1497,6 +1516,8 @@ impl<'a: 'b, 'b> ByteCodeBuilder<'a, 'b> {
         Ok(())
     }
     fn append_expr(&mut self, expr: &'a ast::Expr, entity: Option<&'a ast::Entity>) -> Result<(), CompileError<'a>> {
+        let outer_block = self.begin_block(expr.info.location.as_deref());
+
         match &expr.kind {
             ast::ExprKind::Value(v) => self.append_value(v, entity)?,
             ast::ExprKind::Variable { var } => self.ins.push(Instruction::PushVariable { var: &var.trans_name }.into()),
@@ -1862,13 +1883,13 @@ impl<'a: 'b, 'b> ByteCodeBuilder<'a, 'b> {
             kind => return Err(CompileError::UnsupportedExpr { kind }),
         }
 
-        if let Some(location) = expr.info.location.as_deref() {
-            self.ins_locations.insert(self.ins.len(), location);
-        }
+        self.end_block(expr.info.location.as_deref(), outer_block);
 
         Ok(())
     }
     fn append_stmt(&mut self, stmt: &'a ast::Stmt, entity: Option<&'a ast::Entity>) -> Result<(), CompileError<'a>> {
+        let outer_block = self.begin_block(stmt.info.location.as_deref());
+
         match &stmt.kind {
             ast::StmtKind::Assign { var, value } => self.append_simple_ins(entity, &[value], Instruction::Assign { var: &var.trans_name })?,
             ast::StmtKind::AddAssign { var, value } => self.append_simple_ins(entity, &[value], Instruction::BinaryOpAssign { var: &var.trans_name, op: BinaryOp::Add })?,
@@ -2248,9 +2269,7 @@ impl<'a: 'b, 'b> ByteCodeBuilder<'a, 'b> {
             kind => return Err(CompileError::UnsupportedStmt { kind }),
         }
 
-        if let Some(location) = stmt.info.location.as_deref() {
-            self.ins_locations.insert(self.ins.len(), location);
-        }
+        self.end_block(stmt.info.location.as_deref(), outer_block);
 
         Ok(())
     }
@@ -2465,6 +2484,7 @@ impl ByteCode {
             call_holes: Default::default(),
             closure_holes: Default::default(),
             ins_locations: Default::default(),
+            cur_block: None,
             string_arena: &string_arena,
         };
 
-- 
2.43.0


From bfa7ba2c82d404af8706b13ab02bcf76b7bfef1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:01 +0000
Subject: [PATCH 02/24] fix: broadcasting to oneself and another later receiver
 no longer panics

Stopping the first receiver could remove the broadcasting process, which was
then looked up again (and unwrapped) for the next receiver.
---
 src/project.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/project.rs b/src/project.rs
index 1033ce7..603a011 100644
--- a/src/project.rs
+++ b/src/project.rs
@@ -360,23 +360,26 @@ impl<'gc, C: CustomTypes<S>, S: System<C>> Project<'gc, C, S> {
                     ProjectStep::Normal
                 }
                 ProcessStep::Broadcast { msg_type, barrier, targets } => {
-                    for i in 0..self.scripts.len() {
-                        if let Event::LocalMessage { msg_type: recv_type } = &self.scripts[i].event.0 {
+                    // construct all the new states up front because stopping a receiver could stop the broadcasting process itself
+                    let mut receivers = vec![];
+                    for (i, script) in self.scripts.iter().enumerate() {
+                        if let Event::LocalMessage { msg_type: recv_type } = &script.event.0 {
                             if recv_type.as_deref().map(|x| x == msg_type).unwrap_or(true) {
                                 if let Some(targets) = &targets {
-                                    if !targets.iter().any(|&target| Gc::ptr_eq(self.scripts[i].entity, target)) {
+                                    if !targets.iter().any(|&target| Gc::ptr_eq(script.entity, target)) {
                                         continue
                                     }
                                 }
 
-                                let state = C::ProcessState::from(ProcessKind { entity: self.scripts[i].entity, dispatcher: Some(self.state.processes.get(proc_key).unwrap()) });
-
-                                all_contexts_consumer.do_once(self); // need to consume all contexts before scheduling things in the future
-                                self.scripts[i].stop_all(&mut self.state);
-                                self.scripts[i].schedule(&mut self.state, PartialProcContext { state, locals: Default::default(), barrier: barrier.clone(), reply_key: None, local_message: Some(msg_type.clone()) }, 0);
+                                receivers.push((i, C::ProcessState::from(ProcessKind { entity: script.entity, dispatcher: Some(&*proc) })));
                             }
                         }
                     }
+                    for (i, state) in receivers {
+                        all_contexts_consumer.do_once(self); // need to consume all contexts before scheduling things in the future
+                        self.scripts[i].stop_all(&mut self.state);
+                        self.scripts[i].schedule(&mut self.state, PartialProcContext { state, locals: Default::default(), barrier: barrier.clone(), reply_key: None, local_message: Some(msg_type.clone()) }, 0);
+                    }
                     self.state.process_queue.push_front(proc_key); // keep executing same process, if it was a wait, it'll yield next step
                     ProjectStep::Normal
                 }
-- 
2.43.0


From c7956fcd560f74e68594c1eb6d348fed9126b8d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:16 +0000
Subject: [PATCH 03/24] fix: run the queued contexts of a script whose process
 was stopped

Stopping the current script (or ending in the same step in which a message
arrived) left its queued messages and events waiting for some unrelated
script to yield, and the project could report Idle with work pending.
---
 src/project.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/project.rs b/src/project.rs
index 603a011..21770a1 100644
--- a/src/project.rs
+++ b/src/project.rs
@@ -288,9 +288,14 @@ impl<'gc, C: CustomTypes<S>, S: System<C>> Project<'gc, C, S> {
             }
         }
 
+        let mut all_contexts_consumer = AllContextsConsumer::new(); // anything consumed for the message above was before this step's execution
+
         let (proc_key, proc) = loop {
             match self.state.process_queue.pop_front() {
                 None => {
+                    all_contexts_consumer.do_once(self); // processes could have been stopped while their scripts still had contexts to run
+                    if !self.state.process_queue.is_empty() { continue }
+
                     debug_assert!(self.scripts.iter().all(|x| x.context_queue.is_empty()));
                     return ProjectStep::Idle;
                 }
@@ -356,6 +361,9 @@ impl<'gc, C: CustomTypes<S>, S: System<C>> Project<'gc, C, S> {
                     debug_assert!(clone.borrow().original.is_some());
                     self.scripts.retain_mut(|script| !Gc::ptr_eq(script.entity, clone));
                     self.state.processes.retain_mut(|_, proc| !Gc::ptr_eq(proc.get_call_stack().first().unwrap().entity, clone));
+                    if self.state.processes.get(proc_key).is_none() {
+                        all_contexts_consumer.do_once(self); // need to consume all contexts after dropping a process
+                    }
                     self.state.process_queue.push_front(proc_key); // keep executing the same process as before
                     ProjectStep::Normal
                 }
@@ -392,6 +400,7 @@ impl<'gc, C: CustomTypes<S>, S: System<C>> Project<'gc, C, S> {
                     AbortMode::Current => {
                         debug_assert!(!proc.is_running());
                         self.state.processes.remove(proc_key);
+                        all_contexts_consumer.do_once(self); // need to consume all contexts after dropping a process
                         ProjectStep::Normal
                     }
                     AbortMode::All => {
-- 
2.43.0


From 168d2489e9f22170d7e61cfae7d9c353f07807ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:16 +0000
Subject: [PATCH 04/24] fix: 'stop all' also discards queued contexts, like the
 stop button

---
 src/project.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/project.rs b/src/project.rs
index 21770a1..2e5e786 100644
--- a/src/project.rs
+++ b/src/project.rs
@@ -405,6 +405,9 @@ impl<'gc, C: CustomTypes<S>, S: System<C>> Project<'gc, C, S> {
                     }
                     AbortMode::All => {
                         debug_assert!(!proc.is_running());
+                        for script in self.scripts.iter_mut() {
+                            script.stop_all(&mut self.state);
+                        }
                         self.state.processes.clear();
                         self.state.process_queue.clear();
                         ProjectStep::Normal
-- 
2.43.0


From 9ac9a48a4ac5865dc508067befd6481d4a935fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:09 +0000
Subject: [PATCH 05/24] fix: apply the call depth limit to closure calls as
 well

A closure that (indirectly) calls itself grew the call stack without bound.
---
 src/process.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/process.rs b/src/process.rs
index 705ee2f..9ee62e8 100644
--- a/src/process.rs
+++ b/src/process.rs
@@ -943,6 +943,11 @@ impl<'gc, C: CustomTypes<S>, S: System<C>> Process<'gc, C, S> {
                 self.pos = aft_pos;
             }
             Instruction::CallClosure { new_entity, args } => {
+                let limit = global_context.settings.max_call_depth;
+                if self.call_stack.len() >= limit {
+                    return Err(ErrorCause::CallDepthLimit { limit });
+                }
+
                 let (closure_pos, locals) = prep_call_closure(mc, &mut self.value_stack, args)?;
                 let entity = match new_entity {
                     false => self.call_stack.last().unwrap().entity,
-- 
2.43.0


From 17c80653358360a8df2c9eb668c0c315e207c454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:24 +0000
Subject: [PATCH 06/24] fix: extremely long sleeps no longer overflow the
 wake-up time

---
 src/process.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/process.rs b/src/process.rs
index 9ee62e8..695f5de 100644
--- a/src/process.rs
+++ b/src/process.rs
@@ -1134,7 +1134,7 @@ impl<'gc, C: CustomTypes<S>, S: System<C>> Process<'gc, C, S> {
                     self.pos = aft_pos;
                     return Ok(ProcessStep::Yield);
                 }
-                self.defer = Some(Defer::Sleep { until: system.time(Precision::Medium).to_arbitrary_ms()? + ms as u64, aft_pos });
+                self.defer = Some(Defer::Sleep { until: system.time(Precision::Medium).to_arbitrary_ms()?.saturating_add(ms as u64), aft_pos });
             }
             Instruction::PushRealTime { query } => {
                 let t = system.time(Precision::High).to_real_local()?;
-- 
2.43.0


From 575ff1db05676671c58aa57224cd29c986672048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:17 +0000
Subject: [PATCH 07/24] fix: compiled code can be read back from
 self-describing formats such as JSON

The 128 bit tag was read as a float by formats without 128 bit integers.
---
 src/bytecode.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/bytecode.rs b/src/bytecode.rs
index d6dad39..51e189b 100644
--- a/src/bytecode.rs
+++ b/src/bytecode.rs
@@ -14,7 +14,7 @@ use core::mem;
 #[cfg(feature = "serde")]
 use serde::{Serialize, Deserialize};
 
-use monostate::MustBeU128;
+use monostate::MustBeU64;
 use num_traits::FromPrimitive;
 use bin_pool::BinPool;
 
@@ -1127,7 +1127,7 @@ impl BinaryWrite for Instruction<'_> {
 /// This type supports serde serialization if the `serde` feature flag is enabled.
 #[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
 pub struct ByteCode {
-    #[allow(dead_code)] tag: MustBeU128<FINGERPRINT>,
+    #[allow(dead_code)] tag: MustBeU64<{ FINGERPRINT as u64 }>,
 
     pub(crate) code: Box<[u8]>,
     pub(crate) data: Box<[u8]>,
@@ -1171,7 +1171,7 @@ pub(crate) struct EntityInitInfo {
 /// This type supports serde serialization if the `serde` feature flag is enabled.
 #[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
 pub struct InitInfo {
-    #[allow(dead_code)] tag: MustBeU128<FINGERPRINT>,
+    #[allow(dead_code)] tag: MustBeU64<{ FINGERPRINT as u64 }>,
 
     pub(crate) proj_name: CompactString,
     pub(crate) ref_values: Vec<RefValue>,
@@ -1244,7 +1244,7 @@ fn test_locations_tokenizer() {
 #[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
 #[derive(Debug)]
 pub struct Locations {
-    #[allow(dead_code)] tag: MustBeU128<FINGERPRINT>,
+    #[allow(dead_code)] tag: MustBeU64<{ FINGERPRINT as u64 }>,
 
     prefix: CompactString,
     separator: CompactString,
-- 
2.43.0


From 675c83971a664a27019e9d3044a29e2832df0f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:55 +0000
Subject: [PATCH 08/24] hook: let a simulator substitute std with the nb_sim
 cfg (off by default)

---
 src/lib.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 560ab7c..69eba8d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,14 +1,23 @@
 #![forbid(unsafe_code)]
 #![no_std]
+#![allow(unexpected_cfgs)]
 
 #![recursion_limit = "256"]
 
 #![doc = include_str!("../README.md")]
 
-#[cfg(feature = "std")]
+#[cfg(all(feature = "std", not(nb_sim)))]
 #[macro_use]
 extern crate std;
 
+// Deterministic simulation only (`--cfg nb_sim`, never set in normal builds): the simulator's stand-in for the `getrandom`
+// crate re-exports the standard library with threads, locks, channels and atomics replaced by simulated ones.
+#[cfg(nb_sim)]
+#[macro_use]
+extern crate std as real_std;
+#[cfg(nb_sim)]
+extern crate getrandom as std;
+
 #[macro_use] extern crate alloc;
 #[macro_use] extern crate num_derive;
 
-- 
2.43.0


From 762544482bd04056913ff9424c8a87e038d8bdeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:29 +0000
Subject: [PATCH 09/24] fix: concurrent Clock updates could move the cached
 time backwards

---
 src/std_util.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/std_util.rs b/src/std_util.rs
index 434e3db..705e1d5 100644
--- a/src/std_util.rs
+++ b/src/std_util.rs
@@ -63,11 +63,15 @@ impl Clock {
     }
     /// Reads the real world time and stores the result in the cache if caching was enabled by [`Clock::new`].
     pub fn update(&self) -> OffsetDateTime {
-        let t = OffsetDateTime::now_utc().to_offset(self.utc_offset);
-        if let Some(cache) = &self.cache {
-            *cache.value.lock().unwrap() = t;
+        let now = || OffsetDateTime::now_utc().to_offset(self.utc_offset);
+        match &self.cache {
+            Some(cache) => {
+                let mut value = cache.value.lock().unwrap(); // must be taken before reading the time, lest a concurrent update be overwritten with an older time
+                *value = now();
+                *value
+            }
+            None => now(),
         }
-        t
     }
 }
 
-- 
2.43.0


From ff1d58d88b523b6893602416ee3fcbc693379ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:29 +0000
Subject: [PATCH 10/24] fix: losing the network connection no longer panics the
 VM or its background tasks

---
 src/std_system.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/std_system.rs b/src/std_system.rs
index 7d069a9..62e1018 100644
--- a/src/std_system.rs
+++ b/src/std_system.rs
@@ -129,7 +129,7 @@ impl<C: CustomTypes<StdSystem<C>>> StdSystem<C> {
 
                 tokio::spawn(async move {
                     while let Ok(msg) = ws_sender_receiver.recv().await {
-                        ws_sender.send(msg).await.unwrap();
+                        if ws_sender.send(msg).await.is_err() { break }
                     }
                 });
 
@@ -148,7 +148,7 @@ impl<C: CustomTypes<StdSystem<C>>> StdSystem<C> {
                                 _ => return,
                             };
                             match msg.get("type").and_then(|x| x.as_str()).unwrap_or("unknown") {
-                                "ping" => ws_sender_sender_clone.send(Message::Text(json!({ "type": "pong" }).to_string().into())).await.unwrap(),
+                                "ping" => { let _ = ws_sender_sender_clone.send(Message::Text(json!({ "type": "pong" }).to_string().into())).await; }
                                 "message" => {
                                     let (msg_type, values) = match (msg.remove("msgType"), msg.remove("content")) {
                                         (Some(Json::String(msg_type)), Some(Json::Object(values))) => (msg_type.into(), values),
@@ -173,7 +173,7 @@ impl<C: CustomTypes<StdSystem<C>>> StdSystem<C> {
                                             false => None,
                                         };
                                         let values = values.into_iter().filter_map(|(k, v)| SimpleValue::from_netsblox_json(v).ok().map(|v| (k.into(), v))).collect();
-                                        in_sender.send(IncomingMessage { msg_type, values, reply_key }).unwrap();
+                                        let _ = in_sender.send(IncomingMessage { msg_type, values, reply_key });
                                     }
                                 }
                                 _ => (),
@@ -182,7 +182,7 @@ impl<C: CustomTypes<StdSystem<C>>> StdSystem<C> {
                     }).await;
                 });
 
-                ws_sender_sender.send(Message::Text(json!({ "type": "set-uuid", "clientId": client_id }).to_string().into())).await.unwrap();
+                let _ = ws_sender_sender.send(Message::Text(json!({ "type": "set-uuid", "clientId": client_id }).to_string().into())).await;
                 drop(finish_flag);
 
                 let src_id = format_compact!("{project_name}@{client_id}#vm");
@@ -219,7 +219,7 @@ impl<C: CustomTypes<StdSystem<C>>> StdSystem<C> {
                             "content": { "body": value },
                         }),
                     };
-                    ws_sender_sender.send(Message::Text(msg.to_string().into())).await.unwrap();
+                    let _ = ws_sender_sender.send(Message::Text(msg.to_string().into())).await; // messages sent after losing the connection are dropped
                 }
             }
             let in_sender_clone = in_sender.clone();
@@ -420,7 +420,7 @@ impl<C: CustomTypes<StdSystem<C>>> System<C> for StdSystem<C> {
                 (OutgoingMessage::Blocking { msg_type, values, targets, reply_key: reply_key.clone() }, Some(reply_key))
             }
         };
-        self.message_sender.send(msg).unwrap();
+        let _ = self.message_sender.send(msg); // fails only if the connection is lost, in which case the message is dropped
         Ok(reply_key)
     }
     fn poll_reply(&self, key: &ExternReplyKey) -> AsyncResult<Option<Json>> {
@@ -436,7 +436,7 @@ impl<C: CustomTypes<StdSystem<C>>> System<C> for StdSystem<C> {
         AsyncResult::Pending
     }
     fn send_reply(&self, key: InternReplyKey, value: Json) -> Result<(), ErrorCause<C, Self>> {
-        self.message_sender.send(OutgoingMessage::Reply { value, reply_key: key }).unwrap();
+        let _ = self.message_sender.send(OutgoingMessage::Reply { value, reply_key: key });
         Ok(())
     }
     fn receive_message(&self) -> Option<IncomingMessage> {
-- 
2.43.0


From e84b35228748ef59b4d44b90d8777fb15282cea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:07 +0000
Subject: [PATCH 11/24] fix: list commands no longer panic when a list (also)
 serves as its own index

---
 src/process.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/process.rs b/src/process.rs
index 695f5de..d9cce0c 100644
--- a/src/process.rs
+++ b/src/process.rs
@@ -647,9 +647,9 @@ impl<'gc, C: CustomTypes<S>, S: System<C>> Process<'gc, C, S> {
                 let list = self.value_stack.pop().unwrap().as_list()?;
                 let index = self.value_stack.pop().unwrap();
                 let val = self.value_stack.pop().unwrap();
-                let mut list = list.borrow_mut(mc);
 
-                let index_set = ops::prep_index_set(&index, list.len() + 1)?;
+                let index_set = ops::prep_index_set(&index, list.borrow().len() + 1)?;
+                let mut list = list.borrow_mut(mc);
                 for index in index_set.into_iter().rev() {
                     list.insert(index, val.clone());
                 }
@@ -698,9 +698,9 @@ impl<'gc, C: CustomTypes<S>, S: System<C>> Process<'gc, C, S> {
                 let value = self.value_stack.pop().unwrap();
                 let list = self.value_stack.pop().unwrap().as_list()?;
                 let index = self.value_stack.pop().unwrap();
-                let mut list = list.borrow_mut(mc);
 
-                let index_set = ops::prep_index_set(&index, list.len())?;
+                let index_set = ops::prep_index_set(&index, list.borrow().len())?;
+                let mut list = list.borrow_mut(mc);
                 for index in index_set {
                     list[index] = value.clone();
                 }
@@ -728,9 +728,9 @@ impl<'gc, C: CustomTypes<S>, S: System<C>> Process<'gc, C, S> {
             Instruction::ListRemove => {
                 let list = self.value_stack.pop().unwrap().as_list()?;
                 let index = self.value_stack.pop().unwrap();
-                let mut list = list.borrow_mut(mc);
 
-                let index_set = ops::prep_index_set(&index, list.len())?;
+                let index_set = ops::prep_index_set(&index, list.borrow().len())?;
+                let mut list = list.borrow_mut(mc);
                 for index in index_set.into_iter().rev() {
                     list.remove(index);
                 }
-- 
2.43.0


From 0330c37d2dd6d1aadc15de020cef735fa9b6e5f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:07 +0000
Subject: [PATCH 12/24] fix: pointing towards coordinates no longer swaps x and
 y

---
 src/process.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/process.rs b/src/process.rs
index d9cce0c..cac8d86 100644
--- a/src/process.rs
+++ b/src/process.rs
@@ -1448,8 +1448,8 @@ impl<'gc, C: CustomTypes<S>, S: System<C>> Process<'gc, C, S> {
                 target => return Err(ErrorCause::ConversionError { got: target.get_type(), expected: Type::Entity }),
             }
             Instruction::PointTowardsXY => {
-                let x = self.value_stack.pop().unwrap().as_number()?;
                 let y = self.value_stack.pop().unwrap().as_number()?;
+                let x = self.value_stack.pop().unwrap().as_number()?;
 
                 drop(global_context_raw);
                 self.defer = Some(Defer::Command {
-- 
2.43.0


From 270939044e7936f7ad5e2ad675ce20f5293fa3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:07 +0000
Subject: [PATCH 13/24] fix: modulus of an exact multiple with operands of
 different signs is zero

---
 src/util.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/util.rs b/src/util.rs
index 17d6569..7df04cc 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -59,5 +59,6 @@ pub fn base64_decode(content: &str) -> Result<Vec<u8>, Base64DecodeError> {
 }
 
 pub fn modulus<T: num_traits::Float>(a: T, b: T) -> T {
-    if a.is_sign_positive() == b.is_sign_positive() { a % b } else { b + (a % -b) }
+    let r = a % b;
+    if r.is_zero() || r.is_sign_positive() == b.is_sign_positive() { r } else { b + r }
 }
-- 
2.43.0


From 53ed314a2e75ebd4dcc05b10d446855c6012f1e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:07 +0000
Subject: [PATCH 14/24] fix: notes outside the midi range are refused instead
 of wrapping around, and accidentals no longer change the pitch

---
 src/process.rs |  5 ++---
 src/runtime.rs | 15 ++++++++-------
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/process.rs b/src/process.rs
index cac8d86..7816272 100644
--- a/src/process.rs
+++ b/src/process.rs
@@ -1531,9 +1531,8 @@ mod ops {
         if let Ok(v) = value.as_number().map(Number::get) {
             let vv = v as i64;
             if v != vv as f64 { return Err(ErrorCause::NoteNotInteger { note: v }); }
-            let res = Note::from_midi(vv as u8, false);
-            if vv < 0 || res.is_none() { return Err(ErrorCause::NoteNotMidi { note: vv.to_compact_string() }); }
-            return Ok(res.unwrap());
+            let res = u8::try_from(vv).ok().and_then(|x| Note::from_midi(x, false));
+            return res.ok_or_else(|| ErrorCause::NoteNotMidi { note: vv.to_compact_string() });
         }
         let s = value.as_text()?;
         Note::from_name(&s).ok_or_else(|| ErrorCause::NoteNotMidi { note: s.as_str().into() })
diff --git a/src/runtime.rs b/src/runtime.rs
index bad5011..8540fc7 100644
--- a/src/runtime.rs
+++ b/src/runtime.rs
@@ -1859,7 +1859,7 @@ impl Note {
         let note = SHARP_NOTES.split(' ').enumerate().find(|x| x.1.len() == 1 && x.1.starts_with(note))?.0 as i32;
 
         let mut octave = None;
-        let mut delta = 0;
+        let mut delta = 0i64;
         let mut natural = false;
         loop {
             match c.next() {
@@ -1885,13 +1885,13 @@ impl Note {
                 None => break,
             }
         }
-        let mut octave = octave?;
+        let mut octave = octave? as i64;
         if note >= 3 {
             octave -= 1;
         }
 
-        let value = 21 + note + 12 * octave + delta;
-        if value >= 0 { Self::from_midi(value as u8, natural) } else { None }
+        let value = 21 + note as i64 + 12 * octave + delta;
+        Self::from_midi(u8::try_from(value).ok()?, natural)
     }
     /// Gets the stored midi value.
     pub fn get_midi(self) -> (u8, bool) {
@@ -1899,12 +1899,13 @@ impl Note {
     }
     /// Computes the frequency of the note in Hz.
     pub fn get_frequency(self) -> Number {
-        Number::new(440.0 * libm::exp2((self.0 as f64 - 69.0) / 12.0)).unwrap()
+        Number::new(440.0 * libm::exp2((self.get_midi().0 as f64 - 69.0) / 12.0)).unwrap()
     }
     /// Gets the (English) name of the note.
     pub fn get_name(self, prefer_sharps: bool) -> CompactString {
-        let octave = self.0 as i32 / 12 - 1;
-        let note = if prefer_sharps { SHARP_NOTES } else { FLAT_NOTES }.split(' ').nth((self.0 as usize + 3) % 12).unwrap();
+        let midi = self.get_midi().0;
+        let octave = midi as i32 / 12 - 1;
+        let note = if prefer_sharps { SHARP_NOTES } else { FLAT_NOTES }.split(' ').nth((midi as usize + 3) % 12).unwrap();
         format_compact!("{note}{octave}")
     }
 }
-- 
2.43.0


From 72e4cc4050cbe70d1ae5fb0ffbd8722ff4cea2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:31 +0000
Subject: [PATCH 15/24] fix: images and audio are shown by name rather than by
 memory address

---
 src/runtime.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/runtime.rs b/src/runtime.rs
index 8540fc7..0c53b92 100644
--- a/src/runtime.rs
+++ b/src/runtime.rs
@@ -971,8 +971,8 @@ fn format_value<C: CustomTypes<S>, S: System<C>>(value: &Value<'_, C, S>, f: &mu
             Value::Closure(x) => write!(f, "{:?}", &*x.borrow()),
             Value::Entity(x) => write!(f, "{:?}", &*x.borrow()),
             Value::Native(x) => write!(f, "{:?}", &**x),
-            Value::Image(x) => write!(f, "[Image {:?}]", Rc::as_ptr(x)),
-            Value::Audio(x) => write!(f, "[Audio {:?}]", Rc::as_ptr(x)),
+            Value::Image(x) => write!(f, "[Image {:?}]", x.name.as_str()),
+            Value::Audio(x) => write!(f, "[Audio {:?}]", x.name.as_str()),
             Value::List(x) => {
                 let identity = value.identity();
                 if !cache.insert(identity) { return write!(f, "[...]") }
-- 
2.43.0


From 9b93f000c5163a08e8d981fb66c28d6e25cf386a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:53 +0000
Subject: [PATCH 16/24] fix: a key release input is ignored instead of crashing
 the virtual machine

---
 src/project.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/project.rs b/src/project.rs
index 2e5e786..d13382c 100644
--- a/src/project.rs
+++ b/src/project.rs
@@ -261,7 +261,7 @@ impl<'gc, C: CustomTypes<S>, S: System<C>> Project<'gc, C, S> {
                     }
                 }
             }
-            Input::KeyUp { .. } => unimplemented!(),
+            Input::KeyUp { .. } => (), // keys are not tracked as held down, so there is nothing to release
         }
     }
     pub fn step(&mut self, mc: &Mutation<'gc>) -> ProjectStep<'gc, C, S> {
-- 
2.43.0


From 4842869cba204c55c48eebd27c17ed0eed0bd8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:53 +0000
Subject: [PATCH 17/24] fix: combinations with an empty list are found empty
 right away instead of overflowing or running on

---
 src/process.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/process.rs b/src/process.rs
index 7816272..4d7ffc2 100644
--- a/src/process.rs
+++ b/src/process.rs
@@ -1652,7 +1652,7 @@ mod ops {
         Ok(Gc::new(mc, RefLock::new(res)).into())
     }
     pub(super) fn cartesian_product<'gc, C: CustomTypes<S>, S: System<C>>(mc: &Mutation<'gc>, sources: &[Gc<'gc, RefLock<VecDeque<Value<'gc, C, S>>>>]) -> VecDeque<Value<'gc, C, S>> {
-        if sources.is_empty() { return Default::default() }
+        if sources.is_empty() || sources.iter().any(|x| x.borrow().is_empty()) { return Default::default() }
 
         fn cartesian_product_impl<'gc, C: CustomTypes<S>, S: System<C>>(mc: &Mutation<'gc>, res: &mut VecDeque<Value<'gc, C, S>>, partial: &mut VecDeque<Value<'gc, C, S>>, sources: &[Gc<'gc, RefLock<VecDeque<Value<'gc, C, S>>>>]) {
             match sources {
-- 
2.43.0


From 9dd42a1fd89e1ee748ad57834a6bbbc0775c0c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:53 +0000
Subject: [PATCH 18/24] fix: ranges of numbers too large to count in steps of
 one come to an end

---
 src/process.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/process.rs b/src/process.rs
index 4d7ffc2..fe055cc 100644
--- a/src/process.rs
+++ b/src/process.rs
@@ -1840,11 +1840,13 @@ mod ops {
                     if a <= b {
                         while a <= b {
                             res.push_back(Number::new(a)?.into());
+                            if a + 1.0 == a { break } // beyond this point, the next number can no longer be represented
                             a += 1.0;
                         }
                     } else {
                         while a >= b {
                             res.push_back(Number::new(a)?.into());
+                            if a - 1.0 == a { break } // beyond this point, the next number can no longer be represented
                             a -= 1.0;
                         }
                     }
-- 
2.43.0


From 0681a03b5d0caf75e105adeef8c59199c7a3afe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:20 +0000
Subject: [PATCH 19/24] hook: macros of the stand-in standard library under
 cfg(nb_sim)

---
 src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib.rs b/src/lib.rs
index 69eba8d..7032d44 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -16,6 +16,7 @@ extern crate std;
 #[macro_use]
 extern crate std as real_std;
 #[cfg(nb_sim)]
+#[macro_use]
 extern crate getrandom as std;
 
 #[macro_use] extern crate alloc;
-- 
2.43.0


From d153cf3077fd815e304ce111d99a4d5ccbc21be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:20 +0000
Subject: [PATCH 20/24] fix: take no notice of keys being let go at the
 terminal

Terminals which report key releases made each key count twice, in the input
line as well as for key scripts.
---
 src/cli.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cli.rs b/src/cli.rs
index 61e4f76..e2513ab 100644
--- a/src/cli.rs
+++ b/src/cli.rs
@@ -31,7 +31,7 @@ use actix_cors::Cors;
 
 use crossterm::{cursor, execute, queue};
 use crossterm::tty::IsTty;
-use crossterm::event::{self, Event, KeyCode as RawKeyCode, KeyModifiers as RawKeyModifiers};
+use crossterm::event::{self, Event, KeyCode as RawKeyCode, KeyEventKind, KeyModifiers as RawKeyModifiers};
 use crossterm::terminal::{self, ClearType};
 use crossterm::style::{ResetColor, SetForegroundColor, Color, Print};
 
@@ -243,6 +243,7 @@ fn run_proj_tty<C: CustomTypes<StdSystem<C>>>(project_name: &str, server: Compac
         debug_assert_eq!(input_sequence.len(), 0);
         while event::poll(Duration::from_secs(0)).unwrap() {
             match event::read().unwrap() {
+                Event::Key(key) if key.kind == KeyEventKind::Release => (), // some terminals also report when a key is let go
                 Event::Key(key) => match key.code {
                     RawKeyCode::Char('c') if key.modifiers == RawKeyModifiers::CONTROL => break 'program,
                     RawKeyCode::Esc => input_sequence.push(Input::Stop),
-- 
2.43.0


From 954911a23f6e12b8871758edada90a754e174846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:36 +0000
Subject: [PATCH 21/24] fix: questions of scripts stopped from the terminal no
 longer stay on the screen and take the keys typed

---
 src/cli.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/cli.rs b/src/cli.rs
index e2513ab..acedb58 100644
--- a/src/cli.rs
+++ b/src/cli.rs
@@ -246,7 +246,12 @@ fn run_proj_tty<C: CustomTypes<StdSystem<C>>>(project_name: &str, server: Compac
                 Event::Key(key) if key.kind == KeyEventKind::Release => (), // some terminals also report when a key is let go
                 Event::Key(key) => match key.code {
                     RawKeyCode::Char('c') if key.modifiers == RawKeyModifiers::CONTROL => break 'program,
-                    RawKeyCode::Esc => input_sequence.push(Input::Stop),
+                    RawKeyCode::Esc => {
+                        input_sequence.push(Input::Stop);
+                        input_queries.borrow_mut().clear(); // the scripts that asked are stopped, so nobody waits for an answer any more
+                        input_value.clear();
+                        update_flag.set(true);
+                    }
                     RawKeyCode::Char(ch) => match in_input_mode() {
                         true => { input_value.push(ch); update_flag.set(true); }
                         false => input_sequence.push(Input::KeyDown { key: KeyCode::Char(ch.to_ascii_lowercase()) }),
-- 
2.43.0


From 7d88cba467f5ebe269cfee49c694c8372030f2f9 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 05:40:58 +0000
Subject: [PATCH 22/24] fix: closing a file reports when what was written to it
 could not be stored

---
 src/main.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index bf5e240..e49f868 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -154,7 +154,12 @@ fn main() {
                             Value::Native(x) => {
                                 match &**x {
                                     NativeValue::InputFile { handle } => *handle.borrow_mut() = None,
-                                    NativeValue::OutputFile { handle } => *handle.borrow_mut() = None,
+                                    NativeValue::OutputFile { handle } => if let Some(mut handle) = handle.borrow_mut().take() {
+                                        if let Err(e) = handle.flush() {
+                                            key.complete(Err(format_compact!("syscall close - write error: {e:?}")));
+                                            return RequestStatus::Handled;
+                                        }
+                                    }
                                 }
                                 key.complete(Ok(SimpleValue::Text("OK".into()).into()));
                                 RequestStatus::Handled
-- 
2.43.0


From 0c867a1c7e71af850ce579028d980db7fd3e48ef Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 06:06:01 +0000
Subject: [PATCH 23/24] fix: draw the question again after an error is shown at
 the terminal

---
 src/cli.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cli.rs b/src/cli.rs
index acedb58..859e124 100644
--- a/src/cli.rs
+++ b/src/cli.rs
@@ -282,6 +282,7 @@ fn run_proj_tty<C: CustomTypes<StdSystem<C>>>(project_name: &str, server: Compac
                 let res = proj.step(mc);
                 if let ProjectStep::Error { error, proc: _ } = &res {
                     print!("\r\n>>> runtime error: {:?}\r\n\r\n", error.cause);
+                    update_flag.set(true);
                 }
                 idle_sleeper.consume(&res);
             }
-- 
2.43.0


From c493c601f71a8d53dcabc74759ea41b3d29da9fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:50:16 +0000
Subject: [PATCH 24/24] fix: random numbers between bounds too large for an
 integer lie between the bounds

---
 src/process.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/process.rs b/src/process.rs
index fe055cc..0443634 100644
--- a/src/process.rs
+++ b/src/process.rs
@@ -1857,8 +1857,14 @@ mod ops {
                 let (mut a, mut b) = (a.as_number()?.get(), b.as_number()?.get());
                 if a > b { (a, b) = (b, a); }
                 let res = if a == libm::round(a) && b == libm::round(b) {
-                    let (a, b) = (a as i64, b as i64);
-                    system.rand(a..=b) as f64
+                    const MAX_EXACT: f64 = (1u64 << f64::MANTISSA_DIGITS) as f64;
+                    if a >= -MAX_EXACT && b <= MAX_EXACT {
+                        let (a, b) = (a as i64, b as i64);
+                        system.rand(a..=b) as f64
+                    } else { // the bounds might not fit in an integer, nor their difference in a float
+                        let t: f64 = system.rand(0.0..=1.0);
+                        libm::round(a * (1.0 - t) + b * t).clamp(a, b)
+                    }
                 } else {
                     system.rand(a..=b)
                 };
-- 
2.43.0

