From b8d18570e479da798ac30c019031c0c917f88dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:41 +0000
Subject: [PATCH 01/63] fix: record retries and mark failed tasks in a single
 transaction

---
 src/hypershell/data/model.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/hypershell/data/model.py b/src/hypershell/data/model.py
index a5ef391..7f3bdcd 100644
--- a/src/hypershell/data/model.py
+++ b/src/hypershell/data/model.py
@@ -367,10 +367,12 @@ class Task(Entity):
                                  previous_id=task.id,
                                  tag=task.tag)
                          for task in failed_tasks]
+            # NOTE: a single transaction, otherwise a failure in between leaves an unlinked retry
+            for old_task, new_task in zip(failed_tasks, new_tasks):
+                old_task.retried = True
+                old_task.next_id = new_task.id
+            Session.add_all(new_tasks)
             tasks.extend(new_tasks)
-            cls.add_all(tasks)
-            cls.update_all([{'id': old_task.id, 'retried': True, 'next_id': new_task.id}
-                            for old_task, new_task in zip(failed_tasks, new_tasks)])
         return tasks
 
     @classmethod
-- 
2.43.0


From c1828b5a9c4a541ef16f3cb420c4733bb0d1e58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:41 +0000
Subject: [PATCH 02/63] fix: do not select a retry twice for the same bundle in
 eager mode

---
 src/hypershell/data/model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hypershell/data/model.py b/src/hypershell/data/model.py
index 7f3bdcd..1c37fd8 100644
--- a/src/hypershell/data/model.py
+++ b/src/hypershell/data/model.py
@@ -365,6 +365,7 @@ class Task(Entity):
             new_tasks = [cls.new(args=task.args,
                                  attempt=task.attempt + 1,
                                  previous_id=task.id,
+                                 schedule_time=datetime.now().astimezone(),  # NOTE: not to be selected again as new
                                  tag=task.tag)
                          for task in failed_tasks]
             # NOTE: a single transaction, otherwise a failure in between leaves an unlinked retry
-- 
2.43.0


From 189779add8da9aa95ca06d49e22178d7d4b71bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:41 +0000
Subject: [PATCH 03/63] fix: do not overwrite lineage and tags of a task when
 its result is recorded

---
 src/hypershell/server.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/hypershell/server.py b/src/hypershell/server.py
index abff879..1ea637a 100644
--- a/src/hypershell/server.py
+++ b/src/hypershell/server.py
@@ -386,7 +386,10 @@ class Receiver(StateMachine):
     def update_tasks(self: Receiver) -> ReceiverState:
         """Update tasks in database with run details."""
         if not self.in_memory:
-            Task.update_all([task.to_dict() for task in self.tasks])
+            # NOTE: the lineage and tags may have changed since the task was scheduled
+            Task.update_all([{name: value for name, value in task.to_dict().items()
+                              if name not in ('retried', 'previous_id', 'next_id', 'tag')}
+                             for task in self.tasks])
         for task in self.tasks:
             log.debug(f'Completed task ({task.id})')
             if task.exit_status != 0:
-- 
2.43.0


From 48c7f9a328a6e6c18398d0f3e8f75810f20fd772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:22 +0000
Subject: [PATCH 04/63] fix: scheduler must not stop when the last result still
 needs a retry

---
 src/hypershell/server.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/hypershell/server.py b/src/hypershell/server.py
index 1ea637a..8fdd3fb 100644
--- a/src/hypershell/server.py
+++ b/src/hypershell/server.py
@@ -180,11 +180,16 @@ class Scheduler(StateMachine):
             return SchedulerState.PACK
         # An empty database must wait for at least one task
         elif not self.forever_mode and Task.count() > 0 and Task.count_remaining() == 0 and not self.startup_phase:
-            return SchedulerState.FINAL
+            # NOTE: the last result may have arrived after our selection and could still be in need of a retry
+            return SchedulerState.LOAD if self.has_failed_tasks() else SchedulerState.FINAL
         else:
             time.sleep(DEFAULT_QUERY_PAUSE)
             return SchedulerState.LOAD
 
+    def has_failed_tasks(self: Scheduler) -> bool:
+        """True if there are failed tasks still to be retried."""
+        return len(Task.select_failed(attempts=self.attempts, limit=1)) > 0
+
     def pack_bundle(self: Scheduler) -> SchedulerState:
         """Pack tasks into bundle (list)."""
         self.bundle = [task.pack() for task in self.tasks]
-- 
2.43.0


From 7b68cac9bce90ec05dff218f1e6896b2b6cb9158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:22 +0000
Subject: [PATCH 05/63] fix: scheduler must not stop while tasks are still
 being submitted

---
 src/hypershell/server.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/hypershell/server.py b/src/hypershell/server.py
index 8fdd3fb..e5456b6 100644
--- a/src/hypershell/server.py
+++ b/src/hypershell/server.py
@@ -125,6 +125,7 @@ class Scheduler(StateMachine):
     states = SchedulerState
 
     startup_phase: bool = True
+    submit_done: bool = True  # unset by parent thread while tasks are being submitted
 
     def __init__(self: Scheduler, queue: QueueServer, bundlesize: int = DEFAULT_BUNDLESIZE,
                  attempts: int = DEFAULT_ATTEMPTS, eager: bool = DEFAULT_EAGER_MODE,
@@ -174,12 +175,13 @@ class Scheduler(StateMachine):
         if check_signal() in (SIGUSR1, SIGUSR2):
             log.warning(f'Signal interrupt ({SIGNAL_MAP[check_signal()]})')
             return SchedulerState.FINAL
+        submit_done = self.submit_done  # NOTE: check before selecting tasks
         self.tasks = Task.next(limit=self.bundlesize, attempts=self.attempts, eager=self.eager)
         if self.tasks:
             self.startup_phase = False
             return SchedulerState.PACK
         # An empty database must wait for at least one task
-        elif not self.forever_mode and Task.count() > 0 and Task.count_remaining() == 0 and not self.startup_phase:
+        elif not self.forever_mode and submit_done and Task.count() > 0 and Task.count_remaining() == 0 and not self.startup_phase:
             # NOTE: the last result may have arrived after our selection and could still be in need of a retry
             return SchedulerState.LOAD if self.has_failed_tasks() else SchedulerState.FINAL
         else:
@@ -228,6 +230,14 @@ class SchedulerThread(Thread):
         """Run machine."""
         self.machine.run()
 
+    def signal_submit_started(self: SchedulerThread) -> None:
+        """Set flag to tell scheduler that tasks are being submitted."""
+        self.machine.submit_done = False
+
+    def signal_submit_done(self: SchedulerThread) -> None:
+        """Set flag to tell scheduler that all tasks have been submitted."""
+        self.machine.submit_done = True
+
     def stop(self: SchedulerThread, wait: bool = False, timeout: int = None) -> None:
         """Stop machine."""
         log.warning('Stopping (scheduler)')
@@ -755,6 +765,8 @@ class ServerThread(Thread):
     def start_threads(self: ServerThread) -> None:
         """Start child threads."""
         if self.submitter is not None:
+            if self.scheduler is not None:
+                self.scheduler.signal_submit_started()
             self.submitter.start()
         if self.scheduler is not None:
             self.scheduler.start()
@@ -768,6 +780,8 @@ class ServerThread(Thread):
         if self.submitter is not None:
             log.trace('Waiting (submitter)')
             self.submitter.join()
+            if self.scheduler is not None:
+                self.scheduler.signal_submit_done()
 
     def wait_scheduler(self: ServerThread) -> None:
         """Wait scheduling until complete."""
-- 
2.43.0


From 012e1c0300c2b2bd4064785e55a8533e54c9d815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:04 +0000
Subject: [PATCH 06/63] fix: flush buffered tasks after the bundle wait even if
 the source is idle

---
 src/hypershell/submit.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/hypershell/submit.py b/src/hypershell/submit.py
index f1e88d0..1d0def2 100644
--- a/src/hypershell/submit.py
+++ b/src/hypershell/submit.py
@@ -231,7 +231,9 @@ class DatabaseCommitter(StateMachine):
         try:
             task = self.queue.get(timeout=1)
         except QueueEmpty:
-            return DatabaseCommitterState.GET
+            # NOTE: do not hold on to tasks when the source has gone quiet
+            since_last = (datetime.now() - self.previous_submit).total_seconds()
+            return DatabaseCommitterState.COMMIT if self.tasks and since_last >= self.bundlewait else DatabaseCommitterState.GET
         if task is not None:
             self.tasks.append(task)
             since_last = (datetime.now() - self.previous_submit).total_seconds()
@@ -424,7 +426,9 @@ class QueueCommitter(StateMachine):
         try:
             task = self.local.get(timeout=1)
         except QueueEmpty:
-            return QueueCommitterState.GET
+            # NOTE: do not hold on to tasks when the source has gone quiet
+            since_last = (datetime.now() - self.previous_submit).total_seconds()
+            return QueueCommitterState.PACK if self.tasks and since_last >= self.bundlewait else QueueCommitterState.GET
         if task is not None:
             self.tasks.append(task)
             since_last = (datetime.now() - self.previous_submit).total_seconds()
-- 
2.43.0


From c571b5112dc563bf93c8c415204dff73934c5056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:16 +0000
Subject: [PATCH 07/63] fix: client returns a partly filled bundle of results
 when it shuts down

---
 src/hypershell/client.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/hypershell/client.py b/src/hypershell/client.py
index f3406ae..079b7b3 100644
--- a/src/hypershell/client.py
+++ b/src/hypershell/client.py
@@ -388,7 +388,9 @@ class ClientCollector(StateMachine):
 
     def finalize(self: ClientCollector) -> CollectorState:
         """Push out any remaining tasks and halt."""
-        self.put_remote()
+        self.pack_bundle()
+        while self.put_remote() is CollectorState.PUT_REMOTE:
+            log.trace('Waiting on queue (collector)')
         log.debug('Done (collector)')
         return CollectorState.HALT
 
-- 
2.43.0


From 7724cc1a97373a7fee8fa4e42fa8622a3b0eeb35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:16 +0000
Subject: [PATCH 08/63] fix: last bundle of tasks is not lost when the queue is
 full (no database)

---
 src/hypershell/submit.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hypershell/submit.py b/src/hypershell/submit.py
index 1d0def2..c6788c3 100644
--- a/src/hypershell/submit.py
+++ b/src/hypershell/submit.py
@@ -464,7 +464,8 @@ class QueueCommitter(StateMachine):
     def finalize(self) -> QueueCommitterState:
         """Force final commit of tasks and halt."""
         self.pack_bundle()
-        self.commit()
+        while self.tasks and self.commit() is QueueCommitterState.COMMIT:
+            log.trace('Waiting on queue (committer: no database)')
         log.debug('Done (committer: no database)')
         return QueueCommitterState.HALT
 
-- 
2.43.0


From 58c2823dc308befc998ace91ba2db199b77a0499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:42 +0000
Subject: [PATCH 09/63] fix: request disconnect from clients which register
 after the end of scheduling

---
 src/hypershell/server.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/hypershell/server.py b/src/hypershell/server.py
index e5456b6..4c12fe8 100644
--- a/src/hypershell/server.py
+++ b/src/hypershell/server.py
@@ -42,7 +42,7 @@ Warning:
 
 # type annotations
 from __future__ import annotations
-from typing import List, Dict, Tuple, Iterable, IO, Optional, Callable, Type, Final
+from typing import List, Set, Dict, Tuple, Iterable, IO, Optional, Callable, Type, Final
 from types import TracebackType
 
 # standard libs
@@ -472,6 +472,7 @@ class HeartMonitor(StateMachine):
     startup_phase: bool = True  # should not halt until at least one client
     scheduler_done: bool = False  # set by parent thread when scheduling is over
     should_signal: bool = False  # set by parent thread to signal clients
+    signaled: Set[str]  # clients that disconnect has been requested from
     latest_heartbeat: Heartbeat = None
 
     state = HeartbeatState.START
@@ -483,6 +484,7 @@ class HeartMonitor(StateMachine):
         self.queue = queue
         self.last_check = datetime.now().astimezone()
         self.beats = {}
+        self.signaled = set()
         self.in_memory = in_memory
         self.no_confirm = no_confirm
         if evict_after >= 10:
@@ -554,7 +556,8 @@ class HeartMonitor(StateMachine):
         """Decide to bail, signal, check, or get another heartbeat."""
         if self.startup_phase:
             return HeartbeatState.NEXT
-        if self.should_signal:
+        # NOTE: clients might also register after the first signal
+        if self.should_signal and not self.signaled.issuperset(self.beats):
             return HeartbeatState.SIGNAL
         if not self.beats and self.scheduler_done:
             return HeartbeatState.FINAL
@@ -585,9 +588,10 @@ class HeartMonitor(StateMachine):
         """Send shutdown signal to all connected clients."""
         log.debug(f'Signaling clients ({len(self.beats)} connected)')
         for hb in self.beats.values():
-            self.queue.scheduled.put(None)
-            log.debug(f'Disconnect requested ({hb.host}: {hb.uuid})')
-        self.should_signal = False
+            if hb.uuid not in self.signaled:
+                self.queue.scheduled.put(None)
+                self.signaled.add(hb.uuid)
+                log.debug(f'Disconnect requested ({hb.host}: {hb.uuid})')
         return HeartbeatState.SWITCH
 
     @staticmethod
-- 
2.43.0


From 26c178655d55c13e0a55f637c1e151b90a21c458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:33 +0000
Subject: [PATCH 10/63] fix: cancelled tasks are neither remaining,
 interrupted, orphaned nor failed

---
 src/hypershell/data/model.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/hypershell/data/model.py b/src/hypershell/data/model.py
index 1c37fd8..3cae416 100644
--- a/src/hypershell/data/model.py
+++ b/src/hypershell/data/model.py
@@ -317,6 +317,7 @@ class Task(Entity):
                 .order_by(cls.completion_time)
                 .filter(cls.exit_status.isnot(None))
                 .filter(cls.exit_status != 0)
+                .filter(cls.completion_time.isnot(None))  # NOTE: otherwise cancelled
                 .filter(cls.attempt < attempts)
                 .filter(cls.retried.is_(False))
                 .limit(limit).all())
@@ -379,7 +380,7 @@ class Task(Entity):
     @classmethod
     def count_remaining(cls: Type[Task]) -> int:
         """Count of remaining unfinished tasks."""
-        return cls.query().filter(cls.completion_time.is_(None)).count()
+        return cls.query().filter(cls.completion_time.is_(None)).filter(cls.exit_status.is_(None)).count()
 
     @classmethod
     def count_interrupted(cls: Type[Task]) -> int:
@@ -388,6 +389,7 @@ class Task(Entity):
             cls.query()
             .filter(cls.schedule_time.isnot(None))
             .filter(cls.completion_time.is_(None))
+            .filter(cls.exit_status.is_(None))  # NOTE: otherwise cancelled
             .count()
         )
 
@@ -399,6 +401,7 @@ class Task(Entity):
             .order_by(cls.schedule_time)
             .filter(cls.schedule_time.isnot(None))
             .filter(cls.completion_time.is_(None))
+            .filter(cls.exit_status.is_(None))  # NOTE: otherwise cancelled
             .limit(limit)
             .all()
         )
@@ -466,6 +469,7 @@ class Task(Entity):
             .order_by(cls.schedule_time)
             .filter(cls.schedule_time.isnot(None))
             .filter(cls.completion_time.is_(None))
+            .filter(cls.exit_status.is_(None))  # NOTE: otherwise cancelled
             .filter(cls.client_id == client_id)
             .limit(limit)
             .all()
-- 
2.43.0


From 3f20c7d4fc2ba1693e8eb7933286f6bf1a700dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:59 +0000
Subject: [PATCH 11/63] fix: evict silent clients while disconnect requests are
 pending

---
 src/hypershell/server.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/hypershell/server.py b/src/hypershell/server.py
index 4c12fe8..b7b86e9 100644
--- a/src/hypershell/server.py
+++ b/src/hypershell/server.py
@@ -556,15 +556,15 @@ class HeartMonitor(StateMachine):
         """Decide to bail, signal, check, or get another heartbeat."""
         if self.startup_phase:
             return HeartbeatState.NEXT
-        # NOTE: clients might also register after the first signal
-        if self.should_signal and not self.signaled.issuperset(self.beats):
-            return HeartbeatState.SIGNAL
         if not self.beats and self.scheduler_done:
             return HeartbeatState.FINAL
         now = datetime.now().astimezone()
         if (now - self.last_check) > self.wait_check:
             self.last_check = now
             return HeartbeatState.CHECK
+        # NOTE: clients might also register after the first signal
+        if self.should_signal and not self.signaled.issuperset(self.beats):
+            return HeartbeatState.SIGNAL
         else:
             return HeartbeatState.NEXT
 
@@ -589,10 +589,13 @@ class HeartMonitor(StateMachine):
         log.debug(f'Signaling clients ({len(self.beats)} connected)')
         for hb in self.beats.values():
             if hb.uuid not in self.signaled:
-                self.queue.scheduled.put(None)
+                try:
+                    self.queue.scheduled.put(None, timeout=2)
+                except QueueFull:
+                    break  # NOTE: do not block on clients that might be gone (still need to be evicted)
                 self.signaled.add(hb.uuid)
                 log.debug(f'Disconnect requested ({hb.host}: {hb.uuid})')
-        return HeartbeatState.SWITCH
+        return HeartbeatState.NEXT
 
     @staticmethod
     def finalize() -> HeartbeatState:
-- 
2.43.0


From 8caaa92fc96ef53d3ed263cd7a6653edb2f61d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:47 +0000
Subject: [PATCH 12/63] fix: scheduler stops on signal interrupt also if the
 queue is full

---
 src/hypershell/server.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/hypershell/server.py b/src/hypershell/server.py
index b7b86e9..268c13b 100644
--- a/src/hypershell/server.py
+++ b/src/hypershell/server.py
@@ -206,6 +206,11 @@ class Scheduler(StateMachine):
                 log.debug(f'Scheduled task ({task.id})')
             return SchedulerState.LOAD
         except QueueFull:
+            if check_signal() in (SIGUSR1, SIGUSR2):
+                # NOTE: clients may be gone already, do not wait on them
+                log.warning(f'Signal interrupt ({SIGNAL_MAP[check_signal()]})')
+                Task.revert_all([task.id for task in self.tasks])
+                return SchedulerState.FINAL
             return SchedulerState.POST
 
     @staticmethod
-- 
2.43.0


From e1d00580f54b9e1837a464869f0ec2e88e802f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:47 +0000
Subject: [PATCH 13/63] fix: clients always register before they announce being
 finished

---
 src/hypershell/client.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/hypershell/client.py b/src/hypershell/client.py
index 079b7b3..37e3fb0 100644
--- a/src/hypershell/client.py
+++ b/src/hypershell/client.py
@@ -717,6 +717,7 @@ class ClientHeartbeat(StateMachine):
     previous: datetime = None
 
     no_wait: bool = False
+    registered: bool = False
     client_state: ClientState = ClientState.RUNNING
 
     state = HeartbeatState.START
@@ -746,9 +747,11 @@ class ClientHeartbeat(StateMachine):
     def submit(self: ClientHeartbeat) -> HeartbeatState:
         """Publish new heartbeat to remote queue."""
         try:
-            client_state = self.client_state  # atomic
+            # NOTE: always register, even if finished already (server must account for the disconnect request)
+            client_state = self.client_state if self.registered else ClientState.RUNNING  # atomic
             heartbeat = Heartbeat.new(state=client_state)
             self.queue.heartbeat.put(heartbeat.pack(), timeout=2)
+            self.registered = True
             if client_state is ClientState.RUNNING:
                 log.trace(f'Heartbeat - running ({heartbeat.host}: {heartbeat.uuid})')
                 return HeartbeatState.WAIT
-- 
2.43.0


From 23304184ba58ad6ca8741b43c7f06f9c3c0f8126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:16 +0000
Subject: [PATCH 14/63] fix: task attributes which look like a date are not
 converted in transport

---
 src/hypershell/data/model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/hypershell/data/model.py b/src/hypershell/data/model.py
index 3cae416..2b894e8 100644
--- a/src/hypershell/data/model.py
+++ b/src/hypershell/data/model.py
@@ -126,7 +126,9 @@ class Entity(DeclarativeBase):
     @classmethod
     def from_json(cls: Type[Entity], data: Dict[str, JSONValue]) -> Entity:
         """Build from JSON `text` string."""
-        return cls.from_dict({key: from_json_type(value) for key, value in data.items()})
+        # NOTE: other text (e.g., task args) may look like a date but must stay as it is
+        return cls.from_dict({key: from_json_type(value) if cls.columns.get(key) is datetime else value
+                              for key, value in data.items()})
 
     @classmethod
     def unpack(cls: Type[Entity], data: bytes) -> Entity:
-- 
2.43.0


From 4894e89357439ca452fdde6bb1c9276ec08220ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:16 +0000
Subject: [PATCH 15/63] fix: clients register before they take any tasks

---
 src/hypershell/client.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/hypershell/client.py b/src/hypershell/client.py
index 37e3fb0..4669cb0 100644
--- a/src/hypershell/client.py
+++ b/src/hypershell/client.py
@@ -717,7 +717,6 @@ class ClientHeartbeat(StateMachine):
     previous: datetime = None
 
     no_wait: bool = False
-    registered: bool = False
     client_state: ClientState = ClientState.RUNNING
 
     state = HeartbeatState.START
@@ -740,18 +739,22 @@ class ClientHeartbeat(StateMachine):
 
     @staticmethod
     def start() -> HeartbeatState:
-        """Jump to SUBMIT state."""
+        """Jump to WAIT state."""
         log.debug(f'Started (heartbeat)')
-        return HeartbeatState.SUBMIT
+        return HeartbeatState.WAIT
+
+    def register(self: ClientHeartbeat) -> None:
+        """Publish first heartbeat to remote queue."""
+        # NOTE: before taking any tasks (or the disconnect request), otherwise unknown to the server
+        self.submit()
+        self.previous = datetime.now()
 
     def submit(self: ClientHeartbeat) -> HeartbeatState:
         """Publish new heartbeat to remote queue."""
         try:
-            # NOTE: always register, even if finished already (server must account for the disconnect request)
-            client_state = self.client_state if self.registered else ClientState.RUNNING  # atomic
+            client_state = self.client_state  # atomic
             heartbeat = Heartbeat.new(state=client_state)
             self.queue.heartbeat.put(heartbeat.pack(), timeout=2)
-            self.registered = True
             if client_state is ClientState.RUNNING:
                 log.trace(f'Heartbeat - running ({heartbeat.host}: {heartbeat.uuid})')
                 return HeartbeatState.WAIT
@@ -792,6 +795,10 @@ class ClientHeartbeatThread(Thread):
         """Run machine."""
         self.machine.run()
 
+    def register(self: ClientHeartbeatThread) -> None:
+        """Announce client to server (call before start)."""
+        self.machine.register()
+
     def signal_finished(self: ClientHeartbeatThread) -> None:
         """Set client state to communicate completion."""
         self.machine.client_state = ClientState.FINISHED
@@ -966,6 +973,7 @@ class ClientThread(Thread):
 
     def start_threads(self: ClientThread) -> None:
         """Start child threads."""
+        self.heartbeat.register()
         self.scheduler.start()
         self.collector.start()
         self.heartbeat.start()
-- 
2.43.0


From 3060eb1895ab5284f013d92ee2afc366e2855c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:57 +0000
Subject: [PATCH 16/63] fix: executor does not close output streams shared with
 other executors

---
 src/hypershell/client.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/hypershell/client.py b/src/hypershell/client.py
index 4669cb0..a8f983a 100644
--- a/src/hypershell/client.py
+++ b/src/hypershell/client.py
@@ -656,10 +656,7 @@ class TaskExecutor(StateMachine):
     def finalize(self: TaskExecutor) -> TaskState:
         """Push out any remaining tasks and halt."""
         log.debug(f'Done (executor-{self.id})')
-        if self.redirect_output is not sys.stdout:
-            self.redirect_output.close()
-        if self.redirect_errors is not sys.stderr:
-            self.redirect_errors.close()
+        # NOTE: redirect streams are shared with other executors and closed by whoever opened them
         return TaskState.HALT
 
 
-- 
2.43.0


From 49b8d0ec341514dec7e7a124c113cfed0c16ead1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:57 +0000
Subject: [PATCH 17/63] fix: task which cannot be started is reported as failed
 (executor carries on)

---
 src/hypershell/client.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/hypershell/client.py b/src/hypershell/client.py
index a8f983a..f651411 100644
--- a/src/hypershell/client.py
+++ b/src/hypershell/client.py
@@ -561,9 +561,20 @@ class TaskExecutor(StateMachine):
         self.attempted_sigint = False
         self.attempted_sigterm = False
         self.attempted_sigkill = False
-        self.process = Popen(self.task.command, shell=True,
-                             stdout=self.redirect_output, stderr=self.redirect_errors,
-                             cwd=config.task.cwd, env=env)
+        try:
+            self.process = Popen(self.task.command, shell=True,
+                                 stdout=self.redirect_output, stderr=self.redirect_errors,
+                                 cwd=config.task.cwd, env=env)
+        except Exception as error:
+            # NOTE: e.g., embedded null or argument list too long
+            log.error(f'{error.__class__.__name__}: {error}')
+            if self.capture:
+                self.redirect_output.close()
+                self.redirect_errors.close()
+            self.task.completion_time = datetime.now().astimezone()
+            self.task.duration = int((self.task.completion_time - self.task.start_time).total_seconds())
+            self.task.exit_status = -1
+            return TaskState.PUT_LOCAL
         log.info(f'Running task ({self.task.id})')
         log.debug(f'Running task ({self.task.id}: {self.task.command})')
         log.trace(f'Running task ({self.task.id}: pid={self.process.pid}, argv={self.task.command})')
-- 
2.43.0


From 98f49d9d8cd69201dbe9b6616e42c83f181fb3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:57 +0000
Subject: [PATCH 18/63] fix: tasks confirmed by a client which is already
 evicted are reverted as well

---
 src/hypershell/server.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/hypershell/server.py b/src/hypershell/server.py
index 268c13b..5e5db4f 100644
--- a/src/hypershell/server.py
+++ b/src/hypershell/server.py
@@ -478,6 +478,7 @@ class HeartMonitor(StateMachine):
     scheduler_done: bool = False  # set by parent thread when scheduling is over
     should_signal: bool = False  # set by parent thread to signal clients
     signaled: Set[str]  # clients that disconnect has been requested from
+    evicted: Set[str]  # clients whose tasks might still need to be reverted
     latest_heartbeat: Heartbeat = None
 
     state = HeartbeatState.START
@@ -490,6 +491,7 @@ class HeartMonitor(StateMachine):
         self.last_check = datetime.now().astimezone()
         self.beats = {}
         self.signaled = set()
+        self.evicted = set()
         self.in_memory = in_memory
         self.no_confirm = no_confirm
         if evict_after >= 10:
@@ -587,6 +589,10 @@ class HeartMonitor(StateMachine):
                 if not self.in_memory and not self.no_confirm:
                     log.warning(f'Reverting orphaned tasks ({hb.host}: {uuid})')
                     Task.revert_orphaned(uuid)
+                    self.evicted.add(uuid)
+        # NOTE: last confirmations might only be recorded after the client is already evicted
+        for uuid in self.evicted.difference(self.beats):
+            Task.revert_orphaned(uuid)
         return HeartbeatState.SWITCH
 
     def signal_clients(self: HeartMonitor) -> HeartbeatState:
-- 
2.43.0


From 7982fa5ca8e89b59da70dbd7140f7a33c2801c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:50 +0000
Subject: [PATCH 19/63] fix: conditions with >= and <= are not parsed as > and
 <

---
 src/hypershell/task.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypershell/task.py b/src/hypershell/task.py
index a8c738d..81a6ec4 100644
--- a/src/hypershell/task.py
+++ b/src/hypershell/task.py
@@ -1057,7 +1057,7 @@ class WhereClause:
     value: Any
     operand: str
 
-    pattern = re.compile(r'^([a-z_]+)\s*(==|!=|>|>=|<|<=|~)\s*(.*)$')
+    pattern = re.compile(r'^([a-z_]+)\s*(==|!=|>=|<=|>|<|~)\s*(.*)$')
     op_call = {
         '==': lambda lhs, rhs: lhs == rhs,
         '!=': lambda lhs, rhs: lhs != rhs,
-- 
2.43.0


From 6c6369ebc308e99c5cf809bdd71404a0b5ef6110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:50 +0000
Subject: [PATCH 20/63] fix: validate all tags, also those which follow one
 without a value

---
 src/hypershell/data/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypershell/data/model.py b/src/hypershell/data/model.py
index 2b894e8..041cbd6 100644
--- a/src/hypershell/data/model.py
+++ b/src/hypershell/data/model.py
@@ -297,7 +297,7 @@ class Task(Entity):
                 raise TypeError(f'Invalid type for tag value, {type(value)})')
             if isinstance(value, str):
                 if not value.strip():
-                    return  # Empty value is a naked tag (no value).
+                    continue  # Empty value is a naked tag (no value).
                 if len(value) > 120:
                     raise ValueError(f'Tag size ({len(value)}) exceeds 120 characters ({key}: {value})')
                 if not re.match(r'^[A-Za-z0-9_.+-]+$', value):
-- 
2.43.0


From 9f9f802bfbb8de6c7eb61d40826e24fe682d2ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:50 +0000
Subject: [PATCH 21/63] fix: search for tags with real values such as 1.0

---
 src/hypershell/task.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypershell/task.py b/src/hypershell/task.py
index 81a6ec4..a23bfd9 100644
--- a/src/hypershell/task.py
+++ b/src/hypershell/task.py
@@ -436,7 +436,7 @@ class SearchableMixin:
             else:
                 query = query.filter(Task.tag[name].isnot(None))
         for name, value in tags_with_value.items():
-            if config.database.provider == 'sqlite' and value in (True, False):
+            if config.database.provider == 'sqlite' and isinstance(value, bool):
                 value = int(value)  # NOTE: SQLite stores as 0/1 not JSON true/false :(
             query = query.filter(Task.tag[name] == type_coerce(value, JSON))
         return query
-- 
2.43.0


From 78800d55570274404d229f901715000323ba20e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:50 +0000
Subject: [PATCH 22/63] fix: task update applies all changes to the same
 selection (also with a limit)

---
 src/hypershell/task.py | 104 +++++++++++++++--------------------------
 1 file changed, 37 insertions(+), 67 deletions(-)

diff --git a/src/hypershell/task.py b/src/hypershell/task.py
index a23bfd9..f4019b4 100644
--- a/src/hypershell/task.py
+++ b/src/hypershell/task.py
@@ -16,7 +16,6 @@ import csv
 import json
 import time
 import functools
-import itertools
 from datetime import timedelta, datetime
 from dataclasses import dataclass
 from shutil import copyfileobj
@@ -32,7 +31,7 @@ from sqlalchemy import Column, type_coerce, JSON, text, func, distinct
 from sqlalchemy.exc import StatementError
 from sqlalchemy.orm import Query
 from sqlalchemy.orm.exc import StaleDataError
-from sqlalchemy.sql.elements import BinaryExpression
+from sqlalchemy.sql.elements import BinaryExpression, TextClause
 
 # internal libs
 from hypershell.core.platform import default_path
@@ -860,8 +859,17 @@ class TaskUpdateApp(Application, SearchableMixin):
                 print(f'Stopping (invalid response: "{response}")')
                 return
 
+        if self.limit is None:
+            queries = [query, ]
+        else:
+            # We cannot apply an UPDATE or DELETE query with a LIMIT field
+            # The alternative is to pull the IDs and batch the changes
+            ids = [id for (id, ) in query.with_entities(Task.id)]
+            queries = [Task.query().filter(Task.id.in_(ids[i:i + 100])) for i in range(0, len(ids), 100)]
+
         if self.delete_mode:
-            query.delete()
+            for query in queries:
+                query.delete()
             Session.commit()
             log.info(f'Deleted {count} tasks')
             return
@@ -891,66 +899,14 @@ class TaskUpdateApp(Application, SearchableMixin):
             field_updates['waited'] = None
             field_updates['duration'] = None
 
-        if self.limit is not None:
-            # We cannot apply an UPDATE query with a LIMIT field
-            # The alternative is to pull the data and batch the update
-            # While terribly inefficient at least it has a LIMIT
-            if field_updates:
-                tasks = query.all()
-                tasks_it = iter(tasks)
-                while batch := tuple(itertools.islice(tasks_it, 100)):
-                    Task.update_all([{'id': task.id, **field_updates} for task in batch])
-            if tag_updates:
-                tasks = query.all()
-                tasks_it = iter(tasks)
-                while batch := tuple(itertools.islice(tasks_it, 100)):
-                    Task.update_all([{'id': task.id, 'tag': {**task.tag, **tag_updates}} for task in batch])
-            if self.remove_tag:
-                tasks = query.all()
-                tasks_it = iter(tasks)
-                while batch := tuple(itertools.islice(tasks_it, 100)):
-                    Task.update_all([
-                        {'id': task.id, 'tag': self.drop_items(task.tag, *self.remove_tag)}
-                        for task in batch
-                    ])
-            log.info(f'Updated {count} tasks')
-            return
-
-        if field_updates:
-            query.update(field_updates)
+        changes = {**field_updates}
+        if tag_updates or self.remove_tag:
+            # NOTE: must be a single query because one change can alter which tasks the next applies to
+            changes['tag'] = self.build_tag_expression(tag_updates, self.remove_tag or [])
 
-        if tag_updates:
-            if config.database.provider == 'sqlite':
-                tag_changes = {}
-                change_expr = 'json_set(task.tag'
-                for i, (k, v) in enumerate(tag_updates.items()):
-                    tag_changes[f'k{i}'] = f'$.{k}'
-                    tag_changes[f'v{i}'] = v
-                    change_expr += f', :k{i}, :v{i}'
-                change_expr += ')'
-                query.update({Task.tag: text(change_expr).params(tag_changes)})
-            else:
-                # We cannot stack inserts with Postgres
-                # Instead we do them with individual update queries
-                for i, (k, v) in enumerate(tag_updates.items()):
-                    change_expr = 'jsonb_set(task.tag, :key, :value)'
-                    params = {'key': '{' + k + '}', 'value': json.dumps(to_json_type(v))}
-                    query.update({Task.tag: text(change_expr).params(**params)})
-
-        if self.remove_tag:
-            if config.database.provider == 'sqlite':
-                tag_changes = {}
-                change_expr = 'json_remove(task.tag'
-                for i, name in enumerate(self.remove_tag):
-                    tag_changes[f'k{i}'] = f'$.{name}'
-                    change_expr += f', :k{i}'
-                change_expr += ')'
-                query.update({Task.tag: text(change_expr).params(tag_changes)})
-            else:
-                # We cannot stack subtractions with Postgres
-                # Instead we do them with individual update queries
-                for name in self.remove_tag:
-                    query.update({Task.tag: text('task.tag - :name').params(name=name)})
+        if changes:
+            for query in queries:
+                query.update(changes)
 
         Session.commit()
         log.info(f'Updated {count} tasks')
@@ -993,11 +949,25 @@ class TaskUpdateApp(Application, SearchableMixin):
         return field_updates, tag_updates
 
     @staticmethod
-    def drop_items(d: dict, *keys: str) -> dict:
-        """Drop items by key if they exist."""
-        for key in keys:
-            d.pop(key, None)
-        return d
+    def build_tag_expression(tag_updates: Dict[str, Any], remove_tag: List[str]) -> TextClause:
+        """Nested expression to apply all tag updates and then drop tags by name."""
+        expr, params = 'task.tag', {}
+        for i, (name, value) in enumerate(tag_updates.items()):
+            params[f'v{i}'] = json.dumps(to_json_type(value))
+            if config.database.provider == 'sqlite':
+                params[f'k{i}'] = f'$."{name}"'
+                expr = f'json_set({expr}, :k{i}, json(:v{i}))'
+            else:
+                params[f'k{i}'] = '{' + name + '}'
+                expr = f'jsonb_set({expr}, :k{i}, :v{i})'
+        for i, name in enumerate(remove_tag):
+            if config.database.provider == 'sqlite':
+                params[f'r{i}'] = f'$."{name}"'
+                expr = f'json_remove({expr}, :r{i})'
+            else:
+                params[f'r{i}'] = name
+                expr = f'({expr} - :r{i})'
+        return text(expr).params(**params)
 
 
 TASK_PROGRAM = 'hs task'
-- 
2.43.0


From 3013212f1263952ee2123ffae2655d09073c0601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:50 +0000
Subject: [PATCH 23/63] fix: search by the names of several tags at once

---
 src/hypershell/task.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypershell/task.py b/src/hypershell/task.py
index f4019b4..5c2ce18 100644
--- a/src/hypershell/task.py
+++ b/src/hypershell/task.py
@@ -431,7 +431,7 @@ class SearchableMixin:
             if config.database.provider == 'sqlite':
                 # NOTE: sqlalchemy adds `json_quote(json_extract(task.tag, ?)) is not null`
                 # and cannot find a way to exclude `json_quote`, so we do it ourselves
-                query = query.filter(text('json_extract(task.tag, :key) is not null')).params(key=f'$."{name}"')
+                query = query.filter(func.json_extract(Task.tag, f'$."{name}"').isnot(None))
             else:
                 query = query.filter(Task.tag[name].isnot(None))
         for name, value in tags_with_value.items():
-- 
2.43.0


From c9eaaa8e1b401b2bcd3ef9cbecfbcda3922ce462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:56 +0000
Subject: [PATCH 24/63] fix: template slices accept negative values

---
 src/hypershell/core/template.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypershell/core/template.py b/src/hypershell/core/template.py
index 4a3ed21..5c41bd6 100644
--- a/src/hypershell/core/template.py
+++ b/src/hypershell/core/template.py
@@ -171,7 +171,7 @@ class Template:
 
     def expand_slice(self: Template, args: str, key: str) -> str:
         """Expand slice `key` ([start][:stop][:step]) against args (on white space)."""
-        if re.match(r'(\d+)?:?(\d+)?:?(\d+)?$', key):
+        if re.match(r'(-?\d+)?(:(-?\d+)?)?(:(-?\d+)?)?$', key):
             result = eval(f'chunks[{key}]', {'chunks': args.split()})
             return ' '.join(result if isinstance(result, list) else [result, ])
         else:
-- 
2.43.0


From 90eb231ea2efde080b7b258706b082b0aca35081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:56 +0000
Subject: [PATCH 25/63] fix: template expressions are not cut off at the first
 = or %

---
 src/hypershell/core/template.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hypershell/core/template.py b/src/hypershell/core/template.py
index 5c41bd6..c4b4b31 100644
--- a/src/hypershell/core/template.py
+++ b/src/hypershell/core/template.py
@@ -124,9 +124,9 @@ class Template:
     def complex_patterns(self: Template) -> Dict[str, Callable[[str, str], str]]:
         """Map of complex patterns to their expansion routines."""
         return {
-            r'\[(.*?)]': self.expand_slice,
-            '=(.*?)=': self.expand_lambda,
-            '%(.*?)%': self.expand_shell,
+            r'\[(.*?)]$': self.expand_slice,
+            '=(.*?)=$': self.expand_lambda,
+            '%(.*?)%$': self.expand_shell,
         }
 
     @staticmethod
-- 
2.43.0


From 6ea5ba530e4bace8e8acb3b11c1707f04df7ffe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:34 +0000
Subject: [PATCH 26/63] fix: times keep their instant between hosts in
 different time zones

---
 src/hypershell/core/heartbeat.py |  2 +-
 src/hypershell/data/model.py     | 10 ++++++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/hypershell/core/heartbeat.py b/src/hypershell/core/heartbeat.py
index cd76d82..d191581 100644
--- a/src/hypershell/core/heartbeat.py
+++ b/src/hypershell/core/heartbeat.py
@@ -65,6 +65,6 @@ class Heartbeat:
     def unpack(cls: Type[Heartbeat], data: bytes) -> Heartbeat:
         """Deserialize from raw `data`."""
         data = json.loads(data.decode('utf-8'))
-        data['time'] = datetime.fromisoformat(data['time'])
+        data['time'] = datetime.fromisoformat(data['time']).astimezone()
         data['state'] = ClientState.from_value(data['state'])
         return cls(**data)
diff --git a/src/hypershell/data/model.py b/src/hypershell/data/model.py
index 041cbd6..759c70c 100644
--- a/src/hypershell/data/model.py
+++ b/src/hypershell/data/model.py
@@ -116,7 +116,10 @@ class Entity(DeclarativeBase):
 
     def pack(self: Entity) -> bytes:
         """Encode as raw JSON bytes."""
-        return json.dumps(self.to_json()).encode()
+        # NOTE: explicit time zone because the other side might be in a different one
+        data = {key: value if not isinstance(value, datetime) else value.astimezone()
+                for key, value in self.to_dict().items()}
+        return json.dumps({key: to_json_type(value) for key, value in data.items()}).encode()
 
     @classmethod
     def from_dict(cls: Type[Entity], data: Dict[str, VT]) -> Entity:
@@ -127,7 +130,10 @@ class Entity(DeclarativeBase):
     def from_json(cls: Type[Entity], data: Dict[str, JSONValue]) -> Entity:
         """Build from JSON `text` string."""
         # NOTE: other text (e.g., task args) may look like a date but must stay as it is
-        return cls.from_dict({key: from_json_type(value) if cls.columns.get(key) is datetime else value
+        # NOTE: local time zone because that is how it is stored (in case of sqlite backend)
+        data = {key: from_json_type(value) if cls.columns.get(key) is datetime else value
+                for key, value in data.items()}
+        return cls.from_dict({key: value if not isinstance(value, datetime) else value.astimezone()
                               for key, value in data.items()})
 
     @classmethod
-- 
2.43.0


From 793bac7e1eff2d85097f2199d550f858e2e694e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:59 +0000
Subject: [PATCH 27/63] fix: show text values as they are (with quotes, not cut
 off or escaped)

---
 src/hypershell/task.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/hypershell/task.py b/src/hypershell/task.py
index 5c2ce18..e4da791 100644
--- a/src/hypershell/task.py
+++ b/src/hypershell/task.py
@@ -178,7 +178,7 @@ class TaskInfoApp(Application):
     def print_field(self: TaskInfoApp) -> None:
         """Print single field."""
         if self.extract_field != 'tag':
-            print(json.dumps(self.task.to_json().get(self.extract_field)).strip('"'))
+            print(format_value(getattr(self.task, self.extract_field, None)))
         elif self.output_format == 'normal':
             print(', '.join(f'{k}:{v}' if v else k for k, v in self.task.tag.items()))
         else:
@@ -639,7 +639,7 @@ class TaskSearchApp(Application, SearchableMixin):
         for name in self.field_names:
             table.add_column(name)
         for record in results:
-            table.add_row(*[json.dumps(to_json_type(value)).strip('"') for value in record])
+            table.add_row(*[format_value(value) for value in record])
         Console().print(table)
 
     @staticmethod
@@ -652,7 +652,7 @@ class TaskSearchApp(Application, SearchableMixin):
     def print_plain(self: TaskSearchApp, results: List[Tuple]) -> None:
         """Print plain text output with given field names, one task per line."""
         for record in results:
-            data = [json.dumps(to_json_type(value)).strip('"') for value in record]
+            data = [format_value(value) for value in record]
             print(self.output_delimiter.join(map(str, data)))
 
     def print_json(self: TaskSearchApp, results: List[Tuple]) -> None:
@@ -1096,7 +1096,7 @@ class Tag:
 
 def print_normal(task: Task) -> None:
     """Print semi-structured task metadata with all field names."""
-    task_data = {k: json.dumps(to_json_type(v)).strip('"') for k, v in task.to_dict().items()}
+    task_data = {k: format_value(v) for k, v in task.to_dict().items()}
     task_data['waited'] = 'null' if not task.waited else timedelta(seconds=int(task_data['waited']))
     task_data['duration'] = 'null' if not task.duration else timedelta(seconds=int(task_data['duration']))
     task_data['tag'] = ', '.join(format_tag(k, v) for k, v in task.tag.items())
@@ -1120,6 +1120,12 @@ def print_normal(task: Task) -> None:
     print(f'        tags: {task_data["tag"]}')
 
 
+def format_value(value: Any) -> str:
+    """Format as plain text (without quotes or escape sequences)."""
+    value = to_json_type(value)
+    return value if isinstance(value, str) else json.dumps(value)
+
+
 def format_tag(key: str, value: JSONValue) -> str:
     """Format as `key` or `key:value` if not empty string."""
     if isinstance(value, str) and not value:
-- 
2.43.0


From 081aece260678f19542af269f593241c9e2a56b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:10 +0000
Subject: [PATCH 28/63] fix: task info shows tags with zero or false values

---
 src/hypershell/task.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypershell/task.py b/src/hypershell/task.py
index e4da791..7721764 100644
--- a/src/hypershell/task.py
+++ b/src/hypershell/task.py
@@ -180,7 +180,7 @@ class TaskInfoApp(Application):
         if self.extract_field != 'tag':
             print(format_value(getattr(self.task, self.extract_field, None)))
         elif self.output_format == 'normal':
-            print(', '.join(f'{k}:{v}' if v else k for k, v in self.task.tag.items()))
+            print(', '.join(format_tag(k, v) for k, v in self.task.tag.items()))
         else:
             formatter = self.format_method[self.output_format]
             output = formatter(self.task.tag)
-- 
2.43.0


From 79122da13852e33fff5eaa4ba8aa7f6d25a23156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:22 +0000
Subject: [PATCH 29/63] fix: options defined as _env or _eval variant override
 the default

---
 src/hypershell/core/config.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/hypershell/core/config.py b/src/hypershell/core/config.py
index 8e5f855..61f726d 100644
--- a/src/hypershell/core/config.py
+++ b/src/hypershell/core/config.py
@@ -227,9 +227,27 @@ class LoaderImpl(Protocol):
                  **preload: Namespace) -> Configuration: ...
 
 
+def drop_variants(base: Configuration, section: Namespace = None, *varpath: str) -> Configuration:
+    """Only keep the variant (i.e., plain, `_env`, or `_eval`) of an option with the highest precedence."""
+    section = base if section is None else section
+    order = list(base.namespaces)
+    for name, value in list(section.items()):
+        if isinstance(value, dict):
+            drop_variants(base, value, *varpath, name)
+            continue
+        plain = re.sub(r'_(env|eval)$', '', name)
+        rank = order.index(base.which(*varpath, name))
+        for variant in {plain, f'{plain}_env', f'{plain}_eval'} & set(section) - {name}:
+            if order.index(base.which(*varpath, variant)) > rank:
+                del section[name]
+                break
+    return base
+
+
 def build_configuration(loader: LoaderImpl) -> Configuration:
     """Construct full configuration."""
-    return loader(preload=build_preloads(base=loader()))
+    base = drop_variants(loader())
+    return drop_variants(loader(preload=build_preloads(base)))
 
 
 def load() -> Configuration:
-- 
2.43.0


From eb9928dd9c7c30390be8f5568372045060dcb090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:36 +0000
Subject: [PATCH 30/63] fix: exported variables keep their names and values
 (HYPERSHELL_EXPORT_XXX)

---
 src/hypershell/core/config.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/hypershell/core/config.py b/src/hypershell/core/config.py
index 61f726d..7f9ec63 100644
--- a/src/hypershell/core/config.py
+++ b/src/hypershell/core/config.py
@@ -372,4 +372,8 @@ def __collapse_lists(ns: Namespace) -> Namespace:
 @functools.cache
 def load_task_env() -> Environ:
     """Export environment defined in `config.export`."""
-    return __collapse_lists(config.export).to_env().flatten()
+    # NOTE: variables are taken as they are (names with underscores, values without type coercion)
+    prefix = 'HYPERSHELL_EXPORT_'
+    return Environ(defaults={**__collapse_lists(config.export).to_env().flatten(),
+                             **{name[len(prefix):]: value for name, value in os.environ.items()
+                                if name.startswith(prefix) and name != prefix}})
-- 
2.43.0


From 4d1fa262ce29fed7e7bf22bf1cac6d914f591dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:30 +0000
Subject: [PATCH 31/63] fix: config get prints text as it is (quotes are not
 cut off)

---
 src/hypershell/config.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/hypershell/config.py b/src/hypershell/config.py
index 2300b93..a302679 100644
--- a/src/hypershell/config.py
+++ b/src/hypershell/config.py
@@ -218,15 +218,14 @@ class ConfigGetApp(Application):
 
     def print_output(self: ConfigGetApp, value: Any) -> None:
         """Format and print final `value`."""
-        value = self.format_output(value)
         if sys.stdout.isatty() and not self.raw_mode:
-            output = Syntax(value, 'toml', word_wrap=True,
+            output = Syntax(self.format_output(value), 'toml', word_wrap=True,
                             theme = full_config.console.theme,
                             background_color = 'default')
             Console().print(output)
         else:
             # NOTE: JSON formatting puts quotations - we don't want these on raw output
-            print(value.strip('"'), file=sys.stdout, flush=True)
+            print(value if isinstance(value, str) else self.format_output(value), file=sys.stdout, flush=True)
 
     def format_output(self: ConfigGetApp, value: Any) -> str:
         """Format `value` as appropriate text."""
-- 
2.43.0


From 8ce303998910894b72dcae206669c1aaaf32fb70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:48 +0000
Subject: [PATCH 32/63] fix: read configuration files with the library which
 writes them (values of quotes were lost)

---
 src/hypershell/core/config.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hypershell/core/config.py b/src/hypershell/core/config.py
index 7f9ec63..fbbb05b 100644
--- a/src/hypershell/core/config.py
+++ b/src/hypershell/core/config.py
@@ -137,7 +137,8 @@ def reload_file(filepath: str) -> Namespace:
     if not os.path.exists(filepath):
         return Namespace({})
     try:
-        return Namespace.from_toml(filepath)
+        with open(filepath, mode='r') as stream:
+            return Namespace(tomlkit.load(stream).unwrap())
     except Exception as err:
         raise ConfigurationError(f'(from file: {filepath}) {err.__class__.__name__}: {err}')
 
-- 
2.43.0


From a93413b164e25da09054b6c5df4d8d76b9a0237a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:25 +0000
Subject: [PATCH 33/63] fix: config get prints sections which contain control
 characters

---
 src/hypershell/config.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/hypershell/config.py b/src/hypershell/config.py
index a302679..8950cff 100644
--- a/src/hypershell/config.py
+++ b/src/hypershell/config.py
@@ -237,10 +237,13 @@ class ConfigGetApp(Application):
 
     def format_section(self: ConfigGetApp, value: dict) -> str:
         """Format an entire section for output."""
+        # NOTE: The text encoder of the `toml` library fails on control characters
+        encoder = toml.TomlEncoder()
+        encoder.dump_funcs[str] = lambda text: json.dumps(text, ensure_ascii=False)
         if self.varpath == '.':
-            value = toml.dumps(value)
+            value = toml.dumps(value, encoder)
         else:
-            value = toml.dumps({self.varpath: value})
+            value = toml.dumps({self.varpath: value}, encoder)
         # NOTE: Fix weird formatting of section headings.
         #       The `toml.dumps` output has unnecessary quoting.
         lines = []
-- 
2.43.0


From f844d51dd75f912a51ae609d3895ba6697f1e433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:15 +0000
Subject: [PATCH 34/63] fix: servers and clusters use eager mode when asked to
 (--eager, server.eager)

---
 src/hypershell/cluster/__init__.py | 7 ++++---
 src/hypershell/server.py           | 2 +-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/hypershell/cluster/__init__.py b/src/hypershell/cluster/__init__.py
index 6ea63b2..8086979 100644
--- a/src/hypershell/cluster/__init__.py
+++ b/src/hypershell/cluster/__init__.py
@@ -128,10 +128,10 @@ class ClusterApp(Application):
     delay_start: float = DEFAULT_DELAY
     interface.add_argument('-d', '--delay-start', type=float, default=delay_start)
 
-    eager_mode: bool = False
+    eager_mode: bool = config.server.eager
     max_retries: int = DEFAULT_ATTEMPTS - 1
     interface.add_argument('-r', '--max-retries', type=int, default=max_retries)
-    interface.add_argument('--eager', action='store_true', dest='eager_mode')
+    interface.add_argument('--eager', action='store_true', default=eager_mode, dest='eager_mode')
 
     in_memory: bool = False
     auto_initdb: bool = False
@@ -211,7 +211,8 @@ class ClusterApp(Application):
         """Run cluster."""
         launcher = self.launchers.get(self.mode)
         launcher(source=self.source, num_tasks=self.num_tasks, template=self.template,
-                 bundlesize=self.bundlesize, bundlewait=self.bundlewait, max_retries=self.max_retries,
+                 bundlesize=self.bundlesize, bundlewait=self.bundlewait,
+                 max_retries=self.max_retries, eager=self.eager_mode,
                  in_memory=self.in_memory, no_confirm=self.no_confirm, forever_mode=self.forever_mode,
                  restart_mode=self.restart_mode, redirect_failures=self.failure_stream,
                  delay_start=self.delay_start, capture=self.capture,
diff --git a/src/hypershell/server.py b/src/hypershell/server.py
index 5e5db4f..cd89e59 100644
--- a/src/hypershell/server.py
+++ b/src/hypershell/server.py
@@ -1140,7 +1140,7 @@ class ServerApp(Application):
     eager_mode: bool = config.server.eager
     max_retries: int = config.server.attempts - 1
     interface.add_argument('-r', '--max-retries', type=int, default=max_retries)
-    interface.add_argument('--eager', action='store_true')
+    interface.add_argument('--eager', action='store_true', default=eager_mode, dest='eager_mode')
 
     forever_mode: bool = False
     interface.add_argument('--forever', action='store_true', dest='forever_mode')
-- 
2.43.0


From 21ba5241ba0142e16881bd58b8aba2f7fac2825c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:15 +0000
Subject: [PATCH 35/63] fix: clusters use the configured number of attempts
 (server.attempts)

---
 src/hypershell/cluster/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypershell/cluster/__init__.py b/src/hypershell/cluster/__init__.py
index 8086979..3a0b0ea 100644
--- a/src/hypershell/cluster/__init__.py
+++ b/src/hypershell/cluster/__init__.py
@@ -129,7 +129,7 @@ class ClusterApp(Application):
     interface.add_argument('-d', '--delay-start', type=float, default=delay_start)
 
     eager_mode: bool = config.server.eager
-    max_retries: int = DEFAULT_ATTEMPTS - 1
+    max_retries: int = config.server.attempts - 1
     interface.add_argument('-r', '--max-retries', type=int, default=max_retries)
     interface.add_argument('--eager', action='store_true', default=eager_mode, dest='eager_mode')
 
-- 
2.43.0


From b6cef871aea2cf84811a3d5e2e0726a411d765e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:15 +0000
Subject: [PATCH 36/63] fix: clusters use the given or configured port, also
 with local clients

---
 src/hypershell/cluster/__init__.py |  5 +++--
 src/hypershell/cluster/local.py    | 11 +++++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/hypershell/cluster/__init__.py b/src/hypershell/cluster/__init__.py
index 3a0b0ea..7b1bd7f 100644
--- a/src/hypershell/cluster/__init__.py
+++ b/src/hypershell/cluster/__init__.py
@@ -168,7 +168,7 @@ class ClusterApp(Application):
     export_env: bool = False
     interface.add_argument('-E', '--env', action='store_true', dest='export_env')
 
-    port: int = QueueConfig.port
+    port: int = config.server.port
     interface.add_argument('-p', '--port', default=port, type=int)
 
     capture: bool = False
@@ -221,7 +221,8 @@ class ClusterApp(Application):
 
     def run_local(self: ClusterApp, **options) -> None:
         """Run local cluster."""
-        run_local(**options, redirect_output=self.output_stream, redirect_errors=self.errors_stream)
+        run_local(**options, bind=(QueueConfig.host, self.port),
+                  redirect_output=self.output_stream, redirect_errors=self.errors_stream)
 
     def run_launch(self: ClusterApp, **options) -> None:
         """Run remote cluster with custom launcher."""
diff --git a/src/hypershell/cluster/local.py b/src/hypershell/cluster/local.py
index 7ded8b5..f5e3c58 100644
--- a/src/hypershell/cluster/local.py
+++ b/src/hypershell/cluster/local.py
@@ -6,7 +6,7 @@
 
 # type annotations
 from __future__ import annotations
-from typing import Iterable, IO
+from typing import Tuple, Iterable, IO
 
 # standard libs
 import time
@@ -17,7 +17,7 @@ from hypershell.core.thread import Thread
 from hypershell.core.logging import Logger
 from hypershell.core.template import DEFAULT_TEMPLATE
 from hypershell.submit import DEFAULT_BUNDLEWAIT
-from hypershell.server import ServerThread, DEFAULT_BUNDLESIZE, DEFAULT_ATTEMPTS
+from hypershell.server import ServerThread, DEFAULT_BIND, DEFAULT_PORT, DEFAULT_BUNDLESIZE, DEFAULT_ATTEMPTS
 from hypershell.client import ClientThread, DEFAULT_DELAY, DEFAULT_SIGNALWAIT, set_client_standalone
 
 # public interface
@@ -76,6 +76,10 @@ class LocalCluster(Thread):
             Waiting period in seconds before forcing return of task bundle to server.
             See :const:`~hypershell.server.DEFAULT_BUNDLEWAIT`.
 
+        bind (tuple, optional):
+            Bind address for server with port number (default: localhost).
+            See :const:`~hypershell.server.DEFAULT_PORT`.
+
         in_memory (bool, optional):
             If True, revert to basic in-memory queue.
 
@@ -151,6 +155,7 @@ class LocalCluster(Thread):
                  template: str = DEFAULT_TEMPLATE,
                  bundlesize: int = DEFAULT_BUNDLESIZE,
                  bundlewait: int = DEFAULT_BUNDLEWAIT,
+                 bind: Tuple[str, int] = (DEFAULT_BIND, DEFAULT_PORT),
                  in_memory: bool = False,
                  no_confirm: bool = False,
                  forever_mode: bool = False,
@@ -170,6 +175,7 @@ class LocalCluster(Thread):
         self.server = ServerThread(source=source,
                                    bundlesize=bundlesize,
                                    bundlewait=bundlewait,
+                                   address=bind,
                                    auth=auth,
                                    in_memory=in_memory,
                                    no_confirm=no_confirm,
@@ -182,6 +188,7 @@ class LocalCluster(Thread):
                                    template=template,
                                    bundlesize=bundlesize,
                                    bundlewait=bundlewait,
+                                   address=bind,
                                    auth=auth,
                                    no_confirm=no_confirm,
                                    redirect_output=redirect_output,
-- 
2.43.0


From 1d4c22fb9752e4a0aebafbef4193df6229c2014c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:15 +0000
Subject: [PATCH 37/63] fix: clusters use the configured eviction period, and
 heart rate of local clients

---
 src/hypershell/cluster/local.py  | 5 ++++-
 src/hypershell/cluster/remote.py | 8 +++++---
 src/hypershell/cluster/ssh.py    | 3 ++-
 3 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/hypershell/cluster/local.py b/src/hypershell/cluster/local.py
index f5e3c58..6734cd0 100644
--- a/src/hypershell/cluster/local.py
+++ b/src/hypershell/cluster/local.py
@@ -13,6 +13,7 @@ import time
 import secrets
 
 # internal libs
+from hypershell.core.config import config
 from hypershell.core.thread import Thread
 from hypershell.core.logging import Logger
 from hypershell.core.template import DEFAULT_TEMPLATE
@@ -183,7 +184,8 @@ class LocalCluster(Thread):
                                    eager=eager,
                                    forever_mode=forever_mode,
                                    restart_mode=restart_mode,
-                                   redirect_failures=redirect_failures)
+                                   redirect_failures=redirect_failures,
+                                   evict_after=config.server.evict)
         self.client = ClientThread(num_tasks=num_tasks,
                                    template=template,
                                    bundlesize=bundlesize,
@@ -191,6 +193,7 @@ class LocalCluster(Thread):
                                    address=bind,
                                    auth=auth,
                                    no_confirm=no_confirm,
+                                   heartrate=config.client.heartrate,
                                    redirect_output=redirect_output,
                                    redirect_errors=redirect_errors,
                                    delay_start=delay_start,
diff --git a/src/hypershell/cluster/remote.py b/src/hypershell/cluster/remote.py
index 57dee7f..a5db190 100644
--- a/src/hypershell/cluster/remote.py
+++ b/src/hypershell/cluster/remote.py
@@ -21,7 +21,7 @@ from subprocess import Popen
 
 # internal libs
 from hypershell.core.fsm import State, StateMachine
-from hypershell.core.config import default, load_task_env
+from hypershell.core.config import config, default, load_task_env
 from hypershell.core.thread import Thread
 from hypershell.core.logging import Logger, HOSTNAME
 from hypershell.core.template import DEFAULT_TEMPLATE
@@ -222,7 +222,8 @@ class RemoteCluster(Thread):
                                    eager=eager,
                                    forever_mode=forever_mode,
                                    restart_mode=restart_mode,
-                                   redirect_failures=redirect_failures)
+                                   redirect_failures=redirect_failures,
+                                   evict_after=config.server.evict)
         launcher = shlex.split(launcher)
         if launcher_args is None:
             launcher_args = []
@@ -682,7 +683,8 @@ class AutoScalingCluster(Thread):
         auth = secrets.token_hex(64)
         self.server = ServerThread(source=source, auth=auth, bundlesize=bundlesize, bundlewait=bundlewait,
                                    max_retries=max_retries, eager=eager, address=bind, forever_mode=True,
-                                   redirect_failures=redirect_failures)
+                                   redirect_failures=redirect_failures,
+                                   evict_after=config.server.evict)
         launcher = shlex.split(launcher)
         if launcher_args is None:
             launcher_args = []
diff --git a/src/hypershell/cluster/ssh.py b/src/hypershell/cluster/ssh.py
index 7bda57b..8e0806d 100644
--- a/src/hypershell/cluster/ssh.py
+++ b/src/hypershell/cluster/ssh.py
@@ -218,7 +218,8 @@ class SSHCluster(Thread):
                                    eager=eager,
                                    forever_mode=forever_mode,
                                    restart_mode=restart_mode,
-                                   redirect_failures=redirect_failures)
+                                   redirect_failures=redirect_failures,
+                                   evict_after=config.server.evict)
         launcher = shlex.split(launcher)
         launcher_env = shlex.split('' if not export_env else compile_env())
         if launcher_args is None:
-- 
2.43.0


From 4e2656deb402ae2d25029c69ef786a395ae6b50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:15 +0000
Subject: [PATCH 38/63] fix: clusters retry as often by default as when run
 from the command line

---
 src/hypershell/cluster/local.py  | 2 +-
 src/hypershell/cluster/remote.py | 4 ++--
 src/hypershell/cluster/ssh.py    | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/hypershell/cluster/local.py b/src/hypershell/cluster/local.py
index 6734cd0..12cedb3 100644
--- a/src/hypershell/cluster/local.py
+++ b/src/hypershell/cluster/local.py
@@ -161,7 +161,7 @@ class LocalCluster(Thread):
                  no_confirm: bool = False,
                  forever_mode: bool = False,
                  restart_mode: bool = False,
-                 max_retries: int = DEFAULT_ATTEMPTS,
+                 max_retries: int = DEFAULT_ATTEMPTS - 1,
                  eager: bool = False,
                  redirect_failures: IO = None,
                  redirect_output: IO = None,
diff --git a/src/hypershell/cluster/remote.py b/src/hypershell/cluster/remote.py
index a5db190..5e0bb00 100644
--- a/src/hypershell/cluster/remote.py
+++ b/src/hypershell/cluster/remote.py
@@ -201,7 +201,7 @@ class RemoteCluster(Thread):
                  no_confirm: bool = False,
                  forever_mode: bool = False,
                  restart_mode: bool = False,
-                 max_retries: int = DEFAULT_ATTEMPTS,
+                 max_retries: int = DEFAULT_ATTEMPTS - 1,
                  eager: bool = False,
                  redirect_failures: IO = None,
                  delay_start: float = DEFAULT_DELAY,
@@ -664,7 +664,7 @@ class AutoScalingCluster(Thread):
                  no_confirm: bool = False,  # noqa: ignored (passed by ClusterApp)
                  forever_mode: bool = False,  # noqa: ignored (passed by ClusterApp)
                  restart_mode: bool = False,  # noqa: ignored (passed by ClusterApp)
-                 max_retries: int = DEFAULT_ATTEMPTS,
+                 max_retries: int = DEFAULT_ATTEMPTS - 1,
                  eager: bool = False,
                  redirect_failures: IO = None,
                  delay_start: float = DEFAULT_DELAY,
diff --git a/src/hypershell/cluster/ssh.py b/src/hypershell/cluster/ssh.py
index 8e0806d..806bd65 100644
--- a/src/hypershell/cluster/ssh.py
+++ b/src/hypershell/cluster/ssh.py
@@ -195,7 +195,7 @@ class SSHCluster(Thread):
                  no_confirm: bool = False,
                  forever_mode: bool = False,
                  restart_mode: bool = False,
-                 max_retries: int = DEFAULT_ATTEMPTS,
+                 max_retries: int = DEFAULT_ATTEMPTS - 1,
                  eager: bool = False,
                  redirect_failures: IO = None,
                  delay_start: float = DEFAULT_DELAY,
-- 
2.43.0


From 598d3111ddbdff0b550e1c5376e405ca8aabc304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:15 +0000
Subject: [PATCH 39/63] fix: clients use the configured bundle size and wait of
 clients

---
 src/hypershell/client.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hypershell/client.py b/src/hypershell/client.py
index f651411..4cf6884 100644
--- a/src/hypershell/client.py
+++ b/src/hypershell/client.py
@@ -1184,10 +1184,10 @@ class ClientApp(Application):
     template: str = DEFAULT_TEMPLATE
     interface.add_argument('-t', '--template', default=template)
 
-    bundlesize: int = config.submit.bundlesize
+    bundlesize: int = config.client.bundlesize
     interface.add_argument('-b', '--bundlesize', type=int, default=bundlesize)
 
-    bundlewait: int = config.submit.bundlewait
+    bundlewait: int = config.client.bundlewait
     interface.add_argument('-w', '--bundlewait', type=int, default=bundlewait)
 
     delay_start: float = DEFAULT_DELAY
-- 
2.43.0


From 15a7327431671f69879b1790c76580fb2bba4993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:15 +0000
Subject: [PATCH 40/63] fix: the scheduler waits as long as configured between
 queries (server.wait)

---
 src/hypershell/server.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypershell/server.py b/src/hypershell/server.py
index cd89e59..0b4276b 100644
--- a/src/hypershell/server.py
+++ b/src/hypershell/server.py
@@ -185,7 +185,7 @@ class Scheduler(StateMachine):
             # NOTE: the last result may have arrived after our selection and could still be in need of a retry
             return SchedulerState.LOAD if self.has_failed_tasks() else SchedulerState.FINAL
         else:
-            time.sleep(DEFAULT_QUERY_PAUSE)
+            time.sleep(config.server.wait)
             return SchedulerState.LOAD
 
     def has_failed_tasks(self: Scheduler) -> bool:
-- 
2.43.0


From f90fef218bcd7c3c57df0eb8985638d71a00f166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:15 +0000
Subject: [PATCH 41/63] fix: templates with quotes arrive at clients launched
 by ssh

---
 src/hypershell/cluster/ssh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypershell/cluster/ssh.py b/src/hypershell/cluster/ssh.py
index 806bd65..283f4c6 100644
--- a/src/hypershell/cluster/ssh.py
+++ b/src/hypershell/cluster/ssh.py
@@ -236,7 +236,7 @@ class SSHCluster(Thread):
         self.client_argv = [
             [*launcher, *launcher_args, host, *launcher_env, remote_exe, 'client', '-H', HOSTNAME,
              '-p', str(bind[1]), '-N', str(num_tasks), '-b', str(bundlesize), '-w', str(bundlewait),
-             '-t', f'\'{template}\'', '-k', auth, '-d', str(delay_start),
+             '-t', shlex.quote(template), '-k', auth, '-d', str(delay_start),
              '-S', str(task_signalwait), *client_args]
             for host in nodelist
         ]
-- 
2.43.0


From 1068fecaeb791702e9f5168cb29b4ddbd2d64201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:15 +0000
Subject: [PATCH 42/63] fix: use configured arguments for ssh

---
 src/hypershell/cluster/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hypershell/cluster/__init__.py b/src/hypershell/cluster/__init__.py
index 7b1bd7f..34c7679 100644
--- a/src/hypershell/cluster/__init__.py
+++ b/src/hypershell/cluster/__init__.py
@@ -240,7 +240,8 @@ class ClusterApp(Application):
             nodelist = NodeList.from_config(self.ssh_group)
         else:
             nodelist = NodeList.from_cmdline(self.ssh_mode if self.ssh_mode != '<default>' else None)
-        run_ssh(**options, launcher='ssh', launcher_args=shlex.split(self.ssh_args), nodelist=nodelist,
+        launcher_args = None if not self.ssh_args else shlex.split(self.ssh_args)
+        run_ssh(**options, launcher='ssh', launcher_args=launcher_args, nodelist=nodelist,
                 remote_exe=self.remote_exe, bind=('0.0.0.0', self.port), export_env=self.export_env)
 
     def run_autoscaling(self: ClusterApp, **options) -> None:
-- 
2.43.0


From 20ef97e9eb170d22de497b302f45568162717417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:15 +0000
Subject: [PATCH 43/63] fix: exported variables with spaces or quotes arrive at
 clients launched by ssh

---
 src/hypershell/cluster/ssh.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hypershell/cluster/ssh.py b/src/hypershell/cluster/ssh.py
index 283f4c6..0b6d314 100644
--- a/src/hypershell/cluster/ssh.py
+++ b/src/hypershell/cluster/ssh.py
@@ -221,7 +221,7 @@ class SSHCluster(Thread):
                                    redirect_failures=redirect_failures,
                                    evict_after=config.server.evict)
         launcher = shlex.split(launcher)
-        launcher_env = shlex.split('' if not export_env else compile_env())
+        launcher_env = [] if not export_env else compile_env()
         if launcher_args is None:
             launcher_args = shlex.split(config.ssh.get('args', ''))
         client_args = []
@@ -347,6 +347,6 @@ class NodeList(list):
         return result
 
 
-def compile_env() -> str:
+def compile_env() -> List[str]:
     """Build environment variable argument expansion for remote client launch command."""
-    return ' '.join([f'{key}="{value}"' for key, value in Namespace.from_env('HYPERSHELL').items()])
+    return [f'{key}={shlex.quote(value)}' for key, value in Namespace.from_env('HYPERSHELL').items()]
-- 
2.43.0


From 437c9626f6029b5e83472bbf3519b4b2c93bb90a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:15 +0000
Subject: [PATCH 44/63] fix: estimate completion rate of clients with SQLite
 (dynamic autoscaling failed)

---
 src/hypershell/data/model.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/hypershell/data/model.py b/src/hypershell/data/model.py
index 759c70c..67b8de7 100644
--- a/src/hypershell/data/model.py
+++ b/src/hypershell/data/model.py
@@ -507,10 +507,11 @@ class Task(Entity):
     def effective_rate_by_client(cls: Type[Task]) -> Optional[Dict[str, float]]:
         """Effective completion rate in tasks per second by client."""
         if server_id := cls.latest_server():
-            return {id: 1 / dt.total_seconds() for id, dt in (
+            # NOTE: dates are subtracted here because not all providers know how
+            return {id: count / (last - first).total_seconds() for id, first, last, count in (
                 cls.query(
                     cls.client_id,
-                    (func.max(cls.completion_time) - func.min(cls.start_time)) / func.count(cls.id)
+                    func.min(cls.start_time), func.max(cls.completion_time), func.count(cls.id)
                 )
                 .join(Client, Task.client_id == Client.id)
                 .filter(cls.server_id == server_id)
-- 
2.43.0


From dd22dd05fd8ff67f007355db40082b8f96a993dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:15 +0000
Subject: [PATCH 45/63] fix: cancelled tasks do not tell which server is the
 latest

---
 src/hypershell/data/model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hypershell/data/model.py b/src/hypershell/data/model.py
index 67b8de7..df4692d 100644
--- a/src/hypershell/data/model.py
+++ b/src/hypershell/data/model.py
@@ -495,6 +495,7 @@ class Task(Entity):
         if records := (
                 cls.query(cls.server_id)
                 .filter(cls.schedule_time.isnot(None))
+                .filter(cls.completion_time.isnot(None) | cls.exit_status.is_(None))  # NOTE: otherwise cancelled
                 .order_by(func.max(cls.schedule_time).desc())
                 .group_by(cls.server_id)
                 .first()
-- 
2.43.0


From a2f725c9567278fda337e4662838da55b5b4c19e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:15 +0000
Subject: [PATCH 46/63] fix: dynamic autoscaling also if tasks take less than a
 second

---
 src/hypershell/data/model.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/hypershell/data/model.py b/src/hypershell/data/model.py
index df4692d..4e978ba 100644
--- a/src/hypershell/data/model.py
+++ b/src/hypershell/data/model.py
@@ -536,14 +536,14 @@ class Task(Entity):
     def avg_duration(cls: Type[Task]) -> Optional[float]:
         """Average task duration by active clients."""
         if server_id := cls.latest_server():
-            if duration := (
+            if (duration := (
                 cls.query(func.avg(cls.duration))
                 .join(Client, Task.client_id == Client.id)
                 .filter(cls.server_id == server_id)
                 .filter(cls.duration.isnot(None))
                 .filter(Client.disconnected_at == None)  # noqa: comparison to None
                 .one()[0]
-            ):
+            )) is not None:
                 return float(duration)
             else:
                 return None
@@ -561,9 +561,10 @@ class Task(Entity):
     @classmethod
     def task_pressure(cls: Type[Task], factor: float) -> Optional[float]:
         """Ratio of current ETC to relative `factor` of task duration."""
-        if avg_duration := cls.avg_duration():
+        if (avg_duration := cls.avg_duration()) is not None:
             if toc := cls.time_to_completion():
-                return toc / (factor * avg_duration)
+                # NOTE: durations are in whole seconds, so zero is anything less than one
+                return toc / (factor * (avg_duration or 1))
             else:
                 return None
         else:
-- 
2.43.0


From fe6cfcde9a446216bfd728360a1d668a8aaf31f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:10 +0000
Subject: [PATCH 47/63] fix: tell another client again to disconnect if its
 request was taken by one not told

---
 src/hypershell/server.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/hypershell/server.py b/src/hypershell/server.py
index 0b4276b..b5b9f0f 100644
--- a/src/hypershell/server.py
+++ b/src/hypershell/server.py
@@ -553,6 +553,7 @@ class HeartMonitor(StateMachine):
             return HeartbeatState.SWITCH
         else:
             log.trace(f'Client disconnected ({hb.host}: {hb.uuid})')
+            self.check_signaled(hb.uuid)
             if hb.uuid in self.beats:
                 self.beats.pop(hb.uuid)
                 if not self.in_memory:
@@ -583,6 +584,7 @@ class HeartMonitor(StateMachine):
             age = self.last_check - hb.time
             if age > self.evict_after:
                 log.warning(f'Evicting client ({hb.host}: {uuid})')
+                self.check_signaled(uuid)
                 self.beats.pop(uuid)
                 if not self.in_memory:
                     Client.update(hb.uuid, disconnected_at=datetime.now().astimezone(), evicted=True)
@@ -595,6 +597,13 @@ class HeartMonitor(StateMachine):
             Task.revert_orphaned(uuid)
         return HeartbeatState.SWITCH
 
+    def check_signaled(self: HeartMonitor, uuid: str) -> None:
+        """Signal some other client again if departing client (`uuid`) might have taken its disconnect request."""
+        if uuid not in self.signaled:
+            others = self.signaled.intersection(self.beats)
+            if others:
+                self.signaled.remove(others.pop())
+
     def signal_clients(self: HeartMonitor) -> HeartbeatState:
         """Send shutdown signal to all connected clients."""
         log.debug(f'Signaling clients ({len(self.beats)} connected)')
-- 
2.43.0


From 4611d20f200bc550373299ad3675d9e919aea462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:35 +0000
Subject: [PATCH 48/63] fix: stop also if all submitted tasks were cancelled or
 finished before the scheduler selected any

---
 src/hypershell/server.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hypershell/server.py b/src/hypershell/server.py
index b5b9f0f..d2f0ac1 100644
--- a/src/hypershell/server.py
+++ b/src/hypershell/server.py
@@ -241,6 +241,7 @@ class SchedulerThread(Thread):
 
     def signal_submit_done(self: SchedulerThread) -> None:
         """Set flag to tell scheduler that all tasks have been submitted."""
+        self.machine.startup_phase = False  # NOTE: tasks might all be finished (or cancelled) without us
         self.machine.submit_done = True
 
     def stop(self: SchedulerThread, wait: bool = False, timeout: int = None) -> None:
-- 
2.43.0


From 2efaaec78fcbc79c20e87ec7bb92e42e7abf9077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:26 +0000
Subject: [PATCH 49/63] fix: tasks cancelled while the scheduler selects them
 are not scheduled

---
 src/hypershell/data/model.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/hypershell/data/model.py b/src/hypershell/data/model.py
index 4e978ba..e590b0b 100644
--- a/src/hypershell/data/model.py
+++ b/src/hypershell/data/model.py
@@ -337,6 +337,8 @@ class Task(Entity):
             tasks = cls.__next_eager(attempts=attempts, limit=limit)
         else:
             tasks = cls.__next_not_eager(attempts, limit)
+        # NOTE: tasks cancelled since they were selected are left alone (retries are scheduled already)
+        tasks = [task for task in tasks if task.schedule_time is not None or cls.__still_new(task)]
         for task in tasks:
             task.server_id = INSTANCE
             task.server_host = HOSTNAME
@@ -344,6 +346,12 @@ class Task(Entity):
         Session.commit()
         return tasks
 
+    @classmethod
+    def __still_new(cls: Type[Task], task: Task) -> bool:
+        """Check task is unscheduled and keep it so until the current transaction is committed."""
+        query = cls.query().filter(cls.id == task.id).filter(cls.schedule_time.is_(None))
+        return query.update({cls.server_id: INSTANCE}, synchronize_session=False) > 0
+
     @classmethod
     def __next_eager(cls: Type[Task], attempts: int, limit: int) -> List[Task]:
         """Select next batch of tasks from database preferring previously failed tasks."""
-- 
2.43.0


From c293584b9ff5e44278b53fd2ddeece9194f416ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:56 +0000
Subject: [PATCH 50/63] fix: tasks reverted right after they were scheduled are
 scheduled again with their server

---
 src/hypershell/data/model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hypershell/data/model.py b/src/hypershell/data/model.py
index e590b0b..42b1eb2 100644
--- a/src/hypershell/data/model.py
+++ b/src/hypershell/data/model.py
@@ -314,6 +314,7 @@ class Task(Entity):
     def select_new(cls: Type[Task], limit: int) -> List[Task]:
         """Select unscheduled tasks up to some `limit` in order of submit_time."""
         return (cls.query()
+                .populate_existing()  # NOTE: reverted tasks may have been loaded before
                 .order_by(cls.submit_time)
                 .filter(cls.schedule_time.is_(None))
                 .limit(limit).all())
-- 
2.43.0


From eecfbe16defd9922b02cca8c949690ccbb6e96bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:58 +0000
Subject: [PATCH 51/63] fix: results recorded while tasks of an evicted client
 are reverted are kept

---
 src/hypershell/data/model.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/hypershell/data/model.py b/src/hypershell/data/model.py
index 42b1eb2..d5acc61 100644
--- a/src/hypershell/data/model.py
+++ b/src/hypershell/data/model.py
@@ -496,7 +496,16 @@ class Task(Entity):
     def revert_orphaned(cls: Type[Task], client_id: str) -> None:
         """Revert orphaned tasks from an evicted client to un-scheduled state."""
         while tasks := cls.select_orphaned(client_id, 100):
-            cls.revert_all([task.id for task in tasks])
+            # NOTE: results recorded since they were selected are kept
+            cls.revert_all([task.id for task in tasks if cls.__still_unfinished(task)])
+            Session.commit()
+
+    @classmethod
+    def __still_unfinished(cls: Type[Task], task: Task) -> bool:
+        """Check task has no result and keep it so until the current transaction is committed."""
+        query = (cls.query().filter(cls.id == task.id)
+                 .filter(cls.completion_time.is_(None)).filter(cls.exit_status.is_(None)))
+        return query.update({cls.client_id: None}, synchronize_session=False) > 0
 
     @classmethod
     def latest_server(cls: Type[Client]) -> Optional[str]:
-- 
2.43.0


From 09917f3428432e7249322a86877ad2ddc345ca0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:43 +0000
Subject: [PATCH 52/63] fix: do not replace the methods of QueueServer when one
 is started

---
 src/hypershell/core/queue.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/hypershell/core/queue.py b/src/hypershell/core/queue.py
index 06824f1..31141a7 100644
--- a/src/hypershell/core/queue.py
+++ b/src/hypershell/core/queue.py
@@ -89,10 +89,10 @@ class QueueServer(QueueInterface):
         self.completed = JoinableQueue(maxsize=self.config.size)
         self.heartbeat = JoinableQueue(maxsize=0)
         self.confirmed = JoinableQueue(maxsize=0)
-        self.register('_get_scheduled', callable=self._get_scheduled)
-        self.register('_get_completed', callable=self._get_completed)
-        self.register('_get_heartbeat', callable=self._get_heartbeat)
-        self.register('_get_confirmed', callable=self._get_confirmed)
+        self.register('_get_scheduled', callable=self._get_scheduled, create_method=False)
+        self.register('_get_completed', callable=self._get_completed, create_method=False)
+        self.register('_get_heartbeat', callable=self._get_heartbeat, create_method=False)
+        self.register('_get_confirmed', callable=self._get_confirmed, create_method=False)
         super().start()
 
     def _get_scheduled(self: QueueServer) -> JoinableQueue[Optional[List[bytes]]]:
-- 
2.43.0


From 57135e022f45e755b2b91a39d709db2bc02dee7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:43 +0000
Subject: [PATCH 53/63] fix: quote user and password within the database URL

---
 src/hypershell/data/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hypershell/data/core.py b/src/hypershell/data/core.py
index 55306ce..f88796d 100644
--- a/src/hypershell/data/core.py
+++ b/src/hypershell/data/core.py
@@ -11,7 +11,7 @@ from typing import Any, Type
 # standard libs
 import sys
 import logging
-from urllib.parse import urlencode
+from urllib.parse import urlencode, quote
 
 # external libs
 from cmdkit.app import exit_status
@@ -138,7 +138,7 @@ class DatabaseURL(dict):
 
     def _format_user_and_password(self: DatabaseURL) -> str:
         if self.user and self.password:
-            return f'{self.user}:{self.password}@'
+            return f'{quote(str(self.user), safe="")}:{quote(str(self.password), safe="")}@'
         else:
             return ''
 
-- 
2.43.0


From 036088526ecd364d696d46b3203f18de9c6bdc48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:43 +0000
Subject: [PATCH 54/63] fix: honour the documented connection_args section for
 the database

---
 src/hypershell/data/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypershell/data/core.py b/src/hypershell/data/core.py
index f88796d..7bf2fd6 100644
--- a/src/hypershell/data/core.py
+++ b/src/hypershell/data/core.py
@@ -177,7 +177,7 @@ providers = {
 config = Namespace(config.database.copy())
 schema = config.pop('schema', None)
 engine_echo = config.pop('echo', False)
-connect_args = config.pop('connect_args', {})
+connect_args = {**config.pop('connect_args', {}), **config.pop('connection_args', {})}
 
 
 # additional parameters for engine creation
-- 
2.43.0


From a83757e0dca172468b17fa32f1f158bb67ea51cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:48 +0000
Subject: [PATCH 55/63] fix: keep clients in memory when the database is
 automatically disabled

---
 src/hypershell/server.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypershell/server.py b/src/hypershell/server.py
index d2f0ac1..49de4f7 100644
--- a/src/hypershell/server.py
+++ b/src/hypershell/server.py
@@ -775,7 +775,7 @@ class ServerThread(Thread):
             self.confirm = ConfirmThread(queue=self.queue, in_memory=self.in_memory)
         self.receiver = ReceiverThread(queue=self.queue, in_memory=self.in_memory, redirect_failures=redirect_failures)
         self.heartmonitor = HeartMonitorThread(queue=self.queue, evict_after=evict_after,
-                                               in_memory=in_memory, no_confirm=no_confirm)
+                                               in_memory=self.in_memory, no_confirm=no_confirm)
         super().__init__(name='hypershell-server')
 
     def run_with_exceptions(self: ServerThread) -> None:
-- 
2.43.0


From 8db877aead56b8f59e3bab703f796bc07afcbf3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:48 +0000
Subject: [PATCH 56/63] fix: server honours --no-db and --initdb when it
 prepares the database

---
 src/hypershell/server.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hypershell/server.py b/src/hypershell/server.py
index 49de4f7..5b9f78c 100644
--- a/src/hypershell/server.py
+++ b/src/hypershell/server.py
@@ -1246,7 +1246,8 @@ class ServerApp(Application):
     def __enter__(self: ServerApp) -> ServerApp:
         """Ensure context and database ready."""
         self.check_args()
-        ensuredb()
+        if not self.in_memory:
+            ensuredb(auto_init=self.auto_initdb)
         return self
 
     def __exit__(self: ServerApp,
-- 
2.43.0


From b57ed1002c440b8e702ac91391072ea4c817d080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:48 +0000
Subject: [PATCH 57/63] fix: cluster does not create database tables given
 --no-db

---
 src/hypershell/cluster/__init__.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/hypershell/cluster/__init__.py b/src/hypershell/cluster/__init__.py
index 34c7679..8eb4d83 100644
--- a/src/hypershell/cluster/__init__.py
+++ b/src/hypershell/cluster/__init__.py
@@ -360,9 +360,11 @@ class ClusterApp(Application):
     def __enter__(self: ClusterApp) -> ClusterApp:
         """Set up resources and attributes."""
         self.check_arguments()
-        if config.database.provider == 'sqlite' or self.auto_initdb:
+        if self.in_memory:
+            pass  # NOTE: given --no-db we do not touch the database
+        elif config.database.provider == 'sqlite' or self.auto_initdb:
             initdb()  # Auto-initialize if local sqlite provider
-        elif not self.in_memory:
+        else:
             checkdb()
         return self
 
-- 
2.43.0


From 826f88a6c731dbe5eead9f645dc086a29892764f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:48 +0000
Subject: [PATCH 58/63] fix: recognise a database file given by its _env or
 _eval variant

---
 src/hypershell/data/__init__.py | 3 +--
 src/hypershell/data/core.py     | 2 +-
 src/hypershell/submit.py        | 5 ++---
 3 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/hypershell/data/__init__.py b/src/hypershell/data/__init__.py
index 016d969..f7837df 100644
--- a/src/hypershell/data/__init__.py
+++ b/src/hypershell/data/__init__.py
@@ -66,8 +66,7 @@ def ensuredb(auto_init: bool = False) -> None:
 
     If SQLite and `auto_init` we run :meth:`initdb`, else :meth:`checkdb`.
     """
-    db = config.database.get('file', None) or config.database.get('database', None)
-    if config.database.provider == 'sqlite' and db in ('', ':memory:', None):
+    if not DATABASE_ENABLED:
         raise ConfigurationError('Missing database configuration')
     if config.database.provider == 'sqlite' or auto_init is True:
         initdb()
diff --git a/src/hypershell/data/core.py b/src/hypershell/data/core.py
index 7bf2fd6..d785e11 100644
--- a/src/hypershell/data/core.py
+++ b/src/hypershell/data/core.py
@@ -187,7 +187,7 @@ engine_config = {}
 # sqlite specific configuration
 in_memory = False
 if config.provider == 'sqlite':
-    in_memory = (config.get('file', None) or config.get('database', None)) in ('', ':memory:', None)
+    in_memory = (getattr(config, 'file', None) or getattr(config, 'database', None)) in ('', ':memory:', None)
     if in_memory:
         engine_config['poolclass'] = StaticPool
     if 'check_same_thread' not in connect_args:
diff --git a/src/hypershell/submit.py b/src/hypershell/submit.py
index c6788c3..295f642 100644
--- a/src/hypershell/submit.py
+++ b/src/hypershell/submit.py
@@ -65,7 +65,7 @@ from hypershell.core.template import Template, DEFAULT_TEMPLATE
 from hypershell.core.exceptions import get_shared_exception_mapping
 from hypershell.core.types import JSONValue
 from hypershell.data.model import Task
-from hypershell.data import initdb, checkdb
+from hypershell.data import initdb, checkdb, DATABASE_ENABLED
 from hypershell.task import Tag
 
 # public interface
@@ -788,8 +788,7 @@ class SubmitApp(Application):
     @staticmethod
     def check_config():
         """Halt if we are not connected to database."""
-        db = config.database.get('file', None) or config.database.get('database', None)
-        if config.database.provider == 'sqlite' and db in ('', ':memory:', None):
+        if not DATABASE_ENABLED:
             raise ConfigurationError('Submitting tasks to in-memory database has no effect')
 
     def __enter__(self: SubmitApp) -> SubmitApp:
-- 
2.43.0


From 74d415bd5d363aa053b6561b43f502a0facf6301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:48 +0000
Subject: [PATCH 59/63] fix: allow for question marks within the path of the
 database file

---
 src/hypershell/data/core.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/hypershell/data/core.py b/src/hypershell/data/core.py
index d785e11..45effab 100644
--- a/src/hypershell/data/core.py
+++ b/src/hypershell/data/core.py
@@ -16,7 +16,7 @@ from urllib.parse import urlencode, quote
 # external libs
 from cmdkit.app import exit_status
 from cmdkit.config import Namespace, ConfigurationError
-from sqlalchemy.engine import create_engine, Engine
+from sqlalchemy.engine import create_engine, make_url, Engine
 from sqlalchemy.pool import StaticPool
 from sqlalchemy.orm import sessionmaker, scoped_session
 from sqlalchemy.exc import ArgumentError
@@ -117,9 +117,9 @@ class DatabaseURL(dict):
 
     def _format_database_or_file(self: DatabaseURL) -> str:
         if self.database:
-            return f'/{self.database}'
+            return '/' + str(self.database).replace('?', '%3F')
         elif self.file:
-            return f'/{self.file}'
+            return '/' + str(self.file).replace('?', '%3F')
         else:
             return ''
 
@@ -211,7 +211,9 @@ def get_engine() -> Engine:
         if engine_echo:
             logging.getLogger('sqlalchemy.engine').addHandler(handler)
             logging.getLogger('sqlalchemy.engine').setLevel(logging.INFO)
-        return create_engine(get_url().encode(), connect_args=connect_args, **engine_config)
+        url = get_url()
+        address = make_url(url.encode()).set(database=(url.database or url.file or None))
+        return create_engine(address, connect_args=connect_args, **engine_config)
     except ArgumentError as err:
         raise ConfigurationError(f'DatabaseURL: {err}') from err
 
-- 
2.43.0


From a22f8f5cc13e6f59488e7cd0a3ad33d4b1ac31eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:51 +0000
Subject: [PATCH 60/63] fix: expand the _env and _eval variants of the database
 schema

---
 src/hypershell/data/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/hypershell/data/core.py b/src/hypershell/data/core.py
index 45effab..296f009 100644
--- a/src/hypershell/data/core.py
+++ b/src/hypershell/data/core.py
@@ -175,7 +175,9 @@ providers = {
 
 
 config = Namespace(config.database.copy())
-schema = config.pop('schema', None)
+schema = getattr(config, 'schema', None)
+for variant in ('schema', 'schema_env', 'schema_eval'):
+    config.pop(variant, None)
 engine_echo = config.pop('echo', False)
 connect_args = {**config.pop('connect_args', {}), **config.pop('connection_args', {})}
 
-- 
2.43.0


From cff080e743a093fa3efdbaa64e15905310033002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:02 +0000
Subject: [PATCH 61/63] fix: do not close output streams in use by executors
 when interrupted

---
 src/hypershell/client.py           | 2 ++
 src/hypershell/cluster/__init__.py | 6 ++++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/hypershell/client.py b/src/hypershell/client.py
index 4cf6884..4a26b1a 100644
--- a/src/hypershell/client.py
+++ b/src/hypershell/client.py
@@ -1271,6 +1271,8 @@ class ClientApp(Application):
                  exc_val: Optional[Exception],
                  exc_tb: Optional[TracebackType]) -> None:
         """Close IO streams if necessary."""
+        if exc_type is not None:
+            return  # NOTE: executor threads may still start tasks using these (e.g., keyboard interrupt)
         if self.output_stream is not sys.stdout:
             self.output_stream.close()
         if self.errors_stream is not sys.stderr:
diff --git a/src/hypershell/cluster/__init__.py b/src/hypershell/cluster/__init__.py
index 8eb4d83..612a7e8 100644
--- a/src/hypershell/cluster/__init__.py
+++ b/src/hypershell/cluster/__init__.py
@@ -375,9 +375,11 @@ class ClusterApp(Application):
         """Close IO streams if not standard streams."""
         if self.input_stream and self.input_stream is not sys.stdin:
             self.input_stream.close()
+        if self.failure_stream:
+            self.failure_stream.close()
+        if exc_type is not None:
+            return  # NOTE: executor threads may still start tasks using these (e.g., keyboard interrupt)
         if self.output_stream is not sys.stdout:
             self.output_stream.close()
         if self.errors_stream is not sys.stderr:
             self.errors_stream.close()
-        if self.failure_stream:
-            self.failure_stream.close()
-- 
2.43.0


From 43091f8c9bdded55a167ec1a940a3e9c9ce7cff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:52:36 +0000
Subject: [PATCH 62/63] fix: allow for a database file with a name that is a
 number

---
 src/hypershell/data/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hypershell/data/core.py b/src/hypershell/data/core.py
index 296f009..769b52c 100644
--- a/src/hypershell/data/core.py
+++ b/src/hypershell/data/core.py
@@ -214,7 +214,8 @@ def get_engine() -> Engine:
             logging.getLogger('sqlalchemy.engine').addHandler(handler)
             logging.getLogger('sqlalchemy.engine').setLevel(logging.INFO)
         url = get_url()
-        address = make_url(url.encode()).set(database=(url.database or url.file or None))
+        database = url.database or url.file
+        address = make_url(url.encode()).set(database=str(database) if database else None)
         return create_engine(address, connect_args=connect_args, **engine_config)
     except ArgumentError as err:
         raise ConfigurationError(f'DatabaseURL: {err}') from err
-- 
2.43.0


From b98820bbb6d369d2837989c6479c6ff8b8214ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:52:36 +0000
Subject: [PATCH 63/63] fix: accept the documented --signalwait option in hs
 client

---
 src/hypershell/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypershell/client.py b/src/hypershell/client.py
index 4a26b1a..de92259 100644
--- a/src/hypershell/client.py
+++ b/src/hypershell/client.py
@@ -1199,7 +1199,7 @@ class ClientApp(Application):
     interface.add_argument('-W', '--task-timeout', type=int, default=task_timeout, dest='task_timeout')
 
     task_signalwait: int = config.task.signalwait
-    interface.add_argument('-S', '--task-signalwait', type=int, default=task_signalwait, dest='task_signalwait')
+    interface.add_argument('-S', '--signalwait', '--task-signalwait', type=int, default=task_signalwait, dest='task_signalwait')
 
     no_confirm: bool = False
     interface.add_argument('--no-confirm', action='store_true')
-- 
2.43.0

