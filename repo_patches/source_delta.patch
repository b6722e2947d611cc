From 6f6f25d8c503a85e54317f6871e0d5f0ab75893b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:07 +0000
Subject: [PATCH 01/95] fix: release OptionalRLock when its context exits with
 an exception

---
 vtelem/classes/time_entity.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/vtelem/classes/time_entity.py b/vtelem/classes/time_entity.py
index 9975a95..5cb3723 100644
--- a/vtelem/classes/time_entity.py
+++ b/vtelem/classes/time_entity.py
@@ -37,10 +37,10 @@ class OptionalRLock(AbstractContextManager):
             self.lock.acquire()
         return self.item
 
-    def __exit__(self, exc_type, __, ___) -> Literal[False]:
-        """Release the lock if no exception was raised."""
+    def __exit__(self, _, __, ___) -> Literal[False]:
+        """Release the lock, whether or not an exception was raised."""
 
-        if exc_type is None and self.lock is not None:
+        if self.lock is not None:
             self.lock.release()
         return False
 
-- 
2.43.0


From 289052d7c23a22f6a0d535ed91edd37ae5c90ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:07 +0000
Subject: [PATCH 02/95] fix: reload the fragments of more than one cached
 message per type

---
 vtelem/message/cache.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/vtelem/message/cache.py b/vtelem/message/cache.py
index a8197df..c3b48fc 100644
--- a/vtelem/message/cache.py
+++ b/vtelem/message/cache.py
@@ -105,11 +105,11 @@ class MessageCache(DataCache, MessageDispatcher):
                 if crc_int not in type_data:
                     type_data[crc_int] = {}
                 crc_data = type_data[crc_int]
-                curr = os.path.join(curr, crc)
+                crc_dir = os.path.join(curr, crc)
 
                 # load all fragments for this message's crc
-                for fragment in os.listdir(curr):
-                    with open(os.path.join(curr, fragment), "rb") as frag:
+                for fragment in os.listdir(crc_dir):
+                    with open(os.path.join(crc_dir, fragment), "rb") as frag:
                         crc_data[int(fragment)] = frag.read()
 
     def store_fragment(
-- 
2.43.0


From 9cec486132f37427474a0d9f91858cd0c0e31b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:07 +0000
Subject: [PATCH 03/95] fix: only complete a cached message once every fragment
 is present

---
 vtelem/message/cache.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/vtelem/message/cache.py b/vtelem/message/cache.py
index c3b48fc..11d547e 100644
--- a/vtelem/message/cache.py
+++ b/vtelem/message/cache.py
@@ -9,6 +9,7 @@ from tempfile import TemporaryDirectory
 from typing import Callable, Dict, Iterator, List, Optional, Tuple
 
 # internal
+from vtelem.classes.byte_buffer import crc as compute_crc
 from vtelem.classes.data_cache import DataCache
 from vtelem.frame.fields import to_parsed
 from vtelem.types.frame import FrameType, MessageType, ParsedFrame
@@ -197,14 +198,21 @@ class MessageCache(DataCache, MessageDispatcher):
             return
 
         # store this message fragment if we don't have it
-        if message.fragment_index not in crc_data:
+        all_fragments = self.fragment_data[message.type.value]
+        fragments = all_fragments.setdefault(message.crc, {})
+        if fragments.get(message.fragment_index) != message.data:
             self.store_fragment(
                 message.type, message.crc, message.fragment_index, message.data
             )
-            crc_data["fragments"] += 1
 
-            # mark this message as complete if we now have all of the fragments
-            if crc_data["fragments"] == message.total_fragments:
+        indices = range(message.total_fragments)
+        crc_data["fragments"] = sum(idx in fragments for idx in indices)
+
+        # mark this message as complete if we now have all of the fragments
+        # (and they're coherent)
+        if crc_data["fragments"] == message.total_fragments:
+            data = b"".join(bytes(fragments[idx]) for idx in indices)
+            if compute_crc(data) == message.crc:
                 crc_data["complete"] = True
                 crc_data["number"] = message.number
 
-- 
2.43.0


From edc0739d91eab56d23461cad4b516a50866a7bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:31 +0000
Subject: [PATCH 04/95] fix: keep a message cache usable, and empty, after it
 is cleaned

---
 vtelem/message/cache.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/vtelem/message/cache.py b/vtelem/message/cache.py
index 11d547e..fb9ed9d 100644
--- a/vtelem/message/cache.py
+++ b/vtelem/message/cache.py
@@ -5,6 +5,7 @@ vtelem - A module implementing a message storage.
 # built-in
 from contextlib import contextmanager
 import os
+import shutil
 from tempfile import TemporaryDirectory
 from typing import Callable, Dict, Iterator, List, Optional, Tuple
 
@@ -79,6 +80,15 @@ class MessageCache(DataCache, MessageDispatcher):
         self.load_fragments(self.fragment_dir)
         self.service_all_callbacks()
 
+    def clean(self) -> None:
+        """Clean the cache contents, including fragments, from disk."""
+
+        DataCache.clean(self)
+        shutil.rmtree(self.fragment_dir)
+        for mtype in MessageType:
+            self.data[str(mtype.value)] = {}
+            self.fragment_data[mtype.value] = {}
+
     def service_all_callbacks(self) -> None:
         """Invoke registered callbacks for all complete messages."""
 
-- 
2.43.0


From 3c8d2045e85d66613db4739ac1ca1726bc7cecf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:31 +0000
Subject: [PATCH 05/95] fix: remove message fragments with their temporary
 directory

---
 vtelem/message/cache.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vtelem/message/cache.py b/vtelem/message/cache.py
index fb9ed9d..7ee620e 100644
--- a/vtelem/message/cache.py
+++ b/vtelem/message/cache.py
@@ -241,4 +241,5 @@ def from_temp_dir(
     """Create a message cache using a temporary directory."""
 
     with TemporaryDirectory() as cache_dir:
-        yield MessageCache(cache_dir, initial_callbacks)
+        # nest the cache so that its fragments are cleaned up too
+        yield MessageCache(os.path.join(cache_dir, "cache"), initial_callbacks)
-- 
2.43.0


From 46e135d075efcd360d91b69746dec0d876c529a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:31 +0000
Subject: [PATCH 06/95] fix: ignore errors of streams that are not udp clients

---
 vtelem/classes/udp_client_manager.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/vtelem/classes/udp_client_manager.py b/vtelem/classes/udp_client_manager.py
index 7277311..186f6f7 100644
--- a/vtelem/classes/udp_client_manager.py
+++ b/vtelem/classes/udp_client_manager.py
@@ -40,8 +40,13 @@ class UdpClientManager(LockEntity):
             """
 
             with self.lock:
-                sock, sock_file = self.clients[stream_id]
-                del self.clients[stream_id]
+                client = self.clients.pop(stream_id, None)
+
+            # the stream writer also manages streams that aren't ours
+            if client is None:
+                return
+
+            sock, sock_file = client
             name = sock.getsockname()
             LOG.info("closing stream client '%s:%d'", name[0], name[1])
             try:
-- 
2.43.0


From cb483cc78dabb08ae7522a44997cc34935ebc095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:31 +0000
Subject: [PATCH 07/95] fix: close a udp client even if flushing its last data
 fails

---
 vtelem/classes/udp_client_manager.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vtelem/classes/udp_client_manager.py b/vtelem/classes/udp_client_manager.py
index 186f6f7..4aa83f7 100644
--- a/vtelem/classes/udp_client_manager.py
+++ b/vtelem/classes/udp_client_manager.py
@@ -51,8 +51,8 @@ class UdpClientManager(LockEntity):
             LOG.info("closing stream client '%s:%d'", name[0], name[1])
             try:
                 sock_file.close()
-            except ConnectionRefusedError:  # pragma: no cover
-                pass
+            except OSError as exc:  # pragma: no cover
+                LOG.warning("stream client didn't close cleanly: %s", exc)
             finally:
                 sock.close()
 
-- 
2.43.0


From 7eb26a44a9a17d9f98007258d314bb77b0b29981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:31 +0000
Subject: [PATCH 08/95] fix: keep writing to healthy streams when another one
 is closed or removed

---
 vtelem/stream/writer.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/vtelem/stream/writer.py b/vtelem/stream/writer.py
index e7bedaf..217cfa2 100644
--- a/vtelem/stream/writer.py
+++ b/vtelem/stream/writer.py
@@ -84,18 +84,14 @@ class StreamWriter(QueueDaemon):
                             stream.flush()
                         self.increment_metric("stream_writes")
                         self.increment_metric("bytes_written", size)
-                    except OSError as exc:
-                        msg = (
-                            "stream '%s' (%d) error writing %d "
-                            + "bytes: %s (%d)"
-                        )
+                    except (OSError, ValueError) as exc:
+                        # writing to a closed file raises 'ValueError'
                         LOG.error(
-                            msg,
-                            stream.name,
+                            "stream '%s' (%d) error writing %d bytes: %s",
+                            getattr(stream, "name", stream),
                             stream_id,
                             len(array),
-                            exc.strerror,
-                            exc.errno,
+                            exc,
                         )
                         to_remove.append((stream_id, stream))
 
@@ -103,7 +99,7 @@ class StreamWriter(QueueDaemon):
                 for stream_id, stream in to_remove:
                     LOG.warning(
                         "removing stream '%s' (%d) errors writing",
-                        stream.name,
+                        getattr(stream, "name", stream),
                         stream_id,
                     )
 
@@ -111,7 +107,8 @@ class StreamWriter(QueueDaemon):
                     if self.error_handle is not None:
                         self.error_handle(stream_id)
 
-                    assert self.remove_stream(stream_id)
+                    # the stream may have been removed while we were writing
+                    self.remove_stream(stream_id)
 
             # add to queues
             for queue in queues:
-- 
2.43.0


From ed5491742c48a910dc3a380d210a4a77064a4a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:31 +0000
Subject: [PATCH 09/95] fix: register the bytes-written metric before the
 writer runs

---
 vtelem/stream/writer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vtelem/stream/writer.py b/vtelem/stream/writer.py
index 217cfa2..115b416 100644
--- a/vtelem/stream/writer.py
+++ b/vtelem/stream/writer.py
@@ -119,6 +119,7 @@ class StreamWriter(QueueDaemon):
 
         # register and reset additional metrics
         self.reset_metric("stream_writes")
+        self.reset_metric("bytes_written")
         self.reset_metric("stream_count")
         self.reset_metric("queue_writes")
         self.reset_metric("queue_count")
-- 
2.43.0


From 8d385221da2158bcda3fc957c40be8a1e8798f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:31 +0000
Subject: [PATCH 10/95] fix: do not lose concurrent updates of an environment
 metric

---
 vtelem/channel/environment.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/vtelem/channel/environment.py b/vtelem/channel/environment.py
index 9646f5d..f6581be 100644
--- a/vtelem/channel/environment.py
+++ b/vtelem/channel/environment.py
@@ -5,6 +5,7 @@ vtelem - Exposes a runtime environment for managing sets of channels.
 # built-in
 from collections import defaultdict
 import logging
+import threading
 from typing import Any, Dict, List, Optional, Tuple
 
 # internal
@@ -58,6 +59,7 @@ class ChannelEnvironment(TimeEntity):
         self.write_crc = True
 
         self.metrics: Optional[Dict[str, int]] = None
+        self.metrics_lock = threading.Lock()
         self.event_queue = EventQueue()
         if metrics_rate is not None:
             self.register_base_metrics(metrics_rate)
@@ -149,7 +151,8 @@ class ChannelEnvironment(TimeEntity):
         if self.metrics is not None and name in self.metrics:
             chan = self.channel_registry.get_item(self.metrics[name])
             assert chan is not None
-            assert chan.set(data, time)
+            with self.metrics_lock:
+                assert chan.set(data, time)
 
     def metric_add(self, name: str, data: Any, time: float = None) -> None:
         """Add a value to a metric channel."""
@@ -157,7 +160,8 @@ class ChannelEnvironment(TimeEntity):
         if self.metrics is not None and name in self.metrics:
             chan = self.channel_registry.get_item(self.metrics[name])
             assert chan is not None
-            assert chan.add(data, time)
+            with self.metrics_lock:
+                assert chan.add(data, time)
 
     def set_channel_rate(self, chan_id: int, rate: float) -> None:
         """Set the update-rate of a channel."""
-- 
2.43.0


From 8b700a672d5fe739852de374b07b127f733ae5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:31 +0000
Subject: [PATCH 11/95] fix: publish concurrent daemon-metric updates in order

---
 vtelem/daemon/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/vtelem/daemon/__init__.py b/vtelem/daemon/__init__.py
index d96c747..7713b61 100644
--- a/vtelem/daemon/__init__.py
+++ b/vtelem/daemon/__init__.py
@@ -211,7 +211,7 @@ class DaemonBase(TimeEntity):
 
         with self.lock:
             self.function["metrics_data"][name] = val
-        self.set_env_metric(name, val)
+            self.set_env_metric(name, val)
 
     def increment_metric(self, name: str, value: Any = 1) -> None:
         """Increment a named metric."""
@@ -219,7 +219,7 @@ class DaemonBase(TimeEntity):
         with self.lock:
             val = self.function["metrics_data"][name] + value
             self.function["metrics_data"][name] = val
-        self.set_env_metric(name, val)
+            self.set_env_metric(name, val)
 
     def decrement_metric(self, name: str, value: Any = 1) -> None:
         """Decrement a named metric."""
@@ -227,7 +227,7 @@ class DaemonBase(TimeEntity):
         with self.lock:
             val = self.function["metrics_data"][name] - value
             self.function["metrics_data"][name] = val
-        self.set_env_metric(name, val)
+            self.set_env_metric(name, val)
 
     def get_state(self) -> DaemonState:
         """Query this daemon's current state."""
-- 
2.43.0


From c0f5a21ba99e80b83190aa7fd7521d66438251b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:01 +0000
Subject: [PATCH 12/95] fix: treat an incomplete stream write as that stream's
 error

---
 vtelem/stream/writer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vtelem/stream/writer.py b/vtelem/stream/writer.py
index 115b416..f34a7a3 100644
--- a/vtelem/stream/writer.py
+++ b/vtelem/stream/writer.py
@@ -79,7 +79,8 @@ class StreamWriter(QueueDaemon):
                 to_remove = []
                 for stream_id, stream in streams.items():
                     try:
-                        assert stream.write(array) == size
+                        if stream.write(array) != size:
+                            raise OSError("incomplete write")
                         if self.stream_attrs[stream_id]["flush"]:
                             stream.flush()
                         self.increment_metric("stream_writes")
-- 
2.43.0


From ead3e71f78ab04a582acf586d764596c2552ae91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:01 +0000
Subject: [PATCH 13/95] fix: publish concurrent daemon-state changes in order

---
 vtelem/daemon/__init__.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/vtelem/daemon/__init__.py b/vtelem/daemon/__init__.py
index 7713b61..8a9b8a4 100644
--- a/vtelem/daemon/__init__.py
+++ b/vtelem/daemon/__init__.py
@@ -180,17 +180,17 @@ class DaemonBase(TimeEntity):
             transition = old_state != state
             self.state = state
 
-        if transition:
-            self.function["state_change"](old_state, state, self.get_time())
-
             # set the metric channel
-            if self.env is not None:
+            if transition and self.env is not None:
                 self.env.set_enum_metric(
                     self.get_metric_name("state"),
                     self.get_state_str(),
                     self.get_time(),
                 )
 
+        if transition:
+            self.function["state_change"](old_state, state, self.get_time())
+
         return transition
 
     def set_env_metric(
-- 
2.43.0


From 976463bbcdecf8bd83a688d84d39b38926b3366e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:01 +0000
Subject: [PATCH 14/95] fix: only return from starting a daemon once it is
 running

---
 vtelem/daemon/__init__.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/vtelem/daemon/__init__.py b/vtelem/daemon/__init__.py
index 8a9b8a4..ca11c29 100644
--- a/vtelem/daemon/__init__.py
+++ b/vtelem/daemon/__init__.py
@@ -69,6 +69,7 @@ class DaemonBase(TimeEntity):
         self.function["track_metric_changes"] = False
         self.function["metrics_data"] = defaultdict(lambda: 0)
         self.thread: Optional[threading.Thread] = None
+        self.running = threading.Event()
 
         # assign a 'sleep' function for general use
         self.function["sleep"] = time.sleep
@@ -244,10 +245,12 @@ class DaemonBase(TimeEntity):
 
         try:
             if self.set_state(DaemonState.RUNNING):
+                self.running.set()
                 self.run(*args, **kwargs)
         except KeyboardInterrupt:
             LOG.warning("%s: interrupted", self.name)
         finally:
+            self.running.set()
             self.increment_metric("count")
             assert self.set_state(DaemonState.IDLE)
 
@@ -301,8 +304,12 @@ class DaemonBase(TimeEntity):
             self.reset_metric("count")
             self.increment_metric("starts")
             assert self.set_state(DaemonState.STARTING)
+            self.running.clear()
 
         self.thread.start()
+
+        # a daemon that isn't running yet can't be stopped or paused
+        self.running.wait(DEFAULT_TIMEOUT)
         return True
 
     @contextmanager
-- 
2.43.0


From 986b3e29d4c69be504b26ae5db96646230e06a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:01 +0000
Subject: [PATCH 15/95] fix: do not forget the thread of a daemon restarted
 while it stops

---
 vtelem/daemon/__init__.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/vtelem/daemon/__init__.py b/vtelem/daemon/__init__.py
index ca11c29..85c6256 100644
--- a/vtelem/daemon/__init__.py
+++ b/vtelem/daemon/__init__.py
@@ -376,12 +376,13 @@ class DaemonBase(TimeEntity):
             return False
 
         # if we should stop, wait for the thread to be joined
-        assert self.thread is not None
-        self.thread.join(timeout=timeout)
+        thread = self.thread
+        assert thread is not None
+        thread.join(timeout=timeout)
         with self.lock:
-            self.thread = None
-            self.increment_metric(
-                "stops" if self.state == DaemonState.IDLE else "errors"
-            )
+            # this daemon may have been started again already
+            if self.thread is thread:
+                self.thread = None
+            self.increment_metric("errors" if thread.is_alive() else "stops")
 
         return True
-- 
2.43.0


From 4d1e8a1c2a7707ca0410dd15977d73333cdabcc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:01 +0000
Subject: [PATCH 16/95] fix: report a command that its handler raises on as a
 failure

---
 vtelem/daemon/command_queue.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/vtelem/daemon/command_queue.py b/vtelem/daemon/command_queue.py
index f6a3ba6..6d4a890 100644
--- a/vtelem/daemon/command_queue.py
+++ b/vtelem/daemon/command_queue.py
@@ -49,14 +49,17 @@ class CommandQueueDaemon(QueueDaemon):
 
             # make sure the element is a dictionary, has "command", has a
             # handler registered
-            if not isinstance(elem, dict) or "command" not in elem:
+            if not isinstance(elem, dict) or not isinstance(
+                elem.get("command"), str
+            ):
                 err = f"{self.name}: unknown or malformed command, rejected"
                 LOG.error(err)
                 self.increment_metric("rejected_count")
                 if cmd_cb is not None:
                     cmd_cb(False, err)
                 return None
-            if not self.handlers[elem["command"]]:
+            handlers = self.handlers.get(elem["command"])
+            if not handlers:
                 err = (
                     f"{self.name}: command '{elem['command']}' "
                     "has no handlers, rejected"
@@ -73,9 +76,12 @@ class CommandQueueDaemon(QueueDaemon):
                 cmd_data.update(elem["data"])
 
             # execute command
-            handlers = self.handlers[elem["command"]]
             for handler, result_cb, _ in handlers:
-                result, message = handler(cmd_data)
+                try:
+                    result, message = handler(cmd_data)
+                except Exception as exc:  # pylint: disable=broad-except
+                    LOG.exception("%s: command handler raised", self.name)
+                    result, message = False, f"{type(exc).__name__}: {exc}"
                 if result_cb is not None:
                     result_cb(result, message)
                 if cmd_cb is not None:
@@ -89,7 +95,7 @@ class CommandQueueDaemon(QueueDaemon):
                     "%s: command '%s' '%s' %s, '%s'",
                     self.name,
                     elem["command"],
-                    json.dumps(cmd_data),
+                    dict(cmd_data),
                     status,
                     message,
                 )
-- 
2.43.0


From 90403ba8052b84cb70933228b72747890b2c10cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:40 +0000
Subject: [PATCH 17/95] fix: wait for the daemon thread that was actually asked
 to stop

---
 vtelem/daemon/__init__.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/vtelem/daemon/__init__.py b/vtelem/daemon/__init__.py
index 85c6256..4efc8ea 100644
--- a/vtelem/daemon/__init__.py
+++ b/vtelem/daemon/__init__.py
@@ -342,25 +342,26 @@ class DaemonBase(TimeEntity):
                     return True
         return False
 
-    def begin_stop(self) -> bool:
+    def begin_stop(self) -> Optional[threading.Thread]:
         """
         Determine if we're in the correct state to stop, mutate state if so.
+        Returns the thread that was requested to stop.
         """
 
         # make sure we're in the correct state to attempt a stop
-        should_stop = False
+        to_stop = None
         with self.lock:
             if self.state == DaemonState.RUNNING:
                 if self.set_state(DaemonState.STOPPING):
-                    should_stop = True
+                    to_stop = self.thread
 
-        if should_stop:
+        if to_stop is not None:
             try:
                 self.function["inject_stop"]()
             except KeyError:
                 pass
 
-        return should_stop
+        return to_stop
 
     def restart(self, *args, **kwargs) -> bool:
         """Attempt to restart this daemon."""
@@ -372,12 +373,11 @@ class DaemonBase(TimeEntity):
     def stop(self, timeout: int = DEFAULT_TIMEOUT) -> bool:
         """Attempt to stop the daemon."""
 
-        if not self.begin_stop():
+        thread = self.begin_stop()
+        if thread is None:
             return False
 
         # if we should stop, wait for the thread to be joined
-        thread = self.thread
-        assert thread is not None
         thread.join(timeout=timeout)
         with self.lock:
             # this daemon may have been started again already
-- 
2.43.0


From a6e03d551f8d986041b31cec105ee06465fec270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:40 +0000
Subject: [PATCH 18/95] fix: do not add entries to a registry when looking up
 unknown ones

---
 vtelem/registry/__init__.py | 4 ++--
 vtelem/registry/enum.py     | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/vtelem/registry/__init__.py b/vtelem/registry/__init__.py
index 9ecff56..81c088d 100644
--- a/vtelem/registry/__init__.py
+++ b/vtelem/registry/__init__.py
@@ -49,7 +49,7 @@ class Registry(Generic[T]):
         """Obtain an item's data by its integer identifier."""
 
         with self.lock:
-            result = self.data[self.type_name][item_id]
+            result = self.data[self.type_name].get(item_id)
         return result
 
     def get_id(self, name: str) -> Optional[int]:
@@ -58,7 +58,7 @@ class Registry(Generic[T]):
         """
 
         with self.lock:
-            result = self.data["mappings"][name]
+            result = self.data["mappings"].get(name)
         return result
 
     def add(self, name: str, data: T) -> Tuple[bool, int]:
diff --git a/vtelem/registry/enum.py b/vtelem/registry/enum.py
index 4f31e73..cb994eb 100644
--- a/vtelem/registry/enum.py
+++ b/vtelem/registry/enum.py
@@ -76,7 +76,7 @@ class EnumRegistry(Registry[UserEnum]):
                 # determine if this enum has already been registered
                 curr_id = registry.get_id(enum_data.name)
                 if curr_id is not None:
-                    expected_id = self.data["global_mappings"][curr_id]
+                    expected_id = self.data["global_mappings"].get(curr_id, -1)
                     if expected_id != enum_id:
                         log_str = (
                             "couldn't register '%s', type has value "
-- 
2.43.0


From f49e72cd34408783ee9334043521d7778c0528f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:40 +0000
Subject: [PATCH 19/95] fix: do not add a value to an enum when looking up an
 unknown one

---
 vtelem/classes/user_enum.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vtelem/classes/user_enum.py b/vtelem/classes/user_enum.py
index 4b1ade8..5dd05be 100644
--- a/vtelem/classes/user_enum.py
+++ b/vtelem/classes/user_enum.py
@@ -103,7 +103,7 @@ class UserEnum(Serializable):
     def get_value(self, val: str) -> int:
         """Get the integer value of an enum String."""
 
-        result = self.strings[val.lower()]
+        result = self.strings.get(val.lower())
         assert result is not None
         return result
 
@@ -115,7 +115,7 @@ class UserEnum(Serializable):
         """
 
         result = new_default("enum", changed_cb)
-        val = self.strings[value.lower()]
+        val = self.strings.get(value.lower())
         assert val is not None
         assert result.set(val)
         return result
-- 
2.43.0


From 4067ec6e608fee02937801d9bbb06b01c449a841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:40 +0000
Subject: [PATCH 20/95] fix: do not register unknown daemons and channels when
 looking them up

---
 vtelem/daemon/manager.py        | 2 +-
 vtelem/telemetry/environment.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/vtelem/daemon/manager.py b/vtelem/daemon/manager.py
index 943942e..b38e425 100644
--- a/vtelem/daemon/manager.py
+++ b/vtelem/daemon/manager.py
@@ -35,7 +35,7 @@ class DaemonManager(LockEntity):
         """Get a daemon object by name."""
 
         assert name not in NAME_DENYLIST
-        return self.daemons[name]
+        return self.daemons.get(name)
 
     def add_daemon(
         self, daemon: DaemonBase, depends_on: List[str] = None
diff --git a/vtelem/telemetry/environment.py b/vtelem/telemetry/environment.py
index 4f014c5..9cdbf06 100644
--- a/vtelem/telemetry/environment.py
+++ b/vtelem/telemetry/environment.py
@@ -87,7 +87,7 @@ class TelemetryEnvironment(ChannelEnvironment):
     def is_enum_channel(self, chan_id: int) -> bool:
         """Determine if a channel holds an enumeration value."""
 
-        return self.enum_channel_types[chan_id] != -1
+        return self.enum_channel_types.get(chan_id, -1) != -1
 
     def add_enum_channel(
         self,
-- 
2.43.0


From 8e82c48e0be1087be93ac6ea840f289b9d61292c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:40 +0000
Subject: [PATCH 21/95] fix: do not index unknown http paths as implemented
 requests

---
 vtelem/classes/http_request_mapper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vtelem/classes/http_request_mapper.py b/vtelem/classes/http_request_mapper.py
index 3a3ad24..25e6c76 100644
--- a/vtelem/classes/http_request_mapper.py
+++ b/vtelem/classes/http_request_mapper.py
@@ -61,8 +61,8 @@ class HttpRequestMapper:
         """Retrieve a handle by request type and path."""
 
         return (
-            self.requests[request_type][path],
-            self.handle_data[request_type][path],
+            self.requests.get(request_type, {}).get(path),
+            self.handle_data.get(request_type, {}).get(path),
         )
 
     def add_handler(
-- 
2.43.0


From ef57008ebaabbadb3a5259362e5fe2190b9c19bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:08 +0000
Subject: [PATCH 22/95] fix: reject values that a single-precision channel
 cannot hold

---
 local/templates/primitive.py.j2 | 15 +++++++++++++++
 vtelem/enums/primitive.py       | 15 ++++++++++++++-
 2 files changed, 29 insertions(+), 1 deletion(-)

diff --git a/local/templates/primitive.py.j2 b/local/templates/primitive.py.j2
index aa7b140..f33277e 100644
--- a/local/templates/primitive.py.j2
+++ b/local/templates/primitive.py.j2
@@ -6,6 +6,7 @@ vtelem - A definition of the supported primitive types for this library.
 from enum import Enum
 from json import JSONEncoder
 import random
+import struct
 from typing import Any, Callable, NamedTuple, Tuple, Type, Union
 
 # internal
@@ -43,6 +44,16 @@ def integer_can_hold(prim: BasePrimitive, val: int) -> bool:
     return prim.min <= val <= prim.max
 
 
+def float_can_hold(prim: BasePrimitive, val: float) -> bool:
+    """Check if a primitive can hold this arbitrary floating-point value."""
+
+    try:
+        struct.pack(prim.fmt, val)
+    except OverflowError:
+        return False
+    return True
+
+
 class Primitive(Enum):
     """
     An enumeration containing the supported primitive types and their 'struct'
@@ -60,6 +71,10 @@ class Primitive(Enum):
         *integer_bounds({{item["bytes"]}}, {{item["signed"]}}),
         integer_can_hold,
     )
+  {% elif item["name"] == "float" %}
+    {{item["name"]|upper}} = BasePrimitive(
+        "{{item["python"]["serdes"]}}", {{item["python"]["type"]}}, {{item["bytes"]}}, "{{item["name"]}}", {{item["signed"]}}, validate=float_can_hold
+    )
   {% else %}
     {{item["name"]|upper}} = BasePrimitive("{{item["python"]["serdes"]}}", {{item["python"]["type"]}}, {{item["bytes"]}}, "{{item["name"]}}", {{item["signed"]}})
   {% endif %}
diff --git a/vtelem/enums/primitive.py b/vtelem/enums/primitive.py
index b31bb9f..3ecb09c 100644
--- a/vtelem/enums/primitive.py
+++ b/vtelem/enums/primitive.py
@@ -11,6 +11,7 @@ vtelem - A definition of the supported primitive types for this library.
 from enum import Enum
 from json import JSONEncoder
 import random
+import struct
 from typing import Any, Callable, NamedTuple, Tuple, Type, Union
 
 # internal
@@ -48,6 +49,16 @@ def integer_can_hold(prim: BasePrimitive, val: int) -> bool:
     return prim.min <= val <= prim.max
 
 
+def float_can_hold(prim: BasePrimitive, val: float) -> bool:
+    """Check if a primitive can hold this arbitrary floating-point value."""
+
+    try:
+        struct.pack(prim.fmt, val)
+    except OverflowError:
+        return False
+    return True
+
+
 class Primitive(Enum):
     """
     An enumeration containing the supported primitive types and their 'struct'
@@ -127,7 +138,9 @@ class Primitive(Enum):
         *integer_bounds(8, False),
         integer_can_hold,
     )
-    FLOAT = BasePrimitive("f", float, 4, "float", True)
+    FLOAT = BasePrimitive(
+        "f", float, 4, "float", True, validate=float_can_hold
+    )
     DOUBLE = BasePrimitive("d", float, 8, "double", True)
 
 
-- 
2.43.0


From 83417aaaf8a0321df09ff6de74fa281e8d1a7af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:08 +0000
Subject: [PATCH 23/95] fix: respond to http requests that their handler raises
 on

---
 vtelem/classes/http_request_mapper.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/vtelem/classes/http_request_mapper.py b/vtelem/classes/http_request_mapper.py
index 25e6c76..42d2a0a 100644
--- a/vtelem/classes/http_request_mapper.py
+++ b/vtelem/classes/http_request_mapper.py
@@ -152,7 +152,11 @@ class MapperAwareRequestHandler(BaseHTTPRequestHandler):
             return self._no_handle_response(command)
 
         # run handler
-        success, content = handle(self, data)
+        try:
+            success, content = handle(self, data)
+        except Exception as exc:  # pylint: disable=broad-except
+            LOG.exception("handler for '%s' raised", self.path)
+            success, content = False, f"{type(exc).__name__}: {exc}"
         status = HTTPStatus.OK if success else HTTPStatus.BAD_REQUEST
 
         if not success:
-- 
2.43.0


From 84f157d5ad2859fd24499b97d8be11d19e094abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:08 +0000
Subject: [PATCH 24/95] fix: keep handler-provided text out of the http status
 line

---
 vtelem/classes/http_request_mapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vtelem/classes/http_request_mapper.py b/vtelem/classes/http_request_mapper.py
index 42d2a0a..3f915b0 100644
--- a/vtelem/classes/http_request_mapper.py
+++ b/vtelem/classes/http_request_mapper.py
@@ -160,7 +160,7 @@ class MapperAwareRequestHandler(BaseHTTPRequestHandler):
         status = HTTPStatus.OK if success else HTTPStatus.BAD_REQUEST
 
         if not success:
-            self.send_error(status, content)
+            self.send_error(status, explain=content)
             self.end_headers()
             self.close_connection = True
             return None
-- 
2.43.0


From 06fecf60081bca6e026a41750481708b5b95f748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:08 +0000
Subject: [PATCH 25/95] fix: count bytes for the http content length

---
 vtelem/classes/http_request_mapper.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/vtelem/classes/http_request_mapper.py b/vtelem/classes/http_request_mapper.py
index 3f915b0..02460aa 100644
--- a/vtelem/classes/http_request_mapper.py
+++ b/vtelem/classes/http_request_mapper.py
@@ -165,14 +165,15 @@ class MapperAwareRequestHandler(BaseHTTPRequestHandler):
             self.close_connection = True
             return None
 
+        body = content.encode()
         self.send_response(status)
         if handle_data is not None:
             for key, value in handle_data.items():
                 self.send_header(key, value)
-        self.send_header("Content-Length", str(len(content)))
+        self.send_header("Content-Length", str(len(body)))
         self.end_headers()
         if not headers_only:
-            self.wfile.write(content.encode())
+            self.wfile.write(body)
         self.log_request(status)
         return None
 
-- 
2.43.0


From 6ba1206168daff0a8d5133fee7db31353419ac23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:08 +0000
Subject: [PATCH 26/95] fix: respond to http requests with malformed POST data

---
 vtelem/classes/http_request_mapper.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/vtelem/classes/http_request_mapper.py b/vtelem/classes/http_request_mapper.py
index 02460aa..0af57c6 100644
--- a/vtelem/classes/http_request_mapper.py
+++ b/vtelem/classes/http_request_mapper.py
@@ -187,7 +187,14 @@ class MapperAwareRequestHandler(BaseHTTPRequestHandler):
 
     def do_POST(self) -> None:  # pylint: disable=invalid-name
         """Respond to a POST request."""
-        return self._handle(get_post_request_data(self))
+
+        try:
+            data = get_post_request_data(self)
+        except ValueError as exc:
+            self.send_error(HTTPStatus.BAD_REQUEST, explain=str(exc))
+            self.close_connection = True
+            return None
+        return self._handle(data)
 
 
 def parse_content_type(value: str) -> Opt[dict]:
-- 
2.43.0


From 6b41187a5dc376ae30868dcba08094a7055bf9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:08 +0000
Subject: [PATCH 27/95] fix: sleep while time is scaled to zero

---
 vtelem/classes/time_keeper.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vtelem/classes/time_keeper.py b/vtelem/classes/time_keeper.py
index d9b4c00..cdd9260 100644
--- a/vtelem/classes/time_keeper.py
+++ b/vtelem/classes/time_keeper.py
@@ -76,4 +76,6 @@ class TimeKeeper(Daemon):
     def sleep(self, amount: float) -> None:
         """Sleep for the specified amount, scaled appropriately."""
 
-        self.sleep_function(amount / self.scalar)
+        # time doesn't advance when it's scaled to zero, just wait
+        scalar = self.scalar
+        self.sleep_function(amount / scalar if scalar else amount)
-- 
2.43.0


From a9c78afa82a2d49d8280d4957b7605af078efe33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:08 +0000
Subject: [PATCH 28/95] fix: construct a telemetry server without the
 websocket-command daemon

---
 vtelem/telemetry/server.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vtelem/telemetry/server.py b/vtelem/telemetry/server.py
index 445a8ef..b2150ad 100644
--- a/vtelem/telemetry/server.py
+++ b/vtelem/telemetry/server.py
@@ -143,7 +143,7 @@ class TelemetryServer(HttpDaemon):
                 telem,
                 self.time_keeper,
             )
-        assert self.daemons.add_daemon(ws_cmd, ["stream"])
+            assert self.daemons.add_daemon(ws_cmd, ["stream"])
 
         # make the daemon-manager commandable
         create_daemon_manager_commander(self.daemons, queue_daemon)
-- 
2.43.0


From 866cecabe0d0b166625781b64c148f71004cf50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:08 +0000
Subject: [PATCH 29/95] fix: refuse duplicates, and only duplicates, in the
 enum registry

---
 vtelem/registry/enum_retry.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vtelem/registry/enum_retry.py b/vtelem/registry/enum_retry.py
index 42e0f13..cdcd459 100644
--- a/vtelem/registry/enum_retry.py
+++ b/vtelem/registry/enum_retry.py
@@ -58,8 +58,9 @@ class EnumRegistry(Serializable, LockEntity):
     def add(self, enum: UserEnum) -> int:
         """Add an enum to the registry."""
 
-        assert enum.name not in self.data
         with self.lock:
+            assert enum.name not in self.enum_data
+
             # Store a reference to the serializable data directly.
             self.enum_data[enum.name] = enum.data
 
-- 
2.43.0


From 1401a9d4038633e35ac21899d27a8b4afbc0ba3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:08 +0000
Subject: [PATCH 30/95] fix: reject malformed frames instead of raising

---
 vtelem/parsing/encapsulation.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/vtelem/parsing/encapsulation.py b/vtelem/parsing/encapsulation.py
index 36d6c68..01a8a93 100644
--- a/vtelem/parsing/encapsulation.py
+++ b/vtelem/parsing/encapsulation.py
@@ -57,16 +57,20 @@ def decode_frame(
     """Unpack a frame from an array of bytes."""
 
     buf = ByteBuffer(cast(bytearray, data), False, size)
-    app_id, header = parse_frame_header(buf, expected_id)
+    try:
+        app_id, header = parse_frame_header(buf, expected_id)
 
-    if header is None:
-        assert expected_id is not None
-        LOG.error("id mismatch: %d != %d", app_id, expected_id.get())
-        return None
+        if header is None:
+            assert expected_id is not None
+            LOG.error("id mismatch: %d != %d", app_id, expected_id.get())
+            return None
 
-    result = PARSERS.get(header.type, PARSERS[FrameType.INVALID])(
-        header, buf, channel_registry
-    )
+        result = PARSERS.get(header.type, PARSERS[FrameType.INVALID])(
+            header, buf, channel_registry
+        )
+    except (AssertionError, AttributeError, ValueError) as exc:
+        LOG.error("malformed frame: %r", exc)
+        return None
 
     footer = parse_frame_footer(buf)
     if footer.crc is not None:
-- 
2.43.0


From dc2104365480f4aa095e01d64158074a0546bcbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:08 +0000
Subject: [PATCH 31/95] fix: run concurrent state-machine iterations one at a
 time

---
 vtelem/classes/state_machine.py | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/vtelem/classes/state_machine.py b/vtelem/classes/state_machine.py
index 0f5c912..cb92193 100644
--- a/vtelem/classes/state_machine.py
+++ b/vtelem/classes/state_machine.py
@@ -87,10 +87,9 @@ class StateMachine(LockEntity):
             with self.lock:
                 self._data.update(new_data)
 
-        curr = self.states[self.current_state]
-        assert curr is not None
-
         with self.lock:
+            curr = self.states[self.current_state]
+            assert curr is not None
             new = curr.run(self._data)
             assert new in self.states
 
@@ -123,14 +122,14 @@ class StateMachine(LockEntity):
                     )
                     exit_failed = True
 
-        # increment metrics
-        if self.metrics is not None:
-            with self.metrics.data() as metrics_data:
-                metrics_data["enter_fails"] += int(enter_failed)
-                metrics_data["exit_fails"] += int(exit_failed)
-                metrics_data["transitions"] += int(transitioned)
-                metrics_data["iterations"] += 1
-
-        actual_new = self.states[self.current_state]
-        assert actual_new is not None
-        return (curr, actual_new)
+            # increment metrics
+            if self.metrics is not None:
+                with self.metrics.data() as metrics_data:
+                    metrics_data["enter_fails"] += int(enter_failed)
+                    metrics_data["exit_fails"] += int(exit_failed)
+                    metrics_data["transitions"] += int(transitioned)
+                    metrics_data["iterations"] += 1
+
+            actual_new = self.states[self.current_state]
+            assert actual_new is not None
+            return (curr, actual_new)
-- 
2.43.0


From ef246d1b7118eabc47b3901938161f59519ab325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:34 +0000
Subject: [PATCH 32/95] fix: do not register an enum channel with an unknown
 enum or value

---
 vtelem/telemetry/environment.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/vtelem/telemetry/environment.py b/vtelem/telemetry/environment.py
index 9cdbf06..89052b3 100644
--- a/vtelem/telemetry/environment.py
+++ b/vtelem/telemetry/environment.py
@@ -100,18 +100,21 @@ class TelemetryEnvironment(ChannelEnvironment):
     ) -> int:
         """Add a channel that stores an enumeration value."""
 
+        # don't register the channel if it can't be an enum channel
+        enum_type = self.enum_registry.get_id(enum_name)
+        assert enum_type is not None
+        enum_def = self.enum_registry.get_item(enum_type)
+        assert enum_def is not None
+        value = enum_def.get_value(initial[0]) if initial is not None else 0
+
         new_chan = self.add_channel(
             name, DEFAULTS["enum"], rate, track_change, None, commandable
         )
-        enum_type = self.enum_registry.get_id(enum_name)
-        assert enum_type is not None
         self.enum_channel_types[new_chan] = enum_type
         if initial is not None:
             chan = self.registries["channel"].get_item(new_chan)
             assert chan is not None
-            enum_def = self.enum_registry.get_item(enum_type)
-            assert enum_def is not None
-            assert chan.set(enum_def.get_value(initial[0]), initial[1])
+            assert chan.set(value, initial[1])
         return new_chan
 
     def add_enum_metric(
-- 
2.43.0


From 071ea6c627aab4d0aa9fc047576c2ffe4b889ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:34 +0000
Subject: [PATCH 33/95] fix: do not register an enum whose name is taken by a
 type

---
 vtelem/telemetry/environment.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vtelem/telemetry/environment.py b/vtelem/telemetry/environment.py
index 89052b3..c81ec69 100644
--- a/vtelem/telemetry/environment.py
+++ b/vtelem/telemetry/environment.py
@@ -192,6 +192,7 @@ class TelemetryEnvironment(ChannelEnvironment):
         with self.lock:
             if self.has_enum(enum):
                 return self.enum_registry.get_enum(enum)[1]
+            assert self.type_registry.get_id(enum.name) is None
             result = self.enum_registry.add_enum(enum)
             assert result[0]
             assert self.enum_registry.export(self.type_registry)
-- 
2.43.0


From 695801b8cbab9c0b0c15538f0c1a19aa664ab43c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:34 +0000
Subject: [PATCH 34/95] fix: do not emit events for a rejected, duplicate
 channel

---
 vtelem/channel/environment.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vtelem/channel/environment.py b/vtelem/channel/environment.py
index f6581be..9d93987 100644
--- a/vtelem/channel/environment.py
+++ b/vtelem/channel/environment.py
@@ -209,6 +209,7 @@ class ChannelEnvironment(TimeEntity):
         """
 
         with self.lock:
+            assert not self.has_channel(name)
             queue = None if not track_change else self.event_queue
             new_chan = Channel(name, instance, rate, queue, commandable)
             if initial is not None:
-- 
2.43.0


From 7186cd614a6a0e65ee0eac5e549c776cdaad9e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:34 +0000
Subject: [PATCH 35/95] fix: wrap message numbers that no longer fit their
 frame field

---
 vtelem/message/framer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vtelem/message/framer.py b/vtelem/message/framer.py
index b0a4fbb..147744d 100644
--- a/vtelem/message/framer.py
+++ b/vtelem/message/framer.py
@@ -7,6 +7,7 @@ from json import JSONEncoder, dumps
 from typing import Dict, Sequence, Tuple, Type
 
 # internal
+from vtelem.classes import DEFAULTS
 from vtelem.classes.serdes import ObjectData, Serializable
 from vtelem.frame.framer import Framer
 from vtelem.frame.message import MessageFrame, frames_required
@@ -63,6 +64,7 @@ class MessageFramer(Framer):
             }
         )
         self.message_numbers[message_type] += 1
+        self.message_numbers[message_type] %= DEFAULTS["id"].value.max + 1
 
         frames = []
         frame_start = 0
-- 
2.43.0


From e5056969ab91ed9dbd4c2cd639eb92ad10611ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:34 +0000
Subject: [PATCH 36/95] fix: refuse message-field values that do not fit,
 instead of zeroing them

---
 vtelem/frame/message.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vtelem/frame/message.py b/vtelem/frame/message.py
index 75736e1..4d09283 100644
--- a/vtelem/frame/message.py
+++ b/vtelem/frame/message.py
@@ -88,7 +88,7 @@ class MessageFrame(Frame):
         for field in MESSAGE_FIELDS:
             prim = TypePrimitive(field.type)
             if values is not None and field.name in values:
-                prim.set(values[field.name])
+                assert prim.set(values[field.name])
             result[field.name] = prim
         return result
 
-- 
2.43.0


From 3c0b4bfb9044632e86ef8696f610ee84c93994dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:34 +0000
Subject: [PATCH 37/95] fix: do not count elements that a full queue refused

---
 vtelem/classes/metered_queue.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/vtelem/classes/metered_queue.py b/vtelem/classes/metered_queue.py
index 48a584a..88afcff 100644
--- a/vtelem/classes/metered_queue.py
+++ b/vtelem/classes/metered_queue.py
@@ -3,7 +3,7 @@ vtelem - Allows queues to publish telemetry metrics.
 """
 
 # built-in
-from queue import Queue
+from queue import Full, Queue
 from typing import Any
 
 # internal
@@ -58,7 +58,12 @@ class MeteredQueue(Queue):
         time = self.env.get_time()
         self.env.metric_add(f"{self.name}.elements", 1, time)
         self.env.metric_add(f"{self.name}.total_enqueued", 1, time)
-        super().put(item, block, timeout)
+        try:
+            super().put(item, block, timeout)
+        except Full:
+            self.env.metric_add(f"{self.name}.elements", -1, time)
+            self.env.metric_add(f"{self.name}.total_enqueued", -1, time)
+            raise
 
 
 def create(
-- 
2.43.0


From 7a49fadc0a608d591b978ca9de339dda10fc6717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:34 +0000
Subject: [PATCH 38/95] fix: require both the host and port of a new udp client

---
 vtelem/factories/udp_client_manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vtelem/factories/udp_client_manager.py b/vtelem/factories/udp_client_manager.py
index 991a423..ea277cd 100644
--- a/vtelem/factories/udp_client_manager.py
+++ b/vtelem/factories/udp_client_manager.py
@@ -16,7 +16,7 @@ from vtelem.types.command_queue_daemon import ResultCbType
 def add_client(manager: UdpClientManager, data: dict) -> Tuple[bool, str]:
     """Attempt to add a new client."""
 
-    if "host" not in data and "port" not in data:
+    if "host" not in data or "port" not in data:
         return False, "must provide 'host' and 'port'"
 
     result = manager.add_client(Host(data["host"], data["port"]))
-- 
2.43.0


From fa9271d9a15d646c4cbdf48c91437948f516e5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:12 +0000
Subject: [PATCH 39/95] fix: do not discard bytes after recovering from an
 unreasonable frame size

---
 vtelem/frame/processor.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vtelem/frame/processor.py b/vtelem/frame/processor.py
index 8533cf7..397049c 100644
--- a/vtelem/frame/processor.py
+++ b/vtelem/frame/processor.py
@@ -37,6 +37,7 @@ class FrameProcessor:
         # clear buffer state if we get an unreasonable value
         if self.size > mtu:
             self.buffer.reset()
+            self.size = 0
             self.size_stale = True
 
     def process(
-- 
2.43.0


From 4a4f357012d6a2cac76bc64cba1e695cb5cc746d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:12 +0000
Subject: [PATCH 40/95] fix: do not lose decodable file frames behind ones that
 are not

---
 vtelem/client/file.py | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/vtelem/client/file.py b/vtelem/client/file.py
index 681735c..06e7732 100644
--- a/vtelem/client/file.py
+++ b/vtelem/client/file.py
@@ -60,18 +60,12 @@ class FileClient(DaemonBase, TelemetryClient):
         (and export via queue) more frames than were requested.
         """
 
-        # Determine how many frames to process, we can either process them all
-        # or we want to truncate so we don't process more than was requested.
-        process_count = len(self.to_process)
-        if task.max_frames is not None:
-            process_count = min(
-                process_count, task.max_frames - self.frame_count
-            )
-
-        # Consume the desired number of payloads from our process list.
-        if process_count:
-            to_process = [self.to_process.pop(0) for _ in range(process_count)]
-            self.frame_count += self.handle_frames(to_process)
+        # Consume payloads from our process list, until they're exhausted or
+        # the desired number of frames (not payloads) was processed.
+        while self.to_process and (
+            task.max_frames is None or self.frame_count < task.max_frames
+        ):
+            self.frame_count += self.handle_frames([self.to_process.pop(0)])
 
         # Determine if we've reached the limit of desired frames, if one was
         # provided.
-- 
2.43.0


From 741d7c1229217ce618468e9190255e2912379e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:04 +0000
Subject: [PATCH 41/95] fix: use the wire format to tell whether a
 single-precision value fits

---
 local/templates/primitive.py.j2 | 2 +-
 vtelem/enums/primitive.py       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/local/templates/primitive.py.j2 b/local/templates/primitive.py.j2
index f33277e..9287288 100644
--- a/local/templates/primitive.py.j2
+++ b/local/templates/primitive.py.j2
@@ -48,7 +48,7 @@ def float_can_hold(prim: BasePrimitive, val: float) -> bool:
     """Check if a primitive can hold this arbitrary floating-point value."""
 
     try:
-        struct.pack(prim.fmt, val)
+        struct.pack("!" + prim.fmt, val)
     except OverflowError:
         return False
     return True
diff --git a/vtelem/enums/primitive.py b/vtelem/enums/primitive.py
index 3ecb09c..2da93ad 100644
--- a/vtelem/enums/primitive.py
+++ b/vtelem/enums/primitive.py
@@ -53,7 +53,7 @@ def float_can_hold(prim: BasePrimitive, val: float) -> bool:
     """Check if a primitive can hold this arbitrary floating-point value."""
 
     try:
-        struct.pack(prim.fmt, val)
+        struct.pack("!" + prim.fmt, val)
     except OverflowError:
         return False
     return True
-- 
2.43.0


From 8a783e2a53fa093c806f9303f5e4b5cc640fcbe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:22 +0000
Subject: [PATCH 42/95] fix: allow cleaning a message cache more than once

---
 vtelem/message/cache.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vtelem/message/cache.py b/vtelem/message/cache.py
index 7ee620e..1098453 100644
--- a/vtelem/message/cache.py
+++ b/vtelem/message/cache.py
@@ -85,6 +85,7 @@ class MessageCache(DataCache, MessageDispatcher):
 
         DataCache.clean(self)
         shutil.rmtree(self.fragment_dir)
+        os.makedirs(self.fragment_dir)
         for mtype in MessageType:
             self.data[str(mtype.value)] = {}
             self.fragment_data[mtype.value] = {}
-- 
2.43.0


From c210a3cf02c219ad426422a116e87119b86806ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:51 +0000
Subject: [PATCH 43/95] fix: perform operations on long chains of dependent
 daemons

---
 vtelem/daemon/manager.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/vtelem/daemon/manager.py b/vtelem/daemon/manager.py
index b38e425..62dcc4d 100644
--- a/vtelem/daemon/manager.py
+++ b/vtelem/daemon/manager.py
@@ -67,11 +67,11 @@ class DaemonManager(LockEntity):
         Execute an operation on daemons, respecting the dependency order.
         """
 
-        if not name_stack:
-            return
-
-        curr = name_stack.pop()
-        if curr not in executed:
+        waiting: List[str] = []
+        while name_stack:
+            curr = name_stack.pop()
+            if curr in executed:
+                continue
 
             # determine if we can execute yet
             to_execute: List[str] = []
@@ -84,15 +84,13 @@ class DaemonManager(LockEntity):
             # if we have dependencies, put them in front of us, otherwise
             # run against the current entry
             if to_execute:
-                name_stack = to_execute + [curr] + name_stack
+                assert curr not in waiting, f"'{curr}' depends on itself"
+                waiting.append(curr)
+                name_stack += [curr] + to_execute
             else:
                 results[curr] = self.perform(curr, operation, *args, **kwargs)
                 executed.append(curr)
 
-        self.perform_stack(
-            name_stack, executed, results, operation, *args, **kwargs
-        )
-
     def perform_all(self, operation: DaemonOperation, *args, **kwargs) -> bool:
         """Attempt to perform an action on all daemons."""
 
-- 
2.43.0


From 1ae96026848f359c7adf413258d23d3860acf6a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:44 +0000
Subject: [PATCH 44/95] fix: fail, instead of raising, when a daemon can't
 perform an operation

---
 vtelem/daemon/__init__.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/vtelem/daemon/__init__.py b/vtelem/daemon/__init__.py
index 4efc8ea..6845aad 100644
--- a/vtelem/daemon/__init__.py
+++ b/vtelem/daemon/__init__.py
@@ -120,7 +120,11 @@ class DaemonBase(TimeEntity):
 
         # set up the actions data
         default: dict = defaultdict(
-            lambda: {"action": lambda: False, "takes_args": False}
+            lambda: {
+                "action": lambda: False,
+                "takes_args": False,
+                "skip_if_state": [],
+            }
         )
         self.daemon_ops: Dict[DaemonOperation, dict] = default
         self.daemon_ops[DaemonOperation.START] = {
-- 
2.43.0


From 6649288b0f600b0a05430eb5b602f1a50a82654d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:30 +0000
Subject: [PATCH 45/95] fix: report concurrent daemon-state changes in the
 order they happen

---
 vtelem/daemon/__init__.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/vtelem/daemon/__init__.py b/vtelem/daemon/__init__.py
index 6845aad..4fcdf11 100644
--- a/vtelem/daemon/__init__.py
+++ b/vtelem/daemon/__init__.py
@@ -193,8 +193,11 @@ class DaemonBase(TimeEntity):
                     self.get_time(),
                 )
 
-        if transition:
-            self.function["state_change"](old_state, state, self.get_time())
+            # report changes in the order that they happen
+            if transition:
+                self.function["state_change"](
+                    old_state, state, self.get_time()
+                )
 
         return transition
 
-- 
2.43.0


From 7978e45f7d596e56c625506f0a9f5e6133a14a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:54 +0000
Subject: [PATCH 46/95] fix: respect dependencies when commanding all daemons

---
 vtelem/factories/daemon_manager.py | 33 +++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/vtelem/factories/daemon_manager.py b/vtelem/factories/daemon_manager.py
index b358253..11a5fdc 100644
--- a/vtelem/factories/daemon_manager.py
+++ b/vtelem/factories/daemon_manager.py
@@ -4,12 +4,17 @@ vtelem - A module for creating functions based on a daemon manager.
 
 # built-in
 import json
-from typing import List, Tuple
+from typing import Dict, List, Tuple
 
 # internal
 from vtelem.daemon.command_queue import CommandQueueDaemon
 from vtelem.daemon.manager import DaemonManager
-from vtelem.enums.daemon import DaemonOperation, is_operation, operation_str
+from vtelem.enums.daemon import (
+    DaemonOperation,
+    is_operation,
+    operation_str,
+    str_to_operation,
+)
 from vtelem.types.command_queue_daemon import ResultCbType
 
 
@@ -32,18 +37,22 @@ def create_daemon_manager_commander(
             if "daemons" not in cmd or not isinstance(cmd["daemons"], list):
                 return False, f"'daemons' not provided as a list for '{oper}'"
 
-            # allow 'all' to be a special key
-            daemons = cmd["daemons"]
-            if "all" in daemons:
-                daemons = list(manager.states().keys())
-
             # execute all of the requested commands
-            results = {}
+            results: Dict[str, bool] = {}
             bool_results: List[bool] = []
-            for daemon_name in daemons:
-                result = manager.perform_str(daemon_name, oper)
-                bool_results.append(result)
-                results[daemon_name] = result
+            if "all" in cmd["daemons"]:
+                # allow 'all' to be a special key, respect dependencies
+                action = str_to_operation(oper)
+                assert action is not None
+                with manager.lock:
+                    names = list(manager.daemons.keys())
+                    manager.perform_stack(names, [], results, action)
+                bool_results += results.values()
+            else:
+                for daemon_name in cmd["daemons"]:
+                    result = manager.perform_str(daemon_name, oper)
+                    bool_results.append(result)
+                    results[daemon_name] = result
             state_data = manager.states()
             state_data["results"] = results
             return all(bool_results), json.dumps(state_data)
-- 
2.43.0


From c6fa0db702bbfc61c0abfe3b575ba615b0d519c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:08 +0000
Subject: [PATCH 47/95] fix: run a state-machine iteration with the data it was
 given

---
 vtelem/classes/state_machine.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/vtelem/classes/state_machine.py b/vtelem/classes/state_machine.py
index cb92193..ddff4a3 100644
--- a/vtelem/classes/state_machine.py
+++ b/vtelem/classes/state_machine.py
@@ -83,11 +83,10 @@ class StateMachine(LockEntity):
         states.
         """
 
-        if new_data is not None:
-            with self.lock:
+        with self.lock:
+            if new_data is not None:
                 self._data.update(new_data)
 
-        with self.lock:
             curr = self.states[self.current_state]
             assert curr is not None
             new = curr.run(self._data)
-- 
2.43.0


From 86f39569a306a471f015d3827922a36033d96cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:05 +0000
Subject: [PATCH 48/95] fix: describe registries of channel groups

---
 vtelem/channel/group_registry.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/vtelem/channel/group_registry.py b/vtelem/channel/group_registry.py
index f0208a8..b311568 100644
--- a/vtelem/channel/group_registry.py
+++ b/vtelem/channel/group_registry.py
@@ -4,6 +4,7 @@ vtelem - Allows channel groups to be managed by a single entity.
 
 # built-in
 from contextlib import contextmanager
+from json import JSONEncoder
 from typing import Any, Dict, Iterator
 
 # internal
@@ -13,6 +14,17 @@ from vtelem.registry import Registry
 from vtelem.telemetry.environment import TelemetryEnvironment
 
 
+class ChannelGroupEncoder(JSONEncoder):
+    """A JSON encoder for a channel group."""
+
+    def default(self, o) -> dict:
+        """Implement serialization for a channel group."""
+
+        assert isinstance(o, ChannelGroup)
+        channels = o.channels.copy().items()
+        return {"name": o.name, "channels": {x: y["id"] for x, y in channels}}
+
+
 class ChannelGroupRegistry(Registry[ChannelGroup]):
     """A class for managing an arbitrary number of channel groups."""
 
@@ -22,6 +34,11 @@ class ChannelGroupRegistry(Registry[ChannelGroup]):
         super().__init__("channel_groups")
         self.env = env
 
+    def describe(self, indented: bool = False) -> str:
+        """Obtain a JSON String of the group registry's current state."""
+
+        return self.describe_raw(indented, ChannelGroupEncoder)
+
     def create_group(self, name: str) -> int:
         """Add a new, named channel group."""
 
-- 
2.43.0


From fab40bddaad89b27404c6e7fa917cb86f0f5a23a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:05 +0000
Subject: [PATCH 49/95] fix: initialize enum channels to a member of their enum

---
 vtelem/telemetry/environment.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/vtelem/telemetry/environment.py b/vtelem/telemetry/environment.py
index c81ec69..476dfa2 100644
--- a/vtelem/telemetry/environment.py
+++ b/vtelem/telemetry/environment.py
@@ -105,16 +105,19 @@ class TelemetryEnvironment(ChannelEnvironment):
         assert enum_type is not None
         enum_def = self.enum_registry.get_item(enum_type)
         assert enum_def is not None
-        value = enum_def.get_value(initial[0]) if initial is not None else 0
+        if initial is None:
+            initial = (enum_def.default, None)
+        value = enum_def.get_value(initial[0])
 
         new_chan = self.add_channel(
-            name, DEFAULTS["enum"], rate, track_change, None, commandable
+            name,
+            DEFAULTS["enum"],
+            rate,
+            track_change,
+            (value, initial[1]),
+            commandable,
         )
         self.enum_channel_types[new_chan] = enum_type
-        if initial is not None:
-            chan = self.registries["channel"].get_item(new_chan)
-            assert chan is not None
-            assert chan.set(value, initial[1])
         return new_chan
 
     def add_enum_metric(
-- 
2.43.0


From f42172498d8b6283d51a1fd5d9cb586b03c17900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:13 +0000
Subject: [PATCH 50/95] fix: refuse initial enums named like other types

---
 vtelem/telemetry/environment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vtelem/telemetry/environment.py b/vtelem/telemetry/environment.py
index 476dfa2..1765e06 100644
--- a/vtelem/telemetry/environment.py
+++ b/vtelem/telemetry/environment.py
@@ -51,7 +51,7 @@ class TelemetryEnvironment(ChannelEnvironment):
         enums = [self.framer.frame_types, MESSAGE_TYPES]
         for to_register in enums:
             assert self.enum_registry.add_enum(to_register)[0]
-        self.enum_registry.export(self.type_registry)
+        assert self.enum_registry.export(self.type_registry)
         self.enum_channel_types: Dict[int, int] = defaultdict(lambda: -1)
         if self.metrics is not None:
             self.add_metric(
-- 
2.43.0


From d1a98316de434dd62e5d4d79fe9774326470cbb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:33 +0000
Subject: [PATCH 51/95] fix: validate loaded objects with the loader's schemas

---
 vtelem/classes/serdes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vtelem/classes/serdes.py b/vtelem/classes/serdes.py
index 7d611e7..b64179f 100644
--- a/vtelem/classes/serdes.py
+++ b/vtelem/classes/serdes.py
@@ -145,7 +145,7 @@ class Serializable:
         """Create a serializable from a text stream loaded as JSON."""
 
         data: ObjectData = load(stream, cls=self.params.decoder, **load_kwargs)
-        return self.__class__(data, self.params)
+        return self.__class__(data, self.params, manager=self.manager)
 
     def load_str(self, data: str, **load_kwargs) -> "Serializable":
         """Create a serializable from a String loaded as JSON."""
-- 
2.43.0


From b6d472291ba97b81073ca3ce7645830d9bd1e39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:01 +0000
Subject: [PATCH 52/95] fix: accept enum members of several words in their
 schema

---
 docs/serializable.md                    | 2 +-
 local/serializables/UserEnum.yaml       | 2 +-
 vtelem/data/serializables/UserEnum.yaml | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/docs/serializable.md b/docs/serializable.md
index de28ca4..363d8be 100644
--- a/docs/serializable.md
+++ b/docs/serializable.md
@@ -85,7 +85,7 @@ message.*
         },
         "type": "dict",
         "valuesrules": {
-            "regex": "[a-z]+",
+            "regex": "[a-z_]+",
             "type": "string"
         }
     },
diff --git a/local/serializables/UserEnum.yaml b/local/serializables/UserEnum.yaml
index 616046a..e9960be 100644
--- a/local/serializables/UserEnum.yaml
+++ b/local/serializables/UserEnum.yaml
@@ -21,7 +21,7 @@ cerberus:
       type: integer
     valuesrules:
       type: string
-      regex: "[a-z]+"
+      regex: "[a-z_]+"
 example:
   name: "sample_enum"
   mappings:
diff --git a/vtelem/data/serializables/UserEnum.yaml b/vtelem/data/serializables/UserEnum.yaml
index 6b0009c..824dcbf 100644
--- a/vtelem/data/serializables/UserEnum.yaml
+++ b/vtelem/data/serializables/UserEnum.yaml
@@ -2,6 +2,6 @@ default: {type: string}
 mappings:
   keysrules: {type: integer}
   type: dict
-  valuesrules: {regex: '[a-z]+', type: string}
+  valuesrules: {regex: '[a-z_]+', type: string}
 name: {regex: '[a-z_]+', type: string}
 type: {regex: ^user_enum$, type: string}
-- 
2.43.0


From 111bff07469dcf723f202af10a03829aa6834f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:59 +0000
Subject: [PATCH 53/95] fix: validate with the schema manager provided at
 initialization

---
 vtelem/classes/serdes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vtelem/classes/serdes.py b/vtelem/classes/serdes.py
index b64179f..ca78f9e 100644
--- a/vtelem/classes/serdes.py
+++ b/vtelem/classes/serdes.py
@@ -94,6 +94,8 @@ class Serializable:
 
         # Use either the provided schema, or one sourced from a schema manager.
         schema = self.params.schema
+        if manager is None:
+            manager = self.manager
         if schema is None and manager is not None:
             schema = manager.get(self.__class__)
 
-- 
2.43.0


From fd1ada43fecc6c3716d0e36bfb6a3833cf8d6699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:49 +0000
Subject: [PATCH 54/95] fix: don't add to a channel group while it's read or
 written

---
 vtelem/channel/group.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/vtelem/channel/group.py b/vtelem/channel/group.py
index 8b0faa7..4d81e01 100644
--- a/vtelem/channel/group.py
+++ b/vtelem/channel/group.py
@@ -50,7 +50,12 @@ class ChannelGroup:
         except AssertionError:
             return False
 
-        self.channels[name] = {"id": chan_id, "value": val, "is_enum": False}
+        with self.env.lock:
+            self.channels[name] = {
+                "id": chan_id,
+                "value": val,
+                "is_enum": False,
+            }
         return True
 
     def add_enum_channel(
@@ -88,7 +93,8 @@ class ChannelGroup:
         except AssertionError:
             return False
 
-        self.channels[name] = {"id": chan_id, "is_enum": True}
+        with self.env.lock:
+            self.channels[name] = {"id": chan_id, "is_enum": True}
         return True
 
     @contextmanager
-- 
2.43.0


From 74079843908a8e6d7807cfda775e90ecf5656d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:49 +0000
Subject: [PATCH 55/95] fix: don't write a channel group partially

---
 vtelem/channel/group.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/vtelem/channel/group.py b/vtelem/channel/group.py
index 4d81e01..51d07dc 100644
--- a/vtelem/channel/group.py
+++ b/vtelem/channel/group.py
@@ -94,7 +94,11 @@ class ChannelGroup:
             return False
 
         with self.env.lock:
-            self.channels[name] = {"id": chan_id, "is_enum": True}
+            self.channels[name] = {
+                "id": chan_id,
+                "is_enum": True,
+                "enum": enum,
+            }
         return True
 
     @contextmanager
@@ -126,8 +130,14 @@ class ChannelGroup:
         """Write the values into the environment."""
 
         with self.env.lock:
+            # don't write anything if some of it doesn't exist
             for name, value in values.items():
                 assert name in self.channels
+                chan = self.channels[name]
+                if chan["is_enum"]:
+                    chan["enum"].get_value(value)
+
+            for name, value in values.items():
                 chan = self.channels[name]
                 if chan["is_enum"]:
                     self.env.set_enum_now(chan["id"], value)
-- 
2.43.0


From f4bd7ca12100dcca06b38fd00fa5c2336ae2e438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:14 +0000
Subject: [PATCH 56/95] fix: don't wait for a full queue that was removed

---
 vtelem/stream/writer.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/vtelem/stream/writer.py b/vtelem/stream/writer.py
index f34a7a3..748f116 100644
--- a/vtelem/stream/writer.py
+++ b/vtelem/stream/writer.py
@@ -8,7 +8,7 @@ from contextlib import contextmanager
 from io import BytesIO
 import logging
 from pathlib import Path
-from queue import Queue
+from queue import Full, Queue
 from threading import Semaphore
 from typing import (
     Any,
@@ -36,6 +36,7 @@ from vtelem.telemetry.environment import TelemetryEnvironment
 
 LOG = logging.getLogger(__name__)
 Stream = Union[BinaryIO, BytesIO]
+QUEUE_POLL = 0.1
 
 
 class StreamWriter(QueueDaemon):
@@ -73,7 +74,7 @@ class StreamWriter(QueueDaemon):
                 array, size = frame.with_size_header(frame_size)
 
                 with self.lock:
-                    queues = list(self.queues.values())
+                    queues = self.queues.copy()
                     streams = self.streams.copy()
 
                 to_remove = []
@@ -111,10 +112,15 @@ class StreamWriter(QueueDaemon):
                     # the stream may have been removed while we were writing
                     self.remove_stream(stream_id)
 
-            # add to queues
-            for queue in queues:
-                queue.put(frame)
-            self.increment_metric("queue_writes", len(queues))
+            # add to queues, a full one may be removed while we're waiting
+            for queue_id, queue in queues.items():
+                while queue_id in self.queues:
+                    try:
+                        queue.put(frame, timeout=QUEUE_POLL)
+                        self.increment_metric("queue_writes")
+                        break
+                    except Full:
+                        pass
 
         super().__init__(name, frame_queue, frame_handle, env, time_keeper)
 
-- 
2.43.0


From 21f5c16daa8982d13d1eab651f73acb5a517f9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:52 +0000
Subject: [PATCH 57/95] fix: let a udp client fail while it's added

---
 vtelem/classes/udp_client_manager.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vtelem/classes/udp_client_manager.py b/vtelem/classes/udp_client_manager.py
index 4aa83f7..22c5b7c 100644
--- a/vtelem/classes/udp_client_manager.py
+++ b/vtelem/classes/udp_client_manager.py
@@ -79,11 +79,13 @@ class UdpClientManager(LockEntity):
         sock_file = cast(socket.socket, sock).makefile("wb")
         sock_file.flush()
 
+        # once it's added, the writer may fail and close it at any time
+        name = sock.getsockname()
+
         with self.lock:
             sock_id = self.writer.add_stream(sock_file, flush=flush)
             self.clients[sock_id] = (sock, sock_file)
 
-        name = sock.getsockname()
         LOG.info(
             "adding stream client '%s:%d' -> '%s:%d'",
             name[0],
-- 
2.43.0


From 096dd0bffd93f860ed7cd0943303c04f28b0c27c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:57 +0000
Subject: [PATCH 58/95] fix: count a stream before it can be removed

---
 vtelem/stream/writer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vtelem/stream/writer.py b/vtelem/stream/writer.py
index 748f116..0d9892b 100644
--- a/vtelem/stream/writer.py
+++ b/vtelem/stream/writer.py
@@ -152,7 +152,7 @@ class StreamWriter(QueueDaemon):
             result = self.queue_id
             self.queues[result] = queue
             self.queue_id += 1
-        self.increment_metric("queue_count")
+            self.increment_metric("queue_count")
         return result
 
     def registered_queue(
@@ -179,7 +179,7 @@ class StreamWriter(QueueDaemon):
             self.stream_closers[result] = stream_closer
             self.stream_attrs[result]["flush"] = flush
             self.curr_id += 1
-        self.increment_metric("stream_count")
+            self.increment_metric("stream_count")
         return result
 
     @contextmanager
-- 
2.43.0


From 57150e8371b81acadb093f7d30ec10368c7a656c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:43 +0000
Subject: [PATCH 59/95] fix: register a metric once, whichever thread is first

---
 vtelem/channel/environment.py   | 11 ++++++-----
 vtelem/telemetry/environment.py | 11 ++++++-----
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/vtelem/channel/environment.py b/vtelem/channel/environment.py
index 9d93987..2de9e78 100644
--- a/vtelem/channel/environment.py
+++ b/vtelem/channel/environment.py
@@ -113,11 +113,12 @@ class ChannelEnvironment(TimeEntity):
     ) -> None:
         """Add a new, named metric channel"""
 
-        if self.metrics is not None and not self.has_metric(name):
-            self.metrics[name] = self.add_channel(
-                name, instance, float(), track_change, initial, False
-            )
-            self.set_metric_rate(name, self.get_metric("metrics_rate"))
+        with self.lock:
+            if self.metrics is not None and not self.has_metric(name):
+                self.metrics[name] = self.add_channel(
+                    name, instance, float(), track_change, initial, False
+                )
+                self.set_metric_rate(name, self.get_metric("metrics_rate"))
 
     def get_metric(self, name: str) -> Any:
         """Get the value from a metrics channel."""
diff --git a/vtelem/telemetry/environment.py b/vtelem/telemetry/environment.py
index 1765e06..704759b 100644
--- a/vtelem/telemetry/environment.py
+++ b/vtelem/telemetry/environment.py
@@ -129,11 +129,12 @@ class TelemetryEnvironment(ChannelEnvironment):
     ) -> None:
         """Add a metric based on an enumeration definition."""
 
-        if self.metrics is not None and not self.has_metric(name):
-            self.metrics[name] = self.add_enum_channel(
-                name, enum_name, float(), track_change, initial, False
-            )
-            self.set_metric_rate(name, self.get_metric("metrics_rate"))
+        with self.lock:
+            if self.metrics is not None and not self.has_metric(name):
+                self.metrics[name] = self.add_enum_channel(
+                    name, enum_name, float(), track_change, initial, False
+                )
+                self.set_metric_rate(name, self.get_metric("metrics_rate"))
 
     def set_enum_metric(
         self, name: str, data: str, time: float = None
-- 
2.43.0


From 3e18c2f31f2dd49c5ee77073f6d0114673b509d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:43 +0000
Subject: [PATCH 60/95] fix: don't count a put with a negative time-out

---
 vtelem/classes/metered_queue.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vtelem/classes/metered_queue.py b/vtelem/classes/metered_queue.py
index 88afcff..4ea1e49 100644
--- a/vtelem/classes/metered_queue.py
+++ b/vtelem/classes/metered_queue.py
@@ -60,7 +60,8 @@ class MeteredQueue(Queue):
         self.env.metric_add(f"{self.name}.total_enqueued", 1, time)
         try:
             super().put(item, block, timeout)
-        except Full:
+        except (Full, ValueError):
+            # it's full, or the time-out is negative
             self.env.metric_add(f"{self.name}.elements", -1, time)
             self.env.metric_add(f"{self.name}.total_enqueued", -1, time)
             raise
-- 
2.43.0


From 8f326d5903f9c03d4511719f6f4e89e32a7b2604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:23 +0000
Subject: [PATCH 61/95] fix: don't ask a closed stream for its name

---
 vtelem/stream/writer.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/vtelem/stream/writer.py b/vtelem/stream/writer.py
index 0d9892b..8448bdc 100644
--- a/vtelem/stream/writer.py
+++ b/vtelem/stream/writer.py
@@ -39,6 +39,15 @@ Stream = Union[BinaryIO, BytesIO]
 QUEUE_POLL = 0.1
 
 
+def stream_name(stream: Stream) -> str:
+    """Get a name for a stream, a closed one may not have it anymore."""
+
+    try:
+        return str(getattr(stream, "name", stream))
+    except ValueError:
+        return "closed"
+
+
 class StreamWriter(QueueDaemon):
     """
     Implements a daemon for writing frames to an arbitrary number of client
@@ -90,7 +99,7 @@ class StreamWriter(QueueDaemon):
                         # writing to a closed file raises 'ValueError'
                         LOG.error(
                             "stream '%s' (%d) error writing %d bytes: %s",
-                            getattr(stream, "name", stream),
+                            stream_name(stream),
                             stream_id,
                             len(array),
                             exc,
@@ -101,7 +110,7 @@ class StreamWriter(QueueDaemon):
                 for stream_id, stream in to_remove:
                     LOG.warning(
                         "removing stream '%s' (%d) errors writing",
-                        getattr(stream, "name", stream),
+                        stream_name(stream),
                         stream_id,
                     )
 
-- 
2.43.0


From ace66107341324888890f706b043fc4c49b7b94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:22 +0000
Subject: [PATCH 62/95] fix: end a socket client's stream once, after its last
 frame

---
 vtelem/client/socket.py | 33 ++++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/vtelem/client/socket.py b/vtelem/client/socket.py
index c8cde27..440b4f5 100644
--- a/vtelem/client/socket.py
+++ b/vtelem/client/socket.py
@@ -14,6 +14,7 @@ from vtelem.channel.registry import ChannelRegistry
 from vtelem.classes.type_primitive import TypePrimitive, new_default
 from vtelem.client import TelemetryClient
 from vtelem.daemon import DaemonBase, DaemonState
+from vtelem.frame.processor import FrameProcessor
 from vtelem.mtu import DEFAULT_MTU
 from vtelem.telemetry.environment import TelemetryEnvironment
 
@@ -47,22 +48,28 @@ class SocketClient(DaemonBase, TelemetryClient):
         def closer() -> None:
             """
             Close the socket and signal the output stream that the stream has
-            ended.
+            ended, if that hasn't happened yet.
             """
 
-            self.socket.close()
-            output_stream.put(None)
+            with self.lock:
+                closed = self.socket.fileno() == -1
+                self.socket.close()
+            if not closed:
+                output_stream.put(None)
 
         self.function["close"] = closer
 
         def stop_server() -> None:
             """
-            Call provided stopper, then close the socket and signal frame
-            queue that frames are over.
+            Call provided stopper, the reader closes the socket and signals
+            the frame queue that frames are over when it's done.
             """
             LOG.info("%s: closing socket reader", self.name)
-            stopper()
-            self.close()
+            try:
+                stopper()
+            except OSError as exc:
+                # the socket may be closed or disconnected already
+                LOG.warning("%s: %s", self.name, exc)
 
         self.function["inject_stop"] = stop_server
 
@@ -85,6 +92,18 @@ class SocketClient(DaemonBase, TelemetryClient):
             self.socket = self.function["init"](self.socket)
             self.update_name(self.socket)
 
+        # don't depend on being signaled, and start with a new stream
+        self.socket.settimeout(0.1)
+        self.processor = FrameProcessor()
+
+        try:
+            self.read_frames()
+        finally:
+            self.close()
+
+    def read_frames(self) -> None:
+        """Read from the socket until the stream ends or we're stopped."""
+
         frame_size = new_default("count")
         assert self.env is not None
 
-- 
2.43.0


From 72a1d95bf9b0dd0178417348c942ed9b5d85c50e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:22 +0000
Subject: [PATCH 63/95] fix: don't let a bad datagram garble the next ones

---
 vtelem/client/socket.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/vtelem/client/socket.py b/vtelem/client/socket.py
index 440b4f5..65e4a88 100644
--- a/vtelem/client/socket.py
+++ b/vtelem/client/socket.py
@@ -6,7 +6,7 @@ vtelem - A daemon that provides decoded telemetry frames into a queue, from a
 # built-in
 import logging
 from queue import Queue
-from socket import SocketType, timeout
+from socket import SOCK_DGRAM, SocketType, timeout
 from typing import Callable
 
 # internal
@@ -115,6 +115,9 @@ class SocketClient(DaemonBase, TelemetryClient):
                 if not raw_data:
                     LOG.info("%s: stream ended", self.name)
                     break
+                # a datagram has whole frames, what it has left is garbage
+                if self.socket.type == SOCK_DGRAM:
+                    self.processor = FrameProcessor()
                 self.handle_frames(
                     self.processor.process(raw_data, frame_size, self.mtu)
                 )
-- 
2.43.0


From d3a2a7987fc147839dcf653cf655038b9b80ec27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:22 +0000
Subject: [PATCH 64/95] fix: wake an idle event loop to cancel its tasks

---
 vtelem/daemon/event_loop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vtelem/daemon/event_loop.py b/vtelem/daemon/event_loop.py
index f30a568..646e1ea 100644
--- a/vtelem/daemon/event_loop.py
+++ b/vtelem/daemon/event_loop.py
@@ -41,7 +41,7 @@ class EventLoopDaemon(DaemonBase):
             # signal active tasks to cancel
             tasks = asyncio.all_tasks(loop=self.eloop)
             for task in tasks:
-                task.cancel()
+                self.eloop.call_soon_threadsafe(task.cancel)
 
             # allow 'stop_grace' amount of time to pass while we wait for tasks
             # to complete, after this we'll stop the event loop and wait for
-- 
2.43.0


From 3267d662eab6603cdb3fca55af56c69c83e9c6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:46 +0000
Subject: [PATCH 65/95] fix: don't block the event loop of a websocket server
 for one client

---
 vtelem/daemon/websocket_telemetry.py | 30 +++++++++++++++++-----------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/vtelem/daemon/websocket_telemetry.py b/vtelem/daemon/websocket_telemetry.py
index d2f068e..4fa69a7 100644
--- a/vtelem/daemon/websocket_telemetry.py
+++ b/vtelem/daemon/websocket_telemetry.py
@@ -3,7 +3,8 @@ vtelem - An interface for managing websocket servers that serve telemetry data.
 """
 
 # built-in
-from queue import Queue
+import asyncio
+from queue import Empty, Queue
 from typing import Any, Optional, Tuple
 
 # third-party
@@ -14,10 +15,12 @@ from vtelem.client.websocket import WebsocketClient
 from vtelem.daemon.websocket import WebsocketDaemon
 from vtelem.frame.channel import ChannelFrame
 from vtelem.mtu import DEFAULT_MTU, Host
-from vtelem.stream import queue_get
+from vtelem.stream import queue_get  # noqa: F401, pylint:disable=unused-import
 from vtelem.stream.writer import QueueClientManager, StreamWriter
 from vtelem.telemetry.environment import TelemetryEnvironment
 
+FRAME_POLL = 0.01
+
 
 class WebsocketTelemetryDaemon(QueueClientManager, WebsocketDaemon):
     """A class for creating telemetry-serving websocket servers."""
@@ -42,19 +45,22 @@ class WebsocketTelemetryDaemon(QueueClientManager, WebsocketDaemon):
             queue_id, frame_queue = self.add_client_queue(
                 Host(*websocket.remote_address)
             )
-            should_continue = True
-
             try:
-                while should_continue:
+                while True:
                     try:
-                        frame: Optional[ChannelFrame] = queue_get(frame_queue)
-                        if frame is None:
-                            should_continue = False
-                            break
+                        frame: Optional[ChannelFrame]
+                        frame = frame_queue.get_nowait()
+                    except Empty:
+                        # don't block, other clients use the same event loop
+                        await asyncio.sleep(FRAME_POLL)
+                        await websocket.ensure_open()
+                        continue
 
-                        await websocket.send(frame.with_size_header()[0])
-                    except WebSocketException:
-                        should_continue = False
+                    if frame is None:
+                        break
+                    await websocket.send(frame.with_size_header()[0])
+            except WebSocketException:
+                pass
             finally:
                 self.writer.remove_queue(queue_id, False)
 
-- 
2.43.0


From ea5e00c0d6d55de471f2c0d3fec2b0efdd89e50c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:21 +0000
Subject: [PATCH 66/95] fix: close tcp clients that connect while the server
 stops

---
 vtelem/daemon/tcp_telemetry.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/vtelem/daemon/tcp_telemetry.py b/vtelem/daemon/tcp_telemetry.py
index 16546ad..2cf2690 100644
--- a/vtelem/daemon/tcp_telemetry.py
+++ b/vtelem/daemon/tcp_telemetry.py
@@ -12,7 +12,7 @@ from typing import Any, Dict, Tuple
 
 # internal
 from vtelem.client.tcp import TcpClient
-from vtelem.daemon import DaemonBase
+from vtelem.daemon import DaemonBase, DaemonState
 from vtelem.mtu import DEFAULT_MTU, Host
 from vtelem.stream.writer import QueueClientManager, StreamWriter
 from vtelem.telemetry.environment import TelemetryEnvironment
@@ -34,7 +34,6 @@ class TcpTelemetryHandler(socketserver.StreamRequestHandler):
         )
 
         daemon: TcpTelemetryDaemon = self.server.daemon  # type: ignore
-        daemon.increment_metric("clients")
 
         # make sure our stream has a name attribute
         stream: BytesIO = self.wfile  # type: ignore
@@ -43,14 +42,20 @@ class TcpTelemetryHandler(socketserver.StreamRequestHandler):
         # add the socket to the stream writer
         writer: StreamWriter = daemon.writer
         with daemon.lock:
+            # this client connected too late to be signaled
+            if daemon.get_state() in (DaemonState.STOPPING, DaemonState.IDLE):
+                return
             stream_id, sem = writer.add_semaphore_stream(stream)
             daemon.client_sems[stream_id] = sem
+            daemon.increment_metric("clients")
 
         # wait for something to signal us to close the connection
         try:
             sem.acquire()  # pylint:disable=consider-using-with
         finally:
             writer.remove_stream(stream_id, False)
+            with daemon.lock:
+                daemon.client_sems.pop(stream_id, None)
             LOG.info(
                 "%s:%d disconnected",
                 self.client_address[0],
@@ -89,10 +94,10 @@ class TcpTelemetryDaemon(QueueClientManager, DaemonBase):
 
             self.server.shutdown()
             with self.lock:
-                closed_clients = list(self.client_sems.keys())
-            for client in closed_clients:
-                self.client_sems[client].release()
-                del self.client_sems[client]
+                closed_clients = list(self.client_sems.values())
+                self.client_sems.clear()
+            for sem in closed_clients:
+                sem.release()
 
         self.function["inject_stop"] = stopper
         self.server.daemon = self  # type: ignore
-- 
2.43.0


From 7b737fd57ac2287e57dd7440ff330e10e3b2188c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:32 +0000
Subject: [PATCH 67/95] fix: start with a new stream when a websocket client
 connects again

---
 vtelem/client/websocket.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vtelem/client/websocket.py b/vtelem/client/websocket.py
index 277f30e..868f856 100644
--- a/vtelem/client/websocket.py
+++ b/vtelem/client/websocket.py
@@ -18,6 +18,7 @@ from vtelem.classes.type_primitive import TypePrimitive, new_default
 from vtelem.client import TelemetryClient
 from vtelem.daemon import DaemonState
 from vtelem.daemon.event_loop import EventLoopDaemon
+from vtelem.frame.processor import FrameProcessor
 from vtelem.mtu import DEFAULT_MTU, Host
 from vtelem.telemetry.environment import TelemetryEnvironment
 
@@ -57,6 +58,8 @@ class WebsocketClient(EventLoopDaemon, TelemetryClient):
 
             frame_size = new_default("count")
             assert self.env is not None
+            # start with a new stream
+            self.processor = FrameProcessor()
             try:
                 while self.state != DaemonState.STOPPING:
                     self.handle_frames(
-- 
2.43.0


From 3675cfa71961d899580a032623fe4328c68b6abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:52 +0000
Subject: [PATCH 68/95] fix: don't send anything after the body of an error
 response

---
 vtelem/classes/http_request_mapper.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/vtelem/classes/http_request_mapper.py b/vtelem/classes/http_request_mapper.py
index 0af57c6..0113f4d 100644
--- a/vtelem/classes/http_request_mapper.py
+++ b/vtelem/classes/http_request_mapper.py
@@ -112,7 +112,6 @@ class MapperAwareRequestHandler(BaseHTTPRequestHandler):
         self.send_error(
             HTTPStatus.NOT_IMPLEMENTED, "no request-mapper configured"
         )
-        self.end_headers()
         self.close_connection = True
 
     def _no_handle_response(self, command: str) -> None:
@@ -122,7 +121,6 @@ class MapperAwareRequestHandler(BaseHTTPRequestHandler):
 
         msg = f"no request-mapper for '{command}' path '{self.path}'"
         self.send_error(HTTPStatus.NOT_FOUND, msg)
-        self.end_headers()
         self.close_connection = True
 
     def _handle(self, _data: dict = None) -> None:
@@ -161,7 +159,6 @@ class MapperAwareRequestHandler(BaseHTTPRequestHandler):
 
         if not success:
             self.send_error(status, explain=content)
-            self.end_headers()
             self.close_connection = True
             return None
 
-- 
2.43.0


From 2896150946aa1e4dd1b356488e248f61f40d0c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:52 +0000
Subject: [PATCH 69/95] fix: don't drop url-encoded fields that are empty

---
 vtelem/classes/http_request_mapper.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/vtelem/classes/http_request_mapper.py b/vtelem/classes/http_request_mapper.py
index 0113f4d..440a13a 100644
--- a/vtelem/classes/http_request_mapper.py
+++ b/vtelem/classes/http_request_mapper.py
@@ -135,7 +135,7 @@ class MapperAwareRequestHandler(BaseHTTPRequestHandler):
         parsed = urllib.parse.urlparse(self.path)  # type: ignore
         self.path = parsed.path
         if parsed.query:
-            data.update(urllib.parse.parse_qs(parsed.query))  # type: ignore
+            data.update(parse_fields(parsed.query))
 
         if not hasattr(self.server, "mapper"):
             return self._no_mapper_response()
@@ -194,6 +194,14 @@ class MapperAwareRequestHandler(BaseHTTPRequestHandler):
         return self._handle(data)
 
 
+def parse_fields(data: str) -> Dict[str, List[str]]:
+    """Parse url-encoded fields, including those without a value."""
+
+    return urllib.parse.parse_qs(  # type: ignore
+        data, keep_blank_values=True
+    )
+
+
 def parse_content_type(value: str) -> Opt[dict]:
     """Parse a 'Content-Type' header field. (RFC 2045 5.1)"""
 
@@ -345,7 +353,7 @@ def get_post_request_data(request: BaseHTTPRequestHandler) -> dict:
     def url_encoded_parser(request: BaseHTTPRequestHandler, _: dict) -> dict:
         """Parse url-encoded POST request data."""
         field_data = request.rfile.read(length).decode("utf-8")
-        return urllib.parse.parse_qs(field_data)  # type: ignore
+        return parse_fields(field_data)
 
     parsers: dict = {
         "multipart": {"form-data": form_parser},
-- 
2.43.0


From 10a43e5dd59a88f132eda91cb0314bc07b9b9175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:52 +0000
Subject: [PATCH 70/95] fix: read exactly the content that a post request
 announces

---
 vtelem/classes/http_request_mapper.py | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/vtelem/classes/http_request_mapper.py b/vtelem/classes/http_request_mapper.py
index 440a13a..1c7739a 100644
--- a/vtelem/classes/http_request_mapper.py
+++ b/vtelem/classes/http_request_mapper.py
@@ -331,16 +331,13 @@ def get_post_request_data(request: BaseHTTPRequestHandler) -> dict:
     result = {}
     assert request.command == "POST"
 
-    def form_parser(
-        request: BaseHTTPRequestHandler, content_type: dict
-    ) -> dict:
+    def form_parser(body: bytes, content_type: dict) -> dict:
         """Parse form data from a POST request. (RFC 7578)"""
 
         boundary = get_multipart_boundary(content_type)
         real_parts = []
         if boundary is not None:
-            data = request.rfile.read(length).decode("utf-8")
-            parsed = parse_multipart_data(boundary, data)
+            parsed = parse_multipart_data(boundary, body.decode("utf-8"))
 
             # this is now essentially 'lines of an http request', so we should
             # figure out the best way to parse it...
@@ -350,26 +347,35 @@ def get_post_request_data(request: BaseHTTPRequestHandler) -> dict:
 
         return {"parts": real_parts}
 
-    def url_encoded_parser(request: BaseHTTPRequestHandler, _: dict) -> dict:
+    def url_encoded_parser(body: bytes, _: dict) -> dict:
         """Parse url-encoded POST request data."""
-        field_data = request.rfile.read(length).decode("utf-8")
-        return parse_fields(field_data)
+        return parse_fields(body.decode("utf-8"))
 
     parsers: dict = {
         "multipart": {"form-data": form_parser},
         "application": {"x-www-form-urlencoded": url_encoded_parser},
     }
 
+    # read all of the request's content, whether or not there's a parser for it
+    # (the client may not get our response otherwise)
+    body = bytes()
+    if "Content-Length" in request.headers:
+        length = int(request.headers["Content-Length"])
+        if length < 0:
+            raise ValueError(f"invalid content length '{length}'")
+        body = request.rfile.read(length)
+        if len(body) != length:
+            raise ValueError(f"got {len(body)} of {length} bytes")
+
     # if the request has content, attempt to find a parser for it
     keys = ["Content-Length", "Content-Type"]
     if all(key in request.headers for key in keys):
         content_type = parse_content_type(request.headers["Content-Type"])
-        length = int(request.headers["Content-Length"])
         if content_type is not None and content_type["type"] in parsers:
             subparsers = parsers[content_type["type"]]
             if content_type["subtype"] in subparsers:
                 result = subparsers[content_type["subtype"]](
-                    request, content_type
+                    body, content_type
                 )
 
     return result
-- 
2.43.0


From 86a7d435dd9714f2fd2dba0390a1153bf20ab4be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:52 +0000
Subject: [PATCH 71/95] fix: compare content types regardless of case

---
 vtelem/classes/http_request_mapper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vtelem/classes/http_request_mapper.py b/vtelem/classes/http_request_mapper.py
index 1c7739a..76c1ea4 100644
--- a/vtelem/classes/http_request_mapper.py
+++ b/vtelem/classes/http_request_mapper.py
@@ -210,8 +210,8 @@ def parse_content_type(value: str) -> Opt[dict]:
         types = [x.strip() for x in params[0].split("/")]
         if len(types) == 2 and types[0] and types[1]:
             return {
-                "type": types[0],
-                "subtype": types[1],
+                "type": types[0].lower(),
+                "subtype": types[1].lower(),
                 "params": params[1:],
             }
 
-- 
2.43.0


From 433355bcbfb4cbc31f3d8f1d33b31d6f4de77853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:52 +0000
Subject: [PATCH 72/95] fix: parse the parts of a multipart form exactly as
 sent

---
 vtelem/classes/http_request_mapper.py | 47 +++++++++++++--------------
 1 file changed, 22 insertions(+), 25 deletions(-)

diff --git a/vtelem/classes/http_request_mapper.py b/vtelem/classes/http_request_mapper.py
index 76c1ea4..a9e457f 100644
--- a/vtelem/classes/http_request_mapper.py
+++ b/vtelem/classes/http_request_mapper.py
@@ -9,6 +9,7 @@ from http import HTTPStatus
 from http.server import BaseHTTPRequestHandler
 import json
 import logging
+import re
 from typing import Callable, Dict, List
 from typing import Optional as Opt
 from typing import Tuple
@@ -225,14 +226,10 @@ def get_multipart_boundary(content_type: dict) -> Opt[str]:
     processing of 'multipart' MIME data.
     """
 
-    if (
-        "params" in content_type
-        and isinstance(content_type["params"], list)
-        and len(content_type["params"]) == 1
-    ):
-        boundary_raw = content_type["params"][0].split("=")
-        if len(boundary_raw) == 2 and boundary_raw[0] == "boundary":
-            return boundary_raw[1]
+    for param in content_type.get("params", []):
+        name, _, boundary = param.partition("=")
+        if name.strip().lower() == "boundary" and boundary:
+            return dequote(boundary.strip())
 
     return None
 
@@ -245,7 +242,7 @@ def parse_request_lines(lines: List[str]) -> dict:
     part_data: dict = {"headers": {}, "body": []}
     headers = []
     for idx, line in enumerate(lines):
-        if line == "" and idx != 0 and idx + 1 != len(lines):
+        if line == "":
             headers = lines[:idx]
             part_data["body"] = lines[idx + 1 :]
             break
@@ -254,7 +251,7 @@ def parse_request_lines(lines: List[str]) -> dict:
 
     # parse headers (RFC 822 3.2)
     for header in headers:
-        name_body = header.split(":")
+        name_body = header.split(":", 1)
         if len(name_body) == 2:
             name = name_body[0].strip().lower()
             body = name_body[1].strip()
@@ -286,21 +283,20 @@ def parse_multipart_data(
     where a 'part' is provided as a list of the lines it contained.
     """
 
-    delim = "--" + boundary
-    chunks = data.split(delim)
-
-    # remove leading empty element
-    if chunks and not chunks[0]:
-        chunks = chunks[1:]
+    # a delimiter is a line of its own and includes the preceding line break,
+    # the last one is followed by '--' (RFC 2046 5.1.1)
+    delim = "\r\n--" + re.escape(boundary) + "(?P<end>--)?[ \t]*(?=\r\n|$)"
+    data = "\r\n" + data
 
     parts = []
-    if chunks:
-        # (RFC 2616 2.2)
-        parts = [x.split("\r\n") for x in chunks]
-        for idx, part in enumerate(parts):
-            # strip the 'terminating CRLF' (RFC 2047 5.1.1)
-            if part and not part[0]:
-                parts[idx] = part[1:]
+    start: Opt[int] = None
+    for match in re.finditer(delim, data):
+        if start is not None:
+            # (RFC 2616 2.2)
+            parts.append(data[start : match.start()].split("\r\n")[1:])
+        if match.group("end"):
+            break
+        start = match.end()
 
     # (RFC 2046 5.1)
     return [parse_request_lines(part) for part in parts]
@@ -313,11 +309,12 @@ def parse_content_disposition(data: str) -> dict:
     """
 
     result = {}
-    items = [x.strip() for x in data.split(";")]
+    # quoted values may contain separators
+    items = [x.strip() for x in re.findall(r'(?:"[^"]*"|[^;"]|")+', data)]
     if items:
         result["type"] = items[0]
         for param in items[1:]:
-            param_split = param.split("=")
+            param_split = param.split("=", 1)
             if len(param_split) == 2:
                 key = param_split[0].strip().lower()
                 result[key] = dequote(param_split[1].strip())
-- 
2.43.0


From 1a4290766e737427da64579dcd1ec36f2e475dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:52 +0000
Subject: [PATCH 73/95] fix: respond even if a handler's description can't be a
 header

---
 vtelem/classes/http_request_mapper.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vtelem/classes/http_request_mapper.py b/vtelem/classes/http_request_mapper.py
index a9e457f..49916b5 100644
--- a/vtelem/classes/http_request_mapper.py
+++ b/vtelem/classes/http_request_mapper.py
@@ -167,7 +167,9 @@ class MapperAwareRequestHandler(BaseHTTPRequestHandler):
         self.send_response(status)
         if handle_data is not None:
             for key, value in handle_data.items():
-                self.send_header(key, value)
+                # headers can't represent arbitrary characters
+                encoded = str(value).encode("latin-1", "replace")
+                self.send_header(key, encoded.decode("latin-1"))
         self.send_header("Content-Length", str(len(body)))
         self.end_headers()
         if not headers_only:
-- 
2.43.0


From 44d53134e47be7d01df950c178148835a576c0cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:52 +0000
Subject: [PATCH 74/95] fix: serve TLS clients again when an http daemon is
 restarted

---
 vtelem/daemon/http.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/vtelem/daemon/http.py b/vtelem/daemon/http.py
index e1d16f6..e61d9a0 100644
--- a/vtelem/daemon/http.py
+++ b/vtelem/daemon/http.py
@@ -129,11 +129,9 @@ class HttpDaemon(DaemonBase):
                     service_registry.add(
                         self.name, [self.server.server_address]
                     )
-            if self.ssl_context is not None:
-                with self.ssl_context.wrap_socket(
+            if self.ssl_context is not None and not self.uses_tls:
+                self.server.socket = self.ssl_context.wrap_socket(
                     self.server.socket, server_side=True
-                ) as ssock:
-                    self.server.socket = ssock
-                    self.server.serve_forever(0.1)
-            else:
-                self.server.serve_forever(0.1)
+                )
+                self.uses_tls = True
+            self.server.serve_forever(0.1)
-- 
2.43.0


From 01f48c153fa621fdd5db1191d71d244fd3b05a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:52 +0000
Subject: [PATCH 75/95] fix: don't let one TLS client's handshake block all
 others

---
 vtelem/daemon/http.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/vtelem/daemon/http.py b/vtelem/daemon/http.py
index e61d9a0..cd34dcc 100644
--- a/vtelem/daemon/http.py
+++ b/vtelem/daemon/http.py
@@ -131,7 +131,10 @@ class HttpDaemon(DaemonBase):
                     )
             if self.ssl_context is not None and not self.uses_tls:
                 self.server.socket = self.ssl_context.wrap_socket(
-                    self.server.socket, server_side=True
+                    self.server.socket,
+                    server_side=True,
+                    # only the client's own thread should wait for it
+                    do_handshake_on_connect=False,
                 )
                 self.uses_tls = True
             self.server.serve_forever(0.1)
-- 
2.43.0


From 37830dd9974fb2fd0ae3a8582bc6a1db8ce646e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:48 +0000
Subject: [PATCH 76/95] fix: end every wait for a telemetry server when it
 stops

---
 vtelem/telemetry/server.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/vtelem/telemetry/server.py b/vtelem/telemetry/server.py
index b2150ad..1bcb5e2 100644
--- a/vtelem/telemetry/server.py
+++ b/vtelem/telemetry/server.py
@@ -57,7 +57,8 @@ class TelemetryServer(HttpDaemon):
             services = default_services()
 
         self.daemons = DaemonManager()
-        self.state_sem = threading.Semaphore(0)
+        self.all_started = threading.Event()
+        self.all_stopped = threading.Event()
         self.first_start = True
 
         # add the ticker
@@ -198,6 +199,7 @@ class TelemetryServer(HttpDaemon):
     def start_all(self) -> None:
         """Start everything."""
 
+        self.all_stopped.clear()
         telem = self.daemons.get("telemetry")
         assert isinstance(telem, TelemetryDaemon)
         kwargs: dict = {"service_registry": telem.registries["services"]}
@@ -208,7 +210,7 @@ class TelemetryServer(HttpDaemon):
             assert self.perform(DaemonOperation.START, **kwargs)
         self.first_start = False
 
-        self.state_sem.release()
+        self.all_started.set()
 
     def stop_all(self) -> None:
         """Stop everything."""
@@ -220,7 +222,7 @@ class TelemetryServer(HttpDaemon):
         self.close()
 
         self.udp_clients.remove_all()
-        self.state_sem.release()
+        self.all_stopped.set()
 
     @contextmanager
     def booted(self, *_, **__) -> Iterator[None]:
@@ -231,11 +233,9 @@ class TelemetryServer(HttpDaemon):
 
         try:
             self.start_all()
-            self.state_sem.acquire()
             yield
         finally:
             self.stop_all()
-            self.state_sem.acquire()
 
     def await_shutdown(self, timeout: float = None) -> None:
         """
@@ -244,9 +244,8 @@ class TelemetryServer(HttpDaemon):
         """
 
         try:
-            # pylint:disable=consider-using-with
-            self.state_sem.acquire()
-            if not self.state_sem.acquire(True, timeout):  # type: ignore
+            self.all_started.wait()
+            if not self.all_stopped.wait(timeout):
                 self.stop_all()
         except KeyboardInterrupt:  # pragma: no cover
             self.stop_all()
-- 
2.43.0


From ff18c9fb22d603e2266e27b30b966b7daf14b704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:49 +0000
Subject: [PATCH 77/95] fix: scale time regardless of which daemons are running

---
 vtelem/telemetry/server.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/vtelem/telemetry/server.py b/vtelem/telemetry/server.py
index 1bcb5e2..91eab29 100644
--- a/vtelem/telemetry/server.py
+++ b/vtelem/telemetry/server.py
@@ -14,7 +14,7 @@ from vtelem.channel.group_registry import ChannelGroupRegistry
 from vtelem.classes.http_request_mapper import MapperAwareRequestHandler
 from vtelem.classes.time_keeper import TimeKeeper
 from vtelem.classes.udp_client_manager import UdpClientManager
-from vtelem.daemon import DaemonOperation
+from vtelem.daemon import DaemonOperation, DaemonState
 from vtelem.daemon.command_queue import CommandQueueDaemon
 from vtelem.daemon.http import HttpDaemon
 from vtelem.daemon.manager import DaemonManager
@@ -192,9 +192,21 @@ class TelemetryServer(HttpDaemon):
     def scale_speed(self, scalar: float) -> None:
         """Change the time scaling for the time keeper."""
 
-        assert self.daemons.perform_all(DaemonOperation.PAUSE)
-        self.time_keeper.scale(scalar)
-        assert self.daemons.perform_all(DaemonOperation.UNPAUSE)
+        with self.daemons.lock:
+            # daemons that aren't running stay as they are
+            running = [
+                name
+                for name, state in self.daemons.states(False).items()
+                if state == DaemonState.RUNNING
+            ]
+            paused = [
+                name
+                for name in running
+                if self.daemons.perform(name, DaemonOperation.PAUSE)
+            ]
+            self.time_keeper.scale(scalar)
+            for name in paused:
+                assert self.daemons.perform(name, DaemonOperation.UNPAUSE)
 
     def start_all(self) -> None:
         """Start everything."""
-- 
2.43.0


From 96555f9bcdb6e75e6918b4bc77fc3c49f84b8e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:49 +0000
Subject: [PATCH 78/95] fix: stop a telemetry server even if daemons are paused

---
 vtelem/telemetry/server.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/vtelem/telemetry/server.py b/vtelem/telemetry/server.py
index 91eab29..0553501 100644
--- a/vtelem/telemetry/server.py
+++ b/vtelem/telemetry/server.py
@@ -227,9 +227,13 @@ class TelemetryServer(HttpDaemon):
     def stop_all(self) -> None:
         """Stop everything."""
 
-        assert self.daemons.perform_all(DaemonOperation.STOP)
+        with self.daemons.lock:
+            # paused daemons can't be stopped
+            self.daemons.perform_all(DaemonOperation.UNPAUSE)
+            assert self.daemons.perform_all(DaemonOperation.STOP)
 
         if self.http_enabled:
+            self.perform(DaemonOperation.UNPAUSE)
             assert self.perform(DaemonOperation.STOP)
         self.close()
 
-- 
2.43.0


From 5381b0ee3bc12d199644e7c8fbad51f0ba094277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:04 +0000
Subject: [PATCH 79/95] fix: leave a daemon alone if an application can't use
 its name

---
 vtelem/telemetry/server.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/vtelem/telemetry/server.py b/vtelem/telemetry/server.py
index 0553501..d88a59a 100644
--- a/vtelem/telemetry/server.py
+++ b/vtelem/telemetry/server.py
@@ -5,6 +5,7 @@ vtelem - An interface for creating telemetered applications.
 # built-in
 from collections import defaultdict
 from contextlib import contextmanager
+import logging
 import socket
 import threading
 from typing import Any, Dict, Iterator
@@ -38,6 +39,9 @@ from vtelem.types.telemetry_server import (
 )
 
 
+LOG = logging.getLogger(__name__)
+
+
 class TelemetryServer(HttpDaemon):
     """A class for application-level telemetry integration."""
 
@@ -162,6 +166,11 @@ class TelemetryServer(HttpDaemon):
     ) -> bool:
         """Attempt to register a new application thread."""
 
+        # a daemon's metrics are reset when it's created
+        if self.daemons.get(name) is not None:
+            LOG.error("can't register '%s', name is registered.", name)
+            return False
+
         app_data: Dict[str, Any] = defaultdict(lambda: None)
 
         def setup_caller(*_, **__) -> None:
@@ -183,7 +192,7 @@ class TelemetryServer(HttpDaemon):
             init=setup_caller,
         )
         result = self.daemons.add_daemon(daemon, ["telemetry"])
-        if not self.first_start:
+        if result and not self.first_start:
             app_daemon = self.daemons.get(name)
             assert app_daemon is not None
             assert app_daemon.perform(DaemonOperation.START)
-- 
2.43.0


From 62f89c6ebb36a20043b9c1a5df61df2b1e802911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:04 +0000
Subject: [PATCH 80/95] fix: list the tcp telemetry service in the service
 registry

---
 vtelem/daemon/tcp_telemetry.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/vtelem/daemon/tcp_telemetry.py b/vtelem/daemon/tcp_telemetry.py
index 2cf2690..f65cea4 100644
--- a/vtelem/daemon/tcp_telemetry.py
+++ b/vtelem/daemon/tcp_telemetry.py
@@ -14,6 +14,7 @@ from typing import Any, Dict, Tuple
 from vtelem.client.tcp import TcpClient
 from vtelem.daemon import DaemonBase, DaemonState
 from vtelem.mtu import DEFAULT_MTU, Host
+from vtelem.registry.service import ServiceRegistry
 from vtelem.stream.writer import QueueClientManager, StreamWriter
 from vtelem.telemetry.environment import TelemetryEnvironment
 
@@ -125,7 +126,16 @@ class TcpTelemetryDaemon(QueueClientManager, DaemonBase):
 
         return self.server.server_address
 
-    def run(self, *_, **__) -> None:
+    def run(
+        self,
+        *_,
+        first_start: bool = False,
+        service_registry: ServiceRegistry = None,
+        **__,
+    ) -> None:
         """Listen for client connections."""
 
+        if first_start and service_registry is not None:
+            service_registry.add(self.name, [self.address])
+
         self.server.serve_forever(0.1)
-- 
2.43.0


From da4fed70dfa336932696777941476932c7b22563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:05 +0000
Subject: [PATCH 81/95] fix: connect websocket clients to the port that's
 actually bound

---
 vtelem/daemon/websocket.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/vtelem/daemon/websocket.py b/vtelem/daemon/websocket.py
index a0c29ce..4059a92 100644
--- a/vtelem/daemon/websocket.py
+++ b/vtelem/daemon/websocket.py
@@ -118,6 +118,13 @@ class WebsocketDaemon(EventLoopDaemon):
                             addrs = [sock.getsockname() for sock in socks]
                             service_registry.add(self.name, addrs)
 
+                    # clients need the port that's actually bound
+                    if self.address[1] == 0 and self.server.sockets:
+                        self.address = Host(
+                            self.address[0],
+                            self.server.sockets[0].getsockname()[1],
+                        )
+
                 self.eloop.run_until_complete(routine())
                 self.serving = True
 
-- 
2.43.0


From 9016cadcee585a711c3f9e7c31e1adb68e7fea0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:36 +0000
Subject: [PATCH 82/95] fix: close all of a telemetry server's ports when it
 stops

---
 vtelem/daemon/tcp_telemetry.py | 15 +++++++++++++++
 vtelem/daemon/websocket.py     | 20 ++++++++++++++++++++
 vtelem/telemetry/server.py     |  4 ++++
 3 files changed, 39 insertions(+)

diff --git a/vtelem/daemon/tcp_telemetry.py b/vtelem/daemon/tcp_telemetry.py
index f65cea4..1d939c9 100644
--- a/vtelem/daemon/tcp_telemetry.py
+++ b/vtelem/daemon/tcp_telemetry.py
@@ -87,6 +87,7 @@ class TcpTelemetryDaemon(QueueClientManager, DaemonBase):
         self.server = socketserver.ThreadingTCPServer(
             address, TcpTelemetryHandler
         )
+        self.closed = False
         self.client_sems: Dict[int, Semaphore] = {}
         self.reset_metric("clients")
 
@@ -126,6 +127,17 @@ class TcpTelemetryDaemon(QueueClientManager, DaemonBase):
 
         return self.server.server_address
 
+    def close(self) -> bool:
+        """Close the server, it can't be started again."""
+
+        with self.lock:
+            if self.get_state() != DaemonState.IDLE or self.closed:
+                return False
+            self.closed = True
+
+        self.server.server_close()
+        return True
+
     def run(
         self,
         *_,
@@ -135,6 +147,9 @@ class TcpTelemetryDaemon(QueueClientManager, DaemonBase):
     ) -> None:
         """Listen for client connections."""
 
+        if self.closed:
+            return
+
         if first_start and service_registry is not None:
             service_registry.add(self.name, [self.address])
 
diff --git a/vtelem/daemon/websocket.py b/vtelem/daemon/websocket.py
index 4059a92..52bc699 100644
--- a/vtelem/daemon/websocket.py
+++ b/vtelem/daemon/websocket.py
@@ -11,6 +11,7 @@ from typing import Any, Callable, Optional
 import websockets
 
 # internal
+from vtelem.daemon import DaemonState
 from vtelem.daemon.event_loop import EventLoopDaemon
 from vtelem.mtu import Host, get_free_tcp_port
 from vtelem.registry.service import ServiceRegistry
@@ -129,3 +130,22 @@ class WebsocketDaemon(EventLoopDaemon):
                 self.serving = True
 
         self.function["run_init"] = run_init
+
+    def close(self) -> bool:
+        """Stop listening for connections until this daemon starts again."""
+
+        with self.lock:
+            if self.get_state() != DaemonState.IDLE or self.server is None:
+                return False
+            server: Any = self.server
+            self.server = None
+            self.serving = False
+
+        async def routine() -> None:
+            """Close the server from its event loop."""
+
+            server.close()
+            await server.wait_closed()
+
+        self.eloop.run_until_complete(routine())
+        return True
diff --git a/vtelem/telemetry/server.py b/vtelem/telemetry/server.py
index d88a59a..8f9ef03 100644
--- a/vtelem/telemetry/server.py
+++ b/vtelem/telemetry/server.py
@@ -22,6 +22,7 @@ from vtelem.daemon.manager import DaemonManager
 from vtelem.daemon.synchronous import Daemon
 from vtelem.daemon.tcp_telemetry import TcpTelemetryDaemon
 from vtelem.daemon.telemetry import TelemetryDaemon
+from vtelem.daemon.websocket import WebsocketDaemon
 from vtelem.daemon.websocket_telemetry import WebsocketTelemetryDaemon
 from vtelem.factories.daemon_manager import create_daemon_manager_commander
 from vtelem.factories.telemetry_environment import create_channel_commander
@@ -245,6 +246,9 @@ class TelemetryServer(HttpDaemon):
             self.perform(DaemonOperation.UNPAUSE)
             assert self.perform(DaemonOperation.STOP)
         self.close()
+        for daemon in list(self.daemons.daemons.values()):
+            if isinstance(daemon, (TcpTelemetryDaemon, WebsocketDaemon)):
+                daemon.close()
 
         self.udp_clients.remove_all()
         self.all_stopped.set()
-- 
2.43.0


From fc1825d9f5df5ce90eb475161bfbd5398f472a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:36 +0000
Subject: [PATCH 83/95] fix: don't report a telemetry server stopped while it
 still stops

---
 vtelem/telemetry/server.py | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/vtelem/telemetry/server.py b/vtelem/telemetry/server.py
index 8f9ef03..cd8cfcc 100644
--- a/vtelem/telemetry/server.py
+++ b/vtelem/telemetry/server.py
@@ -64,6 +64,7 @@ class TelemetryServer(HttpDaemon):
         self.daemons = DaemonManager()
         self.all_started = threading.Event()
         self.all_stopped = threading.Event()
+        self.stop_lock = threading.RLock()
         self.first_start = True
 
         # add the ticker
@@ -237,21 +238,23 @@ class TelemetryServer(HttpDaemon):
     def stop_all(self) -> None:
         """Stop everything."""
 
-        with self.daemons.lock:
-            # paused daemons can't be stopped
-            self.daemons.perform_all(DaemonOperation.UNPAUSE)
-            assert self.daemons.perform_all(DaemonOperation.STOP)
-
-        if self.http_enabled:
-            self.perform(DaemonOperation.UNPAUSE)
-            assert self.perform(DaemonOperation.STOP)
-        self.close()
-        for daemon in list(self.daemons.daemons.values()):
-            if isinstance(daemon, (TcpTelemetryDaemon, WebsocketDaemon)):
-                daemon.close()
-
-        self.udp_clients.remove_all()
-        self.all_stopped.set()
+        # everything is stopped when any of the callers returns
+        with self.stop_lock:
+            with self.daemons.lock:
+                # paused daemons can't be stopped
+                self.daemons.perform_all(DaemonOperation.UNPAUSE)
+                assert self.daemons.perform_all(DaemonOperation.STOP)
+
+            if self.http_enabled:
+                self.perform(DaemonOperation.UNPAUSE)
+                assert self.perform(DaemonOperation.STOP)
+            self.close()
+            for daemon in list(self.daemons.daemons.values()):
+                if isinstance(daemon, (TcpTelemetryDaemon, WebsocketDaemon)):
+                    daemon.close()
+
+            self.udp_clients.remove_all()
+            self.all_stopped.set()
 
     @contextmanager
     def booted(self, *_, **__) -> Iterator[None]:
-- 
2.43.0


From 19ab497c89e97c27e9e1fe35956c23fc1dc3becb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:36 +0000
Subject: [PATCH 84/95] fix: answer malformed websocket commands of any kind

---
 vtelem/factories/websocket_daemon.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/vtelem/factories/websocket_daemon.py b/vtelem/factories/websocket_daemon.py
index eb4a289..23a64e3 100644
--- a/vtelem/factories/websocket_daemon.py
+++ b/vtelem/factories/websocket_daemon.py
@@ -34,11 +34,14 @@ def commandable_websocket_daemon(
 
         # build command, result callback
         try:
-            cmd_result = daemon.execute(json.loads(message))
+            command = json.loads(message)
+        except (ValueError, RecursionError) as exc:
+            # includes messages that aren't text
+            result["message"] = str(exc)
+        else:
+            cmd_result = daemon.execute(command)
             result["success"] = cmd_result[0]
             result["message"] = cmd_result[1]
-        except json.decoder.JSONDecodeError as exc:
-            result["message"] = str(exc)
 
         await websocket.send(json.dumps(result))
 
-- 
2.43.0


From c6ec788ca5c645af75a9223ccea53023d7aaebdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:36 +0000
Subject: [PATCH 85/95] fix: don't block other websocket clients during a
 command

---
 vtelem/factories/websocket_daemon.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/vtelem/factories/websocket_daemon.py b/vtelem/factories/websocket_daemon.py
index 23a64e3..051d7c6 100644
--- a/vtelem/factories/websocket_daemon.py
+++ b/vtelem/factories/websocket_daemon.py
@@ -3,6 +3,7 @@ vtelem - A module for creating different types of websocket daemons.
 """
 
 # built-in
+import asyncio
 import json
 
 # internal
@@ -39,7 +40,10 @@ def commandable_websocket_daemon(
             # includes messages that aren't text
             result["message"] = str(exc)
         else:
-            cmd_result = daemon.execute(command)
+            # don't block, other clients use the same event loop
+            cmd_result = await asyncio.get_running_loop().run_in_executor(
+                None, daemon.execute, command
+            )
             result["success"] = cmd_result[0]
             result["message"] = cmd_result[1]
 
-- 
2.43.0


From 063687bc050970f169c753cb35e930a8eb862392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:54 +0000
Subject: [PATCH 86/95] fix: don't lock the environment while the frame queue
 is full

---
 vtelem/channel/environment.py | 39 ++++++++++++++++++++++++++---------
 1 file changed, 29 insertions(+), 10 deletions(-)

diff --git a/vtelem/channel/environment.py b/vtelem/channel/environment.py
index 2de9e78..fa88e2b 100644
--- a/vtelem/channel/environment.py
+++ b/vtelem/channel/environment.py
@@ -5,6 +5,7 @@ vtelem - Exposes a runtime environment for managing sets of channels.
 # built-in
 from collections import defaultdict
 import logging
+from queue import Queue
 import threading
 from typing import Any, Dict, List, Optional, Tuple
 
@@ -64,6 +65,7 @@ class ChannelEnvironment(TimeEntity):
         if metrics_rate is not None:
             self.register_base_metrics(metrics_rate)
         self.frame_queue: MeteredQueue = MeteredQueue("frame", self)
+        self.dispatch_lock = threading.RLock()
         self.log_data: dict = defaultdict(lambda: 0.0)
 
     @property
@@ -225,10 +227,16 @@ class ChannelEnvironment(TimeEntity):
     def dispatch(self, time: float, should_log: bool = True) -> int:
         """Dispatch events and channel emissions."""
 
-        with self.lock:
-            data = self.dispatch_data(time)
-            events = self.dispatch_events(time)
-            self.metric_add("dispatch_count", 1)
+        frames: Queue = Queue()
+        with self.dispatch_lock:
+            with self.lock:
+                data = self.dispatch_data(time, frames)
+                events = self.dispatch_events(time, frames)
+                self.metric_add("dispatch_count", 1)
+
+            # nobody else has to wait for space in the queue
+            while not frames.empty():
+                self.enqueue_frame(frames.get())
 
         total = data[0] + events[0]
 
@@ -252,6 +260,11 @@ class ChannelEnvironment(TimeEntity):
 
         return total
 
+    def enqueue_frame(self, frame: ChannelFrame) -> None:
+        """Put a frame into the queue, wait for space if necessary."""
+
+        self.frame_queue.put(frame)
+
     def get_next_frame(self, timeout: int = 5) -> ChannelFrame:
         """Get the next available frame from the queue."""
 
@@ -267,21 +280,27 @@ class ChannelEnvironment(TimeEntity):
 
         return decode_frame(self.channel_registry, data, size, expected_id)
 
-    def dispatch_events(self, time: float) -> Tuple[int, int]:
+    def dispatch_events(
+        self, time: float, queue: Queue = None
+    ) -> Tuple[int, int]:
         """Process all queued events (build frames)."""
 
+        if queue is None:
+            queue = self.frame_queue
         result = self.framer.build_event_frames(
-            time, self.event_queue, self.frame_queue, self.write_crc
+            time, self.event_queue, queue, self.write_crc
         )
         self.metric_add("events_captured", result[1], time)
         return result
 
-    def dispatch_data(self, time: float) -> Tuple[int, int]:
+    def dispatch_data(
+        self, time: float, queue: Queue = None
+    ) -> Tuple[int, int]:
         """Process all channel emissions for the specified, absolute time."""
 
-        result = self.framer.build_data_frames(
-            time, self.frame_queue, self.write_crc
-        )
+        if queue is None:
+            queue = self.frame_queue
+        result = self.framer.build_data_frames(time, queue, self.write_crc)
         self.metric_add("emits_captured", result[1], time)
         return result
 
-- 
2.43.0


From 088a63315ea22aa635f1b81c773cdd355b89ea01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:14 +0000
Subject: [PATCH 87/95] fix: let a telemetry daemon stop while the frame queue
 is full

---
 vtelem/daemon/telemetry.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/vtelem/daemon/telemetry.py b/vtelem/daemon/telemetry.py
index f85d6dc..fbccc69 100644
--- a/vtelem/daemon/telemetry.py
+++ b/vtelem/daemon/telemetry.py
@@ -3,15 +3,20 @@ vtelem - Exposes daemonic capabilities for telemetry.
 """
 
 # built-in
+from queue import Full
 from typing import List
 
 # internal
 from vtelem.channel import Channel
 from vtelem.classes.time_keeper import TimeKeeper
 from vtelem.classes.user_enum import UserEnum
+from vtelem.daemon import DaemonState
 from vtelem.daemon.synchronous import Daemon
+from vtelem.frame.channel import ChannelFrame
 from vtelem.telemetry.environment import TelemetryEnvironment
 
+QUEUE_POLL = 0.1
+
 
 class TelemetryDaemon(TelemetryEnvironment, Daemon):
     """Wraps the telemetry-environment capability into a runtime daemon."""
@@ -43,3 +48,17 @@ class TelemetryDaemon(TelemetryEnvironment, Daemon):
         Daemon.__init__(
             self, name, self.dispatch_now, rate, None, None, self, time_keeper
         )
+
+    def enqueue_frame(self, frame: ChannelFrame) -> None:
+        """
+        Put a frame into the queue, unless we're stopped while it's full.
+        """
+
+        while True:
+            stopping = self.get_state() == DaemonState.STOPPING
+            try:
+                self.frame_queue.put(frame, not stopping, QUEUE_POLL)
+                return
+            except Full:
+                if stopping:
+                    return
-- 
2.43.0


From f3b6c78e9c076ca956d9d562857e3b3f669e9313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:14 +0000
Subject: [PATCH 88/95] fix: stop a telemetry server even if clients don't read

---
 vtelem/telemetry/server.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/vtelem/telemetry/server.py b/vtelem/telemetry/server.py
index cd8cfcc..7c3d204 100644
--- a/vtelem/telemetry/server.py
+++ b/vtelem/telemetry/server.py
@@ -31,7 +31,7 @@ from vtelem.factories.udp_client_manager import create_udp_client_commander
 from vtelem.factories.websocket_daemon import commandable_websocket_daemon
 from vtelem.mtu import DEFAULT_MTU, Host, discover_ipv4_mtu, mtu_to_usable
 from vtelem.registry.service import ServiceRegistry
-from vtelem.stream.writer import StreamWriter
+from vtelem.stream.writer import QueueClientManager, StreamWriter
 from vtelem.types.telemetry_server import (
     AppLoop,
     AppSetup,
@@ -243,6 +243,11 @@ class TelemetryServer(HttpDaemon):
             with self.daemons.lock:
                 # paused daemons can't be stopped
                 self.daemons.perform_all(DaemonOperation.UNPAUSE)
+
+                # clients that don't read anything block the stream writer
+                for name, daemon in self.daemons.daemons.items():
+                    if isinstance(daemon, QueueClientManager):
+                        assert self.daemons.perform(name, DaemonOperation.STOP)
                 assert self.daemons.perform_all(DaemonOperation.STOP)
 
             if self.http_enabled:
-- 
2.43.0


From 5a6ac5b42abfd621d427cbf5f88f8f722e47b500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:17 +0000
Subject: [PATCH 89/95] fix: don't block the event loop while a websocket
 client has frames queued

---
 vtelem/daemon/websocket_telemetry.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vtelem/daemon/websocket_telemetry.py b/vtelem/daemon/websocket_telemetry.py
index 4fa69a7..a770d2c 100644
--- a/vtelem/daemon/websocket_telemetry.py
+++ b/vtelem/daemon/websocket_telemetry.py
@@ -59,6 +59,9 @@ class WebsocketTelemetryDaemon(QueueClientManager, WebsocketDaemon):
                     if frame is None:
                         break
                     await websocket.send(frame.with_size_header()[0])
+
+                    # sending doesn't let others run by itself
+                    await asyncio.sleep(0)
             except WebSocketException:
                 pass
             finally:
-- 
2.43.0


From 4b65382b328de89a4e19c67fd602acc3f0f90c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:50 +0000
Subject: [PATCH 90/95] fix: don't remove streams that aren't udp clients by
 client id

---
 vtelem/classes/udp_client_manager.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vtelem/classes/udp_client_manager.py b/vtelem/classes/udp_client_manager.py
index 22c5b7c..dbea841 100644
--- a/vtelem/classes/udp_client_manager.py
+++ b/vtelem/classes/udp_client_manager.py
@@ -106,5 +106,6 @@ class UdpClientManager(LockEntity):
         """Remove a client connection by integer identifier, closes it."""
 
         with self.lock:
-            if self.writer.remove_stream(sock_id):
+            # the stream writer also manages streams that aren't ours
+            if sock_id in self.clients and self.writer.remove_stream(sock_id):
                 self.closer(sock_id)
-- 
2.43.0


From 3c61a6fa031a9db83d4d8ba0f2dbafe58c961eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:17 +0000
Subject: [PATCH 91/95] fix: let daemons use an environment that has no metrics

---
 vtelem/telemetry/environment.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/vtelem/telemetry/environment.py b/vtelem/telemetry/environment.py
index 704759b..31327c9 100644
--- a/vtelem/telemetry/environment.py
+++ b/vtelem/telemetry/environment.py
@@ -141,8 +141,7 @@ class TelemetryEnvironment(ChannelEnvironment):
     ) -> None:
         """Set the value for an enumeration metric."""
 
-        assert self.metrics is not None
-        if name in self.metrics:
+        if self.metrics is not None and name in self.metrics:
             chan = self.registries["channel"].get_item(self.metrics[name])
             assert chan is not None
             enum_type = self.enum_channel_types[self.metrics[name]]
-- 
2.43.0


From eaeb3c9d457b7de05fb554f61846bda9533bbf3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:38 +0000
Subject: [PATCH 92/95] fix: don't put stream channels into data frames

---
 vtelem/channel/framer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vtelem/channel/framer.py b/vtelem/channel/framer.py
index 7af2081..fae8445 100644
--- a/vtelem/channel/framer.py
+++ b/vtelem/channel/framer.py
@@ -117,6 +117,10 @@ class ChannelFramer(Framer):
         curr_frame = self.new_data_frame(time)
         with self.lock:
             for channel in self.channels:
+                # data frames with stream channels aren't decodable
+                if channel.is_stream:
+                    continue
+
                 result = channel.emit(time)
 
                 # if the channel emitted, add it to the current frame
-- 
2.43.0


From 9429f98f1a1dfd2875805ef94007b2ea3980bbef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:22 +0000
Subject: [PATCH 93/95] fix: change a channel by one thread at a time

---
 vtelem/channel/__init__.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/vtelem/channel/__init__.py b/vtelem/channel/__init__.py
index 24c5434..7b72831 100644
--- a/vtelem/channel/__init__.py
+++ b/vtelem/channel/__init__.py
@@ -4,13 +4,14 @@ vtelem - A storage class that emits on an interval.
 
 # built-in
 from json import JSONEncoder
+import threading
 from typing import Any, Optional
 
 # internal
 from vtelem.classes import EventType
 from vtelem.classes.event_queue import EventQueue
 from vtelem.classes.type_primitive import TypePrimitive
-from vtelem.enums.primitive import Primitive
+from vtelem.enums.primitive import Primitive, PrimitiveValue
 
 
 class Channel(TypePrimitive):
@@ -47,12 +48,25 @@ class Channel(TypePrimitive):
             changed_cb = new_changed_cb
 
         super().__init__(instance, changed_cb)
+        self.lock = threading.RLock()
         self.name = name
         self.rate = rate
         self.commandable = commandable
         self.is_stream = is_stream
         self.last_emitted: float = float()
 
+    def add(self, data: PrimitiveValue, time: float = None) -> bool:
+        """Safely add some amount, for one thread at a time."""
+
+        with self.lock:
+            return super().add(data, time)
+
+    def set(self, data: PrimitiveValue, time: float = None) -> bool:
+        """Set this channel's data manually, for one thread at a time."""
+
+        with self.lock:
+            return super().set(data, time)
+
     def command(
         self, value: Any, time: float = None, add: bool = False
     ) -> bool:
-- 
2.43.0


From c86556bb998f645cd3a2c574ca1308e3d7e20be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:33 +0000
Subject: [PATCH 94/95] fix: don't stop event loops before they run

---
 vtelem/daemon/event_loop.py | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/vtelem/daemon/event_loop.py b/vtelem/daemon/event_loop.py
index 646e1ea..9360061 100644
--- a/vtelem/daemon/event_loop.py
+++ b/vtelem/daemon/event_loop.py
@@ -4,7 +4,7 @@ vtelem - A module for using event loops as daemons.
 
 # built-in
 import asyncio
-from threading import Semaphore
+from threading import Event, Semaphore
 from typing import Any
 
 # internal
@@ -28,12 +28,19 @@ class EventLoopDaemon(DaemonBase):
         self.eloop = asyncio.new_event_loop()
         self.wait_count = 0
         self.wait_poster = Semaphore(0)
+        self.initialized = Event()
 
         def event_loop_stopper() -> None:
             """
             A function for stopping the event loop from an arbitrary thread.
             """
 
+            # stopping an event loop that isn't running forever (yet) would
+            # end its initialization, or that of the next run
+            self.initialized.wait(stop_grace)
+            if not self.eloop.is_running():
+                return
+
             # determine how many tasks have expressed pending status
             with self.lock:
                 waits = self.wait_count
@@ -75,12 +82,22 @@ class EventLoopDaemon(DaemonBase):
 
         self.function["inject_stop"] = event_loop_stopper
 
+    def run_harness(self, *args, **kwargs) -> None:
+        """Runs this daemon's thread, from its initialization."""
+
+        self.initialized.clear()
+        super().run_harness(*args, **kwargs)
+
     def run(self, *args, **kwargs) -> None:
         """Runs this daemon's thread, until stop is requested."""
 
         asyncio.set_event_loop(self.eloop)
         try:
-            self.function["run_init"](*args, **kwargs)
-        except KeyError:
-            pass
-        self.eloop.run_forever()
+            try:
+                self.function["run_init"](*args, **kwargs)
+            except KeyError:
+                pass
+            self.eloop.call_soon(self.initialized.set)
+            self.eloop.run_forever()
+        finally:
+            self.initialized.set()
-- 
2.43.0


From 284ca69fa24742de923d0b917facd710e2520c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:03 +0000
Subject: [PATCH 95/95] fix: return a command's result with its own message

---
 vtelem/daemon/command_queue.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/vtelem/daemon/command_queue.py b/vtelem/daemon/command_queue.py
index 6d4a890..817cbe6 100644
--- a/vtelem/daemon/command_queue.py
+++ b/vtelem/daemon/command_queue.py
@@ -156,18 +156,18 @@ class CommandQueueDaemon(QueueDaemon):
     def execute(self, command: Any) -> Tuple[bool, str]:
         """Execute a command and block until it's complete."""
 
-        result, msg = False, "Command result not known."
+        outcome = (False, "Command result not known.")
         signal = Semaphore(0)
 
         def cmd_cb(status: bool, message: str) -> None:
             """Update the result when we get it."""
 
-            nonlocal result
-            nonlocal msg
-            result = status
-            msg = message
+            # more handlers may complete while this result is returned
+            nonlocal outcome
+            outcome = (status, message)
             signal.release()
 
         self.enqueue(command, cmd_cb)
         in_time = signal.acquire(True, 2)  # pylint:disable=consider-using-with
+        result, msg = outcome
         return result and in_time, msg
-- 
2.43.0

