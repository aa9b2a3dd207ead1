From 688ac54301dc7f3a46c7859902e1c4e84fbda6f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:15 +0000
Subject: [PATCH 001/109] fix: position propagator follows changes of the
 atomic masses

The per-atom position step (timestep/mass) was cached without any declared
dependency, so that it kept the initial masses after an alchemical exchange (or
any other change of masses or time step) until the run was restarted.
---
 ipi/engine/motion/dynamics.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ipi/engine/motion/dynamics.py b/ipi/engine/motion/dynamics.py
index bc9b281..972f0cf 100644
--- a/ipi/engine/motion/dynamics.py
+++ b/ipi/engine/motion/dynamics.py
@@ -320,6 +320,7 @@ class DummyIntegrator:
             name="qdt_on_m",
             value=np.zeros(3 * self.beads.natoms),
             func=lambda: self.qdt / dstrip(self.beads.m3)[0],
+            dependencies=[self._qdt, self.beads._m3],
         )
         self._pdt = depend_array(
             name="pdt",
-- 
2.43.0


From d5057ba975d5eec99fbcdc338c0600509db3bc23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:22 +0000
Subject: [PATCH 002/109] fix: detect a client that closes the connection after
 GETFORCE

---
 ipi/interfaces/sockets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipi/interfaces/sockets.py b/ipi/interfaces/sockets.py
index b3ff674..83f332d 100644
--- a/ipi/interfaces/sockets.py
+++ b/ipi/interfaces/sockets.py
@@ -453,7 +453,7 @@ class Driver(DriverSocket):
                     " @SOCKET:   Unexpected getforce reply: %s" % (reply),
                     verbosity.low,
                 )
-            if reply == "":
+            if len(reply) == 0:
                 raise Disconnected()
 
     def _recv_force_data(self):
-- 
2.43.0


From a36dbb06791c10de7b8fff91c45dfd6854ee64a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:22 +0000
Subject: [PATCH 003/109] fix: match clients and requests by the value of the
 request id

---
 ipi/interfaces/sockets.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ipi/interfaces/sockets.py b/ipi/interfaces/sockets.py
index 83f332d..7c0d8d5 100644
--- a/ipi/interfaces/sockets.py
+++ b/ipi/interfaces/sockets.py
@@ -1699,7 +1699,7 @@ class InterfaceSocket(object):
             return self._dispatch_free_client_batch(fc)
 
         for r in self.prlist[:]:
-            if match_ids == "match" and fc.lastreq is not r["id"]:
+            if match_ids == "match" and fc.lastreq != r["id"]:
                 continue
             elif match_ids == "none" and fc.lastreq is not None:
                 continue
@@ -1716,7 +1716,7 @@ class InterfaceSocket(object):
                 continue
 
             # makes sure the request is marked as running and the client included in the jobs list
-            fc.locked = fc.lastreq is r["id"]
+            fc.locked = fc.lastreq == r["id"]
 
             r["offset"] = (
                 self.offset
-- 
2.43.0


From 16b799ed225230a40c734e268ff612c1995f59db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:22 +0000
Subject: [PATCH 004/109] fix: do not spin for ever when no free client can
 take a request

---
 ipi/interfaces/sockets.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ipi/interfaces/sockets.py b/ipi/interfaces/sockets.py
index 7c0d8d5..e937287 100644
--- a/ipi/interfaces/sockets.py
+++ b/ipi/interfaces/sockets.py
@@ -1492,11 +1492,13 @@ class InterfaceSocket(object):
         ndispatch = 0
         tdispatch -= time.time()
         while len(freec) > 0 and len(self.prlist) > 0:
+            dispatched_this_round = False
             for match_ids in match_seq:
                 for fc in freec[:]:
                     if self.dispatch_free_client(fc, match_ids):
                         freec.remove(fc)
                         ndispatch += 1
+                        dispatched_this_round = True
 
                     if len(self.prlist) == 0:
                         break
@@ -1507,6 +1509,9 @@ class InterfaceSocket(object):
 
             if len(freec) > 0:
                 self.prlist = [r for r in self.requests if r["status"] == "Queued"]
+            # none of the free clients can take a job (e.g. they have disconnected)
+            if not dispatched_this_round:
+                break
         tdispatch += time.time()
 
         # now check for client status
-- 
2.43.0


From ef4c1327dc169d96afeb9be83fd72bd8f6f07b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:22 +0000
Subject: [PATCH 005/109] fix: a connection reset while exchanging data only
 drops that client

---
 ipi/interfaces/sockets.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/ipi/interfaces/sockets.py b/ipi/interfaces/sockets.py
index e937287..ed32e60 100644
--- a/ipi/interfaces/sockets.py
+++ b/ipi/interfaces/sockets.py
@@ -265,7 +265,7 @@ class Driver(DriverSocket):
                 if self in writable:
                     self.send_msg("status")
                     self.waitstatus = True
-            except socket.error:
+            except (socket.error, ValueError):  # ValueError: socket already closed
                 return Status.Disconnected
 
         try:
@@ -532,7 +532,11 @@ class Driver(DriverSocket):
             return
 
         r["start"] = time.time()
-        self.sendpos(r["pos"][r["active"]], r["cell"])
+        try:
+            self.sendpos(r["pos"][r["active"]], r["cell"])
+        except OSError:
+            self.status = Status.Disconnected
+            return
 
         self.get_status()
         if not (self.status & Status.HasData):
@@ -544,7 +548,7 @@ class Driver(DriverSocket):
 
         try:
             r["result"] = self.getforce()
-        except Disconnected:
+        except (Disconnected, OSError):
             self.status = Status.Disconnected
             return
 
@@ -645,7 +649,7 @@ class Driver(DriverSocket):
         natoms = len(r["pos"][r["active"]]) // 3
         try:
             r["result"] = self._recv_forces_bulk(natoms)
-        except Disconnected:
+        except (Disconnected, OSError):
             self.status = Status.Disconnected
             return False
 
@@ -839,7 +843,7 @@ class Driver(DriverSocket):
         natoms = len(reqs[0]["pos"][reqs[0]["active"]]) // 3
         try:
             results = self._recv_forces_bulk_batch(natoms, len(reqs))
-        except Disconnected:
+        except (Disconnected, OSError):
             self.status = Status.Disconnected
             return False
 
-- 
2.43.0


From 803dc4288a29e2ea676ab1d9d493e5074d3900d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:22 +0000
Subject: [PATCH 006/109] fix: requests given up by a dispatch thread go back
 to the queue

---
 ipi/interfaces/sockets.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/ipi/interfaces/sockets.py b/ipi/interfaces/sockets.py
index ed32e60..4320f72 100644
--- a/ipi/interfaces/sockets.py
+++ b/ipi/interfaces/sockets.py
@@ -1402,14 +1402,17 @@ class InterfaceSocket(object):
                 self.clients.remove(c)
                 # requeue jobs that have been left hanging
                 for [k, j, tc] in self.jobs[:]:
-                    tc.result()
                     if j is c:
+                        if tc is not None:
+                            tc.result()
                         self.jobs = [
                             w for w in self.jobs if not (w[0] is k and w[1] is j)
                         ]  # removes pair in a robust way
 
-                        k["status"] = "Queued"
-                        k["start"] = -1
+                        for r in k if isinstance(k, list) else [k]:
+                            if r["status"] != "Done":
+                                r["status"] = "Queued"
+                                r["start"] = -1
 
         if len(self.clients) == 0:
             searchtimeout = SERVERTIMEOUT
@@ -1538,7 +1541,8 @@ class InterfaceSocket(object):
                 nfinished += 1
                 finished_ids.append(ijob)
             elif chk == 0:
-                self.poll_iter = UPDATEFREQ  # client disconnected. force a pool_update
+                # client disconnected. put the request back and force a pool_update
+                self._requeue_disconnected(r, c)
                 finished_ids.append(ijob)
             nchecked += 1
         # batch removal of finished/disconnected jobs (reverse order to preserve indices)
@@ -1791,10 +1795,16 @@ class InterfaceSocket(object):
         Checks if a job has been completed, and retrieves the results
         """
 
+        ended = ct.done()
         if r["status"] == "Done":
             ct.result()
             return 1
 
+        if ended:
+            # the exchange was given up without getting a result
+            ct.result()
+            return 0
+
         if (
             self.timeout > 0
             and r["start"] > 0
@@ -1818,6 +1828,6 @@ class InterfaceSocket(object):
                 pass
             c.close()
             c.status = Status.Disconnected
-            return 0  # client will be cleared and request resuscitated in poll_update
+            return 0  # client will be cleared in pool_update, request is put back
 
         return -1
-- 
2.43.0


From 61c8fb2d1d76f4ca2c1a72e170cb1859a20cd907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:54 +0000
Subject: [PATCH 007/109] fix: extra strings that are bare JSON values do not
 break the force evaluation

---
 ipi/interfaces/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ipi/interfaces/utils.py b/ipi/interfaces/utils.py
index 8fe8962..7f83702 100644
--- a/ipi/interfaces/utils.py
+++ b/ipi/interfaces/utils.py
@@ -19,6 +19,9 @@ def parse_extra(mxtra):
     except Exception:
         # not JSON: still expose the literal string under 'raw'
         mxtradict = {}
+    if not isinstance(mxtradict, dict):
+        # a bare JSON value (number, list, ...) has no fields
+        mxtradict = {}
     if "raw" in mxtradict:
         raise ValueError(
             "'raw' cannot be used as a field in a JSON-formatted extra string"
-- 
2.43.0


From 6a8c57c801687272b66bd50f5e881eee3cedb7bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:54 +0000
Subject: [PATCH 008/109] fix: python driver announces the encoded length of
 the extra string

---
 drivers/py/driver.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/drivers/py/driver.py b/drivers/py/driver.py
index dbb4ed5..6d33a57 100755
--- a/drivers/py/driver.py
+++ b/drivers/py/driver.py
@@ -213,9 +213,9 @@ def run_driver(
                 shm_views["vir"][i] = np.asarray(res[2]).reshape(3, 3)
             sock.sendall(Message("FORCEREADY"))
             for res in results_batch:
-                extra = res[3]
+                extra = res[3].encode("utf-8")
                 send_data(sock, np.int32(len(extra)))
-                sock.sendall(extra.encode("utf-8"))
+                sock.sendall(extra)
             f_data = False
         elif header == Message("GETFORCE") and batch_n > 1:
             sock.sendall(Message("FORCEREADY"))
@@ -235,9 +235,9 @@ def run_driver(
             )
             send_data(sock, virs)
             for res in results_batch:
-                extra = res[3]
+                extra = res[3].encode("utf-8")
                 send_data(sock, np.int32(len(extra)))
-                sock.sendall(extra.encode("utf-8"))
+                sock.sendall(extra)
             f_data = False
         elif header == Message("GETFORCE"):
             sock.sendall(Message("FORCEREADY"))
@@ -270,8 +270,9 @@ def run_driver(
             send_data(sock, np.int32(nat))
             send_data(sock, force)
             send_data(sock, vir)
+            extras = extras.encode("utf-8")
             send_data(sock, np.int32(len(extras)))
-            sock.sendall(extras.encode("utf-8"))
+            sock.sendall(extras)
 
             f_data = False
         elif header == Message("EXIT"):
-- 
2.43.0


From c99af876e5305fa3fbe18d0ece8a77ee2454f6ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:54 +0000
Subject: [PATCH 009/109] fix: python driver copes with partial reads and
 writes and a lost server

---
 drivers/py/driver.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/drivers/py/driver.py b/drivers/py/driver.py
index 6d33a57..f0c6439 100755
--- a/drivers/py/driver.py
+++ b/drivers/py/driver.py
@@ -41,7 +41,7 @@ def send_data(sock, data):
     if np.isscalar(data):
         data = np.array([data], data.dtype)
     buf = data.tobytes()
-    sock.send(buf)
+    sock.sendall(buf)
 
 
 HDRLEN = 12  # number of characters of the default message strings
@@ -98,7 +98,16 @@ def run_driver(
     force = np.zeros(0, float)
     vir = np.zeros((3, 3), float)
     while True:  # ah the infinite loop!
+        # the header might arrive in pieces
         header = sock.recv(HDRLEN)
+        while 0 < len(header) < HDRLEN:
+            part = sock.recv(HDRLEN - len(header))
+            if len(part) == 0:
+                break
+            header += part
+        if len(header) < HDRLEN:
+            print("Lost connection to i-PI. Bye bye!")
+            return
         if f_verbose:
             print("Received ", header)
         if header == Message("STATUS"):
-- 
2.43.0


From c068e9a8a0698bde2b5a45dfd8aac4296b4ca301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:54 +0000
Subject: [PATCH 010/109] fix: reassemble message headers that arrive in pieces

---
 ipi/interfaces/sockets.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/ipi/interfaces/sockets.py b/ipi/interfaces/sockets.py
index 4320f72..fca14ff 100644
--- a/ipi/interfaces/sockets.py
+++ b/ipi/interfaces/sockets.py
@@ -153,7 +153,21 @@ class DriverSocket(socket.socket):
         Args:
            l: Length of the accepted message. Defaults to HDRLEN.
         """
-        return self.recv(length)
+        msg = self.recv(length)
+        ntimeout = 0
+        # the message might arrive in pieces
+        while 0 < len(msg) < length:
+            try:
+                part = self.recv(length - len(msg))
+            except socket.timeout:
+                ntimeout += 1
+                if ntimeout > NTIMEOUT:
+                    break
+                continue
+            if len(part) == 0:
+                break
+            msg += part
+        return msg
 
     def recvall(self, dest):
         """Gets the potential energy, force and virial from the driver.
-- 
2.43.0


From ee2767d756aec3c103f989a8afea09cf376ab4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:15 +0000
Subject: [PATCH 011/109] fix: soft exit requests from several threads or
 signals do not cut the clean-up short

---
 ipi/utils/softexit.py | 42 +++++++++++++++++++++++++++++++++---------
 1 file changed, 33 insertions(+), 9 deletions(-)

diff --git a/ipi/utils/softexit.py b/ipi/utils/softexit.py
index 8b6dc71..40d8eb5 100644
--- a/ipi/utils/softexit.py
+++ b/ipi/utils/softexit.py
@@ -5,6 +5,7 @@
 # See the "licenses" directory for full license information.
 
 
+import atexit
 import sys
 import os
 import time
@@ -44,6 +45,8 @@ class Softexit(object):
         self.triggered = False
         self.exiting = False
         self._doloop = [False]
+        # held by the thread that is running the clean-up functions
+        self._lock = threading.RLock()
 
     def register_function(self, func, *args, **kwargs):
         """Adds another function to flist.
@@ -89,7 +92,25 @@ class Softexit(object):
             threading.currentThread(),
             message,
         )
-        if not self.triggered:  # avoid double calls from different threads
+        # avoid double calls from different threads
+        if self._lock.acquire(blocking=False):
+            try:
+                self._run_cleanup(status, message)
+            finally:
+                self._lock.release()
+
+        # wait for all (other) threads to finish
+        for t, dl in self.tlist:
+            if not (
+                threading.currentThread() is self._thread
+                or threading.currentThread() is t
+            ):
+                t.join()
+
+    def _run_cleanup(self, status, message):
+        """Runs the cleanup functions, unless this has been done already."""
+
+        if not self.triggered:
             self.exiting = True
             self.triggered = True
 
@@ -122,13 +143,11 @@ class Softexit(object):
             for t, dl in self.tlist:  # set thread exit flag
                 dl[0] = False
 
-        # wait for all (other) threads to finish
-        for t, dl in self.tlist:
-            if not (
-                threading.currentThread() is self._thread
-                or threading.currentThread() is t
-            ):
-                t.join()
+    def _wait_cleanup(self):
+        """Keeps the process alive until a clean-up run by another thread is over."""
+
+        with self._lock:
+            pass
 
     def kill(self):
         """Terminates the current thread/process."""
@@ -140,6 +159,7 @@ class Softexit(object):
 
         for signum, handler in self._kill.items():
             signal.signal(signum, handler)
+        atexit.unregister(self._wait_cleanup)
         self.__init__()
 
     def start(self, timeout=0.0):
@@ -159,6 +179,7 @@ class Softexit(object):
         self._doloop[0] = True
         self._kill[signal.SIGINT] = signal.signal(signal.SIGINT, self._kill_handler)
         self._kill[signal.SIGTERM] = signal.signal(signal.SIGTERM, self._kill_handler)
+        atexit.register(self._wait_cleanup)
         self._thread.start()
         self.register_thread(self._thread, self._doloop)
 
@@ -174,6 +195,9 @@ class Softexit(object):
            frame: Current stack frame.
         """
 
+        if self.exiting:
+            return  # already cleaning up: let it finish
+
         warning(
             " @SOFTEXIT:   Kill signal. Trying to make a clean exit.", verbosity.low
         )
@@ -184,7 +208,7 @@ class Softexit(object):
             self.__del__()
         except AttributeError:
             pass
-        if signal in self._kill:
+        if callable(self._kill.get(signal)):
             self._kill[signal](signal, frame)
 
     def _softexit_monitor(self):
-- 
2.43.0


From a83d3545bcd96430f31623da92af4e6a319b19b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:15 +0000
Subject: [PATCH 012/109] fix: label the restart file with the step whose state
 it holds

---
 ipi/engine/simulation.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/ipi/engine/simulation.py b/ipi/engine/simulation.py
index ce4a3c9..875110a 100644
--- a/ipi/engine/simulation.py
+++ b/ipi/engine/simulation.py
@@ -313,9 +313,9 @@ class Simulation:
         written out.
         """
 
-        if self.step < self.tsteps:
-            self.step += 1
         if not self.rollback:
+            if self.step < self.tsteps:
+                self.step += 1
             info(
                 " @simulation.softexit: Saving the latest status at the end of the step"
             )
@@ -331,6 +331,9 @@ class Simulation:
         in the communication between the driver and the PIMD code.
         """
 
+        # an exit during a step goes back to the state at the beginning of the step
+        self.rollback = True
+
         # prints inital configuration -- only if we are not restarting
         if self.step == 0 and write_outputs:
             self.step = -1
@@ -428,7 +431,8 @@ class Simulation:
                 )
                 break
 
-        self.rollback = False
+        if not softexit.triggered:
+            self.rollback = False
 
     def run_step(self, step):
         if len(self.syslist) > 0 and self.threading:
-- 
2.43.0


From 74cd5f911ec0ad7f4f56f67defa1e0d3c7f9c289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:34 +0000
Subject: [PATCH 013/109] fix: the restart state cannot change while it is
 being written

---
 ipi/engine/outputs.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/ipi/engine/outputs.py b/ipi/engine/outputs.py
index d8db273..ecb2d27 100644
--- a/ipi/engine/outputs.py
+++ b/ipi/engine/outputs.py
@@ -9,6 +9,7 @@ and the restart files.
 # See the "licenses" directory for full license information.
 
 import os
+import threading
 
 import numpy as np
 
@@ -704,6 +705,8 @@ class CheckpointOutput:
         """
 
         self.simul = simul
+        # the state must not change while another thread is writing it out
+        self._lock = threading.RLock()
         import ipi.inputs.simulation as isimulation
 
         self.status = isimulation.InputSimulation()
@@ -723,9 +726,10 @@ class CheckpointOutput:
         positions would have been consistent.
         """
 
-        self._storing = True
-        self.status.store(self.simul)
-        self._storing = False
+        with self._lock:
+            self._storing = True
+            self.status.store(self.simul)
+            self._storing = False
 
     def write(self, store=True):
         """Writes out the required trajectories.
@@ -744,6 +748,12 @@ class CheckpointOutput:
               stored before writing the checkpoint file.
         """
 
+        with self._lock:
+            self._write(store)
+
+    def _write(self, store):
+        """Writes out the checkpoint file. Must be called with the lock held."""
+
         if self._storing:
             info(
                 "@ CHECKPOINT: Write called while storing. Force re-storing",
-- 
2.43.0


From 7cc7b066400bd8dc1a8b6da28144562aa8c589eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:24 +0000
Subject: [PATCH 014/109] fix: a soft exit does not leave incomplete rows or
 frames in the output files

---
 ipi/engine/outputs.py | 64 +++++++++++++++++++++++++++----------------
 1 file changed, 41 insertions(+), 23 deletions(-)

diff --git a/ipi/engine/outputs.py b/ipi/engine/outputs.py
index ecb2d27..19811bd 100644
--- a/ipi/engine/outputs.py
+++ b/ipi/engine/outputs.py
@@ -10,6 +10,7 @@ and the restart files.
 
 import os
 import threading
+from io import StringIO
 
 import numpy as np
 
@@ -276,7 +277,8 @@ class PropertyOutput(BaseOutput):
 
         if not self.active():
             return
-        self.out.write("  ")
+        # the row is written in one go, so that an exit cannot leave part of it
+        row = "  "
         for what in self.outlist:
             try:
                 quantity, dimension, unit = self.system.properties[what]
@@ -285,17 +287,22 @@ class PropertyOutput(BaseOutput):
             except KeyError:
                 raise KeyError(what + " is not a recognized property")
             if not hasattr(quantity, "__len__"):
-                self.out.write(write_type(float, quantity) + "   ")
+                row += write_type(float, quantity) + "   "
             else:
                 for el in quantity:
-                    self.out.write(write_type(float, el) + " ")
+                    row += write_type(float, el) + " "
 
-        self.out.write("\n")
+        try:
+            self.out.write(row + "\n")
 
-        self.nout += 1
-        if self.flush > 0 and self.nout >= self.flush:
-            self.force_flush()
-            self.nout = 0
+            self.nout += 1
+            if self.flush > 0 and self.nout >= self.flush:
+                self.force_flush()
+                self.nout = 0
+        except ValueError:
+            # the stream has been closed by a soft exit in another thread
+            if not softexit.triggered:
+                raise
 
 
 class TrajectoryOutput(BaseOutput):
@@ -541,21 +548,23 @@ class TrajectoryOutput(BaseOutput):
               after each write to file or not.
         """
 
+        # the frame is written in one go, so that an exit cannot leave part of it
+        frame = StringIO()
         key = getkey(what)
         if key in ["extras", "extras_component_raw", "extras_bias"]:
             if key == "extras_component_raw":
-                stream.write(
+                frame.write(
                     " #%s(%s)# Step:  %10d  Bead:  %5d  \n"
                     % (key.upper(), self.extra_type, self.system.simul.step + 1, b)
                 )
             else:
-                stream.write(
+                frame.write(
                     " #%s(%s)# Step:  %10d \n"
                     % (key.upper(), self.extra_type, self.system.simul.step + 1)
                 )
             if self.extra_type == "raw":
-                stream.write(str(data))
-                stream.write("\n")
+                frame.write(str(data))
+                frame.write("\n")
             else:
                 if "," in self.extra_type:
                     # expect that there is a bunch of terms that can be horizontally stacked
@@ -583,12 +592,12 @@ class TrajectoryOutput(BaseOutput):
                         data_list.append(floatarray)
                     except:
                         # non-numerical field, just write as a string on a separate line
-                        stream.write("\n%s\n" % data[extra][b])
+                        frame.write("\n%s\n" % data[extra][b])
 
                 if len(data_list) > 0:
                     floatarray = np.hstack(data_list)
                     if floatarray.ndim == 2:
-                        stream.write(
+                        frame.write(
                             "\n".join(
                                 [
                                     " ".join(
@@ -602,7 +611,7 @@ class TrajectoryOutput(BaseOutput):
                             )
                         )
                     elif floatarray.ndim == 1:
-                        stream.write(
+                        frame.write(
                             " ".join(
                                 ipi_global_settings["floatformat"] % el
                                 for el in floatarray
@@ -612,10 +621,8 @@ class TrajectoryOutput(BaseOutput):
                         raise ValueError(
                             "No specialized writer for arrays of dimension > 2"
                         )
-                    stream.write("\n")
-            if flush:
-                stream.flush()
-                os.fsync(stream)
+                    frame.write("\n")
+            self._write_frame(stream, frame.getvalue(), flush)
             return
         elif getkey(what) in [
             "positions",
@@ -648,16 +655,27 @@ class TrajectoryOutput(BaseOutput):
             format,
             fatom,
             fcell,
-            stream,
+            stream if format in ("bin", "binary") else frame,
             title=("Step:  %10d  Bead:   %5d " % (self.system.simul.step + 1, b)),
             key=key,
             dimension=dimension,
             units=units,
             cell_units=cell_units,
         )
-        if flush:
-            stream.flush()
-            os.fsync(stream)
+        self._write_frame(stream, frame.getvalue(), flush)
+
+    def _write_frame(self, stream, frame, flush):
+        """Writes a complete frame to the stream."""
+
+        try:
+            stream.write(frame)
+            if flush:
+                stream.flush()
+                os.fsync(stream)
+        except ValueError:
+            # the stream has been closed by a soft exit in another thread
+            if not softexit.triggered:
+                raise
 
 
 class CheckpointOutput:
-- 
2.43.0


From 40e2581b6ec275e13beffd2df8db3b4feb11f28f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:33 +0000
Subject: [PATCH 015/109] fix: checkpoints replace the previous one only when
 complete

---
 ipi/engine/outputs.py    | 18 ++++++++++--------
 ipi/utils/io/__init__.py | 39 ++++++++++++++++++++++++---------------
 2 files changed, 34 insertions(+), 23 deletions(-)

diff --git a/ipi/engine/outputs.py b/ipi/engine/outputs.py
index 19811bd..aaa4422 100644
--- a/ipi/engine/outputs.py
+++ b/ipi/engine/outputs.py
@@ -20,7 +20,7 @@ from ipi.utils.softexit import softexit
 from ipi.utils.depend import *
 import ipi.utils.io as io
 from ipi.utils.io.inputs.io_xml import *
-from ipi.utils.io import open_backup
+from ipi.utils.io import backup_file, open_backup
 from ipi.engine.properties import getkey
 from ipi.engine.atoms import *
 from ipi.engine.cell import *
@@ -782,13 +782,8 @@ class CheckpointOutput:
         if not self.active():
             return
 
-        # function to use to open files
-        open_function = open_backup
-
         if self.overwrite:
             filename = self.filename
-            if self._continued:
-                open_function = open
         else:
             filename = self.filename + "_" + str(self.step)
 
@@ -798,12 +793,19 @@ class CheckpointOutput:
             self.store()
             self.status.step.store(self.simul.step + 1)
 
-        with open_function(filename, "w") as check_file:
+        # The file only gets its name when it is complete, so that a crash at any
+        # time leaves either the previous checkpoint or the new one.
+        with open(filename + ".tmp", "w") as check_file:
             info_string = get_identification_info_xml()
             check_file.write(info_string + "\n")
             check_file.write(self.status.write(name="simulation"))
+            check_file.flush()
+            os.fsync(check_file)
 
-        # Do not use backed up file open on subsequent writes.
+        # Do not back up on subsequent writes.
+        if not (self.overwrite and self._continued):
+            backup_file(filename)
+        os.replace(filename + ".tmp", filename)
         self._continued = True
 
 
diff --git a/ipi/utils/io/__init__.py b/ipi/utils/io/__init__.py
index b6efb56..0e0f3d9 100644
--- a/ipi/utils/io/__init__.py
+++ b/ipi/utils/io/__init__.py
@@ -428,6 +428,29 @@ def iter_file_name_raw(filename):
     return iter_file_raw(mode=os.path.splitext(filename)[1], filedesc=open(filename))
 
 
+def backup_file(filename):
+    """Renames a file, if it exists, keeping all previous backups.
+
+    Args:
+        filename: The name of the file that must not be overwritten.
+    """
+
+    i = 0
+    fn_backup = filename
+    while os.path.isfile(fn_backup):
+        fn_backup = "#" + filename + "#%i#" % i
+        i += 1
+
+    if fn_backup != filename:
+        os.rename(filename, fn_backup)
+        info(
+            " @open_backup: Backup performed: {0:s} -> {1:s}".format(
+                filename, fn_backup
+            ),
+            verbosity.low,
+        )
+
+
 def open_backup(filename, mode="r", buffering=-1):
     """A wrapper around `open` which saves backup files.
 
@@ -446,21 +469,7 @@ def open_backup(filename, mode="r", buffering=-1):
 
     if mode.startswith("w"):
         # If writing, make sure nothing is overwritten.
-
-        i = 0
-        fn_backup = filename
-        while os.path.isfile(fn_backup):
-            fn_backup = "#" + filename + "#%i#" % i
-            i += 1
-
-        if fn_backup != filename:
-            os.rename(filename, fn_backup)
-            info(
-                " @open_backup: Backup performed: {0:s} -> {1:s}".format(
-                    filename, fn_backup
-                ),
-                verbosity.low,
-            )
+        backup_file(filename)
 
     else:
         # There is no need to back up.
-- 
2.43.0


From d35f970f3bb81c73d864dcbaa71766e5052e576d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:37 +0000
Subject: [PATCH 016/109] fix: an exit between two interactive runs restarts
 from the last stored state

---
 ipi/scripting/interactive.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ipi/scripting/interactive.py b/ipi/scripting/interactive.py
index 69763bd..69bf5ff 100644
--- a/ipi/scripting/interactive.py
+++ b/ipi/scripting/interactive.py
@@ -93,6 +93,8 @@ class InteractiveSimulation(Simulation):
         :param steps: int, number of steps the simulation should be advanced by
         """
 
+        # from here on, an exit goes back to the last state that has been stored
+        self.rollback = True
         self.tsteps = self.step + steps
         super().run(write_outputs=write_outputs)
         # saves the RESTART file
-- 
2.43.0


From 4352e2a708b6456b27e06c67e82474273c013a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:04 +0000
Subject: [PATCH 017/109] fix: a soft exit from another thread does not break
 writes to auxiliary outputs

---
 ipi/engine/outputs.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/ipi/engine/outputs.py b/ipi/engine/outputs.py
index aaa4422..027edc7 100644
--- a/ipi/engine/outputs.py
+++ b/ipi/engine/outputs.py
@@ -144,8 +144,13 @@ class BaseOutput(object):
         """Tries hard to flush the output stream"""
 
         if self.out is not None:
-            self.out.flush()
-            os.fsync(self.out)
+            try:
+                self.out.flush()
+                os.fsync(self.out)
+            except ValueError:
+                # the stream has been closed by a soft exit in another thread
+                if not softexit.triggered:
+                    raise
 
     def remove(self):
         """Removes (temporary) output"""
@@ -158,7 +163,12 @@ class BaseOutput(object):
         """Writes data to file"""
 
         if self.out is not None:
-            return self.out.write(data)
+            try:
+                return self.out.write(data)
+            except ValueError:
+                # the stream has been closed by a soft exit in another thread
+                if not softexit.triggered:
+                    raise
 
     def active(self):
         """Whether we will output at this step"""
-- 
2.43.0


From af9dd0d7c9c3bad0ec77853e0e8dfb49c7d68096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:41 +0000
Subject: [PATCH 018/109] fix: partial writes to a stale array do not revive
 outdated elements

A write through an index or a view of an array whose value was outdated (for example
beads[0].q after the normal-mode coordinates had been set) marked the whole array as
up to date. A rejected write to a computed quantity also changed its cached value.
---
 ipi/utils/depend.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/ipi/utils/depend.py b/ipi/utils/depend.py
index bae8afe..08607e6 100644
--- a/ipi/utils/depend.py
+++ b/ipi/utils/depend.py
@@ -261,9 +261,9 @@ class depend_value(depend_base):
 
     def set(self, value, manual=True):
         with self._threadlock:
-            self._value = value
             if manual:
                 self.update_man()
+            self._value = value
             self.taint(taintme=False)
 
     def __set__(self, instance, value):
@@ -486,11 +486,14 @@ class depend_array(depend_base):
 
     def __setitem__(self, index, value):
         with self._threadlock:
-            self._value[index] = value
+            # a partial write must not revive the outdated remaining elements
+            if self._tainted[0]:
+                self._refresh()
             # Skip update_man() on plain leaf-storage arrays (no synchro,
             # no computed func) — there is nothing for it to do.
             if self._synchro is not None or self._func is not None:
                 self.update_man()
+            self._value[index] = value
             self.taint(taintme=False)
 
     def set(self, value, manual=True):
@@ -502,9 +505,12 @@ class depend_array(depend_base):
         silently desync any existing slice's `_value` from the parent's.
         """
         with self._threadlock:
-            self._value[...] = value
+            # a view only holds a part of its parent, so the rest must be up to date
+            if self._parent is not None and self._tainted[0]:
+                self._refresh()
             if manual and (self._synchro is not None or self._func is not None):
                 self.update_man()
+            self._value[...] = value
             self.taint(taintme=False)
 
     def get(self):
-- 
2.43.0


From bd310424250fc56dd7a92f1df237cc5e5a11915c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:41 +0000
Subject: [PATCH 019/109] fix: array attributes and methods of depend_array see
 the current value

A reference to an array kept while one of its dependencies changed returned outdated
data from .T, .flat, .real, .imag, .copy() and all other forwarded methods.
---
 ipi/utils/depend.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/ipi/utils/depend.py b/ipi/utils/depend.py
index 08607e6..0d35f84 100644
--- a/ipi/utils/depend.py
+++ b/ipi/utils/depend.py
@@ -379,10 +379,14 @@ class depend_array(depend_base):
 
     @property
     def T(self):
+        if self._tainted[0]:
+            self._refresh()
         return self._value.T
 
     @property
     def flat(self):
+        if self._tainted[0]:
+            self._refresh()
         return self._value.flat
 
     @property
@@ -395,10 +399,14 @@ class depend_array(depend_base):
 
     @property
     def real(self):
+        if self._tainted[0]:
+            self._refresh()
         return self._value.real
 
     @property
     def imag(self):
+        if self._tainted[0]:
+            self._refresh()
         return self._value.imag
 
     # ------------------------------------------------------------------
@@ -414,6 +422,8 @@ class depend_array(depend_base):
             value = object.__getattribute__(self, "_value")
         except AttributeError:
             raise AttributeError(name)
+        if self._tainted[0]:
+            self._refresh()
         return getattr(value, name)
 
     # ------------------------------------------------------------------
-- 
2.43.0


From eeaae61a38435c5e336726129b0ab4ea8ccf1967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:41 +0000
Subject: [PATCH 020/109] fix: dynamical masses follow changes of the
 temperature

The mass factors of PA-CMD, WMAX-CMD and manual frequencies depend on the frequencies
of the free ring polymer, and so on the temperature, but were never updated, for
instance along a temperature ramp or after a replica exchange.
---
 ipi/engine/normalmodes.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ipi/engine/normalmodes.py b/ipi/engine/normalmodes.py
index e3c6afd..57f2742 100644
--- a/ipi/engine/normalmodes.py
+++ b/ipi/engine/normalmodes.py
@@ -285,20 +285,20 @@ class NormalModes:
             name="nm_factor",
             value=np.zeros(self.nbeads, float),
             func=self.get_nmm,
-            dependencies=[self._nm_freqs, self._mode],
+            dependencies=[self._nm_freqs, self._mode, self._omegak],
         )
         # add o_nm_factor for the dynamical mass in the case of open paths
         self._o_nm_factor = depend_array(
             name="nmm",
             value=np.zeros(self.nbeads, float),
             func=self.get_o_nmm,
-            dependencies=[self._nm_freqs, self._mode],
+            dependencies=[self._nm_freqs, self._mode, self._o_omegak],
         )
         self._dynm3 = depend_array(
             name="dynm3",
             value=np.zeros((self.nbeads, 3 * self.natoms), float),
             func=self.get_dynm3,
-            dependencies=[self._nm_factor, self.beads._m3],
+            dependencies=[self._nm_factor, self._o_nm_factor, self.beads._m3],
         )
         self._dynomegak = depend_array(
             name="dynomegak",
-- 
2.43.0


From 422ac825bd6c53d4ef2113b756e56dd79d03d278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:41 +0000
Subject: [PATCH 021/109] fix: declare the missing dependencies of cached
 quantities

Spring forces, kinetic stress, Suzuki-Chin terms, Hamiltonian-weighted forces, extras
and MTS time steps were not updated when a quantity they depend on changed.
---
 ipi/engine/barostats.py       | 7 +++++--
 ipi/engine/beads.py           | 2 +-
 ipi/engine/forces.py          | 9 +++++++--
 ipi/engine/motion/dynamics.py | 8 ++++++--
 4 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/ipi/engine/barostats.py b/ipi/engine/barostats.py
index 328db00..4c51e34 100644
--- a/ipi/engine/barostats.py
+++ b/ipi/engine/barostats.py
@@ -183,13 +183,16 @@ class Barostat:
         self._kstress = depend_value(
             name="kstress",
             func=self.get_kstress,
-            dependencies=[beads._q, beads._qc, beads._pc, forces._f],
+            dependencies=[beads._q, beads._qc, beads._pc, beads._m, forces._f],
         )
         self._stress = depend_value(
             name="stress",
             func=self.get_stress,
-            dependencies=[self._kstress, cell._V, forces._vir],
+            dependencies=[self._kstress, cell._V, forces._virs],
         )
+        if bias is not None:
+            self._kstress.add_dependency(bias._f)
+            self._stress.add_dependency(bias._vir)
 
         self._pot = depend_value(name="pot", value=0.0)
 
diff --git a/ipi/engine/beads.py b/ipi/engine/beads.py
index be569ad..f5fdc9b 100644
--- a/ipi/engine/beads.py
+++ b/ipi/engine/beads.py
@@ -138,7 +138,7 @@ class Beads:
             name="fpath",
             value=np.zeros((nbeads, 3 * natoms), float),
             func=self.get_fpath,
-            dependencies=[self._q],
+            dependencies=[self._q, self._m3],
         )
 
         # create proxies to access the individual beads as Atoms objects
diff --git a/ipi/engine/forces.py b/ipi/engine/forces.py
index ca356dc..ea16fe0 100644
--- a/ipi/engine/forces.py
+++ b/ipi/engine/forces.py
@@ -745,6 +745,10 @@ class Forces:
         self._pots.add_dependency(nforces._pots)
         self._virs.add_dependency(nforces._virs)
         self._extras.add_dependency(nforces._extras)
+        self._f.add_dependency(nforces._weight)
+        self._pots.add_dependency(nforces._weight)
+        self._virs.add_dependency(nforces._weight)
+        self._extras.add_dependency(nforces._weight)
 
     def bind(self, beads, cell, fcomponents, fflist, open_paths, output_maker):
         """Binds beads, cell and forces to the forcefield.
@@ -920,7 +924,7 @@ class Forces:
         self._fvir_4th_order = depend_value(
             name="fvir_4th_order",
             value=[None, None],
-            dependencies=[self.beads._m, self._f, self._pots],
+            dependencies=[self.beads._m, self._f, self._pots, self._alpha],
             func=self.fvir_4th_order_combine,
         )
 
@@ -984,7 +988,7 @@ class Forces:
 
         self._virsc = depend_value(
             name="virsc",
-            dependencies=[self._potssc],
+            dependencies=[self._virssc],
             func=(lambda: np.sum(self.virssc, axis=0)),
         )
 
@@ -995,6 +999,7 @@ class Forces:
             self._f.add_dependency(fc._weight)
             self._pots.add_dependency(fc._weight)
             self._virs.add_dependency(fc._weight)
+            self._extras.add_dependency(fc._weight)
 
     def clone(self, beads, cell):
         """Duplicates the force object, so that it can be used to compute forces
diff --git a/ipi/engine/motion/dynamics.py b/ipi/engine/motion/dynamics.py
index 972f0cf..8e00542 100644
--- a/ipi/engine/motion/dynamics.py
+++ b/ipi/engine/motion/dynamics.py
@@ -308,8 +308,12 @@ class DummyIntegrator:
             self.activeatoms_mask = False
 
         # total number of iteration in the inner-most MTS loop
-        self._inmts = depend_value(name="inmts", func=lambda: np.prod(self.nmts))
-        self._nmtslevels = depend_value(name="nmtslevels", func=lambda: len(self.nmts))
+        self._inmts = depend_value(
+            name="inmts", func=lambda: np.prod(self.nmts), dependencies=[self._nmts]
+        )
+        self._nmtslevels = depend_value(
+            name="nmtslevels", func=lambda: len(self.nmts), dependencies=[self._nmts]
+        )
         # these are the time steps to be used for the different parts of the integrator
         self._qdt = depend_value(
             name="qdt",
-- 
2.43.0


From c6937b7ec364410fc9b2df811b791d852679978f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:38 +0000
Subject: [PATCH 022/109] fix: combining raw extras does not modify the extras
 of the first component

---
 ipi/engine/forces.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ipi/engine/forces.py b/ipi/engine/forces.py
index ea16fe0..888ebed 100644
--- a/ipi/engine/forces.py
+++ b/ipi/engine/forces.py
@@ -1546,7 +1546,8 @@ class Forces:
                                 for ib in range(self.nbeads):
                                     re["raw"][ib] += v[ib]
                             else:
-                                re["raw"] = v
+                                # copies, not to modify the extras of the component
+                                re["raw"] = list(v)
                         else:
                             if e in re:
                                 warning(
-- 
2.43.0


From d0d2628b2b3784506466ae2919d7ad54c1bfbcc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:55 +0000
Subject: [PATCH 023/109] fix: changes of the Hamiltonian weights reach the
 quantities computed from them

---
 ipi/engine/ensembles.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ipi/engine/ensembles.py b/ipi/engine/ensembles.py
index 20f067e..c2cbe2a 100755
--- a/ipi/engine/ensembles.py
+++ b/ipi/engine/ensembles.py
@@ -133,7 +133,7 @@ class Ensemble:
         # weights of the Hamiltonian scaling
         if hweights is None:
             hweights = np.ones(0)
-        self.hweights = np.asarray(hweights)
+        self._hweights = depend_array(name="hweights", value=np.asarray(hweights))
 
         # Internal time counter
         self._time = depend_value(name="time", value=time)
@@ -199,9 +199,10 @@ class Ensemble:
 
         # add Hamiltonian REM bias components
         if len(self.hweights) == 0:
-            self.hweights = np.ones(len(self.forces.mforces))
+            self._hweights = depend_array(
+                name="hweights", value=np.ones(len(self.forces.mforces))
+            )
 
-        self._hweights = depend_array(name="hweights", value=np.asarray(self.hweights))
         self._has_bias = depend_value(
             name="has_bias",
             func=lambda: (
@@ -290,6 +291,7 @@ dproperties(
         "pext",
         "eens",
         "bweights",
+        "hweights",
         "time",
         "econs",
         "has_bias",
-- 
2.43.0


From b7c8c742250b708b63629334e233e604a0fde89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:55 +0000
Subject: [PATCH 024/109] fix: Hamiltonian weights act on the dynamics

---
 ipi/engine/ensembles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipi/engine/ensembles.py b/ipi/engine/ensembles.py
index c2cbe2a..6ae5b2e 100755
--- a/ipi/engine/ensembles.py
+++ b/ipi/engine/ensembles.py
@@ -206,7 +206,7 @@ class Ensemble:
         self._has_bias = depend_value(
             name="has_bias",
             func=lambda: (
-                len(self.bcomp) > 0 and np.mean((self.hweights - 1) ** 2) < 1e-20
+                len(self.bcomp) > 0 or np.mean((self.hweights - 1) ** 2) > 1e-20
             ),
             dependencies=[self._hweights],
         )
-- 
2.43.0


From a802ab30cc4819f31631af1653a95fc6962dc058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:05 +0000
Subject: [PATCH 025/109] fix: multiple time step forces follow components
 added after binding

---
 ipi/engine/forces.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/ipi/engine/forces.py b/ipi/engine/forces.py
index 888ebed..3e28f75 100644
--- a/ipi/engine/forces.py
+++ b/ipi/engine/forces.py
@@ -629,15 +629,19 @@ class MTSForces:
         )
 
         for ff in self.mforces:
-            # add dependencies from the forces that actually depend on this
-            mts_weights = ff.mts_weights
-            if (len(mts_weights) == 0 and level == 0) or (
-                len(mts_weights) > level and mts_weights[level] != 0
-            ):
-                self._f.add_dependency(ff._f)
-                self._f.add_dependency(ff._weight)
-                self._virs.add_dependency(ff._virs)
-                self._virs.add_dependency(ff._weight)
+            self.add_component(ff)
+
+    def add_component(self, ff):
+        """Adds dependencies on a component, if it contributes to this level"""
+
+        mts_weights = ff.mts_weights
+        if (len(mts_weights) == 0 and self.level == 0) or (
+            len(mts_weights) > self.level and mts_weights[self.level] != 0
+        ):
+            self._f.add_dependency(ff._f)
+            self._f.add_dependency(ff._weight)
+            self._virs.add_dependency(ff._virs)
+            self._virs.add_dependency(ff._weight)
 
     def queue_mts(self):
         """Submits all the required force calculations to the forcefields."""
@@ -749,6 +753,8 @@ class Forces:
         self._pots.add_dependency(nforces._weight)
         self._virs.add_dependency(nforces._weight)
         self._extras.add_dependency(nforces._weight)
+        for mts in self.mts_forces:
+            mts.add_component(nforces)
 
     def bind(self, beads, cell, fcomponents, fflist, open_paths, output_maker):
         """Binds beads, cell and forces to the forcefield.
@@ -882,6 +888,7 @@ class Forces:
             name="nmtslevels", value=0, func=self.get_nmtslevels
         )
 
+        self.mts_forces = []
         if len(self.mforces) > 0:
             self.mts_forces = [MTSForces(self, i) for i in range(self.nmtslevels)]
 
-- 
2.43.0


From 32ce17b0d21eff1325a2917b6121d5ddd09506d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:16 +0000
Subject: [PATCH 026/109] fix: expanding contracted forces with open paths only
 treats the open atoms as open

---
 ipi/utils/nmtransform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ipi/utils/nmtransform.py b/ipi/utils/nmtransform.py
index f826a87..91324d8 100644
--- a/ipi/utils/nmtransform.py
+++ b/ipi/utils/nmtransform.py
@@ -323,8 +323,8 @@ class nm_rescale(object):
                         q_scal[:, 3 * io + 2] = np.tensordot(
                             self._o_b2tob1, q[:, 3 * io + 2], axes=(1, 0)
                         )
-                    else:
-                        q_scal = np.tensordot(self._o_b2tob1, q, axes=(1, 0))
+                else:
+                    q_scal = np.tensordot(self._o_b2tob1, q, axes=(1, 0))
         return q_scal
 
 
-- 
2.43.0


From 7e696190f77d495ca142c6842645df8423141ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:16 +0000
Subject: [PATCH 027/109] fix: contraction of open paths keeps their softest
 modes

---
 ipi/utils/nmtransform.py | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/ipi/utils/nmtransform.py b/ipi/utils/nmtransform.py
index 91324d8..16afe19 100644
--- a/ipi/utils/nmtransform.py
+++ b/ipi/utils/nmtransform.py
@@ -122,16 +122,8 @@ def mk_o_rs_matrix(nb1, nb2):
         nm_b2 = mk_o_nm_matrix(nb2).T
 
         # builds the "reduction" matrix that picks the normal modes we want to keep
-        b1_b2 = np.zeros((nb2, nb1), float)
-        b1_b2[0, 0] = 1.0
-        for i in range(1, nb2 // 2 + 1):
-            b1_b2[i, i] = 1.0
-            b1_b2[nb2 - i, nb1 - i] = 1.0
-        if nb2 % 2 == 0:
-            # if we are contracting down to an even number of beads, then we have to
-            # pick just one of the last degenerate modes to match onto the single
-            # stiffest mode in the new path
-            b1_b2[nb2 // 2, nb1 - nb2 // 2] = 0.0
+        # (the open-path modes are sorted by increasing frequency)
+        b1_b2 = np.eye(nb2, nb1)
 
         rs_b1_b2 = np.dot(nm_b2, np.dot(b1_b2, b1_nm))
         return rs_b1_b2 * np.sqrt(float(nb2) / float(nb1))
-- 
2.43.0


From b5c6e518f49491aefdcba30839e3982c8604b616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:35 +0000
Subject: [PATCH 028/109] fix: flexible-cell barostats feel the off-diagonal
 kinetic stress

---
 ipi/engine/barostats.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/ipi/engine/barostats.py b/ipi/engine/barostats.py
index 4c51e34..231f370 100644
--- a/ipi/engine/barostats.py
+++ b/ipi/engine/barostats.py
@@ -91,6 +91,9 @@ class Barostat:
        press: The system pressure.
     """
 
+    # components of the kinetic stress that act on the cell
+    kmask = np.eye(3)
+
     def __init__(
         self,
         dt=None,
@@ -324,9 +327,8 @@ class Barostat:
             m = dstrip(beads.m)
             nbeads = beads.nbeads
 
-            kst[0, 0] += noddot(pc[:, 0], pc[:, 0] / m) * nbeads
-            kst[1, 1] += noddot(pc[:, 1], pc[:, 1] / m) * nbeads
-            kst[2, 2] += noddot(pc[:, 2], pc[:, 2] / m) * nbeads
+            # the off-diagonal terms act on the cell components that are free to change
+            kst += self.kmask * noddot(pc.T, pc / m[:, np.newaxis]) * nbeads
 
         return kst
 
@@ -935,6 +937,8 @@ class BaroRGB(Barostat):
 
         # mask to zero out components of the cell velocity, to implement cell-boundary constraints
         self._hmask = depend_array(name="hmask", value=hmask)
+        # components of the kinetic stress that act on the cell
+        self.kmask = np.maximum(np.eye(3), hmask)
         # number of ones in the UT part of the mask
         self.L = np.diag([hmask[0].sum(), hmask[1, 1:].sum(), hmask[2, 2:].sum()])
 
@@ -1228,6 +1232,8 @@ class BaroMTK(Barostat):
 
         # mask to zero out components of the cell velocity, to implement cell-boundary constraints
         self._hmask = depend_array(name="hmask", value=hmask)
+        # components of the kinetic stress that act on the cell
+        self.kmask = np.maximum(np.eye(3), hmask)
         # number of ones in the UT part of the mask
         self.L = np.diag([hmask[0].sum(), hmask[1, 1:].sum(), hmask[2, 2:].sum()])
 
-- 
2.43.0


From fdfdeab806cfddae84ac3b39f56fb3b8c8a4b8f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:54 +0000
Subject: [PATCH 029/109] fix: flexible-cell barostats are integrated to second
 order

---
 ipi/engine/barostats.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ipi/engine/barostats.py b/ipi/engine/barostats.py
index 231f370..fb68344 100644
--- a/ipi/engine/barostats.py
+++ b/ipi/engine/barostats.py
@@ -1099,8 +1099,9 @@ class BaroRGB(Barostat):
             )
             fcTonm = (fc / dstrip(self.beads.m3)[0].reshape(self.beads.natoms, 3)).T
 
+            fcTpc = np.dot(fcTonm, pc)
             self.p += (
-                np.triu(dt2 * np.dot(fcTonm, pc) + dt3 * np.dot(fcTonm, fc))
+                np.triu(dt2 * (fcTpc + fcTpc.T) / 2.0 + dt3 * np.dot(fcTonm, fc))
                 * self.beads.nbeads
             )
 
@@ -1387,8 +1388,9 @@ class BaroMTK(Barostat):
             )
             fcTonm = (fc / dstrip(self.beads.m3)[0].reshape(self.beads.natoms, 3)).T
 
+            fcTpc = np.dot(fcTonm, pc)
             self.p += (
-                np.triu(dt2 * np.dot(fcTonm, pc) + dt3 * np.dot(fcTonm, fc))
+                np.triu(dt2 * (fcTpc + fcTpc.T) / 2.0 + dt3 * np.dot(fcTonm, fc))
                 * self.beads.nbeads
             )
 
-- 
2.43.0


From a77af01a1daf02ff7986a90213125af7552d07e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:54 +0000
Subject: [PATCH 030/109] fix: the Suzuki-Chin virial includes the rescaling of
 the forces

---
 ipi/engine/forces.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ipi/engine/forces.py b/ipi/engine/forces.py
index 3e28f75..ca56091 100644
--- a/ipi/engine/forces.py
+++ b/ipi/engine/forces.py
@@ -1614,8 +1614,13 @@ class Forces:
 
     def get_virssc_part_2(self):
         """Obtains the quadratic component of Suzuki-Chin correction to the virial."""
-        return self.coeffsc_part_2.reshape((self.beads.nbeads, 1, 1)) * dstrip(
-            self.vir_4th_order
+        # the squared force depends on the cell also because forces are rescaled by a deformation
+        f = dstrip(self.f).reshape((self.nbeads, -1, 3))
+        fonm = f / dstrip(self.beads.m)[np.newaxis, :, np.newaxis]
+        f2 = np.triu(np.einsum("bni,bnj->bij", f, fonm))
+
+        return np.asarray(self.coeffsc_part_2).reshape((self.nbeads, 1, 1)) * (
+            dstrip(self.vir_4th_order) + 2.0 * f2
         )
 
     def get_fsc(self):
-- 
2.43.0


From 94fbea2d76dc4ad331b74c46ef8c4327a89c8229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:48 +0000
Subject: [PATCH 031/109] fix: centroid motion in flexible cells when the cell
 velocity has no diagonal part or degenerate eigenvectors

---
 ipi/engine/barostats.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/ipi/engine/barostats.py b/ipi/engine/barostats.py
index fb68344..58c3cf1 100644
--- a/ipi/engine/barostats.py
+++ b/ipi/engine/barostats.py
@@ -1117,10 +1117,10 @@ class BaroRGB(Barostat):
         v = self.p / self.m[0]
         halfdt = self.qdt
         # compute in one go dt sinh v/v to handle zero-velocity cases
-        # check eigen vector exists
-        if np.count_nonzero(v.diagonal()) == 0:
-            # compute sinhv/v by directly taylor, if eigen vector not exists
-            sinh = mat_taylor(v * halfdt, function="sinhx/x")
+        if np.abs(v).max() * halfdt < 0.5:
+            # compute sinhv/v by directly taylor, which also works when v
+            # has a degenerate set of eigenvectors
+            sinh = halfdt * mat_taylor(v * halfdt, function="sinhx/x")
         else:
             eigvals, eigvecs = np.linalg.eig(v)
             ieigvecs = np.linalg.inv(eigvecs)
@@ -1410,10 +1410,10 @@ class BaroMTK(Barostat):
         v = self.p / self.m[0]
         halfdt = self.qdt
         # compute in one go dt sinh v/v to handle zero-velocity cases
-        # check eigen vector exists
-        if np.count_nonzero(v.diagonal()) == 0:
-            # compute sinhv/v by directly taylor, if eigen vector not exists
-            sinh = mat_taylor(v * halfdt, function="sinhx/x")
+        if np.abs(v).max() * halfdt < 0.5:
+            # compute sinhv/v by directly taylor, which also works when v
+            # has a degenerate set of eigenvectors
+            sinh = halfdt * mat_taylor(v * halfdt, function="sinhx/x")
         else:
             eigvals, eigvecs = np.linalg.eig(v)
             ieigvecs = np.linalg.inv(eigvecs)
-- 
2.43.0


From c8668a2b50e90defae858497e23d5f892d2e6c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:18 +0000
Subject: [PATCH 032/109] fix: off-diagonal centroid-virial stress in
 flexible-cell barostats

---
 ipi/engine/barostats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipi/engine/barostats.py b/ipi/engine/barostats.py
index 58c3cf1..f0e161e 100644
--- a/ipi/engine/barostats.py
+++ b/ipi/engine/barostats.py
@@ -316,7 +316,7 @@ class Barostat:
         qqc = (dstrip(beads.q) - dstrip(beads.qc)).reshape(-1, 3)
         fall = fall.reshape(-1, 3)
 
-        kst = -noddot(qqc.T, fall)
+        kst = -noddot(fall.T, qqc)
         # kst = np.zeros((3,3))
         # kst[0] = -noddot(qqc[:,0], fall)
         # kst[1,1:] = -noddot(qqc[:,1], fall[:,1:])
-- 
2.43.0


From b36385c58cefd62a75c95c6776cb1168ee63870d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:02 +0000
Subject: [PATCH 033/109] fix: the Cayley propagator uses the scaled
 frequencies of the normal modes

---
 ipi/engine/normalmodes.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/ipi/engine/normalmodes.py b/ipi/engine/normalmodes.py
index 57f2742..f43cb10 100644
--- a/ipi/engine/normalmodes.py
+++ b/ipi/engine/normalmodes.py
@@ -502,11 +502,11 @@ class NormalModes:
         if self.propagator == "cayley":
             for b in range(1, self.nbeads):
                 sk = np.sqrt(self.nm_factor[b])
-                square = (self.omegak[b] * dt / 2) ** 2
+                square = (self.omegak[b] / sk * dt / 2) ** 2
                 pqk[b, 0, 0] = (1 - square) / (1 + square)
                 pqk[b, 1, 1] = (1 - square) / (1 + square)
-                pqk[b, 0, 1] = -(4 * square / dt * sk) / (1 + square)
-                pqk[b, 1, 0] = dt / sk / (1 + square)
+                pqk[b, 0, 1] = -(4 * square / dt * sk**2) / (1 + square)
+                pqk[b, 1, 0] = dt / sk**2 / (1 + square)
         else:  # exact propagator
             for b in range(1, self.nbeads):
                 sk = np.sqrt(self.nm_factor[b])
@@ -552,11 +552,11 @@ class NormalModes:
         if self.propagator == "cayley":
             for b in range(1, self.nbeads):
                 sk = np.sqrt(self.o_nm_factor[b])
-                square = (self.o_omegak[b] * dt / 2) ** 2
+                square = (self.o_omegak[b] / sk * dt / 2) ** 2
                 pqk[b, 0, 0] = (1 - square) / (1 + square)
                 pqk[b, 1, 1] = (1 - square) / (1 + square)
-                pqk[b, 0, 1] = -(4 * square / dt * sk) / (1 + square)
-                pqk[b, 1, 0] = dt / sk / (1 + square)
+                pqk[b, 0, 1] = -(4 * square / dt * sk**2) / (1 + square)
+                pqk[b, 1, 0] = dt / sk**2 / (1 + square)
         else:  # exact propagator
             for b in range(1, self.nbeads):
                 sk = np.sqrt(self.o_nm_factor[b])
-- 
2.43.0


From faaebc717dda53834e052ef8c4e005508a9198cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:11 +0000
Subject: [PATCH 034/109] fix: kinetic energy and numerical propagator use the
 dynamical masses of each atom

---
 ipi/engine/normalmodes.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/ipi/engine/normalmodes.py b/ipi/engine/normalmodes.py
index f43cb10..249da42 100644
--- a/ipi/engine/normalmodes.py
+++ b/ipi/engine/normalmodes.py
@@ -355,7 +355,7 @@ class NormalModes:
             name="kins",
             value=np.zeros(self.nbeads, float),
             func=self.get_kins,
-            dependencies=[self._pnm, self.beads._sm3, self._nm_factor],
+            dependencies=[self._pnm, self._dynm3],
         )
         self._kin = depend_value(
             name="kin", func=self.get_kin, dependencies=[self._kins]
@@ -364,7 +364,7 @@ class NormalModes:
             name="kstress",
             value=np.zeros((3, 3), float),
             func=self.get_kstress,
-            dependencies=[self._pnm, self.beads._sm3, self._nm_factor],
+            dependencies=[self._pnm, self._dynm3],
         )
 
         self._vspring_and_fspring = depend_value(
@@ -817,7 +817,8 @@ class NormalModes:
 
             for j in range(0, self.nmts):
                 self.beads.p += 0.5 * dt * self.fspring
-                self.beads.q += dt * self.beads.p / dstrip(self.beads.m3)
+                # uses the dynamical masses, that are diagonal in the normal modes basis
+                self.qnm += dt * dstrip(self.pnm) / dstrip(self.dynm3)
                 # The depend machinery will take care of automatically calculating
                 # the forces at the updated positions.
                 self.beads.p += 0.5 * dt * self.fspring
@@ -925,8 +926,7 @@ class NormalModes:
 
         """
         # include the partially adiabatic CMD mass scaling
-        pnm = dstrip(self.pnm) / dstrip(self.beads.sm3)
-        kmd = 0.5 * (pnm**2).sum(axis=1) / dstrip(self.nm_factor)
+        kmd = 0.5 * (dstrip(self.pnm) ** 2 / dstrip(self.dynm3)).sum(axis=1)
 
         return kmd
 
@@ -953,9 +953,7 @@ class NormalModes:
         """
 
         # computes mass and nm_scaling-scaled momenta
-        spnm = (dstrip(self.pnm) / np.sqrt(dstrip(self.nm_factor)[:, None])) / dstrip(
-            self.beads.sm3
-        )
+        spnm = dstrip(self.pnm) / np.sqrt(dstrip(self.dynm3))
         spnm = spnm.reshape(-1, 3)  # reshape for quick outer product
         return spnm.T @ spnm
 
-- 
2.43.0


From 38f0f819107b089114da45a689b8b7839b2faca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:50 +0000
Subject: [PATCH 035/109] fix: fixed cell components do not move when the cell
 thermostat acts between cell updates

---
 ipi/engine/barostats.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/ipi/engine/barostats.py b/ipi/engine/barostats.py
index f0e161e..ecd2694 100644
--- a/ipi/engine/barostats.py
+++ b/ipi/engine/barostats.py
@@ -1105,7 +1105,12 @@ class BaroRGB(Barostat):
                 * self.beads.nbeads
             )
 
-        # now apply the mask (and accumulate the associated change in conserved quantity)
+        self.pconstraints()
+
+    def pconstraints(self):
+        """Discards the momenta of the cell components that are held fixed."""
+
+        # apply the mask (and accumulate the associated change in conserved quantity)
         # we use the thermostat conserved quantity accumulator, so we don't need to create a new one
         self.thermostat.ethermo += self.kin
         self.p *= self.hmask
@@ -1114,6 +1119,9 @@ class BaroRGB(Barostat):
     def qcstep(self):
         """Propagates the centroid position and momentum and the volume."""
 
+        # the cell thermostat acts also on the fixed components
+        self.pconstraints()
+
         v = self.p / self.m[0]
         halfdt = self.qdt
         # compute in one go dt sinh v/v to handle zero-velocity cases
@@ -1394,7 +1402,12 @@ class BaroMTK(Barostat):
                 * self.beads.nbeads
             )
 
-        # now apply the mask (and accumulate the associated change in conserved quantity)
+        self.pconstraints()
+
+    def pconstraints(self):
+        """Discards the momenta of the cell components that are held fixed."""
+
+        # apply the mask (and accumulate the associated change in conserved quantity)
         # we use the thermostat conserved quantity accumulator, so we don't need to create a new one
         self.thermostat.ethermo += self.kin
         self.p *= self.hmask
@@ -1407,6 +1420,9 @@ class BaroMTK(Barostat):
     def qcstep(self):
         """Propagates the centroid position and momentum and the volume."""
 
+        # the cell thermostat acts also on the fixed components
+        self.pconstraints()
+
         v = self.p / self.m[0]
         halfdt = self.qdt
         # compute in one go dt sinh v/v to handle zero-velocity cases
-- 
2.43.0


From 61dd1376ce6c14a8af8dd58768dc1f2ace3273e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:54 +0000
Subject: [PATCH 036/109] fix: np.array makes an independent copy of a
 depend_array

---
 ipi/utils/depend.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ipi/utils/depend.py b/ipi/utils/depend.py
index 0d35f84..2074c43 100644
--- a/ipi/utils/depend.py
+++ b/ipi/utils/depend.py
@@ -332,13 +332,13 @@ class depend_array(depend_base):
     def __array__(self, dtype=None, copy=None):
         """Lets np.asarray / np.* accept us transparently.
 
-        Zero-copy fast path when the dtype matches.
+        Zero-copy fast path when the dtype matches, unless a copy is asked for.
         """
         if self._tainted[0]:
             self._refresh()
         v = self._value
         if dtype is None or dtype == v.dtype:
-            return v
+            return v.copy() if copy else v
         return v.astype(dtype)
 
     def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
-- 
2.43.0


From 4025cd9a2923ce1f2d54cbd2732d91d809bfb3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:54 +0000
Subject: [PATCH 037/109] fix: results written into a depend_array by a numpy
 function reach its dependants

---
 ipi/utils/depend.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/ipi/utils/depend.py b/ipi/utils/depend.py
index 2074c43..9ef1151 100644
--- a/ipi/utils/depend.py
+++ b/ipi/utils/depend.py
@@ -351,11 +351,21 @@ class depend_array(depend_base):
                 unwrapped.append(x._value)
             else:
                 unwrapped.append(x)
+        # arrays that are written in place
+        written = inputs[:1] if method == "at" else kwargs.get("out", ())
+        written = [o for o in written if isinstance(o, depend_array)]
+        for o in written:
+            if o._tainted[0]:
+                o._refresh()
+            o.update_man()
         if "out" in kwargs:
             kwargs["out"] = tuple(
                 o._value if isinstance(o, depend_array) else o for o in kwargs["out"]
             )
-        return getattr(ufunc, method)(*unwrapped, **kwargs)
+        result = getattr(ufunc, method)(*unwrapped, **kwargs)
+        for o in written:
+            o.taint(taintme=False)
+        return result
 
     # ------------------------------------------------------------------
     # Propagate common array attributes to allow direct access without unwrapping.
-- 
2.43.0


From 1a36a184b1f23e0be3848c0f9ca50311315a5602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:11 +0000
Subject: [PATCH 038/109] fix: barostats account for the acceleration due to
 the bias

---
 ipi/engine/barostats.py | 35 ++++++++++++++---------------------
 1 file changed, 14 insertions(+), 21 deletions(-)

diff --git a/ipi/engine/barostats.py b/ipi/engine/barostats.py
index ecd2694..bcf3d4d 100644
--- a/ipi/engine/barostats.py
+++ b/ipi/engine/barostats.py
@@ -332,6 +332,16 @@ class Barostat:
 
         return kst
 
+    def get_fc_mts(self, level, scaling=1.0):
+        """Calculates the centroid force that acts at a MTS level."""
+
+        fall = dstrip(self.forces.mts_forces[level].f) * scaling
+        if level == 0 and self.bias is not None:
+            # the bias is integrated together with the outermost level
+            fall = fall + dstrip(self.bias.f)
+
+        return np.sum(fall, axis=0) / self.beads.nbeads
+
     def get_kstress_sc(self):
         """Calculates the high order part of the Suzuki-Chin
         quantum centroid virial kinetic stress tensor
@@ -601,7 +611,7 @@ class BaroBZP(Barostat):
             )
 
             pc = dstrip(self.beads.pc)
-            fc = np.sum(dstrip(self.forces.mts_forces[level].f), axis=0) / nbeads
+            fc = self.get_fc_mts(level)
             fc_m = fc / dstrip(self.beads.m3)[0]
 
             dt2 = dt * dt * self.beads.nbeads
@@ -809,14 +819,7 @@ class BaroSCBZP(Barostat):
                 )
             )
             pc = dstrip(self.beads.pc)
-            fc = (
-                np.sum(
-                    dstrip(self.forces.mts_forces[level].f)
-                    * (1 + self.forces.coeffsc_part_1),
-                    axis=0,
-                )
-                / self.beads.nbeads
-            )
+            fc = self.get_fc_mts(level, 1 + self.forces.coeffsc_part_1)
             m = dstrip(self.beads.m3)[0]
 
             self.p += (
@@ -1091,12 +1094,7 @@ class BaroRGB(Barostat):
             )
 
             pc = dstrip(self.beads.pc).reshape(self.beads.natoms, 3)
-            fc = (
-                np.sum(dstrip(self.forces.mts_forces[level].f), axis=0).reshape(
-                    self.beads.natoms, 3
-                )
-                / self.beads.nbeads
-            )
+            fc = self.get_fc_mts(level).reshape(self.beads.natoms, 3)
             fcTonm = (fc / dstrip(self.beads.m3)[0].reshape(self.beads.natoms, 3)).T
 
             fcTpc = np.dot(fcTonm, pc)
@@ -1388,12 +1386,7 @@ class BaroMTK(Barostat):
             )
 
             pc = dstrip(self.beads.pc).reshape(self.beads.natoms, 3)
-            fc = (
-                np.sum(dstrip(self.forces.mts_forces[level].f), axis=0).reshape(
-                    self.beads.natoms, 3
-                )
-                / self.beads.nbeads
-            )
+            fc = self.get_fc_mts(level).reshape(self.beads.natoms, 3)
             fcTonm = (fc / dstrip(self.beads.m3)[0].reshape(self.beads.natoms, 3)).T
 
             fcTpc = np.dot(fcTonm, pc)
-- 
2.43.0


From e32dab71e488c0d60a09aaabe30c5eba7114f926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:11 +0000
Subject: [PATCH 039/109] fix: the bias acts also when the centroid is
 constrained

---
 ipi/engine/motion/dynamics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ipi/engine/motion/dynamics.py b/ipi/engine/motion/dynamics.py
index 8e00542..0dd5a26 100644
--- a/ipi/engine/motion/dynamics.py
+++ b/ipi/engine/motion/dynamics.py
@@ -581,7 +581,8 @@ class NVTCCIntegrator(NVTIntegrator):
         self.nm.pnm += dstrip(self.nm.fnm) * (self.dt * 0.5)
         # self.beads.p += dstrip(self.forces.f)*(self.dt*0.5)
         # also adds the bias force
-        # self.beads.p += dstrip(self.bias.f)*(self.dt*0.5)
+        if self.ensemble.has_bias:
+            self.beads.p += dstrip(self.bias.f) * (self.dt * 0.5)
 
     def step(self, step=None):
         """Does one simulation time step."""
-- 
2.43.0


From 0c6e64ce327b38b80d6cb100716cbf375e7eb42f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:11 +0000
Subject: [PATCH 040/109] fix: the fast-forward Langevin thermostat handles
 atoms at rest

---
 ipi/engine/thermostats.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/ipi/engine/thermostats.py b/ipi/engine/thermostats.py
index abba0d8..5be799b 100644
--- a/ipi/engine/thermostats.py
+++ b/ipi/engine/thermostats.py
@@ -1262,20 +1262,25 @@ class ThermoFFL(ThermoLangevin):
             # Soft flip
             p_old = np.reshape(p_old, (-1, 3))
             p_new = np.reshape(p, (-1, 3))
+            # atoms that were at rest have no direction to flip back to
+            p2_old = np.sum(np.multiply(p_old, p_old), axis=1)
             dotpr = hfunc(
                 np.sum(np.multiply(p_old, p_new), axis=1)
-                / np.sum(np.multiply(p_old, p_old), axis=1)
+                / np.where(p2_old > 0, p2_old, 1.0)
             )
             p += np.reshape(np.multiply(dotpr, p_old.T).T, len(p))
         elif self.flip == "hard":
             # Hard flip
-            p = np.multiply(p, np.sign(np.multiply(p, p_old)))
+            p = np.where(np.multiply(p, p_old) < 0, -p, p)
         elif self.flip == "rescale":
             # Rescale flip
             p_old = np.reshape(p_old, (-1, 3))
             p_new = np.reshape(p, (-1, 3))
-            scalfac = np.linalg.norm(p_new, axis=1) / np.linalg.norm(p_old, axis=1)
-            p = np.reshape(np.multiply(scalfac, p_old.T).T, len(p))
+            n_old = np.linalg.norm(p_old, axis=1)
+            scalfac = np.linalg.norm(p_new, axis=1) / np.where(n_old > 0, n_old, 1.0)
+            # atoms that were at rest have no direction to flip back to
+            p = np.where(n_old > 0, np.multiply(scalfac, p_old.T), p_new.T).T
+            p = np.reshape(p, -1)
         # Otherwise we have chosen 'none', and we just don't do anything here
 
         # Accumulate conserved quantity
-- 
2.43.0


From 54e9fccc6ebeebadb2edb7a9762d4e1a63d7d707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:38 +0000
Subject: [PATCH 041/109] fix: fixed atoms do not move when their beads are
 spread out

---
 ipi/engine/motion/dynamics.py | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/ipi/engine/motion/dynamics.py b/ipi/engine/motion/dynamics.py
index 0dd5a26..9663763 100644
--- a/ipi/engine/motion/dynamics.py
+++ b/ipi/engine/motion/dynamics.py
@@ -362,6 +362,18 @@ class DummyIntegrator:
         """Dummy centroid position propagator which does nothing."""
         pass
 
+    def free_qstep(self):
+        """Free ring polymer propagator, that leaves the fixed coordinates in place."""
+
+        if len(self.fixatoms_dof) > 0:
+            q = dstrip(self.beads.q)[:, self.fixatoms_dof]
+            p = dstrip(self.beads.p)[:, self.fixatoms_dof]
+            self.nm.free_qstep()
+            self.beads.q[:, self.fixatoms_dof] = q
+            self.beads.p[:, self.fixatoms_dof] = p
+        else:
+            self.nm.free_qstep()
+
     def step(self, step=None):
         """Dummy simulation time step which does nothing."""
         pass
@@ -462,9 +474,9 @@ class NVEIntegrator(DummyIntegrator):
             if index == self.nmtslevels - 1:
                 # call Q propagation for dt/alpha at the inner step
                 self.qcstep()
-                self.nm.free_qstep()
+                self.free_qstep()
                 self.qcstep()
-                self.nm.free_qstep()
+                self.free_qstep()
 
             else:
                 self.mtsprop(index + 1)
@@ -479,7 +491,7 @@ class NVEIntegrator(DummyIntegrator):
             if index == self.nmtslevels - 1:
                 # call Q propagation for dt/alpha at the inner step
                 self.qcstep()
-                self.nm.free_qstep()
+                self.free_qstep()
             else:
                 self.mtsprop_ba(index + 1)
 
@@ -490,7 +502,7 @@ class NVEIntegrator(DummyIntegrator):
             if index == self.nmtslevels - 1:
                 # call Q propagation for dt/alpha at the inner step
                 self.qcstep()
-                self.nm.free_qstep()
+                self.free_qstep()
             else:
                 self.mtsprop_ab(index + 1)
 
@@ -504,9 +516,9 @@ class NVEIntegrator(DummyIntegrator):
             if index == self.nmtslevels - 1:
                 # call Q propagation for dt/alpha at the inner step
                 self.qcstep()
-                self.nm.free_qstep()
+                self.free_qstep()
                 self.qcstep()
-                self.nm.free_qstep()
+                self.free_qstep()
             else:
                 self.mtsprop(index + 1)
 
@@ -601,8 +613,8 @@ class NVTCCIntegrator(NVTIntegrator):
 
         # The centroid is constrained, so qcstep is skipped, but the internal
         # ring-polymer modes still need the two half-step free propagations.
-        self.nm.free_qstep()
-        self.nm.free_qstep()
+        self.free_qstep()
+        self.free_qstep()
 
         self.pstep()
         self.nm.pnm[0, :] = 0.0
-- 
2.43.0


From 51136a528f1ec85f07be68e7c42f128c529757c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:38 +0000
Subject: [PATCH 042/109] fix: forces on fixed atoms do no work in Suzuki-Chin
 dynamics

---
 ipi/engine/motion/dynamics.py | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/ipi/engine/motion/dynamics.py b/ipi/engine/motion/dynamics.py
index 9663763..b827ec8 100644
--- a/ipi/engine/motion/dynamics.py
+++ b/ipi/engine/motion/dynamics.py
@@ -733,15 +733,22 @@ class SCIntegrator(NVTIntegrator):
         self.ensemble.add_econs(self.forces._potsc)
         self.ensemble.add_xlpot(self.forces._potsc)
 
+    def kick(self, dp):
+        """Changes the momenta of all the atoms that are not held fixed."""
+
+        if len(self.fixatoms_dof) > 0:
+            dp[:, self.fixatoms_dof] = 0.0
+        self.beads.p += dp
+
     def pstep(self, level=0):
         """Velocity Verlet monemtum propagator."""
 
         if level == 0:
             # bias goes in the outer loop
-            self.beads.p += dstrip(self.bias.f) * self.pdt[level]
+            self.kick(dstrip(self.bias.f) * self.pdt[level])
         # just integrate the Trotter force scaled with the SC coefficients, which is a cheap approx to the SC force
-        self.beads.p += (
-            self.forces.mts_forces[level].f
+        self.kick(
+            dstrip(self.forces.mts_forces[level].f)
             * (1.0 + self.forces.coeffsc_part_1)
             * self.pdt[level]
         )
@@ -756,22 +763,22 @@ class SCIntegrator(NVTIntegrator):
             self.pconstraints()
 
             # forces are integerated for dt with MTS.
-            self.beads.p += dstrip(self.forces.fsc_part_2) * self.dt * 0.5
+            self.kick(dstrip(self.forces.fsc_part_2) * self.dt * 0.5)
             self.mtsprop(0)
-            self.beads.p += dstrip(self.forces.fsc_part_2) * self.dt * 0.5
+            self.kick(dstrip(self.forces.fsc_part_2) * self.dt * 0.5)
 
             # thermostat is applied for dt/2
             self.tstep()
             self.pconstraints()
 
         elif self.splitting == "baoab":
-            self.beads.p += dstrip(self.forces.fsc_part_2) * self.dt * 0.5
+            self.kick(dstrip(self.forces.fsc_part_2) * self.dt * 0.5)
             self.mtsprop_ba(0)
             # thermostat is applied for dt
             self.tstep()
             self.pconstraints()
             self.mtsprop_ab(0)
-            self.beads.p += dstrip(self.forces.fsc_part_2) * self.dt * 0.5
+            self.kick(dstrip(self.forces.fsc_part_2) * self.dt * 0.5)
 
 
 class SCNPTIntegrator(SCIntegrator):
@@ -826,10 +833,10 @@ class SCNPTIntegrator(SCIntegrator):
 
             # forces are integerated for dt with MTS.
             self.barostat.pscstep()
-            self.beads.p += dstrip(self.forces.fsc_part_2) * self.dt * 0.5
+            self.kick(dstrip(self.forces.fsc_part_2) * self.dt * 0.5)
             self.mtsprop(0)
             self.barostat.pscstep()
-            self.beads.p += dstrip(self.forces.fsc_part_2) * self.dt * 0.5
+            self.kick(dstrip(self.forces.fsc_part_2) * self.dt * 0.5)
 
             # thermostat is applied for dt/2
             self.tstep()
@@ -837,11 +844,11 @@ class SCNPTIntegrator(SCIntegrator):
 
         elif self.splitting == "baoab":
             self.barostat.pscstep()
-            self.beads.p += dstrip(self.forces.fsc_part_2) * self.dt * 0.5
+            self.kick(dstrip(self.forces.fsc_part_2) * self.dt * 0.5)
             self.mtsprop_ba(0)
             # thermostat is applied for dt
             self.tstep()
             self.pconstraints()
             self.mtsprop_ab(0)
             self.barostat.pscstep()
-            self.beads.p += dstrip(self.forces.fsc_part_2) * self.dt * 0.5
+            self.kick(dstrip(self.forces.fsc_part_2) * self.dt * 0.5)
-- 
2.43.0


From 73fc8a884eabcde08f6d9067e3fb19002e755e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:28 +0000
Subject: [PATCH 043/109] fix: the sign of the velocity rescaling factor
 follows the exact solution

---
 ipi/engine/thermostats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipi/engine/thermostats.py b/ipi/engine/thermostats.py
index 5be799b..a757cfd 100644
--- a/ipi/engine/thermostats.py
+++ b/ipi/engine/thermostats.py
@@ -522,7 +522,7 @@ class ThermoSVR(Thermostat):
             + 2.0 * r1 * np.sqrt(self.K / K * self.et * (1 - self.et))
         )
         alpha = np.sqrt(alpha2)
-        if (r1 + np.sqrt(2 * K / self.K * self.et / (1 - self.et))) < 0:
+        if (r1 + np.sqrt(K / self.K * self.et / (1 - self.et))) < 0:
             alpha *= -1
 
         self.ethermo += K * (1 - alpha2)
-- 
2.43.0


From ffc3389fda539b3a8d11c18c899f00f8bcaaf2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:28 +0000
Subject: [PATCH 044/109] fix: multiple thermostats know about the fixed centre
 of mass

---
 ipi/engine/thermostats.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/ipi/engine/thermostats.py b/ipi/engine/thermostats.py
index a757cfd..3134d9a 100644
--- a/ipi/engine/thermostats.py
+++ b/ipi/engine/thermostats.py
@@ -1335,7 +1335,15 @@ class MultiThermo(Thermostat):
 
         # just binds all the sub-thermostats
         for t in self.tlist:
-            t.bind(beads=beads, atoms=atoms, pm=pm, nm=nm, prng=prng, fixdof=fixdof)
+            t.bind(
+                beads=beads,
+                atoms=atoms,
+                pm=pm,
+                nm=nm,
+                prng=prng,
+                fixdof=fixdof,
+                fixcom=fixcom,
+            )
             self._ethermo.add_dependency(t._ethermo)
 
         self._ethermo._func = self.get_ethermo
-- 
2.43.0


From 9cfbf8b626c42a5bd94fdc9d91801a0b7c4c84d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:28 +0000
Subject: [PATCH 045/109] fix: the global centroid thermostat of NM-GLE-G
 accounts for the fixed centre of mass

---
 ipi/engine/thermostats.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ipi/engine/thermostats.py b/ipi/engine/thermostats.py
index 3134d9a..c2d2587 100644
--- a/ipi/engine/thermostats.py
+++ b/ipi/engine/thermostats.py
@@ -1044,9 +1044,13 @@ class ThermoNMGLEG(ThermoNMGLE):
 
         t = ThermoSVR(self.temp, self.dt, self.tau)
 
+        # bind global thermostat to centroid. fixed atoms are not supported here,
+        # so that the only constraint can be that on the centre of mass
         t.bind(
-            pm=(nm.pnm[0, :], nm.dynm3[0, :]), prng=self.prng
-        )  # bind global thermostat to centroid
+            pm=(nm.pnm[0, :], nm.dynm3[0, :]),
+            prng=self.prng,
+            fixdof=3 if fixcom else 0,
+        )
 
         # pipes temp and dt
         dpipe(self._temp, t._temp)
-- 
2.43.0


From 725ba2c6c95d272814f05510acbf1521ec8d3af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:06 +0000
Subject: [PATCH 046/109] fix: the cell thermostat accounts for the fixed cell
 components

---
 ipi/engine/barostats.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/ipi/engine/barostats.py b/ipi/engine/barostats.py
index bcf3d4d..310a779 100644
--- a/ipi/engine/barostats.py
+++ b/ipi/engine/barostats.py
@@ -332,6 +332,14 @@ class Barostat:
 
         return kst
 
+    def get_fixdof_cell(self):
+        """Counts the components of the cell momentum that are held fixed."""
+
+        fixdof = 6 - np.count_nonzero(np.triu(self.hmask))
+        if getattr(self, "vol_constraint", False) and np.any(np.diag(self.hmask)):
+            fixdof += 1
+        return fixdof
+
     def get_fc_mts(self, level, scaling=1.0):
         """Calculates the centroid force that acts at a MTS level."""
 
@@ -1005,7 +1013,9 @@ class BaroRGB(Barostat):
         )
 
         # binds the thermostat to the piston degrees of freedom
-        self.thermostat.bind(pm=[self.p6, self.m6], prng=prng)
+        self.thermostat.bind(
+            pm=[self.p6, self.m6], prng=prng, fixdof=self.get_fixdof_cell()
+        )
 
         self._kin = depend_value(
             name="kin",
@@ -1296,7 +1306,9 @@ class BaroMTK(Barostat):
         )
 
         # binds the thermostat to the piston degrees of freedom
-        self.thermostat.bind(pm=[self.p6, self.m6], prng=prng)
+        self.thermostat.bind(
+            pm=[self.p6, self.m6], prng=prng, fixdof=self.get_fixdof_cell()
+        )
 
         self._kin = depend_value(
             name="kin",
-- 
2.43.0


From 471849ca28dc53db658adb9efe7a33c7b29d5c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:22 +0000
Subject: [PATCH 047/109] fix: constrained dynamics can be set up and
 integrated again

---
 ipi/engine/motion/constrained_dynamics.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/ipi/engine/motion/constrained_dynamics.py b/ipi/engine/motion/constrained_dynamics.py
index 3749d82..b7fccac 100644
--- a/ipi/engine/motion/constrained_dynamics.py
+++ b/ipi/engine/motion/constrained_dynamics.py
@@ -62,7 +62,7 @@ class ConstrainedDynamics(Dynamics):
         thermostat=None,
         barostat=None,
         fixcom=False,
-        fixatoms=None,
+        fixatoms_dof=None,
         nmts=None,
         nsteps_geo=1,
         nsteps_o=1,
@@ -77,7 +77,7 @@ class ConstrainedDynamics(Dynamics):
                 motion will be constrained or not. Defaults to False.
         """
 
-        super(Dynamics, self).__init__(fixcom=fixcom, fixatoms=fixatoms)
+        super(Dynamics, self).__init__(fixcom=fixcom, fixatoms_dof=fixatoms_dof)
         self._dt = depend_value(name="dt", value=timestep)
 
         if thermostat is None:
@@ -137,11 +137,7 @@ class ConstrainedDynamics(Dynamics):
                 "Cannot simultaneously fix cell CoM and enforce Eckart constraints!"
             )
 
-        if fixatoms is None:
-            self.fixatoms = np.zeros(0, int)
-        else:
-            self.fixatoms = fixatoms
-        if len(self.fixatoms) > 0:
+        if len(self.fixatoms_dof) > 0:
             raise ValueError("Cannot fix atoms together with constrained MD")
 
         if csolver is None:
@@ -402,7 +398,9 @@ class NVEConstrainedIntegrator(ConstrainedIntegrator):
 
     def step_B(self, level=0):
         """Unconstrained B-step (momentum integration)"""
-        self.beads.p[0] += self.forces.forces_mts(level)[0] * self.pdt[level]
+        self.beads.p[0] += dstrip(self.forces.mts_forces[level].f)[0] * self.pdt[level]
+        if level == 0 and self.ensemble.has_bias:  # adds bias in the outer loop
+            self.beads.p[0] += dstrip(self.bias.f)[0] * self.pdt[level]
 
     def step_Bc(self, level=0):
         """Unconstrained B-step (momentum integration)
-- 
2.43.0


From 7552398d766a6c3b0ad41efdef7735e17c3097dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:28:12 +0000
Subject: [PATCH 048/109] fix: Suzuki-Chin BAOAB steps leave the centre of mass
 at rest

---
 ipi/engine/motion/dynamics.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ipi/engine/motion/dynamics.py b/ipi/engine/motion/dynamics.py
index b827ec8..b0ed6ca 100644
--- a/ipi/engine/motion/dynamics.py
+++ b/ipi/engine/motion/dynamics.py
@@ -779,6 +779,7 @@ class SCIntegrator(NVTIntegrator):
             self.pconstraints()
             self.mtsprop_ab(0)
             self.kick(dstrip(self.forces.fsc_part_2) * self.dt * 0.5)
+            self.pconstraints()
 
 
 class SCNPTIntegrator(SCIntegrator):
@@ -852,3 +853,4 @@ class SCNPTIntegrator(SCIntegrator):
             self.mtsprop_ab(0)
             self.barostat.pscstep()
             self.kick(dstrip(self.forces.fsc_part_2) * self.dt * 0.5)
+            self.pconstraints()
-- 
2.43.0


From 6531fcf01b993f58054ea66f06db2b21a9512dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:28:12 +0000
Subject: [PATCH 049/109] fix: temperature of the normal modes of fixed atoms
 with fixed centroids

---
 ipi/engine/properties.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/ipi/engine/properties.py b/ipi/engine/properties.py
index f8e3e86..306a4d1 100644
--- a/ipi/engine/properties.py
+++ b/ipi/engine/properties.py
@@ -1163,11 +1163,13 @@ class Properties:
                 dof_ids = np.concatenate(
                     (atom_ids * 3, atom_ids * 3 + 1, atom_ids * 3 + 2)
                 )
-                eff_nbeads = (
-                    self.beads.nbeads - 1  # prevent double counting
-                    if self.motion.enstype == "nvt-cc"
-                    else self.beads.nbeads
-                )
+                eff_nbeads = self.beads.nbeads
+                if self.motion.enstype == "nvt-cc":
+                    # prevent double counting of the centroid
+                    if nm == "":
+                        eff_nbeads -= 1
+                    elif int(nm) == 0:
+                        eff_nbeads = 0
                 eff_number_fixed_dof += np.sum(flags[dof_ids]) * eff_nbeads
 
             kemd += (
-- 
2.43.0


From 64c3cba743e8a2a60c6048c8c279d8167cf687e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:48:18 +0000
Subject: [PATCH 050/109] fix: remdsort handles every kind of per-bead
 trajectory

---
 tools/py/remdsort.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/tools/py/remdsort.py b/tools/py/remdsort.py
index 030107f..4414a31 100755
--- a/tools/py/remdsort.py
+++ b/tools/py/remdsort.py
@@ -58,7 +58,7 @@ def main(inputfile, prefix="SRT_"):
             swapfile = simul.smotion.swapfile
         else:
             for sm in simul.smotion.mlist:
-                if sm.mode == "remd":
+                if getattr(sm, "mode", "") == "remd":
                     if swapfile != "":
                         raise ValueError(
                             "I'm not equipped to deal with multiple REMD outputs, sorry"
@@ -110,8 +110,15 @@ def main(inputfile, prefix="SRT_"):
                 "positions",
                 "velocities",
                 "forces",
+                "forces_spring",
+                "Eforces",
                 "extras",
                 "extras_bias",
+                "forces_sc",
+                "momenta",
+                "becx",
+                "becy",
+                "becz",
             ]:  # multiple beads
                 nbeads = simul.syslist[0].beads.nbeads
                 for b in range(nbeads):
-- 
2.43.0


From 0da7bc4136546f77e1cb9a64a15d8b2a5493a508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:48:18 +0000
Subject: [PATCH 051/109] fix: GLE momenta are rescaled as momenta in replica
 exchange

---
 ipi/engine/smotion/remd.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ipi/engine/smotion/remd.py b/ipi/engine/smotion/remd.py
index 8061c27..2a31f28 100644
--- a/ipi/engine/smotion/remd.py
+++ b/ipi/engine/smotion/remd.py
@@ -165,8 +165,9 @@ class ReplicaExchange(Smotion):
                     )
 
                     # if we have GLE thermostats, we also have to exchange rescale the s!!!
-                    gle_scale(sl[i], (tj / ti))
-                    gle_scale(sl[j], (ti / tj))
+                    # (they are mass-scaled momenta, so they scale like the atomic momenta)
+                    gle_scale(sl[i], np.sqrt(tj / ti))
+                    gle_scale(sl[j], np.sqrt(ti / tj))
 
                     t_eval -= time.time()
                     # we just have to carry on with the swapped ensembles, but we also keep track of the changes in econs
-- 
2.43.0


From ece6a4dfd65af4b99d716920deee97c123c5c422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:04 +0000
Subject: [PATCH 052/109] fix: the fermionic sign is finite also for large
 spring energies

---
 ipi/utils/exchange.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/ipi/utils/exchange.py b/ipi/utils/exchange.py
index 485e665..0c94ef8 100644
--- a/ipi/utils/exchange.py
+++ b/ipi/utils/exchange.py
@@ -445,27 +445,33 @@ class ExchangePotential:
         The average permutation sign as defined in Eq. (9) https://doi.org/10.1063/5.0008720,
         which can be used to reweight observables to obtain fermionic statistics.
         """
-        return self._get_fermionic_potential_exp() / np.exp(
-            -self.betaP * self.prefix_V[-1]
-        )
+        return self._get_fermionic_weights()
 
-    def _get_fermionic_potential_exp(self):
+    def _get_fermionic_weights(self):
         """
         Exponential of the fermionic pseudo-potential defined by
-        the recurrence relation in Eq. (5) of https://doi.org/10.1063/5.0008720.
-        Numerically unstable since it does not use log-sum-exp trick, seeing that the
-        sum of exponentials could be negative.
+        the recurrence relation in Eq. (5) of https://doi.org/10.1063/5.0008720,
+        relative to that of the bosonic one (prefix_V), so that none of the
+        exponentials overflows or underflows.
         """
         xi = -1
         W = np.empty(self.nbosons + 1, float)
         W[0] = 1.0
+        prefix_V = dstrip(self.prefix_V)
 
         for m in range(1, self.nbosons + 1):
             perm_sign = np.array([xi ** (k - 1) for k in range(m, 0, -1)])
             W[m] = (1.0 / m) * np.sum(
                 perm_sign
                 * W[:m]
-                * np.exp(-self.betaP * dstrip(self.cycle_energies)[:m, m - 1])
+                * np.exp(
+                    -self.betaP
+                    * (
+                        prefix_V[:m]
+                        + dstrip(self.cycle_energies)[:m, m - 1]
+                        - prefix_V[m]
+                    )
+                )
             )
 
         return W[-1]
-- 
2.43.0


From a1f7e33f0bc9d23681bce8f59bd02a6a113f4b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:22:22 +0000
Subject: [PATCH 053/109] fix: evaluated requests are done only once the offset
 has been applied

---
 ipi/engine/forcefields.py | 23 ++++++-----------------
 1 file changed, 6 insertions(+), 17 deletions(-)

diff --git a/ipi/engine/forcefields.py b/ipi/engine/forcefields.py
index 111c60a..b23bbbe 100644
--- a/ipi/engine/forcefields.py
+++ b/ipi/engine/forcefields.py
@@ -392,9 +392,14 @@ class FFEval(ForceField):
     """
 
     def _eval_thread(self, request):
-        """Evaluates a single request and applies the offset."""
+        """Evaluates a single request and applies the offset. The request is
+        reported as done only when its result is complete."""
+
         self.evaluate(request)
         request["result"][0] -= self.offset
+        request["t_finished"] = time.time()
+        request["status"] = "Done"
+        request._event_done.set()
 
     def poll(self):
         """Polls the forcefield checking if there are requests that should
@@ -425,8 +430,6 @@ class FFEval(ForceField):
             np.zeros((3, 3), float),
             {"raw": ""},
         ]
-        request["status"] = "Done"
-        request._event_done.set()
 
 
 class FFMPI(ForceField):
@@ -687,8 +690,6 @@ class FFLennardJones(FFEval):
         v *= self.epsfour
 
         r["result"] = [v, f.reshape(nat * 3), np.zeros((3, 3), float), {"raw": ""}]
-        r["status"] = "Done"
-        r._event_done.set()
 
 
 class FFdmd(FFEval):
@@ -788,8 +789,6 @@ class FFdmd(FFEval):
             #          Because this is "out of equilibrium" I still did not find a good benchmark. Change cell and look at variation of energy only for this term?
 
         r["result"] = [v, f.reshape(nat * 3), vir, ""]
-        r["status"] = "Done"
-        r._event_done.set()
 
     def dmd_update(self):
         """Updates time step when a full step is done. Can only be called after implementation goes into smotion mode..."""
@@ -869,9 +868,6 @@ class FFDebye(FFEval):
             np.zeros((3, 3), float),
             {"raw": ""},
         ]
-        r["status"] = "Done"
-        r._event_done.set()
-        r["t_finished"] = time.time()
 
 
 class FFPlumed(FFEval):
@@ -1056,8 +1052,6 @@ class FFPlumed(FFEval):
 
         # nb: the virial is a symmetric tensor, so we don't need to transpose
         r["result"] = [v, f, vir, extras]
-        r["status"] = "Done"
-        r._event_done.set()
 
     def mtd_update(self, pos, cell):
         """Makes updates to the potential that only need to be triggered
@@ -1212,8 +1206,6 @@ class FFYaff(FFEval):
         e = self.ff.compute(gpos, vtens)
 
         r["result"] = [e, -gpos.ravel(), -vtens, {"raw": ""}]
-        r["status"] = "Done"
-        r._event_done.set()
 
 
 class FFsGDML(FFEval):
@@ -1345,9 +1337,6 @@ class FFsGDML(FFEval):
             np.zeros((3, 3), float),
             {"raw": ""},
         ]
-        r["status"] = "Done"
-        r._event_done.set()
-        r["t_finished"] = time.time()
 
 
 class FFCommittee(ForceField):
-- 
2.43.0


From 7fe96e1dd5740aa39b396e4750eeacfb8b4da284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:22:22 +0000
Subject: [PATCH 054/109] fix: a rotations request that is done already is not
 set back to running

---
 ipi/engine/forcefields.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/ipi/engine/forcefields.py b/ipi/engine/forcefields.py
index b23bbbe..a08ed87 100644
--- a/ipi/engine/forcefields.py
+++ b/ipi/engine/forcefields.py
@@ -1768,7 +1768,6 @@ class FFRotations(ForceField):
         req = ForceField.queue(
             self, atoms, cell, reqid, template=dict(ff_handles=ffh, rots=rots)
         )
-        req["status"] = "Running"
         req["t_dispatched"] = time.time()
         return req
 
-- 
2.43.0


From fb7e91d934e3a7bdec43a42ccb2df7424c021258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:22:34 +0000
Subject: [PATCH 055/109] fix: an error in a force evaluation thread stops the
 run instead of hanging it

---
 ipi/engine/forcefields.py | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/ipi/engine/forcefields.py b/ipi/engine/forcefields.py
index a08ed87..012f1d9 100644
--- a/ipi/engine/forcefields.py
+++ b/ipi/engine/forcefields.py
@@ -13,6 +13,7 @@ import time
 import threading
 import json
 import sys
+import traceback
 from contextlib import nullcontext
 
 import numpy as np
@@ -244,7 +245,21 @@ class ForceField:
         while self._doloop[0]:
             time.sleep(self.latency)
             if len(self.requests) > 0:
-                self.poll()
+                try:
+                    self.poll()
+                except Exception:
+                    self._evaluation_failed()
+
+    def _evaluation_failed(self):
+        """Called when an error has been raised in a thread that evaluates
+        forces: as nobody is going to answer the pending requests, those
+        who wait for them must not do so forever."""
+
+        traceback.print_exc()
+        softexit.trigger(
+            status="bad",
+            message=f" @ForceField ({self.name}): error in the force evaluation.",
+        )
 
     def release(self, request, lock=True):
         """Removes a request from the evaluation queue.
@@ -380,7 +395,7 @@ class FFSocket(ForceField):
         """Closes the socket and the thread."""
 
         super(FFSocket, self).stop()
-        if self._thread is not None:
+        if self._thread not in (None, threading.current_thread()):
             # must wait until loop has ended before closing the socket
             self._thread.join()
         self.socket.close()
@@ -395,7 +410,13 @@ class FFEval(ForceField):
         """Evaluates a single request and applies the offset. The request is
         reported as done only when its result is complete."""
 
-        self.evaluate(request)
+        try:
+            self.evaluate(request)
+        except Exception:
+            if not self.threaded:
+                raise
+            self._evaluation_failed()
+            return
         request["result"][0] -= self.offset
         request["t_finished"] = time.time()
         request["status"] = "Done"
@@ -484,7 +505,7 @@ class FFMPI(ForceField):
         """Stops the poll thread and tells every driver root to exit."""
 
         super().stop()
-        if self._thread is not None:
+        if self._thread not in (None, threading.current_thread()):
             # must wait until the poll loop has ended before signalling exit
             self._thread.join()
         self.interface.close()
-- 
2.43.0


From dc70eb9f9f3aa8dfa2130fc98ceee323470cdcbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:23:21 +0000
Subject: [PATCH 056/109] fix: ffdirect, fflj and ffmpi honour the list of
 active atoms

---
 ipi/engine/forcefields.py | 21 ++++++++++++++++-----
 ipi/inputs/forcefields.py |  1 +
 ipi/interfaces/mpi.py     |  9 ++++-----
 ipi/interfaces/utils.py   | 20 ++++++++++++++++++++
 4 files changed, 41 insertions(+), 10 deletions(-)

diff --git a/ipi/engine/forcefields.py b/ipi/engine/forcefields.py
index 012f1d9..18d5f17 100644
--- a/ipi/engine/forcefields.py
+++ b/ipi/engine/forcefields.py
@@ -24,7 +24,7 @@ from ipi.utils.softexit import softexit
 from ipi.utils.messages import info, verbosity, warning
 from ipi.interfaces.sockets import InterfaceSocket
 from ipi.interfaces.mpi import InterfaceMPI
-from ipi.interfaces.utils import parse_extra
+from ipi.interfaces.utils import active_positions, parse_extra, scatter_forces
 from ipi.utils.depend import dstrip
 from ipi.utils.io import read_file
 from ipi.utils.units import unit_to_internal
@@ -411,7 +411,7 @@ class FFEval(ForceField):
         reported as done only when its result is complete."""
 
         try:
-            self.evaluate(request)
+            self._evaluate_active(request)
         except Exception:
             if not self.threaded:
                 raise
@@ -422,6 +422,15 @@ class FFEval(ForceField):
         request["status"] = "Done"
         request._event_done.set()
 
+    def _evaluate_active(self, request):
+        """Evaluates a request for the active atoms only."""
+
+        pos = request["pos"]
+        request["pos"] = active_positions(request)
+        self.evaluate(request)
+        request["pos"] = pos
+        request["result"][1] = scatter_forces(request["result"][1], request)
+
     def poll(self):
         """Polls the forcefield checking if there are requests that should
         be answered, and if necessary evaluates the associated forces and energy."""
@@ -603,7 +612,7 @@ class FFDirect(ForceField):
     def _process_results(self, results, request):
         # ensure shapes, apply the offset and parse the extra string
         results[0] -= self.offset
-        results[1] = np.asarray(results[1]).reshape(-1)
+        results[1] = scatter_forces(np.asarray(results[1]).reshape(-1), request)
         results[2] = np.asarray(results[2]).reshape(3, 3)
         results[3] = parse_extra(results[3])
 
@@ -621,7 +630,7 @@ class FFDirect(ForceField):
             verbosity.high,
         )
         cell_batch = [r["cell"][0] for r in self.request_batch]
-        pos_batch = [r["pos"].reshape(-1, 3) for r in self.request_batch]
+        pos_batch = [active_positions(r).reshape(-1, 3) for r in self.request_batch]
         results_batch = self.driver(cell_batch, pos_batch)
         for results, request in zip(results_batch, self.request_batch):
             self._process_results(list(results), request)
@@ -631,7 +640,9 @@ class FFDirect(ForceField):
     def evaluate(self, request):
         if self.batch_size == 1:
             results = list(
-                self.driver(request["cell"][0], request["pos"].reshape(-1, 3))
+                self.driver(
+                    request["cell"][0], active_positions(request).reshape(-1, 3)
+                )
             )
             self._process_results(results, request)
         else:
diff --git a/ipi/inputs/forcefields.py b/ipi/inputs/forcefields.py
index a285c3f..f1c55ff 100644
--- a/ipi/inputs/forcefields.py
+++ b/ipi/inputs/forcefields.py
@@ -444,6 +444,7 @@ class InputFFDirect(InputForceField):
             latency=self.latency.fetch(),
             offset=self.offset.fetch(),
             dopbc=self.pbc.fetch(),
+            active=self.activelist.fetch(),
             threaded=self.threaded.fetch(),
             pes=self.pes.fetch(),
             pes_path=self.pes_path.fetch(),
diff --git a/ipi/interfaces/mpi.py b/ipi/interfaces/mpi.py
index 593878c..cceb32a 100644
--- a/ipi/interfaces/mpi.py
+++ b/ipi/interfaces/mpi.py
@@ -18,8 +18,7 @@ import threading
 import numpy as np
 
 from ipi.utils.messages import info, verbosity
-from ipi.utils.depend import dstrip
-from ipi.interfaces.utils import parse_extra
+from ipi.interfaces.utils import active_positions, parse_extra, scatter_forces
 
 # MPI message tags for the ffmpi protocol (must match the driver side, see
 # drivers/py/driver.py and drivers/f90/fmpi.f90)
@@ -279,7 +278,7 @@ class InterfaceMPI:
         for i, req in enumerate(reqs):
             base = i * stride
             pot = float(numeric[base])
-            force = numeric[base + 1 : base + 1 + 3 * nat].copy()
+            force = scatter_forces(numeric[base + 1 : base + 1 + 3 * nat].copy(), req)
             vir = numeric[base + 1 + 3 * nat : base + stride].reshape(3, 3).copy()
             elen = int(np.frombuffer(ebuf[epos : epos + 4], dtype=np.int32)[0])
             epos += 4
@@ -305,7 +304,7 @@ class InterfaceMPI:
             batch = queued[qi : qi + self.batch_size]
             qi += len(batch)
 
-            nat = len(batch[0]["pos"]) // 3
+            nat = len(active_positions(batch[0])) // 3
             slot["nat"] = nat
             header = np.array([nat, len(batch)], dtype=np.int32)
             body = np.empty(len(batch) * (18 + 3 * nat), dtype=np.float64)
@@ -314,7 +313,7 @@ class InterfaceMPI:
                 off = i * (18 + 3 * nat)
                 body[off : off + 9] = np.asarray(h).reshape(-1)
                 body[off + 9 : off + 18] = np.asarray(ih).reshape(-1)
-                body[off + 18 : off + 18 + 3 * nat] = dstrip(req["pos"]).reshape(-1)
+                body[off + 18 : off + 18 + 3 * nat] = active_positions(req)
                 req["status"] = "Running"
                 req["t_dispatched"] = time.time()
 
diff --git a/ipi/interfaces/utils.py b/ipi/interfaces/utils.py
index 7f83702..23ca27d 100644
--- a/ipi/interfaces/utils.py
+++ b/ipi/interfaces/utils.py
@@ -6,6 +6,8 @@
 
 import json
 
+import numpy as np
+
 
 def parse_extra(mxtra):
     """Decodes the optional 'extra' string returned by a force calculation into
@@ -28,3 +30,21 @@ def parse_extra(mxtra):
         )
     mxtradict["raw"] = mxtra
     return mxtradict
+
+
+def active_positions(request):
+    """Positions of the active atoms of a request (by default, all of them)."""
+
+    active = request.get("active")
+    return request["pos"] if active is None else request["pos"][active]
+
+
+def scatter_forces(forces, request):
+    """Forces on all the atoms of a request, given those on its active atoms."""
+
+    active = request.get("active")
+    if active is None or len(active) == len(request["pos"]):
+        return forces
+    full = np.zeros(len(request["pos"]), float)
+    full[active] = forces
+    return full
-- 
2.43.0


From a690f25a6e7194f5df7b5251b28eafba44334184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:23:21 +0000
Subject: [PATCH 057/109] fix: only structures with the same number of atoms
 are sent in one batch

---
 ipi/interfaces/mpi.py     | 10 ++++++----
 ipi/interfaces/sockets.py |  7 +++++--
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/ipi/interfaces/mpi.py b/ipi/interfaces/mpi.py
index cceb32a..0e3d763 100644
--- a/ipi/interfaces/mpi.py
+++ b/ipi/interfaces/mpi.py
@@ -297,12 +297,14 @@ class InterfaceMPI:
         if not queued:
             return
 
-        qi = 0
         for slot in self._ranks.values():
-            if slot["state"] != "IDLE" or qi >= len(queued):
+            if slot["state"] != "IDLE" or not queued:
                 continue
-            batch = queued[qi : qi + self.batch_size]
-            qi += len(batch)
+            # all the structures in a batch must have the same number of atoms
+            npos = len(active_positions(queued[0]))
+            batch = [r for r in queued if len(active_positions(r)) == npos]
+            batch = batch[: self.batch_size]
+            queued = [r for r in queued if r not in batch]
 
             nat = len(active_positions(batch[0])) // 3
             slot["nat"] = nat
diff --git a/ipi/interfaces/sockets.py b/ipi/interfaces/sockets.py
index fca14ff..c376a94 100644
--- a/ipi/interfaces/sockets.py
+++ b/ipi/interfaces/sockets.py
@@ -821,7 +821,7 @@ class Driver(DriverSocket):
         padded = list(reqs)
         if len(padded) < self.batch_size:
             padded += [padded[-1]] * (self.batch_size - len(padded))
-        # Note that the line below assumes all requests have the same number of active atoms; if this is not the case, the driver will likely crash.
+        # all requests in a batch have the same number of active atoms
         nat = len(padded[0]["pos"][padded[0]["active"]]) // 3
         try:
             payload = MESSAGE["posdata"] + np.int32(nat).tobytes()
@@ -1784,7 +1784,10 @@ class InterfaceSocket(object):
         if len(self.prlist) == 0:
             return False
 
-        reqs = self.prlist[: self.batch_size]
+        # all the structures in a batch must have the same number of atoms
+        nactive = len(self.prlist[0]["active"])
+        reqs = [r for r in self.prlist if len(r["active"]) == nactive]
+        reqs = reqs[: self.batch_size]
         for r in reqs:
             r["offset"] = self.offset
             r["status"] = "Running"
-- 
2.43.0


From 7031ef55a49ff5a1dce9fc01f460d2d76fcb2743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:23:21 +0000
Subject: [PATCH 058/109] fix: the committee uses the weights and the extras of
 all its members

---
 ipi/engine/forcefields.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/ipi/engine/forcefields.py b/ipi/engine/forcefields.py
index 18d5f17..11271b7 100644
--- a/ipi/engine/forcefields.py
+++ b/ipi/engine/forcefields.py
@@ -1502,7 +1502,10 @@ class FFCommittee(ForceField):
         all_have_frc = True
         all_have_vir = True
 
-        for ff_r in com_handles:
+        for ff_r, weight in zip(com_handles, self.ffweights):
+            xtrs.append(ff_r["result"][3])
+            first = len(pots), len(frcs), len(virs)
+
             # if required, tries to extract multiple committe members from the extras JSON string
             if "committee_pot" in ff_r["result"][3] and self.parse_json:
                 pots += ff_r["result"][3]["committee_pot"]
@@ -1529,6 +1532,10 @@ class FFCommittee(ForceField):
                 frcs.append(ff_r["result"][1])
                 virs.append(ff_r["result"][2])
 
+            # weights the contributions of this forcefield
+            for vals, start in zip((pots, frcs, virs), first):
+                vals[start:] = [weight * np.asarray(v) for v in vals[start:]]
+
         pots = np.array(pots)
         if len(pots) != len(frcs) and len(frcs) > 1:
             raise ValueError(
@@ -1542,8 +1549,6 @@ class FFCommittee(ForceField):
             )
         virs = np.array(virs).reshape(-1, 3, 3)
 
-        xtrs.append(ff_r["result"][3])
-
         # Computes the mean energetics
         mean_pot = np.mean(pots, axis=0)
         mean_frc = np.mean(frcs, axis=0)
@@ -1648,7 +1653,7 @@ class FFCommittee(ForceField):
             r["result"][3]["wb_mixing"] = (s_b2 / (s_b2 + var_pot),)
 
         # "dissolve" the extras dictionaries into a list
-        for k in xtrs[0].keys():
+        for k in dict.fromkeys(k for x in xtrs for k in x):
             if ("committee_" + k) in r["result"][3].keys():
                 raise ValueError(
                     "Name clash between extras key "
@@ -1657,7 +1662,8 @@ class FFCommittee(ForceField):
                 )
             r["result"][3][("committee_" + k)] = []
             for x in xtrs:
-                r["result"][3][("committee_" + k)].append(x[k])
+                if k in x:
+                    r["result"][3][("committee_" + k)].append(x[k])
 
         if self.active_thresh > 0.0 and std_pot > self.active_thresh:
             dumps = json.dumps(
-- 
2.43.0


From 16e1d194a109064cc14523131cb4f9d8eeef801f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:23:46 +0000
Subject: [PATCH 059/109] fix: systems of different size can share a forcefield

---
 ipi/engine/forcefields.py | 28 +++++++++++-----------------
 1 file changed, 11 insertions(+), 17 deletions(-)

diff --git a/ipi/engine/forcefields.py b/ipi/engine/forcefields.py
index 11271b7..2eeaa6c 100644
--- a/ipi/engine/forcefields.py
+++ b/ipi/engine/forcefields.py
@@ -166,23 +166,17 @@ class ForceField:
 
         # Indexes come from input in a per atom basis and we need to make a per atom-coordinate basis
         # Reformat indexes for full system (default) or piece of system
-        # active atoms do not change but we only know how to build this array once we get the positions once
-        if self.iactive is None:
-            if self.active[0] == -1:
-                activehere = np.arange(len(pbcpos))
-            else:
-                activehere = np.array(
-                    [[3 * n, 3 * n + 1, 3 * n + 2] for n in self.active]
-                )
-
-            # Reassign active indexes in order to use them
-            activehere = activehere.flatten()
-
-            # Perform sanity check for active atoms
-            if len(activehere) > len(pbcpos) or activehere[-1] > (len(pbcpos) - 1):
-                raise ValueError("There are more active atoms than atoms!")
+        # NB: systems of different size may use the same forcefield at the same time
+        if self.active[0] == -1:
+            iactive = np.arange(len(pbcpos))
+        else:
+            iactive = np.array(
+                [[3 * n, 3 * n + 1, 3 * n + 2] for n in self.active]
+            ).flatten()
 
-            self.iactive = activehere
+        # Perform sanity check for active atoms
+        if len(iactive) > len(pbcpos) or iactive.max() > (len(pbcpos) - 1):
+            raise ValueError("There are more active atoms than atoms!")
 
         if self.dopbc:
             cell.array_pbc(pbcpos)
@@ -190,7 +184,7 @@ class ForceField:
         fields = {
             "id": reqid,
             "pos": pbcpos,
-            "active": self.iactive,
+            "active": iactive,
             "cell": (dstrip(cell.h).copy(), dstrip(cell.ih).copy()),
             "pars": par_str,
             "result": None,
-- 
2.43.0


From bbe76d8fe4ec2f007afb071deb7ad3b1e200e33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:36:49 +0000
Subject: [PATCH 060/109] fix: units with a slash are recognised in the comment
 of a trajectory

---
 ipi/utils/io/io_units.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ipi/utils/io/io_units.py b/ipi/utils/io/io_units.py
index aece708..0e62b97 100755
--- a/ipi/utils/io/io_units.py
+++ b/ipi/utils/io/io_units.py
@@ -14,10 +14,10 @@ from ipi.engine.properties import Trajectories as Traj
 
 __all__ = ["auto_units", "process_units"]
 # Regular expressions initialization for read_xyz function
-cell_unit_re = re.compile(r"cell\{([A-Za-z_]*)\}")  # cell unit pattern
+cell_unit_re = re.compile(r"cell\{([^{}]*)\}")  # cell unit pattern
 traj_dict = Traj().traj_dict  # trajectory dictionary
 traj_re = [
-    re.compile("%s%s" % (key, r"\{[A-Za-z_]*\}")) for key in list(traj_dict.keys())
+    re.compile("%s%s" % (key, r"\{[^{}]*\}")) for key in list(traj_dict.keys())
 ]  # trajectory patterns
 
 
-- 
2.43.0


From 5c4879c5d51853409aa43c98a4636be92c628095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:36:49 +0000
Subject: [PATCH 061/109] fix: a truncated xyz frame is not completed with
 zeros

---
 ipi/utils/io/backends/io_xyz.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipi/utils/io/backends/io_xyz.py b/ipi/utils/io/backends/io_xyz.py
index ffd2c60..4f85f9b 100644
--- a/ipi/utils/io/backends/io_xyz.py
+++ b/ipi/utils/io/backends/io_xyz.py
@@ -150,7 +150,7 @@ def read_xyz(filedesc):
         if atom_counter == natoms:
             break
 
-    if natoms != len(names):
+    if natoms != atom_counter:
         raise ValueError(
             "The number of atom records does not match the header of the xyz file."
         )
-- 
2.43.0


From 257580b9d7959d3d8a3085a8b165fe0ef8250313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:36:49 +0000
Subject: [PATCH 062/109] fix: PDB coordinates are written to and read from the
 columns of the format

---
 ipi/utils/io/backends/io_pdb.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ipi/utils/io/backends/io_pdb.py b/ipi/utils/io/backends/io_pdb.py
index 45c0077..693aa31 100644
--- a/ipi/utils/io/backends/io_pdb.py
+++ b/ipi/utils/io/backends/io_pdb.py
@@ -34,7 +34,7 @@ def print_pdb_path(beads, cell, filedesc=sys.stdout, cell_conv=1.0, atoms_conv=1
 
     fmt_cryst = "CRYST1%9.3f%9.3f%9.3f%7.2f%7.2f%7.2f%s%4i\n"
     fmt_atom = (
-        "ATOM  %5i %4s%1s%3s %1s%4i%1s  %8.3f%8.3f%8.3f%6.2f%6.2f          %2s%2i\n"
+        "ATOM  %5i %4s%1s%3s %1s%4i%1s   %8.3f%8.3f%8.3f%6.2f%6.2f          %2s%2i\n"
     )
     fmt_conect = "CONECT%5i%5i\n"
 
@@ -182,9 +182,9 @@ def read_pdb(filedesc):
         name = body[12:16].strip()
         names.append(name)
         masses.append(Elements.mass(name))
-        x = float(body[31:39])
-        y = float(body[39:47])
-        z = float(body[47:55])
+        x = float(body[30:38])
+        y = float(body[38:46])
+        z = float(body[46:54])
         qatoms.append(x)
         qatoms.append(y)
         qatoms.append(z)
-- 
2.43.0


From c26a97049b36a6a200d12fb58bba96769da85ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:36:49 +0000
Subject: [PATCH 063/109] fix: the units stated in a PDB title are used for any
 quantity

---
 ipi/utils/io/backends/io_pdb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipi/utils/io/backends/io_pdb.py b/ipi/utils/io/backends/io_pdb.py
index 693aa31..57c36ed 100644
--- a/ipi/utils/io/backends/io_pdb.py
+++ b/ipi/utils/io/backends/io_pdb.py
@@ -151,7 +151,7 @@ def read_pdb(filedesc):
         comment = copy.copy(header)
         header = filedesc.readline()
     # PDB defaults to Angstrom, because so says the standard
-    if "positions{" not in comment:
+    if "{" not in comment.replace("cell{", ""):
         comment = comment.strip()
         comment += " positions{angstrom}\n"
     if "cell{" not in comment:
-- 
2.43.0


From 1873363691bec73eedaadad355ab6d9b96fe8ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:36:49 +0000
Subject: [PATCH 064/109] fix: read_trajectory returns the full step number

---
 ipi/scripting/parsing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipi/scripting/parsing.py b/ipi/scripting/parsing.py
index 7f7a3eb..f527ae1 100644
--- a/ipi/scripting/parsing.py
+++ b/ipi/scripting/parsing.py
@@ -222,7 +222,7 @@ def read_trajectory(
                 # ... and the step
                 matches = step_regex.findall(ret["comment"])
                 if len(matches) >= 1:
-                    frame.info["step"] = int(matches[-1][0])
+                    frame.info["step"] = int(matches[-1])
 
                 # fetch the list of known traj types, cf. `engine/properties.py``
                 from ipi.engine.properties import Trajectories  # avoids circular import
-- 
2.43.0


From 5fe73ad2fd7235e72f0abd676fce947b5344b7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:16 +0000
Subject: [PATCH 065/109] fix: read_output keeps apart columns of the same
 property in different units

---
 ipi/scripting/parsing.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ipi/scripting/parsing.py b/ipi/scripting/parsing.py
index f527ae1..e5e0d4a 100644
--- a/ipi/scripting/parsing.py
+++ b/ipi/scripting/parsing.py
@@ -68,6 +68,9 @@ def read_output(filename):
                 units = units_after
             if args is not None:
                 property_name += f"({args})"
+            if any(p["name"] == property_name for p in properties.values()):
+                # the same quantity, printed again in other units
+                property_name += f"{{{units or 'atomic_unit'}}}"
 
             properties[col_info] = {
                 "name": property_name,
-- 
2.43.0


From cd70945fa3a28a3a5bc5997a7034d72af756d9ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:19 +0000
Subject: [PATCH 066/109] fix: quantities other than positions can be read back
 from ASE trajectories

---
 ipi/utils/io/backends/io_ase.py | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/ipi/utils/io/backends/io_ase.py b/ipi/utils/io/backends/io_ase.py
index 7ae3eed..7d6fe43 100644
--- a/ipi/utils/io/backends/io_ase.py
+++ b/ipi/utils/io/backends/io_ase.py
@@ -37,6 +37,19 @@ to install it."""
     ), "Please get a newer version of ASE"
 
 
+def _quantity(comment):
+    """Returns the quantity described by an i-PI comment line"""
+
+    return next(
+        (
+            keyword
+            for keyword, value in re.findall(r"(\w+)\{(\w+)\}", comment)
+            if keyword != "cell"
+        ),
+        None,
+    )
+
+
 def print_ase(
     atoms, cell, filedesc=sys.stdout, title="", cell_conv=1.0, atoms_conv=1.0
 ):
@@ -54,14 +67,7 @@ def print_ase(
     from ase import Atoms
 
     # Reads the quantity from the ipi_comment
-    quantity = next(
-        (
-            (keyword, value)
-            for keyword, value in re.findall(r"(\w+)\{(\w+)\}", title)
-            if keyword != "cell"
-        ),
-        (None, None),
-    )[0]
+    quantity = _quantity(title)
 
     ase_atoms = Atoms(
         atoms.names,
@@ -126,6 +132,14 @@ def read_ase(filedesc):
     comment = "Structure read with ASE with composition %s" % atoms.symbols.formula
     cell = atoms.cell.array.T
     qatoms = atoms.positions.reshape((-1))
+    if "ipi_comment" in atoms.info:
+        # written by print_ase, possibly with a quantity other than positions
+        comment = str(atoms.info["ipi_comment"])
+        quantity = _quantity(comment)
+        if quantity in atoms.arrays:
+            qatoms = atoms.arrays[quantity].reshape((-1))
+        elif atoms.calc is not None and quantity in atoms.calc.results:
+            qatoms = atoms.calc.results[quantity].reshape((-1))
     names = list(atoms.symbols)
     masses = atoms.get_masses() * Constants.amu
 
-- 
2.43.0


From 0d2a5bc087873000eae1a1151bdd5678483437a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:19 +0000
Subject: [PATCH 067/109] fix: binary trajectories of more than one frame can
 be read

---
 ipi/utils/io/backends/io_binary.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ipi/utils/io/backends/io_binary.py b/ipi/utils/io/backends/io_binary.py
index 51b3e00..bb672ec 100644
--- a/ipi/utils/io/backends/io_binary.py
+++ b/ipi/utils/io/backends/io_binary.py
@@ -37,7 +37,9 @@ def print_binary(
     nat[0] = len(names)
     nat.tofile(buff)
     np.asarray([names]).tofile(buff)
-    # also saves the title to the file.
+    # also saves the title to the file, with its length so that more frames can follow.
+    nat[0] = len(title)
+    nat.tofile(buff)
     np.asarray([title]).tofile(buff)
 
 
@@ -52,7 +54,8 @@ def read_binary(filedesc):
         names = "".join(names)
         names = names.split("|")
         masses = np.zeros(len(names))
-        title = "".join(np.fromfile(filedesc, dtype="|U1", count=-1))
+        nat = np.fromfile(filedesc, dtype=int, count=1)[0]
+        title = "".join(np.fromfile(filedesc, dtype="|U1", count=nat))
     except (StopIteration, ValueError):
         raise EOFError
     return (title, cell, qatoms, names, masses)
-- 
2.43.0


From ee9ab8249e10f48d65b4cde5d64108cc91dcc50f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:47 +0000
Subject: [PATCH 068/109] fix: velocities, momenta and cell can be initialized
 from a checkpoint

---
 ipi/inputs/initializer.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/ipi/inputs/initializer.py b/ipi/inputs/initializer.py
index f3ff811..1a370a4 100644
--- a/ipi/inputs/initializer.py
+++ b/ipi/inputs/initializer.py
@@ -231,7 +231,7 @@ class InputInitMomenta(InputInitPositions):
     default_label = "INITMOMENTA"
     default_help = "This is the class to initialize momenta."
 
-    def fetch(self):
+    def fetch(self, initclass=None):
         """Creates an momentum initializer object.
 
         Note that the momenta can be initialized by a single value, specifying
@@ -247,7 +247,7 @@ class InputInitMomenta(InputInitPositions):
                 bead=self.bead.fetch(),
             )
         else:
-            return super(InputInitMomenta, self).fetch()
+            return super(InputInitMomenta, self).fetch(initclass)
 
 
 class InputInitVelocities(InputInitMomenta):
@@ -296,7 +296,7 @@ class InputInitCell(InputInitBase):
     default_label = "INITCELL"
     default_help = "This is the class to initialize cell."
 
-    def fetch(self):
+    def fetch(self, initclass=None):
         """Creates a cell initializer object.
 
         Note that the cell can be initialized from the lengths of the sides and
@@ -351,7 +351,10 @@ class InputInitCell(InputInitBase):
                 h[3] = h[6] = h[7] = 0
             ibase.value = h
 
-        return self._initclass(value=ibase.value, mode=mode, units=self.units.fetch())
+        if initclass is None:
+            initclass = self._initclass
+
+        return initclass(value=ibase.value, mode=mode, units=self.units.fetch())
 
 
 class InputInitializer(Input):
-- 
2.43.0


From 92567ce672f01b05a138ead55046f3ad35a83a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:47 +0000
Subject: [PATCH 069/109] fix: units of manually initialized positions,
 velocities and momenta are not ignored

---
 ipi/engine/initializer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipi/engine/initializer.py b/ipi/engine/initializer.py
index 5e7bb1c..cfd4c08 100644
--- a/ipi/engine/initializer.py
+++ b/ipi/engine/initializer.py
@@ -228,7 +228,7 @@ def init_vector(
         else:
             rq = init_beads(iif, nbeads).q
     elif mode == "manual":
-        rq = value
+        rq = value * unit_to_internal(dimension, units, 1.0)
 
     # determines the size of the input data
     if mode == "manual":
-- 
2.43.0


From ac91edec35afe7fd1b5ffeecded5f779145d569a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:47 +0000
Subject: [PATCH 070/109] fix: velocities initialized from a checkpoint are not
 its positions

---
 ipi/engine/initializer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ipi/engine/initializer.py b/ipi/engine/initializer.py
index cfd4c08..31162d8 100644
--- a/ipi/engine/initializer.py
+++ b/ipi/engine/initializer.py
@@ -225,6 +225,9 @@ def init_vector(
     elif mode == "chk":
         if momenta:
             rq = init_beads(iif, nbeads).p
+        elif dimension == "velocity":
+            rbeads = init_beads(iif, nbeads)
+            rq = rbeads.p / rbeads.m3
         else:
             rq = init_beads(iif, nbeads).q
     elif mode == "manual":
-- 
2.43.0


From ef5efe7d8a85822aba014bbf53a04be595836693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:47 +0000
Subject: [PATCH 071/109] fix: momenta of a single bead are initialized without
 rescaling

---
 ipi/engine/initializer.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ipi/engine/initializer.py b/ipi/engine/initializer.py
index 31162d8..86e2897 100644
--- a/ipi/engine/initializer.py
+++ b/ipi/engine/initializer.py
@@ -552,7 +552,8 @@ class Initializer:
                         )
                     simul.beads.resize(natoms, self.nbeads)
 
-                rp *= np.sqrt(self.nbeads / nbeads)
+                if v.bead < 0:  # only a whole path changes its number of beads
+                    rp *= np.sqrt(self.nbeads / nbeads)
                 set_vector(v, simul.beads.p, rp)
                 fmom = True
             elif k == "velocities":
@@ -579,7 +580,8 @@ class Initializer:
                 else:
                     for ev in rv:
                         ev *= simul.beads.m3[0]
-                rv *= np.sqrt(self.nbeads / nbeads)
+                if v.bead < 0:  # only a whole path changes its number of beads
+                    rv *= np.sqrt(self.nbeads / nbeads)
                 set_vector(v, simul.beads.p, rv)
                 fmom = True
             elif k == "gle":
-- 
2.43.0


From 4c1c2fa8d3d144e81e0f9dfdba24c296cf663478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:47 +0000
Subject: [PATCH 072/109] fix: initializing velocities before masses is an
 error

---
 ipi/engine/initializer.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/ipi/engine/initializer.py b/ipi/engine/initializer.py
index 86e2897..1b6f595 100644
--- a/ipi/engine/initializer.py
+++ b/ipi/engine/initializer.py
@@ -564,12 +564,11 @@ class Initializer:
                 nbeads, natoms = rv.shape
                 natoms //= 3
 
-                # checks if we must initialize the simulation beads
+                # momenta can only be computed from velocities if we have the masses
                 if simul.beads.nbeads == 0 or not fmass:
-                    ValueError(
+                    raise ValueError(
                         "Cannot initialize velocities before the masses of the atoms are known"
                     )
-                    simul.beads.resize(natoms, self.nbeads)
 
                 warning(
                     "Initializing from velocities uses the previously defined masses -- not the masses inferred from the file -- to build momenta",
-- 
2.43.0


From 756739ba754a7385fb0b52cf5dfe47b3f283b967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:58:42 +0000
Subject: [PATCH 073/109] fix: replay converts units only once

---
 ipi/engine/motion/replay.py | 56 ++++++++++++++++++-------------------
 1 file changed, 27 insertions(+), 29 deletions(-)

diff --git a/ipi/engine/motion/replay.py b/ipi/engine/motion/replay.py
index 35d7c83..7d60e48 100644
--- a/ipi/engine/motion/replay.py
+++ b/ipi/engine/motion/replay.py
@@ -10,9 +10,8 @@ import os
 from fnmatch import fnmatch
 
 from ipi.engine.motion import Motion
-from ipi.utils.io import read_file, read_file_raw
+from ipi.utils.io import read_file_raw
 from ipi.utils.io.inputs.io_xml import xml_parse_file
-from ipi.utils.units import unit_to_internal
 from ipi.utils.messages import verbosity, info
 
 __all__ = ["Replay"]
@@ -91,6 +90,29 @@ class Replay(Motion):
             self.rfile = open(self.intraj.value, "r")
         self.rstep = 0
 
+    def read_frame(self, rfile):
+        """Reads the next frame of a trajectory, in internal units.
+
+        The units given in the input apply also to the cell, unless the file
+        or the input specify otherwise.
+        """
+
+        # late import is needed to break an import cycle
+        from ipi.utils.io.io_units import process_units
+
+        frame = read_file_raw(self.intraj.mode, rfile)
+        cell_units = self.intraj.cell_units
+        if cell_units == "automatic" and "{" not in frame["comment"]:
+            cell_units = self.intraj.units
+
+        return process_units(
+            dimension="length",
+            units=self.intraj.units,
+            cell_units=cell_units,
+            mode=self.intraj.mode,
+            **frame,
+        )
+
     def step(self, step=None):
         """Does one replay time step."""
 
@@ -112,36 +134,12 @@ class Replay(Motion):
         while True:
             self.rstep += 1
             try:
-                if self.intraj.mode == "xyz":
-                    for bindex, b in enumerate(self.beads):
-                        if wildcard_used:
-                            myframe = read_file("xyz", self.rfile[bindex])
-                        else:
-                            myframe = read_file("xyz", self.rfile)
-                        myatoms = myframe["atoms"]
-                        mycell = myframe["cell"]
-                        myatoms.q *= unit_to_internal("length", self.intraj.units, 1.0)
-                        mycell.h *= unit_to_internal("length", self.intraj.units, 1.0)
-                        b.q[:] = myatoms.q
-                elif self.intraj.mode == "pdb":
-                    for bindex, b in enumerate(self.beads):
-                        if wildcard_used:
-                            myframe = read_file("pdb", self.rfile[bindex])
-                        else:
-                            myframe = read_file("pdb", self.rfile)
-                        myatoms = myframe["atoms"]
-                        mycell = myframe["cell"]
-                        myatoms.q *= unit_to_internal("length", self.intraj.units, 1.0)
-                        mycell.h *= unit_to_internal("length", self.intraj.units, 1.0)
-                        b.q[:] = myatoms.q
-                elif self.intraj.mode == "ase":
+                if self.intraj.mode in ["xyz", "pdb", "ase"]:
                     for bindex, b in enumerate(self.beads):
                         if wildcard_used:
-                            myframe = read_file(
-                                "ase", self.rfile[bindex], dimension="length"
-                            )
+                            myframe = self.read_frame(self.rfile[bindex])
                         else:
-                            myframe = read_file("ase", self.rfile, dimension="length")
+                            myframe = self.read_frame(self.rfile)
                         myatoms = myframe["atoms"]
                         mycell = myframe["cell"]
                         b.q[:] = myatoms.q
-- 
2.43.0


From 37b4c3332cc17f736ef5b2e125cd84217113699f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:58:42 +0000
Subject: [PATCH 074/109] fix: replay reads the configuration of a checkpoint

---
 ipi/engine/motion/replay.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/ipi/engine/motion/replay.py b/ipi/engine/motion/replay.py
index 7d60e48..5b82e15 100644
--- a/ipi/engine/motion/replay.py
+++ b/ipi/engine/motion/replay.py
@@ -11,7 +11,6 @@ from fnmatch import fnmatch
 
 from ipi.engine.motion import Motion
 from ipi.utils.io import read_file_raw
-from ipi.utils.io.inputs.io_xml import xml_parse_file
 from ipi.utils.messages import verbosity, info
 
 __all__ = ["Replay"]
@@ -145,17 +144,13 @@ class Replay(Motion):
                         b.q[:] = myatoms.q
 
                 elif self.intraj.mode == "chk" or self.intraj.mode == "checkpoint":
-                    # TODO: Adapt the new `Simulation.load_from_xml`?
                     # reads configuration from a checkpoint file
-                    xmlchk = xml_parse_file(self.rfile)  # Parses the file.
+                    # (late import is needed to break an import cycle)
+                    from ipi.engine.initializer import init_chk
 
-                    from ipi.inputs.simulation import InputSimulation
-
-                    simchk = InputSimulation()
-                    simchk.parse(xmlchk.fields[0][1])
-                    mycell = simchk.cell.fetch()
-                    mybeads = simchk.beads.fetch()
+                    mybeads, mycell, _ = init_chk(self.intraj.value)
                     self.beads.q[:] = mybeads.q
+                    self.cell.h[:] = mycell.h
                     self.finish(status="success", message=" # Read single checkpoint")
                     return
                 # do not assign cell if it contains an invalid value (typically missing cell in the input)
-- 
2.43.0


From 0a0230c25a16fe4c7f62164bbbca464c8455e299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:58:42 +0000
Subject: [PATCH 075/109] fix: additional momenta of GLE thermostats can be
 initialized

---
 ipi/engine/initializer.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/ipi/engine/initializer.py b/ipi/engine/initializer.py
index 1b6f595..cd14cb3 100644
--- a/ipi/engine/initializer.py
+++ b/ipi/engine/initializer.py
@@ -624,18 +624,18 @@ class Initializer:
 
             if k == "gle":
                 # read thermostat parameters from file
-                if not (hasattr(simul.ensemble, "thermostat")):
+                if not (hasattr(simul.motion, "thermostat")):
                     raise ValueError(
-                        "Ensemble does not have a thermostat to initialize"
+                        "Motion does not have a thermostat to initialize"
                     )
-                if not (hasattr(simul.ensemble.thermostat, "s")):
+                if not (hasattr(simul.motion.thermostat, "s")):
                     raise ValueError(
                         "There is nothing to initialize in non-GLE thermostats"
                     )
-                ssimul = simul.ensemble.thermostat.s
+                ssimul = simul.motion.thermostat.s
                 if v.mode == "manual":
                     sinput = v.value.copy()
-                    if sinput.size() != ssimul.size():
+                    if sinput.size != ssimul.size:
                         raise ValueError(
                             "Size mismatch in thermostat initialization data"
                         )
-- 
2.43.0


From 95e0d2d0eb16589abd374986260eefd5a5a65d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:52 +0000
Subject: [PATCH 076/109] fix: displaced-path and isotope estimators use the
 current cell

---
 ipi/engine/properties.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ipi/engine/properties.py b/ipi/engine/properties.py
index 306a4d1..dc62a8b 100644
--- a/ipi/engine/properties.py
+++ b/ipi/engine/properties.py
@@ -1990,6 +1990,7 @@ class Properties:
                 continue
 
             mass = self.beads.m[i]
+            self.dcell.h = self.cell.h
             self.dbeads.q[:] = q
             for b in range(nb):
                 self.dbeads.q[b, 3 * i : 3 * (i + 1)] += self.opening(b) * u
@@ -2261,6 +2262,7 @@ class Properties:
             ni += 1
 
             # arranges coordinate-scaled beads in a auxiliary beads object
+            self.dcell.h = self.cell.h
             self.dbeads.q[:] = q[:]
             for b in range(self.beads.nbeads):
                 self.dbeads.q[b, 3 * i : 3 * (i + 1)] = qc[
@@ -2540,6 +2542,7 @@ class Properties:
         qc = dstrip(self.beads.qc)
         q = dstrip(self.beads.q)
         v0 = self.forces.pot
+        self.dcell.h = self.cell.h
         self.dbeads.q = q
 
         for i in range(self.beads.natoms):
@@ -2740,6 +2743,7 @@ class Properties:
         f = dstrip(self.forces.f)
         v0 = self.forces.pot
         pots = self.forces.pots
+        self.dcell.h = self.cell.h
 
         for i in range(self.beads.natoms):
             # selects only the atoms we care about
@@ -3307,6 +3311,7 @@ class Trajectories:
         qc = dstrip(self.system.beads.qc)
         q = dstrip(self.system.beads.q)
         v0 = self.system.forces.pot / nb
+        self.dcell.h = self.system.cell.h
         self.dbeads.q = q
 
         for i in range(nat):
-- 
2.43.0


From 10d08705cf53223db66fc8efa775c8c8bed17b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:52 +0000
Subject: [PATCH 077/109] fix: vcom of a single bead can be computed

---
 ipi/engine/properties.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ipi/engine/properties.py b/ipi/engine/properties.py
index dc62a8b..c433bb0 100644
--- a/ipi/engine/properties.py
+++ b/ipi/engine/properties.py
@@ -1753,10 +1753,10 @@ class Properties:
     def get_vcom(self, latom="", bead=-1):
         """Computes the center of mass velocity for the system or for a specified species"""
 
-        if bead < 0:
+        if int(bead) < 0:
             p = dstrip(self.beads.pc)
         else:
-            p = dstrip(self.beads[bead])
+            p = dstrip(self.beads.p[int(bead)])
         pcom = np.zeros(3)
         tm = 0
         for i in range(self.beads.natoms):
-- 
2.43.0


From ec6c37ece1832321fbb1b581a76888db763876e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:52 +0000
Subject: [PATCH 078/109] fix: virial_fq uses the reference of each request

---
 ipi/engine/properties.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/ipi/engine/properties.py b/ipi/engine/properties.py
index c433bb0..a044e25 100644
--- a/ipi/engine/properties.py
+++ b/ipi/engine/properties.py
@@ -984,7 +984,7 @@ class Properties:
         self.dbeads = system.beads.clone()
         self.dcell = system.cell.clone()
         self.dforces = system.forces.clone(self.dbeads, self.dcell)
-        self.fqref = None
+        self.fqref = {}
         self._threadlock = (
             system._propertylock
         )  # lock to avoid concurrent access and messing up with dbeads
@@ -1304,20 +1304,20 @@ class Properties:
         return acv
 
     def get_fqvirial(self, ref="", units=""):
-        if self.fqref is None:
+        # reads each of the reference configurations only once
+        if (ref, units) not in self.fqref:
             if ref == "":
-                self.fqref = np.zeros(3 * self.beads.natoms)
+                fqref = np.zeros(3 * self.beads.natoms)
             else:
-                self.fqref = np.loadtxt(ref).flatten() * unit_to_internal(
-                    "length", units, 1
-                )
-                if len(self.fqref) != 3 * self.beads.natoms:
+                fqref = np.loadtxt(ref).flatten() * unit_to_internal("length", units, 1)
+                if len(fqref) != 3 * self.beads.natoms:
                     raise ValueError(
                         "Atom number mismatch in reference file for virial_fq"
                     )
+            self.fqref[(ref, units)] = fqref
         fq = 0.0
         for b in range(self.beads.nbeads):
-            fq += np.dot(self.forces.f[b], self.beads.q[b] - self.fqref)
+            fq += np.dot(self.forces.f[b], self.beads.q[b] - self.fqref[(ref, units)])
 
         return fq * 0.5 / self.beads.nbeads
 
-- 
2.43.0


From bc67a8ddcfff6e3bf83de5782d6b1f85b84bf8ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:52 +0000
Subject: [PATCH 079/109] fix: pot_component_raw averages over the beads of the
 component

---
 ipi/engine/properties.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ipi/engine/properties.py b/ipi/engine/properties.py
index a044e25..f6d950c 100644
--- a/ipi/engine/properties.py
+++ b/ipi/engine/properties.py
@@ -405,8 +405,7 @@ class Properties:
                        discretization of the given component. Potential weights will not be applied. """,
                 "func": (
                     lambda index, bead="-1": (
-                        self.forces.pots_component(int(index), False, False).sum()
-                        / self.beads.nbeads
+                        self.forces.pots_component(int(index), False, False).mean()
                         if int(bead) < 0
                         else self.forces.pots_component(int(index), False, False)[
                             int(bead)
-- 
2.43.0


From 9f641651618c5efbdeb7aecac5642fe34e8172d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:52 +0000
Subject: [PATCH 080/109] fix: atom_f_path has the dimension of a force

---
 ipi/engine/properties.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipi/engine/properties.py b/ipi/engine/properties.py
index f6d950c..0498871 100644
--- a/ipi/engine/properties.py
+++ b/ipi/engine/properties.py
@@ -575,7 +575,7 @@ class Properties:
                 ),
             },
             "atom_f_path": {
-                "dimension": "length",
+                "dimension": "force",
                 "help": "The forces acting on all the beads of a particle given its index.",
                 "longhelp": """The forces acting on all the beads of a particle given its index. Takes arguments index
                        and bead (both zero based). If bead is not specified, refers to the centroid.""",
-- 
2.43.0


From abc317560811dce45e87ada527ff14aefb306241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:52 +0000
Subject: [PATCH 081/109] fix: sc_op_scaledcoords does not depend on the
 properties computed before it

---
 ipi/engine/properties.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ipi/engine/properties.py b/ipi/engine/properties.py
index 0498871..d91adf3 100644
--- a/ipi/engine/properties.py
+++ b/ipi/engine/properties.py
@@ -2024,6 +2024,7 @@ class Properties:
         q = dstrip(self.beads.q)
 
         self.dcell.h = self.cell.h
+        self.dbeads.q[:] = q
         self.dbeads.q[::2] = self.beads.q[::2] + eps * (q - qc)[::2]
 
         vir1 = (
-- 
2.43.0


From 8ed7bd30762344a2d2d5b22baca0c4d671542e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:52 +0000
Subject: [PATCH 082/109] fix: sc_scaledcoords includes the temperature
 dependence of the Suzuki-Chin potential

---
 ipi/engine/properties.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ipi/engine/properties.py b/ipi/engine/properties.py
index d91adf3..10c6df0 100644
--- a/ipi/engine/properties.py
+++ b/ipi/engine/properties.py
@@ -2154,7 +2154,6 @@ class Properties:
 
         dbeta = abs(fd_delta)
         beta = 1.0 / (Constants.kb * self.ensemble.temp)
-        self.dforces.omegan2 = self.forces.omegan2
         self.dforces.alpha = self.forces.alpha
         self.dcell.h = self.cell.h
 
@@ -2167,12 +2166,15 @@ class Properties:
             splus = np.sqrt(1.0 + dbeta)
             sminus = np.sqrt(1.0 - dbeta)
 
+            # the Suzuki-Chin potential depends on temperature through omegan2
             for b in range(self.beads.nbeads):
                 self.dbeads[b].q = qc * (1.0 - splus) + splus * q[b, :]
+            self.dforces.omegan2 = self.forces.omegan2 / (1.0 + dbeta) ** 2
             vplus = (self.dforces.pot + self.dforces.potsc) / self.beads.nbeads
 
             for b in range(self.beads.nbeads):
                 self.dbeads[b].q = qc * (1.0 - sminus) + sminus * q[b, :]
+            self.dforces.omegan2 = self.forces.omegan2 / (1.0 - dbeta) ** 2
             vminus = (self.dforces.pot + self.dforces.potsc) / self.beads.nbeads
 
             if (
-- 
2.43.0


From 2a24136f944e354c1c3a52795aa764fdcb37301f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:23:26 +0000
Subject: [PATCH 083/109] fix: the header of outputs counts the columns of
 atom_x_path and atom_f_path

---
 ipi/engine/properties.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ipi/engine/properties.py b/ipi/engine/properties.py
index 10c6df0..b041336 100644
--- a/ipi/engine/properties.py
+++ b/ipi/engine/properties.py
@@ -989,6 +989,8 @@ class Properties:
         )  # lock to avoid concurrent access and messing up with dbeads
 
         self.property_dict["bead_potentials"]["size"] = self.beads.nbeads
+        self.property_dict["atom_x_path"]["size"] = 3 * self.beads.nbeads
+        self.property_dict["atom_f_path"]["size"] = 3 * self.beads.nbeads
         # self.properties_init()  # Initialize the properties here so that all
         # +all variables are accessible (for example to set
         # +the size of the hamiltonian_weights).
-- 
2.43.0


From e1f37901e8195167a6e926356e9c665f9dedc7e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:59 +0000
Subject: [PATCH 084/109] fix: atom swaps account for the bias and for the
 springs of the paths

---
 ipi/engine/motion/atomswap.py | 33 +++++++++++++++------------------
 1 file changed, 15 insertions(+), 18 deletions(-)

diff --git a/ipi/engine/motion/atomswap.py b/ipi/engine/motion/atomswap.py
index 98570e4..cb0c50a 100644
--- a/ipi/engine/motion/atomswap.py
+++ b/ipi/engine/motion/atomswap.py
@@ -64,9 +64,6 @@ class AtomSwap(Motion):
 
         super(AtomSwap, self).bind(ens, beads, cell, bforce, nm, prng, omaker)
         self.ensemble.add_econs(self._ealc)
-        self.dbeads = self.beads.clone()
-        self.dcell = self.cell.clone()
-        self.dforces = self.forces.clone(self.dbeads, self.dcell)
 
     def AXlist(self, atomtype):
         """This compile a list of atoms ready for exchanges."""
@@ -100,9 +97,6 @@ class AtomSwap(Motion):
 
         # this would be double-counting, we already have a bail-out condition above
         # if (1.0/self.nxc < self.prng.u) : return  # tries a round of exhanges with probability 1/nmc
-        self.dcell.h = (
-            self.cell.h
-        )  # just in case the cell gets updated in the other motion classes
         for x in range(ntries):
             i = self.prng.integers(0, lenlist)
             j = self.prng.integers(0, lenlist)
@@ -113,24 +107,27 @@ class AtomSwap(Motion):
             i = axlist[i]
             j = axlist[j]
 
-            old_energy = self.forces.pot
+            # the distribution of paths is determined by the physical potential,
+            # the bias and the springs, which depend on the masses of the atoms
+            old_energy = self.forces.pot + self.ensemble.bias.pot + self.nm.vspring
+            old_forces = self.forces.dump_state()
+            old_q = dstrip(self.beads.q).copy()
             # swap the atom positions
-            self.dbeads.q[:] = self.beads.q[:]
-            self.dbeads.q[:, 3 * i : 3 * i + 3] = self.beads.q[:, 3 * j : 3 * j + 3]
-            self.dbeads.q[:, 3 * j : 3 * j + 3] = self.beads.q[:, 3 * i : 3 * i + 3]
-            new_energy = self.dforces.pot
+            new_q = old_q.copy()
+            new_q[:, 3 * i : 3 * i + 3] = old_q[:, 3 * j : 3 * j + 3]
+            new_q[:, 3 * j : 3 * j + 3] = old_q[:, 3 * i : 3 * i + 3]
+            self.beads.q[:] = new_q
+            new_energy = self.forces.pot + self.ensemble.bias.pot + self.nm.vspring
             pexchange = np.exp(-betaP * (new_energy - old_energy))
 
-            # attemps the exchange, and actually propagate the exchange if something has happened
+            # attemps the exchange, and undoes it if it is not accepted
             if pexchange > self.prng.u:
                 nexch += 1
-
-                # copy the exchanged beads position
-                self.beads.q[:] = self.dbeads.q[:]
-                # transfers the (already computed) status of the force, so we don't need to recompute
-                self.forces.transfer_forces(self.dforces)
-
                 self.ealc += -(new_energy - old_energy)
+            else:
+                self.beads.q[:] = old_q
+                # restores the (already computed) status of the force, so we don't need to recompute
+                self.forces.load_state(old_forces)
 
 
 dproperties(AtomSwap, ["ealc"])
-- 
2.43.0


From 8c817971ff7b2fcfa089c8e97007a3f77302290e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:59 +0000
Subject: [PATCH 085/109] fix: alchemical exchanges use the springs of open
 paths

---
 ipi/engine/motion/alchemy.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ipi/engine/motion/alchemy.py b/ipi/engine/motion/alchemy.py
index 3655f5c..5765e38 100644
--- a/ipi/engine/motion/alchemy.py
+++ b/ipi/engine/motion/alchemy.py
@@ -96,6 +96,7 @@ class AlchemyMC(Motion):
             raise ValueError("Atoms exchange list is empty in alchemical sampler.")
         atomspring = np.zeros(lenlist)
         wk2 = dstrip(self.nm.omegak2)
+        o_wk2 = dstrip(self.nm.o_omegak) ** 2
 
         i = 0
         for atomnum in axlist:
@@ -103,8 +104,9 @@ class AlchemyMC(Motion):
 
             # computes spring in NM representation
             spr = 0.0
+            atomwk2 = o_wk2 if atomnum in self.nm.open_paths else wk2
             for b in range(1, nb):
-                spr += wk2[b] * (self.nm.qnm[b, na3 : na3 + 3] ** 2).sum()
+                spr += atomwk2[b] * (self.nm.qnm[b, na3 : na3 + 3] ** 2).sum()
             spr *= 0.5
 
             # no mass here - just the massless spring term
-- 
2.43.0


From 6ef6dce7ddbf6a6420268be21527ade184352500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:38:34 +0000
Subject: [PATCH 086/109] fix: arrays of random numbers generated with threads
 are filled

---
 ipi/utils/prng.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipi/utils/prng.py b/ipi/utils/prng.py
index 890907f..06e5e0d 100644
--- a/ipi/utils/prng.py
+++ b/ipi/utils/prng.py
@@ -188,7 +188,7 @@ class Random(object):
             out: The array to be filled.
         """
 
-        out_flat = out.flatten()
+        out_flat = out.reshape(-1)  # must be a view, not a copy
         step_size = np.ceil(len(out_flat) / self.n_threads).astype(int)
         if step_size < _MIN_STEP_THREADED:
             # falls back to serial if the vector is too small
-- 
2.43.0


From dba39cb629de15832781c9b642a02859d77d8cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:39:10 +0000
Subject: [PATCH 087/109] fix: a checkpoint with threaded random numbers can be
 read

---
 ipi/inputs/prng.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipi/inputs/prng.py b/ipi/inputs/prng.py
index 5a66027..54d42d2 100644
--- a/ipi/inputs/prng.py
+++ b/ipi/inputs/prng.py
@@ -34,7 +34,7 @@ class InputRandom(Input):
 
     attribs = {
         "n_threads": (
-            InputValue,
+            InputAttribute,
             {
                 "dtype": int,
                 "default": 1,
-- 
2.43.0


From aabd2dfdf151f337c3929b051ad2f819cd3fafea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:55:00 +0000
Subject: [PATCH 088/109] fix: L-BFGS restarts downhill when its search
 direction goes uphill

---
 ipi/utils/mintools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipi/utils/mintools.py b/ipi/utils/mintools.py
index 4d3a255..a3b623b 100644
--- a/ipi/utils/mintools.py
+++ b/ipi/utils/mintools.py
@@ -804,7 +804,7 @@ def L_BFGS(x0, d0, fdf, qlist, glist, fdf0, big_step, tol, itmax, m, scale, k):
     if np.dot(g0.flatten(), d0.flatten()) > 0.0:
         # reset search direction if we are moving uphill!
         info(" @MINIMIZE: moving uphill, resetting search direction! ", verbosity.debug)
-        d0 = g0 / np.sqrt(np.dot(g0.flatten(), g0.flatten()))
+        d0[:] = -g0 / np.sqrt(np.dot(g0.flatten(), g0.flatten()))
 
     print("@ GEOP step ", big_step)
     # Perform approximate line minimization in direction d0
-- 
2.43.0


From 9c3ab90038c34fb8bc2ef240d74c7475e7fdc22e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:55:01 +0000
Subject: [PATCH 089/109] fix: a line search that runs out of iterations ends
 at its best point

---
 ipi/utils/mintools.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ipi/utils/mintools.py b/ipi/utils/mintools.py
index a3b623b..84b3e44 100644
--- a/ipi/utils/mintools.py
+++ b/ipi/utils/mintools.py
@@ -399,6 +399,7 @@ def min_brent(fdf, fdf0, x0, tol, itmax, init_step):
     )
     info(" @MINIMIZE: Finished minimization, energy = %f" % fx, verbosity.debug)
     # return (x, fx,dfx)
+    fx, dfx = fdf(x)  # Evaluate again to update lm.dforces object
     return
 
 
-- 
2.43.0


From bfe4b5eda971ad391362dcd41b68d6ebb3168d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:55:01 +0000
Subject: [PATCH 090/109] fix: a geometry optimization can start at a
 stationary point

---
 ipi/engine/motion/geop.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ipi/engine/motion/geop.py b/ipi/engine/motion/geop.py
index cf31b59..590c572 100755
--- a/ipi/engine/motion/geop.py
+++ b/ipi/engine/motion/geop.py
@@ -174,6 +174,13 @@ class GeopMotion(Motion):
                     "Convergence threshold met. Will carry on but do nothing.",
                     verbosity.high,
                 )
+        elif not np.any(np.delete(dstrip(self.forces.f), self.fixatoms_dof, axis=1)):
+            # there is no direction to move along
+            info(
+                " @GEOP: Forces are zero, there is nothing to optimize",
+                verbosity.medium,
+            )
+            self.optimizer.converged = True
         else:
             self.optimizer.step(step)
 
-- 
2.43.0


From 8c50dfb0e88cfbd3eb8072fdbeb494037c258b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:55:01 +0000
Subject: [PATCH 091/109] fix: coordinates can be fixed in BFGS optimizations
 of several beads

---
 ipi/engine/motion/geop.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/ipi/engine/motion/geop.py b/ipi/engine/motion/geop.py
index 590c572..3fe79e4 100755
--- a/ipi/engine/motion/geop.py
+++ b/ipi/engine/motion/geop.py
@@ -260,6 +260,8 @@ class GradientMapper(object):
         )  # Mask to exclude fixed atoms from 3N-arrays
         if len(dumop.fixatoms_dof) > 0:
             self.fixatoms_mask[dumop.fixatoms_dof] = 0
+        # the same for arrays that hold all of the beads
+        self.path_mask = np.tile(self.fixatoms_mask, dumop.beads.nbeads)
 
     def __call__(self, x):
         """computes energy and gradient for optimization step"""
@@ -456,7 +458,7 @@ class BFGSOptimizer(DummyOptimizer):
             masked_old_x = self.old_x[:, self.gm.fixatoms_mask]
             masked_d = self.d[:, self.gm.fixatoms_mask]
             masked_invhessian = self.invhessian[
-                np.ix_(self.gm.fixatoms_mask, self.gm.fixatoms_mask)
+                np.ix_(self.gm.path_mask, self.gm.path_mask)
             ]
 
             # Do one iteration of BFGS
@@ -475,7 +477,7 @@ class BFGSOptimizer(DummyOptimizer):
 
             # Restore dimensionality of d and invhessian
             self.d[:, self.gm.fixatoms_mask] = masked_d
-            self.invhessian[np.ix_(self.gm.fixatoms_mask, self.gm.fixatoms_mask)] = (
+            self.invhessian[np.ix_(self.gm.path_mask, self.gm.path_mask)] = (
                 masked_invhessian
             )
 
@@ -552,7 +554,7 @@ class BFGSTRMOptimizer(DummyOptimizer):
             # Reduce dimensionality
             masked_old_x = self.old_x[:, self.gm.fixatoms_mask]
             masked_hessian = self.hessian[
-                np.ix_(self.gm.fixatoms_mask, self.gm.fixatoms_mask)
+                np.ix_(self.gm.path_mask, self.gm.path_mask)
             ]
 
             # Do one iteration of BFGSTRM.
@@ -568,7 +570,7 @@ class BFGSTRMOptimizer(DummyOptimizer):
             )
 
             # Restore dimensionality of the hessian
-            self.hessian[np.ix_(self.gm.fixatoms_mask, self.gm.fixatoms_mask)] = (
+            self.hessian[np.ix_(self.gm.path_mask, self.gm.path_mask)] = (
                 masked_hessian
             )
         else:
@@ -659,8 +661,8 @@ class LBFGSOptimizer(DummyOptimizer):
             masked_old_x = self.old_x[:, self.gm.fixatoms_mask]
             masked_d = self.d[:, self.gm.fixatoms_mask]
             # self.gm is reduced inside its __init__() and __call__() functions
-            masked_qlist = self.qlist[:, self.gm.fixatoms_mask]
-            masked_glist = self.glist[:, self.gm.fixatoms_mask]
+            masked_qlist = self.qlist[:, self.gm.path_mask]
+            masked_glist = self.glist[:, self.gm.path_mask]
             fdf0 = (self.old_u, -self.old_f[:, self.gm.fixatoms_mask])
 
             # We update everything within L_BFGS (and all other calls).
@@ -681,8 +683,8 @@ class LBFGSOptimizer(DummyOptimizer):
 
             # Restore the dimensionality
             self.d[:, self.gm.fixatoms_mask] = masked_d
-            self.qlist[:, self.gm.fixatoms_mask] = masked_qlist
-            self.glist[:, self.gm.fixatoms_mask] = masked_glist
+            self.qlist[:, self.gm.path_mask] = masked_qlist
+            self.glist[:, self.gm.path_mask] = masked_glist
 
         else:
             fdf0 = (self.old_u, -self.old_f)
@@ -767,7 +769,7 @@ class Damped_BFGSOptimizer(DummyOptimizer):
             # Reduce dimensionality
             masked_old_x = self.old_x[:, self.gm.fixatoms_mask]
             masked_invhessian = self.invhessian[
-                np.ix_(self.gm.fixatoms_mask, self.gm.fixatoms_mask)
+                np.ix_(self.gm.path_mask, self.gm.path_mask)
             ]
 
             # Do one iteration of Damped_BFGS
@@ -782,7 +784,7 @@ class Damped_BFGSOptimizer(DummyOptimizer):
             )
 
             # Restore dimensionality of the invhessian
-            self.invhessian[np.ix_(self.gm.fixatoms_mask, self.gm.fixatoms_mask)] = (
+            self.invhessian[np.ix_(self.gm.path_mask, self.gm.path_mask)] = (
                 masked_invhessian
             )
 
-- 
2.43.0


From 695db420f40a5943ccd0b055d43a03928ab6e555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:08:11 +0000
Subject: [PATCH 092/109] fix: normal-mode finite differences report the
 refined dynamical matrix

---
 ipi/engine/motion/phonons.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipi/engine/motion/phonons.py b/ipi/engine/motion/phonons.py
index fc9feb5..76bf941 100644
--- a/ipi/engine/motion/phonons.py
+++ b/ipi/engine/motion/phonons.py
@@ -420,7 +420,7 @@ class NMFDPhononCalculator(FDPhononCalculator):
         self.dm.refdynmatrix = np.dot(
             self.dm.U, np.dot(self.dm.refdynmatrix, np.transpose(self.dm.U))
         )
-        rdm = self.dm.dynmatrix.copy()
+        rdm = self.dm.refdynmatrix.copy()
         self.dm.refdynmatrix = 0.50 * (rdm + rdm.T)
 
 
-- 
2.43.0


From 8abfd1f27eed9a3c7665c79d407459d93dd285be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:08:11 +0000
Subject: [PATCH 093/109] fix: output_shift of dynamical matrices is applied

---
 ipi/engine/motion/phonons.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ipi/engine/motion/phonons.py b/ipi/engine/motion/phonons.py
index 76bf941..11ab0a7 100644
--- a/ipi/engine/motion/phonons.py
+++ b/ipi/engine/motion/phonons.py
@@ -108,7 +108,10 @@ class DynMatrixMover(Motion):
             self.phcalc.transform()
             self.refdynmatrix = self.apply_asr(self.refdynmatrix.copy())
             self.printall(
-                self.prefix, self.refdynmatrix.copy(), fixatoms_dof=self.fixatoms_dof
+                self.prefix,
+                self.refdynmatrix.copy(),
+                deltaw=self.deltaw,
+                fixatoms_dof=self.fixatoms_dof,
             )
             self.finish(
                 status="success",
-- 
2.43.0


From cade018e47e7f1f7d544dd1395a4d2682081e0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:08:11 +0000
Subject: [PATCH 094/109] fix: principal axes of symmetric molecules are
 orthogonal

---
 ipi/engine/motion/phonons.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ipi/engine/motion/phonons.py b/ipi/engine/motion/phonons.py
index 11ab0a7..4ddcfa7 100644
--- a/ipi/engine/motion/phonons.py
+++ b/ipi/engine/motion/phonons.py
@@ -221,7 +221,7 @@ class DynMatrixMover(Motion):
                     * self.m[k]
                 )
 
-            U = (np.linalg.eig(moi))[1]
+            U = (np.linalg.eigh(moi))[1]
             R = np.dot(qminuscom, U)
             D = np.zeros((3, 3 * self.beads.natoms), float)
 
@@ -259,7 +259,7 @@ class DynMatrixMover(Motion):
                     * self.m[k]
                 )
 
-            U = (np.linalg.eig(moi))[1]
+            U = (np.linalg.eigh(moi))[1]
             R = np.dot(qminuscom, U)
             D = np.zeros((6, 3 * self.beads.natoms), float)
 
-- 
2.43.0


From 63833006142cd6ffa28011fc3fdd235a1d5e6bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:08:11 +0000
Subject: [PATCH 095/109] fix: dynamical matrices of linear molecules can be
 computed

---
 ipi/engine/motion/phonons.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ipi/engine/motion/phonons.py b/ipi/engine/motion/phonons.py
index 4ddcfa7..2a37536 100644
--- a/ipi/engine/motion/phonons.py
+++ b/ipi/engine/motion/phonons.py
@@ -239,7 +239,7 @@ class DynMatrixMover(Motion):
             r = np.dot(transfmatrix.T, np.dot(dm, transfmatrix))
             return r
 
-        elif self.asr == "poly":
+        elif self.asr in ("poly", "lin"):
             # Computes the centre of mass.
             com = (
                 np.dot(
@@ -280,8 +280,13 @@ class DynMatrixMover(Motion):
                     R[iatom, 0] * U[idof, 1] - R[iatom, 1] * U[idof, 0]
                 ) / self.ism[i]
 
+            if self.asr == "lin":
+                # there is no rotation around the axis of a linear molecule,
+                # the principal axis with the smallest moment of inertia
+                D = np.delete(D, 3, axis=0)
+
             # Computes unit vecs.
-            for k in range(6):
+            for k in range(len(D)):
                 D[k] = D[k] / np.linalg.norm(D[k])
 
             # Computes the transformation matrix.
-- 
2.43.0


From dd528c95d6abf31e67f63bece1b733ecfef2188b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:17 +0000
Subject: [PATCH 096/109] fix: thermal momenta of open paths use the masses of
 the open-path modes

---
 ipi/engine/initializer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ipi/engine/initializer.py b/ipi/engine/initializer.py
index cd14cb3..7c2e462 100644
--- a/ipi/engine/initializer.py
+++ b/ipi/engine/initializer.py
@@ -509,12 +509,15 @@ class Initializer:
                 rbeads = Beads(rnatoms, simul.beads.nbeads)
                 if v.index < 0:
                     rbeads.m[:] = simul.beads.m
+                    ropen = simul.nm.open_paths
                 else:
                     rbeads.m[:] = simul.beads.m[v.index]
+                    ropen = [0] if v.index in simul.nm.open_paths else []
                 rnm = NormalModes(
                     mode=simul.nm.mode,
                     transform_method=simul.nm.transform_method,
                     freqs=simul.nm.nm_freqs,
+                    open_paths=ropen,
                 )
                 rens = Ensemble(temp=simul.ensemble.temp)
                 rmv = Motion()
-- 
2.43.0


From d5ea26920bfdfdbccab7821fdd7dc494d949935c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:18 +0000
Subject: [PATCH 097/109] fix: checkpoints with options of the FFT are
 well-formed

---
 ipi/inputs/normalmodes.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/ipi/inputs/normalmodes.py b/ipi/inputs/normalmodes.py
index 4742540..e1fd6a3 100644
--- a/ipi/inputs/normalmodes.py
+++ b/ipi/inputs/normalmodes.py
@@ -159,21 +159,19 @@ class InputNormalModes(Input):
             },
         ),
         "fft_threads": (
-            InputValue,
+            InputAttribute,
             {
                 "dtype": int,
                 "default": 1,
                 "help": "The number of threads to be used for the FFT.",
-                "dimension": None,
             },
         ),
         "fft_float32": (
-            InputValue,
+            InputAttribute,
             {
                 "dtype": bool,
                 "default": False,
                 "help": "Whether to use single precision FFT.",
-                "dimension": None,
             },
         ),
     }
-- 
2.43.0


From 4da82e2043a9b794f4e468f706599da255c2cc25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:19 +0000
Subject: [PATCH 098/109] fix: a climbing-image NEB can be restarted

---
 ipi/engine/motion/neb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipi/engine/motion/neb.py b/ipi/engine/motion/neb.py
index 295c52e..b113a45 100644
--- a/ipi/engine/motion/neb.py
+++ b/ipi/engine/motion/neb.py
@@ -467,7 +467,7 @@ class NEBMover(Motion):
                     self.hessian = self.hessian[
                         np.ix_(self.climbgm.fixatoms_mask, self.climbgm.fixatoms_mask)
                     ]
-                if self.hessian.size == 0:
+                elif self.hessian.size == 0:
                     info(
                         " @NEBMover: No climbing Hessian provided, "
                         "starting from unity matrix",
-- 
2.43.0


From c9e9c622c68f0b820c5a2e4ecb78adf5ff917c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:37 +0000
Subject: [PATCH 099/109] fix: checkpoints of committees of direct force fields
 can be written

---
 ipi/inputs/forcefields.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ipi/inputs/forcefields.py b/ipi/inputs/forcefields.py
index f1c55ff..4b30353 100644
--- a/ipi/inputs/forcefields.py
+++ b/ipi/inputs/forcefields.py
@@ -1020,6 +1020,10 @@ class InputFFCommittee(InputForceField):
                     _iobj = InputFFSocket()
                     _iobj.store(_obj)
                     self.extra[_ii] = ("ffsocket", _iobj)
+                elif isinstance(_obj, FFDirect):
+                    _iobj = InputFFDirect()
+                    _iobj.store(_obj)
+                    self.extra[_ii] = ("ffdirect", _iobj)
                 elif isinstance(_obj, FFLennardJones):
                     _iobj = InputFFLennardJones()
                     _iobj.store(_obj)
-- 
2.43.0


From 5ac81325f17fdcff61c988e9c517fefadf603225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:33 +0000
Subject: [PATCH 100/109] fix: ffcavphsocket uses all of its socket options

---
 ipi/inputs/forcefields.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ipi/inputs/forcefields.py b/ipi/inputs/forcefields.py
index 4b30353..755f862 100644
--- a/ipi/inputs/forcefields.py
+++ b/ipi/inputs/forcefields.py
@@ -1327,7 +1327,10 @@ class InputFFCavPhSocket(InputFFSocket):
                 mode=self.mode.fetch(),
                 timeout=self.timeout.fetch(),
                 match_mode=self.matching.fetch(),
+                max_workers=self.max_workers.fetch(),
                 exit_on_disconnect=self.exit_on_disconnect.fetch(),
+                consolidate_messages=self.consolidate_messages.fetch(),
+                batch_size=self.batch_size.fetch(),
             ),
             charge_array=self.charge_array.fetch(),
             apply_photon=self.apply_photon.fetch(),
-- 
2.43.0


From 5e83969086bd5d72bf28e2d8a84b6ee546d3eac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:20 +0000
Subject: [PATCH 101/109] fix: labels that end with a prime keep it when they
 are read

---
 ipi/utils/io/inputs/io_xml.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ipi/utils/io/inputs/io_xml.py b/ipi/utils/io/inputs/io_xml.py
index d9a89ab..f1d9f48 100644
--- a/ipi/utils/io/inputs/io_xml.py
+++ b/ipi/utils/io/inputs/io_xml.py
@@ -388,7 +388,11 @@ def read_list(data, delims="[]", split=",", strip=" \n\t'"):
 
     rlist = data[begin + 1 : end].split(split)
     for i in range(len(rlist)):
-        rlist[i] = rlist[i].strip(strip)
+        item = rlist[i].strip(strip.replace("'", ""))
+        if "'" in strip and item.startswith("'"):
+            # removes the quotes, but not the primes at the end of a label
+            item = item[1:-1] if len(item) > 1 and item.endswith("'") else item[1:]
+        rlist[i] = item
 
     # handles empty lists correctly
     if len(rlist) == 1 and rlist[0] == "":
-- 
2.43.0


From 769da51e0d88b24a07ce4799d363cca2f1000daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:38 +0000
Subject: [PATCH 102/109] fix: special characters are escaped in checkpoints

---
 ipi/utils/inputvalue.py       | 15 ++++++++++++---
 ipi/utils/io/inputs/io_xml.py |  5 +++--
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/ipi/utils/inputvalue.py b/ipi/utils/inputvalue.py
index 76c37e5..6d990a2 100644
--- a/ipi/utils/inputvalue.py
+++ b/ipi/utils/inputvalue.py
@@ -19,6 +19,7 @@ bad data types, and failure to input required fields.
 
 
 from copy import copy
+from xml.sax.saxutils import escape
 
 import numpy as np
 
@@ -1039,7 +1040,8 @@ class InputAttribute(Input):
            A string giving the stored value in the appropriate format.
         """
 
-        return name + "='" + write_type(self.type, self.value) + "'"
+        text = escape(write_type(self.type, self.value), {"'": "&apos;"})
+        return name + "='" + text + "'"
 
 
 class InputValue(InputAttribute):
@@ -1144,7 +1146,10 @@ class InputValue(InputAttribute):
         """
 
         return Input.write(
-            self, name=name, indent=indent, text=write_type(self.type, self.value)
+            self,
+            name=name,
+            indent=indent,
+            text=escape(write_type(self.type, self.value)),
         )
 
     def parse(self, xml=None, text=""):
@@ -1174,6 +1179,10 @@ class InputRaw(InputValue):
         Input.parse(self, xml=None, text="")
         self.value = xml_write(xml, text=text)
 
+    def write(self, name="", indent=""):
+        # the value is xml already
+        return Input.write(self, name=name, indent=indent, text=self.value)
+
 
 ELPERLINE = 5
 
@@ -1283,7 +1292,7 @@ class InputArray(InputValue):
         for i, v in enumerate(self.value):
             if len(self.value) > ELPERLINE and i > 0 and i % ELPERLINE == 0:
                 rstr += "\n" + indent + "   "
-            rstr += write_type(self.type, v) + ", "
+            rstr += escape(write_type(self.type, v)) + ", "
 
         rstr = rstr.rstrip(", ")  # get rid of trailing commas
         if len(self.value) > ELPERLINE:
diff --git a/ipi/utils/io/inputs/io_xml.py b/ipi/utils/io/inputs/io_xml.py
index f1d9f48..21e729b 100644
--- a/ipi/utils/io/inputs/io_xml.py
+++ b/ipi/utils/io/inputs/io_xml.py
@@ -9,6 +9,7 @@ files with in the XML format.
 
 from xml.sax import parseString, parse
 from xml.sax.handler import ContentHandler
+from xml.sax.saxutils import escape
 
 import numpy as np
 from ipi import ipi_global_settings
@@ -224,7 +225,7 @@ def xml_write(xml, name="", indent="", text=""):
     if not name == "":
         rstr = indent + "<" + name
         for a, v in xml.attribs.items():
-            rstr += " " + a + "='" + v + "'"
+            rstr += " " + a + "='" + escape(v, {"'": "&apos;"}) + "'"
         rstr += ">"
 
     rstr += text.strip()
@@ -232,7 +233,7 @@ def xml_write(xml, name="", indent="", text=""):
     inline = False
     for a, v in xml.fields:
         if a == "_text":
-            rstr += v.strip()
+            rstr += escape(v.strip())
             if v.strip() != "":
                 inline = True
         else:
-- 
2.43.0


From f568468fb7921ce1c2879a8c7b07bc923453d939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:14 +0000
Subject: [PATCH 103/109] fix: the forces of a climbing image are its physical
 forces

---
 ipi/engine/motion/neb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipi/engine/motion/neb.py b/ipi/engine/motion/neb.py
index b113a45..dedf88e 100644
--- a/ipi/engine/motion/neb.py
+++ b/ipi/engine/motion/neb.py
@@ -920,7 +920,7 @@ class NEBMover(Motion):
             # so that recalculation won't be triggered after the step.
             tmp_f = self.full_f.copy()
             tmp_v = self.full_v.copy()
-            tmp_f[self.cl_indx, self.climbgm.fixatoms_mask] = self.nebgrad
+            tmp_f[self.cl_indx] = self.climbgm.rforces.f
             tmp_v[self.cl_indx] = self.nebpot
             self.forces.transfer_forces_manual(
                 new_q=[
-- 
2.43.0


From 0d7e46cfbf5ec8fcda56818e200e5df41660443e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:14 +0000
Subject: [PATCH 104/109] fix: checkpoints of finished path searches can be
 read

---
 ipi/inputs/motion/neb.py       | 2 +-
 ipi/inputs/motion/stringmep.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ipi/inputs/motion/neb.py b/ipi/inputs/motion/neb.py
index 4ea898f..36a4629 100644
--- a/ipi/inputs/motion/neb.py
+++ b/ipi/inputs/motion/neb.py
@@ -262,7 +262,7 @@ class InputNEB(InputDictionary):
             InputValue,
             {
                 "dtype": str,
-                "options": ["endpoints", "neb", "climb"],
+                "options": ["endpoints", "neb", "climb", "converged"],
                 "default": "neb",
                 "help": "Stage of the NEB pipeline: optimization of endpoints, "
                 "NEB itself, climbing image",
diff --git a/ipi/inputs/motion/stringmep.py b/ipi/inputs/motion/stringmep.py
index 0490895..52015c5 100644
--- a/ipi/inputs/motion/stringmep.py
+++ b/ipi/inputs/motion/stringmep.py
@@ -250,7 +250,7 @@ class InputStringMEP(InputDictionary):
             InputValue,
             {
                 "dtype": str,
-                "options": ["endpoints", "string", "climb"],
+                "options": ["endpoints", "string", "climb", "converged"],
                 "default": "string",
                 "help": "Stage of the String pipeline: optimization of the endpoints, "
                 "string opt., climbing image opt.",
-- 
2.43.0


From 443a04a96643c520b82c1dec8f8a2bf6480d9a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:14 +0000
Subject: [PATCH 105/109] fix: damped BFGS works when some coordinates of an
 atom are fixed

---
 ipi/utils/mintools.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ipi/utils/mintools.py b/ipi/utils/mintools.py
index 84b3e44..0e98215 100644
--- a/ipi/utils/mintools.py
+++ b/ipi/utils/mintools.py
@@ -947,7 +947,9 @@ def Damped_BFGS(x0, fdf, fdf0, hessian, big_step):
     info(" @DampedBFGS: Direction quality: %.4f." % quality, verbosity.debug)
 
     # I use maximal cartesian atomic displacement as a measure of step length
-    maxdispl = np.amax(np.linalg.norm(sk.reshape(-1, 3), axis=1))
+    # (or the maximal component, if some coordinates of an atom are not active)
+    ndim = 3 if sk.size % 3 == 0 else 1
+    maxdispl = np.amax(np.linalg.norm(sk.reshape(-1, ndim), axis=1))
     info(" @DampedBFGS: big_step = %.6f" % big_step, verbosity.debug)
     if maxdispl > big_step:
         info(
@@ -958,7 +960,7 @@ def Damped_BFGS(x0, fdf, fdf0, hessian, big_step):
 
     info(
         " @DampedBFGS: maxdispl:                %.6f bohr"
-        % (np.amax(np.linalg.norm(sk.reshape(-1, 3), axis=1))),
+        % (np.amax(np.linalg.norm(sk.reshape(-1, ndim), axis=1))),
         verbosity.debug,
     )
 
-- 
2.43.0


From 7b43d6df3fc40afe93a5390a2169d71c32116bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:22 +0000
Subject: [PATCH 106/109] fix: instantons with fixed atoms can recompute their
 Hessian

---
 ipi/engine/motion/instanton.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ipi/engine/motion/instanton.py b/ipi/engine/motion/instanton.py
index 835a325..17d797c 100644
--- a/ipi/engine/motion/instanton.py
+++ b/ipi/engine/motion/instanton.py
@@ -1436,6 +1436,10 @@ class HessianOptimizer(DummyOptimizer):
             else:
                 phys_hessian = active_hessian
 
+            # get_hessian returns the hessian of all the degrees of freedom
+            self.optarrays["hessian"][:] = phys_hessian
+            return
+
         self.optarrays["hessian"][:] = self.fix.get_full_vector(phys_hessian, 2)
 
     def print_hess(self, step):
-- 
2.43.0


From 51710236c35f5883de6e1c29ccf50d7fe4c4a295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:22 +0000
Subject: [PATCH 107/109] fix: an interrupted computation of a Hessian can be
 resumed

---
 ipi/utils/hesstools.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ipi/utils/hesstools.py b/ipi/utils/hesstools.py
index 817e50c..f3f6aeb 100644
--- a/ipi/utils/hesstools.py
+++ b/ipi/utils/hesstools.py
@@ -213,12 +213,12 @@ def get_hessian(
         except IOError:
             pass
         else:
-            h[:, :] = b[:, :]
-            i0 = i
             print(("We have found a temporary file ( hessian_" + str(i) + ".tmp). "))
             if (
                 b.shape == h.shape
             ):  # Check that the last temporary file was properly written
+                h[:, :] = b[:, :]
+                i0 = i
                 break
             else:
                 continue
@@ -272,9 +272,11 @@ def get_hessian(
             # COMBINE
             g = (f1 - f2) / (2 * d)
             h[j, :] = g.flatten()
-            f = open("hessian_" + str(j) + ".tmp", "w")
+            # renames the file when it is complete, so that a crash leaves no partial one
+            f = open("hessian_" + str(j) + ".tmp.part", "w")
             np.savetxt(f, h)
             f.close()
+            os.replace("hessian_" + str(j) + ".tmp.part", "hessian_" + str(j) + ".tmp")
 
             if friction:
                 eta_h[:, :, :, j] = (eta1 - eta2) / (2 * d)
-- 
2.43.0


From 710e686700961e618433362eb2d2414c365c5f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:50 +0000
Subject: [PATCH 108/109] fix: a NEB can be restarted when its climbing stage
 is about to begin

---
 ipi/engine/motion/neb.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ipi/engine/motion/neb.py b/ipi/engine/motion/neb.py
index dedf88e..5afc267 100644
--- a/ipi/engine/motion/neb.py
+++ b/ipi/engine/motion/neb.py
@@ -467,7 +467,11 @@ class NEBMover(Motion):
                     self.hessian = self.hessian[
                         np.ix_(self.climbgm.fixatoms_mask, self.climbgm.fixatoms_mask)
                     ]
-                elif self.hessian.size == 0:
+                elif self.hessian.size in (
+                    0,
+                    # the path has just converged, and climbing has not begun
+                    ((self.beads.nbeads - 2) * n_activedim) ** 2,
+                ):
                     info(
                         " @NEBMover: No climbing Hessian provided, "
                         "starting from unity matrix",
-- 
2.43.0


From 799750dbf82fdb9a0bc462fe184ecdddbd3c17b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:53:28 +0000
Subject: [PATCH 109/109] fix: banded matrices of instantons have no
 uninitialised elements

---
 ipi/utils/instools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipi/utils/instools.py b/ipi/utils/instools.py
index 9293507..55f1bdd 100644
--- a/ipi/utils/instools.py
+++ b/ipi/utils/instools.py
@@ -103,7 +103,7 @@ def sym_band(A):
     u = len(A) - 1
     lu = u
     M = A.shape[1]
-    newA = np.empty((u + lu + 1, M))
+    newA = np.zeros((u + lu + 1, M))
     newA[: u + 1] = A
     for i in range(1, lu + 1):
         newA[u + i, : M - i] = A[-1 - i, i:]
-- 
2.43.0

