From b7dbc882035468e76cb0c4637d77b9c05af98262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:41 +0000
Subject: [PATCH 01/33] fix: verify the CRC of write responses

A read or error response whose function code was corrupted in transit to 0x06
decoded as a write echo, which carried no CRC check, so HR(base_register) was
overwritten in the inverter's cache (and a pending write could be resolved).
---
 givenergy_modbus/pdu/write_registers.py | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/givenergy_modbus/pdu/write_registers.py b/givenergy_modbus/pdu/write_registers.py
index 946686b..b0d43d1 100644
--- a/givenergy_modbus/pdu/write_registers.py
+++ b/givenergy_modbus/pdu/write_registers.py
@@ -1,6 +1,8 @@
 import logging
 from abc import ABC
 
+from crccheck.crc import CrcModbus
+
 from givenergy_modbus.codec import PayloadDecoder
 from givenergy_modbus.exceptions import InvalidPduState
 from givenergy_modbus.pdu.transparent import TransparentMessage, TransparentRequest, TransparentResponse
@@ -443,6 +445,29 @@ class WriteHoldingRegisterResponse(WriteHoldingRegister, TransparentResponse):
         known = WRITE_SAFE_REGISTERS | INSTALLER_WRITE_REGISTERS
         if self.register not in known and not self.error:
             _logger.warning(f"{self} is not safe for writing")
+        self._validate_check_code()
+
+    def _validate_check_code(self) -> None:
+        """Flag a decoded write echo whose CRC does not match the received bytes.
+
+        The same unified CRC protects every Transparent response (see
+        `TransparentMessage._update_check_code`). Without this check a read response whose
+        function code was corrupted in transit to 0x06 is taken for a genuine write echo of
+        HR(base_register) and committed to the inverter's cache.
+        """
+        raw_frame = getattr(self, "raw_frame", None)
+        if not raw_frame or len(raw_frame) < 28:
+            return
+        computed = CrcModbus().process(raw_frame[26:-2]).final()
+        expected = ((computed & 0xFF) << 8) | ((computed >> 8) & 0xFF)
+        if expected != self.check:
+            # Set only on failure: Plant.update() and the client ignore a crc_failed frame exactly
+            # as they do a CRC-failed read response.
+            self.crc_failed = True
+            _logger.warning(
+                f"Response failed CRC integrity check on {self}: "
+                f"wire=0x{self.check:04x} computed=0x{expected:04x} — commit skipped"
+            )
 
 
 __all__ = ("INSTALLER_WRITE_REGISTERS",)
-- 
2.43.0


From c64377382cf2ab1786910a0e173166a7774cd218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:52 +0000
Subject: [PATCH 02/33] fix: a retrying request no longer steals a newer
 same-shaped caller's response

A caller between attempts re-registered its expected response over that of a
newer caller for the same registers, so the newer caller timed out although
its request had been answered. The newest caller now keeps the registration.
---
 givenergy_modbus/client/client.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/givenergy_modbus/client/client.py b/givenergy_modbus/client/client.py
index 3281a7e..7af5ed4 100644
--- a/givenergy_modbus/client/client.py
+++ b/givenergy_modbus/client/client.py
@@ -502,6 +502,10 @@ class Client:
             self.plant.splice_reject_heal_seconds = splice_reject_heal_seconds
         self.tx_queue = Queue(maxsize=20)
         self.expected_responses = {}
+        # Which call registered each expected response (monotonic per Client, see
+        # send_request_and_await_response).
+        self._expected_response_seq: dict[int, int] = {}
+        self._call_seq = 0
         self._shutting_down = False
         self._connection_lost = False
         # Reader-EOF reconnect-churn coalescing state (#355-style, see _note_eof_drop). Persists
@@ -1750,17 +1754,15 @@ class Client:
         # mark the expected response
         expected_response = request.expected_response()
         expected_shape_hash = expected_response.shape_hash()
-        existing_response_future = self.expected_responses.get(expected_shape_hash, None)
-        if existing_response_future and not existing_response_future.done():
-            _logger.debug(f"Cancelling existing in-flight request and replacing: {request}")
-            existing_response_future.cancel()
+        self._call_seq += 1
+        call_seq = self._call_seq
 
         raw_frame = request.encode()
 
         def _discard(fut: "Future[TransparentResponse]") -> None:
             # Abandon a future and remove its registration — but only if it's still the one
             # mapped under expected_shape_hash. A newer same-shaped caller may have replaced it
-            # (see existing_response_future above); evicting that newer mapping would leave the
+            # (see existing_response_future below); evicting that newer mapping would leave the
             # newer caller unable to receive its response.
             fut.cancel()
             if self.expected_responses.get(expected_shape_hash) is fut:
@@ -1768,8 +1770,18 @@ class Client:
 
         tries = 0
         while tries <= retries:
+            # At most one same-shaped request is in flight, and the newest caller wins. Checked on
+            # every attempt: a caller that was between attempts when a newer one arrived must not
+            # re-register over it and steal the response the newer caller is waiting for.
+            existing_response_future = self.expected_responses.get(expected_shape_hash, None)
+            if existing_response_future and not existing_response_future.done():
+                if self._expected_response_seq.get(expected_shape_hash, 0) > call_seq:
+                    raise asyncio.CancelledError(f"replaced by a newer in-flight request: {request}")
+                _logger.debug(f"Cancelling existing in-flight request and replacing: {request}")
+                existing_response_future.cancel()
             response_future: Future[TransparentResponse] = asyncio.get_running_loop().create_future()
             self.expected_responses[expected_shape_hash] = response_future
+            self._expected_response_seq[expected_shape_hash] = call_seq
             frame_sent = asyncio.get_running_loop().create_future()
             try:
                 await asyncio.wait_for(self.tx_queue.put((raw_frame, frame_sent, response_future)), timeout=5.0)
-- 
2.43.0


From 1580dfdcfac1fc2497bbfba0230431b371566285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:25 +0000
Subject: [PATCH 03/33] fix: treat a socket error while reading as a lost
 connection

A reset/timeout surfacing from reader.read() killed the consumer task without
tearing the connection down: in-flight callers waited out their full timeout and
got a plain TimeoutError, and the client kept reporting itself connected.
---
 givenergy_modbus/client/client.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/givenergy_modbus/client/client.py b/givenergy_modbus/client/client.py
index 7af5ed4..99aa006 100644
--- a/givenergy_modbus/client/client.py
+++ b/givenergy_modbus/client/client.py
@@ -1581,7 +1581,12 @@ class Client:
     async def _task_network_consumer(self):
         """Task for orchestrating incoming data."""
         while hasattr(self, "reader") and self.reader and not self.reader.at_eof():
-            frame = await self.reader.read(300)
+            try:
+                frame = await self.reader.read(300)
+            except OSError as e:
+                # RST, ETIMEDOUT, EHOSTUNREACH…: the transport died without a clean EOF.
+                _logger.debug(f"network_consumer: socket error while reading: {e!r}")
+                break
             if self._capture_sink is not None and frame and self._capture_redactor_rx is not None:
                 self._emit_to_sink("rx", self._capture_redactor_rx.feed(frame))
             async for message in self.framer.decode(frame):
-- 
2.43.0


From aa6493a34810c7c8871ab4a87ee4753518ae17b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:40 +0000
Subject: [PATCH 04/33] fix: close() survives any socket error from the dead
 transport

Only ConnectionResetError was swallowed, so after e.g. ETIMEDOUT or EHOSTUNREACH
close() raised half way through its clean-up and every later connect() (which
closes first) failed the same way.
---
 givenergy_modbus/client/client.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/givenergy_modbus/client/client.py b/givenergy_modbus/client/client.py
index 99aa006..31463b7 100644
--- a/givenergy_modbus/client/client.py
+++ b/givenergy_modbus/client/client.py
@@ -571,7 +571,9 @@ class Client:
             self.writer.close()
             try:
                 await self.writer.wait_closed()
-            except ConnectionResetError:
+            except OSError:
+                # Whatever already broke the transport (reset, ETIMEDOUT, EHOSTUNREACH…) is
+                # re-raised here; it must not stop the clean-up, or connect() never works again.
                 pass
             del self.writer
 
-- 
2.43.0


From fcd14adeb67e81cd2738ad9827af3ec86435787d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:05 +0000
Subject: [PATCH 05/33] fix: release the sender whose frame is on the wire when
 the producer is cancelled

The producer dequeues a frame before draining it, so cancelling it mid-drain (the
peer dropped, or close() ran) left that sender's futures unresolved: it hung until
the stuck-producer safety net fired and then tore down whatever connection was
current by then.
---
 givenergy_modbus/client/client.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/givenergy_modbus/client/client.py b/givenergy_modbus/client/client.py
index 31463b7..4728bcf 100644
--- a/givenergy_modbus/client/client.py
+++ b/givenergy_modbus/client/client.py
@@ -1694,6 +1694,17 @@ class Client:
                 self.tx_queue.task_done()
                 self._abort_connection(exc)
                 return
+            except asyncio.CancelledError:
+                # close() or the teardown ended this task mid-drain. The frame is already
+                # dequeued, so neither can reach its futures — release the sender here,
+                # the same way each treats the frames still queued.
+                for fut in (frame_sent, response_future):
+                    if fut is not None and not fut.done():
+                        if self._connection_lost:
+                            fut.set_exception(ConnectionLost("connection lost while sending"))
+                        else:
+                            fut.cancel()
+                raise
             self.tx_queue.task_done()
             if frame_sent and not frame_sent.done():
                 frame_sent.set_result(True)
-- 
2.43.0


From 0db8b0e1acf082ffbf37a19135c0fe623a397b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:28 +0000
Subject: [PATCH 06/33] fix: a stuck send that tears the connection down
 reports ConnectionLost

The teardown fails every other caller with ConnectionLost; the caller that noticed
got a plain TimeoutError, indistinguishable from a device that did not answer.
---
 givenergy_modbus/client/client.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/givenergy_modbus/client/client.py b/givenergy_modbus/client/client.py
index 4728bcf..dac53a8 100644
--- a/givenergy_modbus/client/client.py
+++ b/givenergy_modbus/client/client.py
@@ -1831,12 +1831,13 @@ class Client:
                 _discard(response_future)
                 raise
             except TimeoutError as exc:
-                # Drain is bounded (#356), so reaching this means the producer is
-                # wedged somewhere unknown — a genuine bug. Tear down so the
-                # system recovers, and keep the honest 'stuck' signal.
+                # Either the peer stopped accepting data (a stalled drain that hasn't hit
+                # its own bound yet) or the producer is wedged somewhere unknown — a genuine
+                # bug (#356). Tear down so the system recovers, and say so: keep the honest
+                # 'stuck' signal, typed as the connection loss it now is.
                 _discard(response_future)
                 self._abort_connection(ConnectionLost("producer stuck — tearing down"))
-                raise TimeoutError("Producer task is stuck — frame not sent") from exc
+                raise ConnectionLost("Producer task is stuck — frame not sent") from exc
             try:
                 await asyncio.wait_for(response_future, timeout=timeout)
             except ConnectionLost:
-- 
2.43.0


From dedaff2746b4ecf22c6e57d95992bb108a162c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:25 +0000
Subject: [PATCH 07/33] fix: a connection lost during a discovery probe is not
 an absent device

ConnectionLost is also a TimeoutError, so every probe (and the EMS rollup
cross-check) swallowed it and detect() returned a truncated topology as complete
from a dead connection.
---
 givenergy_modbus/client/client.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/givenergy_modbus/client/client.py b/givenergy_modbus/client/client.py
index dac53a8..a976b94 100644
--- a/givenergy_modbus/client/client.py
+++ b/givenergy_modbus/client/client.py
@@ -634,7 +634,7 @@ class Client:
         )
 
     async def _probe(self, request: TransparentRequest, timeout: float, retries: int) -> bool:
-        """Send a request; return True on success, False on TimeoutError.
+        """Send a request; return True on success, False on TimeoutError (ConnectionLost propagates).
 
         Uses ``retry_delay=0`` so absent-device probes don't pay the silent-
         window-survival cost — detect() does many of these and most are
@@ -645,6 +645,8 @@ class Client:
                 request, timeout=timeout, retries=retries, retry_delay=0, warn_timeout=False
             )
             return True
+        except ConnectionLost:
+            raise  # a dead connection is not an absent device (#356 dual-base ordering)
         except TimeoutError:
             return False
 
@@ -756,6 +758,8 @@ class Client:
                 timeout=timeout,
                 retries=retries,
             )
+        except ConnectionLost:
+            raise  # soft on a silent device, never on a dead connection (#356 dual-base ordering)
         except TimeoutError:
             _logger.warning("detect: EMS rollup read at IR(2040,55) timed out — skipping cross-check")
             return
-- 
2.43.0


From 1303e2fc973c676d0a988ce656512754ce1257d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:52 +0000
Subject: [PATCH 08/33] fix: close() does not wait forever on a peer that
 stopped accepting data

With unsent bytes in the transport, wait_closed() only returns once they flush;
after a stalled drain that never happens, so close() - and with it connect() -
hung. Give up after connect_timeout and abort the transport.
---
 givenergy_modbus/client/client.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/givenergy_modbus/client/client.py b/givenergy_modbus/client/client.py
index a976b94..89f9b40 100644
--- a/givenergy_modbus/client/client.py
+++ b/givenergy_modbus/client/client.py
@@ -570,7 +570,10 @@ class Client:
         if hasattr(self, "writer") and self.writer:
             self.writer.close()
             try:
-                await self.writer.wait_closed()
+                await asyncio.wait_for(self.writer.wait_closed(), timeout=self.connect_timeout)
+            except TimeoutError:
+                # A peer that stopped accepting data never lets the unsent bytes flush.
+                self.writer.transport.abort()
             except OSError:
                 # Whatever already broke the transport (reset, ETIMEDOUT, EHOSTUNREACH…) is
                 # re-raised here; it must not stop the clean-up, or connect() never works again.
-- 
2.43.0


From 79437f899c12975f88b4a3f3ed18927e089786d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:30 +0000
Subject: [PATCH 09/33] fix: start every connection with an empty frame decoder

A reply cut short by a lost connection stayed in the decoder's buffer and was
glued to the first bytes of the next connection, corrupting its first reply.
---
 givenergy_modbus/client/client.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/givenergy_modbus/client/client.py b/givenergy_modbus/client/client.py
index 89f9b40..8fe7490 100644
--- a/givenergy_modbus/client/client.py
+++ b/givenergy_modbus/client/client.py
@@ -545,6 +545,8 @@ class Client:
             await self.close()
         self._shutting_down = False
         self._connection_lost = False
+        # Bytes of a frame cut short by the old connection are not the start of a new one.
+        self.framer = ClientFramer()
         try:
             connection = asyncio.open_connection(host=self.host, port=self.port, flags=socket.TCP_NODELAY)
             self.reader, self.writer = await asyncio.wait_for(connection, timeout=self.connect_timeout)
-- 
2.43.0


From 07e9ee746b3aebfaf0be15709e44a366306d25d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:31 +0000
Subject: [PATCH 10/33] fix: a call left over from a closed connection no
 longer transmits on the next one

Callers sleeping between attempts, blocked on a full transmit queue or timing out
after close() put their frames on the new connection (or tore it down).
---
 givenergy_modbus/client/client.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/givenergy_modbus/client/client.py b/givenergy_modbus/client/client.py
index 8fe7490..a3b9e22 100644
--- a/givenergy_modbus/client/client.py
+++ b/givenergy_modbus/client/client.py
@@ -506,6 +506,8 @@ class Client:
         # send_request_and_await_response).
         self._expected_response_seq: dict[int, int] = {}
         self._call_seq = 0
+        # Bumped by close(): a call made before it must not transmit on a later connection.
+        self._session = 0
         self._shutting_down = False
         self._connection_lost = False
         # Reader-EOF reconnect-churn coalescing state (#355-style, see _note_eof_drop). Persists
@@ -562,6 +564,7 @@ class Client:
         """Disconnect from the remote host and clean up tasks and queues."""
         self.connected = False
         self._shutting_down = True
+        self._session += 1
         if self.tx_queue:
             while not self.tx_queue.empty():
                 _, frame_sent, _ = self.tx_queue.get_nowait()
@@ -1783,6 +1786,7 @@ class Client:
         expected_shape_hash = expected_response.shape_hash()
         self._call_seq += 1
         call_seq = self._call_seq
+        session = self._session
 
         raw_frame = request.encode()
 
@@ -1797,6 +1801,8 @@ class Client:
 
         tries = 0
         while tries <= retries:
+            if session != self._session:
+                raise ConnectionLost("connection closed between attempts")
             # At most one same-shaped request is in flight, and the newest caller wins. Checked on
             # every attempt: a caller that was between attempts when a newer one arrived must not
             # re-register over it and steal the response the newer caller is waiting for.
@@ -1822,6 +1828,9 @@ class Client:
                 # (the queue-front skip-if-resolved check).
                 _discard(response_future)
                 raise ConnectionLost("connection lost while enqueueing — reconnect before sending")
+            if session != self._session:
+                _discard(response_future)
+                raise ConnectionLost("connection closed while enqueueing")
             # Safety-net wait for the producer to actually send this frame. Worst case the
             # frame sits behind a full queue, and the producer sleeps tx_message_wait + up to
             # tx_jitter (plus a drain) between sends — so scale the bound by the full queue
@@ -1845,7 +1854,8 @@ class Client:
                 # bug (#356). Tear down so the system recovers, and say so: keep the honest
                 # 'stuck' signal, typed as the connection loss it now is.
                 _discard(response_future)
-                self._abort_connection(ConnectionLost("producer stuck — tearing down"))
+                if session == self._session:
+                    self._abort_connection(ConnectionLost("producer stuck — tearing down"))
                 raise ConnectionLost("Producer task is stuck — frame not sent") from exc
             try:
                 await asyncio.wait_for(response_future, timeout=timeout)
-- 
2.43.0


From b577c428fa078f2ef6fbc61b43e5cf3a41f3e95d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:36 +0000
Subject: [PATCH 11/33] fix: a command cancelled while still queued is no
 longer transmitted

Cancelling a call whose frame was waiting in the transmit queue left the frame
there, so a write was sent after its caller had been told it was cancelled.
---
 givenergy_modbus/client/client.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/givenergy_modbus/client/client.py b/givenergy_modbus/client/client.py
index a3b9e22..641ddd4 100644
--- a/givenergy_modbus/client/client.py
+++ b/givenergy_modbus/client/client.py
@@ -1821,6 +1821,9 @@ class Client:
             except TimeoutError as exc:
                 _discard(response_future)
                 raise TimeoutError("TX queue full — producer task has likely died") from exc
+            except asyncio.CancelledError:
+                _discard(response_future)
+                raise
             if self._connection_lost:
                 # Lost the race with _abort_connection's queue-drain: our frame was
                 # enqueued after the drain and will never be sent. _discard cancels the
@@ -1848,6 +1851,11 @@ class Client:
                 # Teardown failed this frame's future — propagate the typed signal.
                 _discard(response_future)
                 raise
+            except asyncio.CancelledError:
+                # The caller gave up while the frame was still queued: the producer skips a
+                # frame whose response future is done, so a cancelled command is not sent.
+                _discard(response_future)
+                raise
             except TimeoutError as exc:
                 # Either the peer stopped accepting data (a stalled drain that hasn't hit
                 # its own bound yet) or the producer is wedged somewhere unknown — a genuine
-- 
2.43.0


From fcd90447c98f449e7b538e6ad4601d55bc742fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:33 +0000
Subject: [PATCH 12/33] fix: a cancelled close() or connect() no longer blocks
 every later one

Cancelling wait_closed() cancels the transport's close waiter, and the writer was
still kept, so every later close()/connect() raised CancelledError.
---
 givenergy_modbus/client/client.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/givenergy_modbus/client/client.py b/givenergy_modbus/client/client.py
index 641ddd4..042a54d 100644
--- a/givenergy_modbus/client/client.py
+++ b/givenergy_modbus/client/client.py
@@ -573,17 +573,23 @@ class Client:
         if self.network_producer_task:
             self.network_producer_task.cancel()
         if hasattr(self, "writer") and self.writer:
-            self.writer.close()
+            # Forget the writer before waiting: a cancelled wait_closed() cancels the transport's
+            # close waiter for good, so a later close() must not wait on this writer again.
+            writer = self.writer
+            del self.writer
+            writer.close()
             try:
-                await asyncio.wait_for(self.writer.wait_closed(), timeout=self.connect_timeout)
+                await asyncio.wait_for(writer.wait_closed(), timeout=self.connect_timeout)
             except TimeoutError:
                 # A peer that stopped accepting data never lets the unsent bytes flush.
-                self.writer.transport.abort()
+                writer.transport.abort()
             except OSError:
                 # Whatever already broke the transport (reset, ETIMEDOUT, EHOSTUNREACH…) is
                 # re-raised here; it must not stop the clean-up, or connect() never works again.
                 pass
-            del self.writer
+            except asyncio.CancelledError:
+                writer.transport.abort()
+                raise
 
         if self.network_consumer_task:
             self.network_consumer_task.cancel()
-- 
2.43.0


From 9b52ce26fda77e3718672ef5fac72b5514cbe405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:59 +0000
Subject: [PATCH 13/33] fix: a poll of more than ~34 blocks no longer fails on
 a healthy connection

The frames beyond the 20 the transmit queue holds had a flat 5 s to get in, which a
plant with many battery modules legitimately exceeds at the default frame gap.
---
 givenergy_modbus/client/client.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/givenergy_modbus/client/client.py b/givenergy_modbus/client/client.py
index 042a54d..cc38ab9 100644
--- a/givenergy_modbus/client/client.py
+++ b/givenergy_modbus/client/client.py
@@ -1822,8 +1822,12 @@ class Client:
             self.expected_responses[expected_shape_hash] = response_future
             self._expected_response_seq[expected_shape_hash] = call_seq
             frame_sent = asyncio.get_running_loop().create_future()
+            # A burst larger than the queue (a plant with many battery modules) waits its turn here
+            # for as long as the frames ahead of it legitimately take, like frame_sent below.
+            pending = sum(not fut.done() for fut in self.expected_responses.values())
+            put_timeout = max(5.0, pending * (self.tx_message_wait + self.tx_jitter) * 1.5)
             try:
-                await asyncio.wait_for(self.tx_queue.put((raw_frame, frame_sent, response_future)), timeout=5.0)
+                await asyncio.wait_for(self.tx_queue.put((raw_frame, frame_sent, response_future)), timeout=put_timeout)
             except TimeoutError as exc:
                 _discard(response_future)
                 raise TimeoutError("TX queue full — producer task has likely died") from exc
-- 
2.43.0


From ee648f725f8a0723ec18721742bb6ca37b752d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:31 +0000
Subject: [PATCH 14/33] fix: a capture spanning a reconnect no longer glues two
 connections together

The redactor kept the frame the old connection cut short and prepended it to the
new one, so the next real frame was mis-framed and recorded with its serials.
---
 givenergy_modbus/client/client.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/givenergy_modbus/client/client.py b/givenergy_modbus/client/client.py
index cc38ab9..56b9ae4 100644
--- a/givenergy_modbus/client/client.py
+++ b/givenergy_modbus/client/client.py
@@ -547,8 +547,10 @@ class Client:
             await self.close()
         self._shutting_down = False
         self._connection_lost = False
-        # Bytes of a frame cut short by the old connection are not the start of a new one.
+        # Bytes of a frame cut short by the old connection are not the start of a new one —
+        # neither for the decoder nor for a capture that spans the reconnect.
         self.framer = ClientFramer()
+        self._flush_capture()
         try:
             connection = asyncio.open_connection(host=self.host, port=self.port, flags=socket.TCP_NODELAY)
             self.reader, self.writer = await asyncio.wait_for(connection, timeout=self.connect_timeout)
@@ -1528,6 +1530,12 @@ class Client:
         except Exception:  # noqa: BLE001 — a capture sink must never break the client
             _logger.exception("capture sink raised on %s frame; dropping it and continuing", direction)
 
+    def _flush_capture(self) -> None:
+        """Hand each direction's held tail to the active capture sink, if there is one."""
+        for direction, redactor in (("rx", self._capture_redactor_rx), ("tx", self._capture_redactor_tx)):
+            if redactor is not None:
+                self._emit_to_sink(direction, redactor.flush())  # type: ignore[arg-type]
+
     async def capture_frames(
         self,
         sink: Callable[[Direction, bytes], None],
@@ -1561,9 +1569,7 @@ class Client:
             await asyncio.sleep(duration)
         finally:
             # Flush each direction's held tail so the final bytes aren't lost.
-            for direction, redactor in (("rx", self._capture_redactor_rx), ("tx", self._capture_redactor_tx)):
-                if redactor is not None:
-                    self._emit_to_sink(direction, redactor.flush())  # type: ignore[arg-type]
+            self._flush_capture()
             self._capture_sink = None
             self._capture_redactor_rx = None
             self._capture_redactor_tx = None
-- 
2.43.0


From 0d0bdce95f1a48ed0b5d7b77981572082979b120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:45 +0000
Subject: [PATCH 15/33] fix: redact meter product serials in captured 0x16
 responses

---
 givenergy_modbus/client/client.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/givenergy_modbus/client/client.py b/givenergy_modbus/client/client.py
index 56b9ae4..6630483 100644
--- a/givenergy_modbus/client/client.py
+++ b/givenergy_modbus/client/client.py
@@ -204,13 +204,19 @@ class FrameRedactor:
         # A serial is stored across 5 consecutive registers; decode the group as a
         # string, apply redact_serial, and re-encode back into register values.
         if isinstance(pdu, ReadRegistersResponse) and not pdu.error:
-            reg_type = "HR" if pdu.transparent_function_code == 3 else "IR"
+            reg_type = {3: "HR", 4: "IR", 0x16: "MR"}.get(pdu.transparent_function_code)
             win_base = pdu.base_register
             win_end = win_base + len(pdu.register_values)  # safer than register_count
             for g_type, g_base, g_count in _get_serial_groups():
                 if g_type != reg_type:
                     continue
                 g_end = g_base + g_count
+                if g_type == "MR":
+                    # A meter's product serial is not a GE-shaped string, and nothing else shares
+                    # its namespace: blank whatever part of it is here, as redact_serials() does.
+                    for i in range(max(g_base, win_base), min(g_end, win_end)):
+                        pdu.register_values[i - win_base] = 0
+                    continue
                 if g_base < win_base or g_end > win_end:
                     continue  # group not fully within this response window
                 offset = g_base - win_base
-- 
2.43.0


From 82e5ad68bd46030bc1e5280314e96217f2f2f0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:30 +0000
Subject: [PATCH 16/33] fix: noise around a frame no longer makes the redactor
 record it unredacted

---
 givenergy_modbus/client/client.py | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/givenergy_modbus/client/client.py b/givenergy_modbus/client/client.py
index 6630483..4076cc1 100644
--- a/givenergy_modbus/client/client.py
+++ b/givenergy_modbus/client/client.py
@@ -144,17 +144,26 @@ class FrameRedactor:
                 out += garbage
                 continue
             # Marker is at position 0. Read the length field to know frame size.
-            if len(self._buf) < 6:
-                break  # not enough bytes for the MBAP length field yet
-            hdr_len = int.from_bytes(self._buf[4:6], "big")
-            if hdr_len > 300:
-                # A real frame's MBAP length never exceeds ~300 (60-register cap). A larger
-                # value means this marker is a false positive (random bytes that happen to
-                # match) — emit it intact as garbage and resume scanning, rather than buffering
-                # up to ~64 KB for a frame that will never complete. Mirrors framer.py's guard.
+            # The resynchronisation rules are framer.py's, exactly: a frame the client decodes must
+            # be the frame redacted here, whatever noise surrounds it.
+            if len(self._buf) < 18:
+                break  # shorter than the shortest frame
+            next_marker = self._buf.find(_FRAME_MARKER, 1)
+            if 0 < next_marker < 18:
+                garbage, self._buf = self._buf[:next_marker], self._buf[next_marker:]
+                _logger.debug("FrameRedactor: truncated frame, %db emitted intact", len(garbage))
+                out += garbage
+                continue
+            hdr_len, u_id, f_id = int.from_bytes(self._buf[4:6], "big"), self._buf[6], self._buf[7]
+            if hdr_len > 300 or u_id not in (0, 1) or f_id not in (1, 2):
+                # Not a real frame header, so this marker is a false positive (random bytes that
+                # happen to match) — emit it intact as garbage and resume scanning, rather than
+                # swallowing the real frame behind it in up to ~64 KB that will never complete.
                 skip = len(_FRAME_MARKER)
                 garbage, self._buf = self._buf[:skip], self._buf[skip:]
-                _logger.debug("FrameRedactor: false marker (len=0x%04x), %db emitted intact", hdr_len, len(garbage))
+                _logger.warning(
+                    "FrameRedactor: false marker (len=0x%04x), %db emitted intact", hdr_len, len(garbage)
+                )
                 out += garbage
                 continue
             frame_len = 6 + hdr_len
-- 
2.43.0


From 3c0eac42a4d45b4a0109795d6fd5d3e41ddc34a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:30 +0000
Subject: [PATCH 17/33] fix: blank an unrecognised dongle serial in a redacted
 LAN broadcast

---
 givenergy_modbus/pdu/lan_config.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/givenergy_modbus/pdu/lan_config.py b/givenergy_modbus/pdu/lan_config.py
index ab8b9fc..eeb6447 100644
--- a/givenergy_modbus/pdu/lan_config.py
+++ b/givenergy_modbus/pdu/lan_config.py
@@ -136,7 +136,8 @@ class LanConfigBroadcast(ClientIncomingMessage):
         """
         from givenergy_modbus.model.register import Converter
 
-        redacted_serial = Converter.redact_serial(self.data_adapter_serial_number) or ""
+        # Fail closed, like every other envelope serial: an unrecognised shape is blanked.
+        redacted_serial = Converter.redact_serial_strict(self.data_adapter_serial_number)
         redacted_ip = _zero_ip(self.ip)
         redacted_netmask = _zero_ip(self.netmask)
         redacted_gateway = _zero_ip(self.gateway)
-- 
2.43.0


From 6e91bd28344bbab1611768b60217b41a769ec916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:21 +0000
Subject: [PATCH 18/33] fix: a damaged frame still reads as damaged in a
 redacted capture

---
 givenergy_modbus/client/client.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/givenergy_modbus/client/client.py b/givenergy_modbus/client/client.py
index 4076cc1..47af33b 100644
--- a/givenergy_modbus/client/client.py
+++ b/givenergy_modbus/client/client.py
@@ -243,7 +243,12 @@ class FrameRedactor:
                 for i in range(g_count):
                     pdu.register_values[offset + i] = int.from_bytes(redacted_bytes[i * 2 : i * 2 + 2], "big")
 
-        return pdu.encode()
+        encoded = pdu.encode()
+        if getattr(pdu, "crc_failed", False):
+            # A frame damaged in transit must still read as damaged when the capture is replayed,
+            # so it keeps the CRC it arrived with rather than gaining a fresh, valid one.
+            encoded = encoded[:-2] + frame[-2:]
+        return encoded
 
 
 @dataclass(frozen=True)
-- 
2.43.0


From db3e946d5721df85b05c61940fe7a1349290c798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:18 +0000
Subject: [PATCH 19/33] fix: compare battery temperatures as signed in the
 splice guard

A pack cooling through 0 degC stepped every temperature register from a small
positive value to 655xx, which the guard took for corruption and rejected for as
long as the pack stayed below zero.
---
 givenergy_modbus/model/battery_splice.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/givenergy_modbus/model/battery_splice.py b/givenergy_modbus/model/battery_splice.py
index 633537e..dcee162 100644
--- a/givenergy_modbus/model/battery_splice.py
+++ b/givenergy_modbus/model/battery_splice.py
@@ -93,6 +93,10 @@ IMMUTABLE_SERIAL: frozenset[int] = frozenset(range(BANK_BASE + 50, BANK_BASE + 5
 # Exempt (no physics): status/warning words IR(90-94), i_battery IR(95), num_cycles IR(96),
 # usb_device_inserted IR(115), unknown/reserved IR(99,107-109,116-119).
 
+# Temperature classes are signed two's-complement (as decoded by the Battery model): compare them
+# signed, so a pack cooling from 0.1 to -0.1 °C is a 2-deci step and not a 65,534-deci jump.
+SIGNED_CLASSES: frozenset[str] = frozenset({"cell_temp_deci", "mosfet_temp_deci"})
+
 #: class name -> threshold, for the escrow guard's value-consistency check on a held trip.
 #: Every ``cap_centiAh`` pair shares the same threshold, so the flattening is unambiguous.
 THRESHOLD_BY_CLASS: dict[str, int] = {name: thr for name, _, thr in SCALAR_RULES} | {
@@ -154,6 +158,11 @@ RANGE_BY_CLASS: dict[str, tuple[int, int]] = {
 Trip = tuple[int, str, int, int]
 
 
+def _signed(raw: int) -> int:
+    """Interpret a raw register as a signed 16-bit value."""
+    return raw - 0x10000 if raw & 0x8000 else raw
+
+
 def classify_transition(
     prev: list[int],
     new: list[int],
@@ -179,8 +188,11 @@ def classify_transition(
         for i in idxs:
             if present is not None and i not in present:
                 continue
-            if abs(new[i] - prev[i]) > thr:
-                phys.append((i + BANK_BASE, name, prev[i], new[i]))
+            new_val, old_val = new[i], prev[i]
+            if name in SIGNED_CLASSES:
+                new_val, old_val = _signed(new_val), _signed(old_val)
+            if abs(new_val - old_val) > thr:
+                phys.append((i + BANK_BASE, name, old_val, new_val))
     for name, (hi, lo), thr in PAIR_RULES:
         if present is not None and (hi not in present or lo not in present):
             continue
-- 
2.43.0


From b0fe91e17bc3da45cec60ddcc5273f0445b1c22f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:17 +0000
Subject: [PATCH 20/33] fix: keep foreign blocks out of the battery splice
 guard

A 60-register block with no battery-bank register in it (another bus client's
HR(0,60) or IR(0,60) read at a battery address) was treated as a cold-start
battery frame: it was held, and it displaced the pending first frame, so a
battery polled alongside it was never adopted.
---
 givenergy_modbus/model/plant.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/givenergy_modbus/model/plant.py b/givenergy_modbus/model/plant.py
index b1545e7..cca9d67 100644
--- a/givenergy_modbus/model/plant.py
+++ b/givenergy_modbus/model/plant.py
@@ -1194,6 +1194,12 @@ class Plant(GivEnergyBaseModel):
                 if cached is not None:
                     present.add(i)
 
+        # Not a battery bank at all: a block read from this address by another bus client (holding
+        # registers, IR(0,60), ...) carries none of the guarded registers. It must neither be held
+        # nor displace the pending cold-start frame or the observation clock.
+        if not incoming_present:
+            return True
+
         # Short read: a partial bank can't be physics-classified, so it commits directly — EXCEPT the
         # temp-zero corruption cohort (>=2 cell-mass temps at 0), which would seed an unrecoverable
         # poisoned baseline (#294 — the same hole #289 closed for cold start). A short read is not a
-- 
2.43.0


From d4b3853130325677972b6bcaae92756abe2082c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:46 +0000
Subject: [PATCH 21/33] fix: short battery reads are not a baseline for the
 splice guard

A short read on a cold cache left a partial baseline: the next full frame was
compared only on the registers the short read happened to cover, so it skipped
the corroborating read (a temp-zero cohort frame could be adopted), and a zero
short read had every healthy frame rejected.
---
 givenergy_modbus/model/plant.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/givenergy_modbus/model/plant.py b/givenergy_modbus/model/plant.py
index cca9d67..e6a6ea2 100644
--- a/givenergy_modbus/model/plant.py
+++ b/givenergy_modbus/model/plant.py
@@ -1222,10 +1222,12 @@ class Plant(GivEnergyBaseModel):
         prev_seen = self._splice_last_seen.get(device_address)
         self._splice_last_seen[device_address] = now_ts
 
-        if not present:
-            # Cold start: no last-good to compare against. Don't adopt the first frame blindly — a
+        if present != incoming_present:
+            # Cold start: no last-good bank to compare against. Don't adopt the first frame blindly — a
             # transient splice would poison the baseline (#289). Hold it until a second poll
-            # corroborates it (incoming_present, not present, since the cache is empty here).
+            # corroborates it (incoming_present, not present, since the cache is empty here). A cache
+            # seeded by short reads only is still cold: comparing just the few registers they left
+            # would wave the rest of the frame through — or pin the guard to an unconfirmed value.
             return self._confirm_cold_start_baseline(device_address, list(new), incoming_present, now_ts)
 
         # Internally-impossible last-good (#350): an out-of-band partial splice can seed a baseline
-- 
2.43.0


From dd5ce9aa14969f5e79d618b001961ceda27d5b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:59 +0000
Subject: [PATCH 22/33] fix: only ASCII serials are valid serials

A block of all-0xFFFF registers (or a damaged one with accented bytes) decoded to a string
that str.isalnum()/str.upper() accept, so an address answering garbage counted as a device.
---
 givenergy_modbus/model/register.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/givenergy_modbus/model/register.py b/givenergy_modbus/model/register.py
index b54082e..497e52d 100644
--- a/givenergy_modbus/model/register.py
+++ b/givenergy_modbus/model/register.py
@@ -358,7 +358,7 @@ def is_valid_serial(s: str | None) -> bool:
     inverter (AA0000A000) nor the EMS (EMSYYWWNNN) pattern — surfacing genuinely-unknown
     real-world variants without crying wolf on every EMS poll.
     """
-    if not (s and len(s) == 10 and s.isalnum() and s == s.upper()):
+    if not (s and len(s) == 10 and s.isascii() and s.isalnum() and s == s.upper()):
         return False
     if not (_SERIAL_PATTERN.fullmatch(s) or _EMS_SERIAL_PATTERN.fullmatch(s)):
         _logger.warning("serial number %r is valid but matches no known GivEnergy pattern", s)
-- 
2.43.0


From 8257e6abaca123e1c13b7ba2fe0c6d264eeb4320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:59 +0000
Subject: [PATCH 23/33] fix: an unknown device type code no longer makes
 inverter models raise

Reading the computed battery-energy fields or slot_map, and hence dumping the model, raised
ValueError when HR(0) held a code of no known family.
---
 givenergy_modbus/model/inverter.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/givenergy_modbus/model/inverter.py b/givenergy_modbus/model/inverter.py
index bcf65a5..73d518d 100644
--- a/givenergy_modbus/model/inverter.py
+++ b/givenergy_modbus/model/inverter.py
@@ -1111,7 +1111,10 @@ class SinglePhaseInverter(  # type: ignore[valid-type,misc]
         arm_fw = self.arm_firmware_version  # type: ignore[attr-defined]
         if dtc is None or arm_fw is None:
             return None
-        model = resolve_model(int(dtc, 16), int(arm_fw))
+        try:
+            model = resolve_model(int(dtc, 16), int(arm_fw))
+        except ValueError:  # device type code of no known family
+            return None
         from givenergy_modbus.model.manifest import battery_energy_source
 
         alt = battery_energy_source(model, metric, arm_fw=int(arm_fw))
@@ -1184,7 +1187,10 @@ class SinglePhaseInverter(  # type: ignore[valid-type,misc]
         arm_fw = self.arm_firmware_version  # type: ignore[attr-defined]
         if dtc is None or arm_fw is None:
             return SINGLE_PHASE_SLOTS
-        model = resolve_model(int(dtc, 16), int(arm_fw))
+        try:
+            model = resolve_model(int(dtc, 16), int(arm_fw))
+        except ValueError:  # device type code of no known family
+            return SINGLE_PHASE_SLOTS
         if has_extended_slots(model, int(arm_fw)):
             return EXTENDED_SLOTS
         return SINGLE_PHASE_SLOTS
-- 
2.43.0


From a7febdc9af7fe9c7e272ae6cb00d625e38e6e9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:59 +0000
Subject: [PATCH 24/33] fix: skip a direct source with an unknown device type
 code in Plant.inverters

---
 givenergy_modbus/model/plant.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/givenergy_modbus/model/plant.py b/givenergy_modbus/model/plant.py
index e6a6ea2..c4ac41d 100644
--- a/givenergy_modbus/model/plant.py
+++ b/givenergy_modbus/model/plant.py
@@ -2107,7 +2107,10 @@ class Plant(GivEnergyBaseModel):
                 if raw_dtc is None:
                     continue
                 arm_fw = cache.get(HR(21)) or 0
-                model = resolve_model(raw_dtc, arm_fw)
+                try:
+                    model = resolve_model(raw_dtc, arm_fw)
+                except ValueError:  # device type code of no known family
+                    continue
                 inv = select_inverter(model, cache)
                 sn = getattr(inv, "serial_number", None)
                 if sn:
-- 
2.43.0


From 33008dcb8f2e5f9db7a03bf93f603e7598e4a501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:59 +0000
Subject: [PATCH 25/33] fix: plant_enabled is true for every non-zero HR(2040)

It was derived from the Status enum, which is None for values the enum does not name.
---
 givenergy_modbus/model/ems.py | 21 ++++++---------------
 1 file changed, 6 insertions(+), 15 deletions(-)

diff --git a/givenergy_modbus/model/ems.py b/givenergy_modbus/model/ems.py
index c043b11..1950713 100644
--- a/givenergy_modbus/model/ems.py
+++ b/givenergy_modbus/model/ems.py
@@ -3,7 +3,7 @@
 from enum import IntEnum
 from typing import ClassVar
 
-from pydantic import ConfigDict, computed_field, create_model
+from pydantic import ConfigDict, create_model
 
 from givenergy_modbus.client.commands import _EmsCommands
 from givenergy_modbus.model.devices import InverterSummary
@@ -58,6 +58,11 @@ class EmsRegisterGetter(RegisterGetter):
         # Holding Registers 2040–2075 — Plant configuration
         #
         "plant_status": Def(C.uint16, Status, HR(2040)),
+        # Boolean read-back of the same register, which set_ems_plant() writes: the plant-level
+        # ("Flexi EMS") master enable, suitable for backing a switch entity. Decoded from the raw
+        # word rather than from plant_status so any non-zero value = enabled, including ones the
+        # Status enum does not name. None if HR(2040) hasn't been read yet.
+        "plant_enabled": Def(C.bool, None, HR(2040)),
         "expected_inverter_count": Def(C.uint16, None, HR(2041)),
         "expected_meter_count": Def(C.uint16, None, HR(2042)),
         "expected_car_charger_count": Def(C.uint16, None, HR(2043)),
@@ -187,20 +192,6 @@ class Ems(_EmsBase, _EmsCommands, RegisterMetadataMixin):  # type: ignore[misc,v
         """Try to detect if an EMS is present based on its attributes."""
         return self.ems_status is not None  # type: ignore[attr-defined]
 
-    @computed_field  # type: ignore[prop-decorator]
-    @property
-    def plant_enabled(self) -> bool | None:
-        """Whether plant-level EMS ("Flexi EMS") control is enabled.
-
-        Boolean read-back of HR(2040), the register ``set_ems_plant()`` writes —
-        so this reflects the master-enable toggle's on/off state, suitable for
-        backing a switch entity. ``plant_status`` decodes the *same* register as
-        a coarse :class:`Status` enum; this is the dedicated boolean view (any
-        non-zero value = enabled). ``None`` if HR(2040) hasn't been read yet.
-        """
-        raw = self.plant_status  # type: ignore[attr-defined]
-        return None if raw is None else bool(raw)
-
     @property
     def managed_inverters(self) -> list[InverterSummary]:
         """Return :class:`InverterSummary` for each non-empty managed-inverter slot.
-- 
2.43.0


From 6aa7313bb45b4f0435866a0e726c692f918b3978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:14 +0000
Subject: [PATCH 26/33] fix: three-phase p_pv() is declared as the
 tenths-of-a-watt float it returns

---
 givenergy_modbus/model/inverter_threephase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/givenergy_modbus/model/inverter_threephase.py b/givenergy_modbus/model/inverter_threephase.py
index fcb9243..46575f3 100644
--- a/givenergy_modbus/model/inverter_threephase.py
+++ b/givenergy_modbus/model/inverter_threephase.py
@@ -573,7 +573,7 @@ class ThreePhaseInverter(  # type: ignore[valid-type,misc]
         """Construct a ThreePhaseInverter from a RegisterCache."""
         return cls.model_validate(ThreePhaseInverterRegisterGetter(register_cache).build())
 
-    def p_pv(self) -> int | None:
+    def p_pv(self) -> float | None:
         """Computes the total PV power across both strings, or None if either is unavailable."""
         if self.p_pv1 is None or self.p_pv2 is None:  # type: ignore[attr-defined]
             return None
-- 
2.43.0


From dafdd61f1a40d503453151c9d15c4df04665e1d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:12 +0000
Subject: [PATCH 27/33] fix: refuse fractional addresses and non-list fields in
 a saved topology

---
 givenergy_modbus/model/plant.py | 32 +++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/givenergy_modbus/model/plant.py b/givenergy_modbus/model/plant.py
index c4ac41d..f5c3c47 100644
--- a/givenergy_modbus/model/plant.py
+++ b/givenergy_modbus/model/plant.py
@@ -343,10 +343,27 @@ class PlantCapabilities(BaseModel):
         if version is not None and version != cls.SCHEMA_VERSION:
             raise ValueError(f"unsupported PlantCapabilities schema_version {version!r}; expected {cls.SCHEMA_VERSION}")
 
+        def _whole(v: Any) -> int:
+            # int() would silently truncate a fraction, misreading the payload.
+            n = int(v)
+            if not isinstance(v, str) and n != v:
+                raise ValueError(f"expected a whole number, got {v!r}")
+            return n
+
+        def _list(key: str) -> list[Any]:
+            # `.get(k) or []` (not `.get(k, [])`) so an explicit `null` in JSON for
+            # any of the optional list fields safely degrades to empty rather than
+            # raising TypeError on iteration. Anything else that isn't a list is
+            # malformed: iterating a string or mapping would misread it.
+            value = normalised.get(key) or []
+            if not isinstance(value, (list, tuple)):
+                raise ValueError(f"expected a list for {key}, got {value!r}")
+            return list(value)
+
         def _addr(v: Any) -> int:
             # Accept either hex strings (the v2.0.1+ canonical form) or raw ints
             # (the v2.0.0 legacy form, or hand-edited payloads).
-            return int(v, 0) if isinstance(v, str) else int(v)
+            return int(v, 0) if isinstance(v, str) else _whole(v)
 
         def _device_type(v: Any) -> Model:
             # v2.0.1+ persists the enum name (Model["HYBRID_GEN1"]); v2.0.0
@@ -362,20 +379,17 @@ class PlantCapabilities(BaseModel):
             except (KeyError, TypeError):
                 return Model(str(v))
 
-        # `.get(k) or []` (not `.get(k, [])`) so an explicit `null` in JSON for
-        # any of the optional list fields safely degrades to empty rather than
-        # raising TypeError on iteration.
         return cls(
             device_type=_device_type(normalised["device_type"]),
             inverter_address=_addr(normalised["inverter_address"]),
-            meter_addresses=[_addr(a) for a in (normalised.get("meter_addresses") or [])],
-            lv_battery_addresses=[_addr(a) for a in (normalised.get("lv_battery_addresses") or [])],
+            meter_addresses=[_addr(a) for a in _list("meter_addresses")],
+            lv_battery_addresses=[_addr(a) for a in _list("lv_battery_addresses")],
             # Coerce bcu_stacks entries — hand-edited JSON / differently-serialised
             # payloads can put strings here, which would TypeError downstream
             # (`0x70 + offset` in detect()). Fail loud at parse time instead.
-            bcu_stacks=[(int(offset), int(modules)) for offset, modules in (normalised.get("bcu_stacks") or [])],
-            aio_battery_module_addresses=[_addr(a) for a in (normalised.get("aio_battery_module_addresses") or [])],
-            hv_bmu_addresses=[_addr(a) for a in (normalised.get("hv_bmu_addresses") or [])],
+            bcu_stacks=[(_whole(offset), _whole(modules)) for offset, modules in _list("bcu_stacks")],
+            aio_battery_module_addresses=[_addr(a) for a in _list("aio_battery_module_addresses")],
+            hv_bmu_addresses=[_addr(a) for a in _list("hv_bmu_addresses")],
             lv_bcu_address=(
                 _addr(normalised["lv_bcu_address"]) if normalised.get("lv_bcu_address") is not None else None
             ),
-- 
2.43.0


From b5b9447556847c7e301fa10ac18e8f9a805207b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:13 +0000
Subject: [PATCH 28/33] fix: RegisterCache.json() writes the keys from_json()
 reads

---
 givenergy_modbus/model/register_cache.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/givenergy_modbus/model/register_cache.py b/givenergy_modbus/model/register_cache.py
index 9b7983b..3f2284c 100644
--- a/givenergy_modbus/model/register_cache.py
+++ b/givenergy_modbus/model/register_cache.py
@@ -94,7 +94,7 @@ class RegisterCache(defaultdict[Register, int]):
             This emits **unredacted** serial-number registers (and any other raw values).
             For a share-safe export, redact first: ``cache.redact_serials().json()``.
         """  # noqa: D402,D202,E501
-        return json.dumps(self)
+        return json.dumps({f"{r.reg_type}({r.index})": v for r, v in self.items()})
 
     @classmethod
     def from_json(cls, data: str) -> "RegisterCache":
-- 
2.43.0


From 224f80209a4d9fdeddcaf80e932ad81601d65295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:50 +0000
Subject: [PATCH 29/33] fix: parse_compact reassembles a row wrapped before its
 first hex digit

---
 givenergy_modbus/model/register_cache.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/givenergy_modbus/model/register_cache.py b/givenergy_modbus/model/register_cache.py
index 3f2284c..59c5a0b 100644
--- a/givenergy_modbus/model/register_cache.py
+++ b/givenergy_modbus/model/register_cache.py
@@ -250,11 +250,11 @@ _REG_CLS: dict[str, type[Register]] = {"HR": HR, "IR": IR, "MR": MR}
 _COMPACT_STRIDE = 60  # GivEnergy probes read 60-aligned, 60-long blocks; emit on that grid.
 
 # Device-inline row: ``0x<dev>:<BANK>(<base>,<count>) <hex>`` (the canonical format).
-_COMPACT_ROW_RE = re.compile(r"^0x([0-9a-fA-F]+):(HR|IR|MR)\((\d+),(\d+)\)\s+([0-9a-fA-F]*)$")
+_COMPACT_ROW_RE = re.compile(r"^0x([0-9a-fA-F]+):(HR|IR|MR)\((\d+),(\d+)\)\s*([0-9a-fA-F]*)$")
 # TODO(remove in a near-future version once confident no old-format dumps remain): legacy format
 # put the device in a ``# <BANK> probe @ device 0x<NN> …`` header preceding bare colon rows.
 _COMPACT_LEGACY_HEADER_RE = re.compile(r"^#\s*\w+\s+probe\s+@\s+device\s+0x([0-9a-fA-F]+)")
-_COMPACT_LEGACY_ROW_RE = re.compile(r"^(HR|IR|MR)\((\d+),(\d+)\):\s+([0-9a-fA-F]*)$")
+_COMPACT_LEGACY_ROW_RE = re.compile(r"^(HR|IR|MR)\((\d+),(\d+)\):\s*([0-9a-fA-F]*)$")
 # A bare-hex line — a continuation of a value reflowed across lines by copy-paste.
 _COMPACT_HEX_RE = re.compile(r"^[0-9a-fA-F]+$")
 
-- 
2.43.0


From dfc87626836d8d4766b2c90870c0954360a53b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:30 +0000
Subject: [PATCH 30/33] fix: Plant.redact() redacts directly-read inverters and
 shares no state with the original

---
 givenergy_modbus/model/plant.py | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/givenergy_modbus/model/plant.py b/givenergy_modbus/model/plant.py
index f5c3c47..6cf3173 100644
--- a/givenergy_modbus/model/plant.py
+++ b/givenergy_modbus/model/plant.py
@@ -941,17 +941,35 @@ class Plant(GivEnergyBaseModel):
         from givenergy_modbus.model.register import Converter
 
         # Fail closed: redact_serial_strict blanks any unrecognised identifier rather than leaking
-        # it verbatim (redact_serial is fail-open). register_block_updated_at is copied so the
-        # redacted snapshot stays independent of later updates to the original.
-        return self.model_copy(
+        # it verbatim (redact_serial is fail-open). Everything mutable is copied so the redacted
+        # snapshot stays independent of later updates to the original (model_copy() is shallow).
+        snapshot = self.model_copy(
             update={
                 "register_caches": {addr: cache.redact_serials() for addr, cache in self.register_caches.items()},
+                "capabilities": self.capabilities.model_copy(deep=True) if self.capabilities is not None else None,
                 "inverter_serial_number": Converter.redact_serial_strict(self.inverter_serial_number),
                 "data_adapter_serial_number": Converter.redact_serial_strict(self.data_adapter_serial_number),
                 "register_block_updated_at": dict(self.register_block_updated_at),
                 "register_block_present": dict(self.register_block_present),
+                "crc_failure_count": dict(self.crc_failure_count),
+                "splice_reject_count": dict(self.splice_reject_count),
+                "splice_held_count": dict(self.splice_held_count),
+                "retry_count": dict(self.retry_count),
+                "cold_start_held_count": dict(self.cold_start_held_count),
             }
         )
+        # Private state is shared by model_copy() too. Directly-read inverters carry serials of
+        # their own; the splice guard's held frames are raw register words (serial included), so
+        # its in-flight sessions are left behind with the live plant.
+        snapshot._direct_source_caches = [cache.redact_serials() for cache in self._direct_source_caches]
+        snapshot._block_unchanged_since = dict(self._block_unchanged_since)
+        snapshot._splice_escrow = {}
+        snapshot._splice_pending_baseline = {}
+        snapshot._splice_last_seen = dict(self._splice_last_seen)
+        snapshot._splice_immut_streak = {}
+        snapshot._splice_reject_streak = {}
+        snapshot._splice_reject_burst = {}
+        return snapshot
 
     @staticmethod
     def _bump(counter: dict[int, int], device_address: int) -> None:
-- 
2.43.0


From 08406f528247478ed09ef40919b85df7de3ac624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:49 +0000
Subject: [PATCH 31/33] fix: a split next marker no longer lets a cut-short
 heartbeat swallow the frame behind it

A frame cut short just before the next one is skipped when the next marker starts within 18 bytes. When that
marker was itself split across reads, a heartbeat-sized candidate was accepted with the first bytes of the next
frame inside it, and the next frame was lost. Wait for the rest; the recording redactor follows the same rule.
---
 givenergy_modbus/client/client.py | 2 ++
 givenergy_modbus/framer.py        | 7 +++++++
 2 files changed, 9 insertions(+)

diff --git a/givenergy_modbus/client/client.py b/givenergy_modbus/client/client.py
index 47af33b..30309d2 100644
--- a/givenergy_modbus/client/client.py
+++ b/givenergy_modbus/client/client.py
@@ -154,6 +154,8 @@ class FrameRedactor:
                 _logger.debug("FrameRedactor: truncated frame, %db emitted intact", len(garbage))
                 out += garbage
                 continue
+            if any(self._buf.endswith(_FRAME_MARKER[:n]) for n in range(1, 4) if len(self._buf) - n < 18):
+                break  # the next marker may be split across reads
             hdr_len, u_id, f_id = int.from_bytes(self._buf[4:6], "big"), self._buf[6], self._buf[7]
             if hdr_len > 300 or u_id not in (0, 1) or f_id not in (1, 2):
                 # Not a real frame header, so this marker is a false positive (random bytes that
diff --git a/givenergy_modbus/framer.py b/givenergy_modbus/framer.py
index e7f637e..f929dca 100644
--- a/givenergy_modbus/framer.py
+++ b/givenergy_modbus/framer.py
@@ -184,6 +184,13 @@ class Framer(ABC):
                 self._buffer = self._buffer[next_frame_start_offset:]
                 continue
 
+            # The next marker may itself be split across reads: until the buffer is long enough to tell,
+            # a short frame can't be accepted without risking the first bytes of the frame behind it.
+            if any(
+                self._buffer.endswith(HEADER_START_MARKER[:n]) for n in range(1, 4) if len(self._buffer) - n < 18
+            ):
+                break
+
             # sanity check the rest of the MBAP header
             hdr_len, u_id, f_id = int.from_bytes(self._buffer[4:6], byteorder="big"), self._buffer[6], self._buffer[7]
             if hdr_len > 300 or u_id not in (0, 1) or f_id not in (1, 2):
-- 
2.43.0


From a783b1d7b9dccf81af7333d41635dc040d19b817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:54 +0000
Subject: [PATCH 32/33] fix: a peer client's read at a battery address no
 longer makes discovery skip the pack's confirming read

---
 givenergy_modbus/client/client.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/givenergy_modbus/client/client.py b/givenergy_modbus/client/client.py
index 30309d2..b6348d5 100644
--- a/givenergy_modbus/client/client.py
+++ b/givenergy_modbus/client/client.py
@@ -969,6 +969,11 @@ class Client:
                 _logger.exception("probe_alive: error during connection teardown after failed liveness probe")
         return alive
 
+    def _holds_battery_bank(self, addr: int) -> bool:
+        """Whether the battery's own bank (its serial) was committed — not merely whatever else a peer client read there."""
+        cache = self.plant.register_caches.get(addr, {})
+        return all(IR(r) in cache for r in range(110, 115))
+
     async def _detect_lv_batteries(
         self,
         prior: PlantCapabilities | None,
@@ -1005,7 +1010,7 @@ class Client:
                 # gate below and refresh() never re-polls it. One healthy re-read corroborates and
                 # commits; a flapping/spliced bank fails to corroborate and correctly stays out (#289
                 # anti-poison intact).
-                if not self.plant.register_caches.get(0x32):
+                if not self._holds_battery_bank(0x32):
                     await self.send_request_and_await_response(
                         ReadInputRegistersRequest(base_register=60, register_count=60, device_address=0x32),
                         timeout=timeout,
@@ -1038,7 +1043,7 @@ class Client:
                 # returned pack. One healthy re-read corroborates and commits; a flapping/spliced bank
                 # fails to corroborate and correctly stays out (#289 anti-poison intact). Removed once
                 # #213's placeholder model decouples enumeration from data adoption.
-                if not self.plant.register_caches.get(batt_addr):
+                if not self._holds_battery_bank(batt_addr):
                     await self._probe(
                         ReadInputRegistersRequest(base_register=60, register_count=60, device_address=batt_addr),
                         timeout=probe_timeout,
-- 
2.43.0


From 6177a2cdfc1d698643a0f89cf4965ac986f55a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:54 +0000
Subject: [PATCH 33/33] fix: scan_capture_serials finds a serial cut in two by
 a line of the other direction

---
 scripts/scan_capture_serials.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/scripts/scan_capture_serials.py b/scripts/scan_capture_serials.py
index b69d850..2273048 100644
--- a/scripts/scan_capture_serials.py
+++ b/scripts/scan_capture_serials.py
@@ -40,18 +40,22 @@ _NUL_INTERRUPTED = re.compile(rb"[A-Z]{2}[\d\x00]{4}[A-Z]\d{3}")
 
 
 def _frame_bytes(path: Path) -> bytes:
-    """Concatenate the hex payloads of a capture's rx/tx lines (both cli and HA formats)."""
-    chunks: list[bytes] = []
+    """Concatenate the hex payloads of a capture's rx/tx lines (both cli and HA formats).
+
+    Each direction is one byte stream: a line of the other direction between two chunks must not
+    break up a serial that straddles them.
+    """
+    streams: dict[str, list[bytes]] = {"rx": [], "tx": []}
     for line in path.read_text(encoding="utf-8", errors="replace").splitlines():
         parts = line.replace(":", " ").split()
         # Direction token sits at parts[0] (HA `rx: <hex>`) or parts[-2] (cli `<ts> rx <hex>`);
         # the hex payload is always the last token.
-        if len(parts) >= 2 and (parts[0] in ("rx", "tx") or parts[-2] in ("rx", "tx")):
+        if len(parts) >= 2 and (parts[0] in streams or parts[-2] in streams):
             try:
-                chunks.append(bytes.fromhex(parts[-1]))
+                streams[parts[0] if parts[0] in streams else parts[-2]].append(bytes.fromhex(parts[-1]))
             except ValueError:
                 continue
-    return b"".join(chunks)
+    return b"".join(streams["rx"] + streams["tx"])
 
 
 def scan(path: Path) -> list[str]:
-- 
2.43.0

