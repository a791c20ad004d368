From f55c6e490345b9ee93e1b6e75f32d12dfdfb8e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:50 +0000
Subject: [PATCH 01/36] fix: read/write multiple registers writes before it
 reads

The Modbus specification performs the write operation of function 23 before
the read; the slave returned the values stored before the write.
---
 modbus_tk/modbus.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/modbus_tk/modbus.py b/modbus_tk/modbus.py
index 17080d3..96a923f 100644
--- a/modbus_tk/modbus.py
+++ b/modbus_tk/modbus.py
@@ -608,18 +608,9 @@ class Slave(object):
             raise ModbusError(defines.ILLEGAL_DATA_VALUE)
 
         # look for the block corresponding to the request
-        block, offset = self._get_block_and_offset(defines.HOLDING_REGISTERS, starting_read_address, quantity_of_x_to_read)
+        read_block, read_offset = self._get_block_and_offset(defines.HOLDING_REGISTERS, starting_read_address, quantity_of_x_to_read)
 
-        # get the values
-        values = block[offset:offset+quantity_of_x_to_read]
-        # write the response header
-        response = struct.pack(">B", 2 * quantity_of_x_to_read)
-        # add the values of every register on 2 bytes
-        for reg in values:
-            fmt = "H" if self.unsigned else "h"
-            response += struct.pack(">"+fmt, reg)
-
-        # write part
+        # write part: the write operation is performed before the read
         if (quantity_of_x_to_write <= 0) or (quantity_of_x_to_write > 123) or (byte_count_to_write != (quantity_of_x_to_write * 2)):
             # maximum allowed size is 123 registers in one reading
             raise ModbusError(defines.ILLEGAL_DATA_VALUE)
@@ -633,6 +624,14 @@ class Slave(object):
             fmt = "H" if self.unsigned else "h"
             block[offset+i] = struct.unpack(">"+fmt, request_pdu[10+2*i:12+2*i])[0]
 
+        # get the values
+        values = read_block[read_offset:read_offset+quantity_of_x_to_read]
+        # write the response header
+        response = struct.pack(">B", 2 * quantity_of_x_to_read)
+        # add the values of every register on 2 bytes
+        for reg in values:
+            fmt = "H" if self.unsigned else "h"
+            response += struct.pack(">"+fmt, reg)
         return response
 
     def _mask_write_register(self, request_pdu):
-- 
2.43.0


From 570f1993245f4acf443f07800c196fa2b6a5d3ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:50 +0000
Subject: [PATCH 02/36] fix: mask write register keeps the register signed on a
 signed slave

The result of function 22 was stored as an unsigned value, so every later read
of that register by a remote master failed.
---
 modbus_tk/modbus.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/modbus_tk/modbus.py b/modbus_tk/modbus.py
index 96a923f..128ce16 100644
--- a/modbus_tk/modbus.py
+++ b/modbus_tk/modbus.py
@@ -641,7 +641,10 @@ class Slave(object):
         (data_address, and_mask, or_mask) = struct.unpack(">HHH", request_pdu[1:7])
         # look for the block corresponding to the request
         block, offset = self._get_block_and_offset(defines.HOLDING_REGISTERS, data_address, 1)
-        block[offset] = (block[offset] & and_mask) | (or_mask & ~and_mask)
+        value = (block[offset] & and_mask) | (or_mask & ~and_mask)
+        # keep the value signed or unsigned as any other register of the slave
+        fmt = "H" if self.unsigned else "h"
+        block[offset] = struct.unpack(">"+fmt, struct.pack(">H", value & 0xFFFF))[0]
         # returns echo of the command
         return request_pdu[1:]
 
-- 
2.43.0


From 73a6fecb010304018656959554f0e5d71641a164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:50 +0000
Subject: [PATCH 03/36] fix: refuse write requests whose data bytes are missing

Functions 15, 16 and 23 wrote the values which were present and then failed
with a struct.error: the request was half applied and answered with a server
failure. It is now refused with ILLEGAL_DATA_VALUE before anything is written.
---
 modbus_tk/modbus.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/modbus_tk/modbus.py b/modbus_tk/modbus.py
index 128ce16..f4d61c1 100644
--- a/modbus_tk/modbus.py
+++ b/modbus_tk/modbus.py
@@ -615,6 +615,10 @@ class Slave(object):
             # maximum allowed size is 123 registers in one reading
             raise ModbusError(defines.ILLEGAL_DATA_VALUE)
 
+        if len(request_pdu) < 10 + byte_count_to_write:
+            # some values are missing: do not write only a part of them
+            raise ModbusError(defines.ILLEGAL_DATA_VALUE)
+
         # look for the block corresponding to the request
         block, offset = self._get_block_and_offset(defines.HOLDING_REGISTERS, starting_write_address, quantity_of_x_to_write)
 
@@ -658,6 +662,10 @@ class Slave(object):
             # maximum allowed size is 123 registers in one reading
             raise ModbusError(defines.ILLEGAL_DATA_VALUE)
 
+        if len(request_pdu) < 6 + byte_count:
+            # some values are missing: do not write only a part of them
+            raise ModbusError(defines.ILLEGAL_DATA_VALUE)
+
         # look for the block corresponding to the request
         block, offset = self._get_block_and_offset(defines.HOLDING_REGISTERS, starting_address, quantity_of_x)
 
@@ -683,6 +691,10 @@ class Slave(object):
             # maximum allowed size is 1968 coils
             raise ModbusError(defines.ILLEGAL_DATA_VALUE)
 
+        if len(request_pdu) < 6 + byte_count:
+            # some values are missing: do not write only a part of them
+            raise ModbusError(defines.ILLEGAL_DATA_VALUE)
+
         # look for the block corresponding to the request
         block, offset = self._get_block_and_offset(defines.COILS, starting_address, quantity_of_x)
 
-- 
2.43.0


From 8775f74b10c2b662ade1178cfa4a2ef2fba95aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:50 +0000
Subject: [PATCH 04/36] fix: server failure responses are well-formed frames

When a request could not be handled the databank returned the two bytes of the
exception pdu without any MAC layer (MBAP header or address and CRC), and did
so for broadcasts and for requests which can't be parsed too. A function code
above 127 raised a struct.error.
---
 modbus_tk/modbus.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/modbus_tk/modbus.py b/modbus_tk/modbus.py
index f4d61c1..8651b94 100644
--- a/modbus_tk/modbus.py
+++ b/modbus_tk/modbus.py
@@ -955,7 +955,7 @@ class Databank(object):
         """
         when a request is received, handle it and returns the response pdu
         """
-        request_pdu = ""
+        slave_id, request_pdu = 0, ""
         try:
             # extract the pdu and the slave id
             (slave_id, request_pdu) = query.parse_request(request)
@@ -991,12 +991,13 @@ class Databank(object):
             call_hooks("modbus.Databank.on_error", (self, excpt, request_pdu))
             LOGGER.error("handle request failed: " + str(excpt))
 
-        # If the request was not handled correctly, return a server error response
-        func_code = 1
-        if len(request_pdu) > 0:
-            (func_code, ) = struct.unpack(">B", request_pdu[0:1])
+        if slave_id == 0 or len(request_pdu) == 0:
+            # a broadcast or a request which can't be parsed: do not send any response
+            return ""
 
-        return struct.pack(">BB", func_code + 0x80, defines.SLAVE_DEVICE_FAILURE)
+        # If the request was not handled correctly, return a server error response
+        (func_code, ) = struct.unpack(">B", request_pdu[0:1])
+        return query.build_response(struct.pack(">BB", func_code | 0x80, defines.SLAVE_DEVICE_FAILURE))
 
 
 class Server(object):
-- 
2.43.0


From 1cac9b31e79ad07148359bd56ee679cee29afa82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:59 +0000
Subject: [PATCH 05/36] fix: overlapping blocks are refused whatever the order
 of additions

A block added after all the others was inserted at the beginning of the list of
blocks; as the list was no longer sorted, the overlap check stopped too early
and a block could be added on addresses already in use.
---
 modbus_tk/modbus.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modbus_tk/modbus.py b/modbus_tk/modbus.py
index 8651b94..11722c8 100644
--- a/modbus_tk/modbus.py
+++ b/modbus_tk/modbus.py
@@ -806,7 +806,7 @@ class Slave(object):
             # check that the new block doesn't overlap an existing block
             # it means that only 1 block per type must correspond to a given address
             # for example: it must not have 2 holding registers at address 100
-            index = 0
+            index = len(self._memory[block_type])
             for i in range(len(self._memory[block_type])):
                 block = self._memory[block_type][i]
                 if block.is_in(starting_address, size):
-- 
2.43.0


From 22d799bf2dc5ed5a99bf7c1ec58421e2ecff4c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:59 +0000
Subject: [PATCH 06/36] fix: set_values writes every item of a range or any
 other iterable

Only lists and tuples were considered as sequences: a range, a bytearray or a
generator was stored as it is in the first item, and the next read failed.
---
 modbus_tk/modbus.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/modbus_tk/modbus.py b/modbus_tk/modbus.py
index 11722c8..95af186 100644
--- a/modbus_tk/modbus.py
+++ b/modbus_tk/modbus.py
@@ -861,6 +861,10 @@ class Slave(object):
         If values is a list or a tuple, the value of every item is written
         If values is a number, only one value is written
         """
+        if hasattr(values, "__iter__") and not isinstance(values, (list, tuple)):
+            # any other sequence or iterable (range, bytearray, generator...)
+            values = list(values)
+
         # thread safe
         with self._data_lock:
             block = self._get_block(block_name)
-- 
2.43.0


From efd2d3bf76e2760be34273cfa61f1b31e0432df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:45 +0000
Subject: [PATCH 07/36] fix: slaves can be added and removed while a broadcast
 is handled

The map of slaves was iterated without its lock: adding or removing a slave
during a broadcast raised a RuntimeError and the broadcast was lost for the
remaining slaves.
---
 modbus_tk/modbus.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/modbus_tk/modbus.py b/modbus_tk/modbus.py
index 95af186..b27ab5d 100644
--- a/modbus_tk/modbus.py
+++ b/modbus_tk/modbus.py
@@ -967,8 +967,10 @@ class Databank(object):
             # get the slave and let him executes the action
             if slave_id == 0:
                 # broadcast
-                for key in self._slaves:
-                    self._slaves[key].handle_request(request_pdu, broadcast=True)
+                with self._lock:
+                    slaves = list(self._slaves.values())
+                for slave in slaves:
+                    slave.handle_request(request_pdu, broadcast=True)
                 return
             else:
                 try:
-- 
2.43.0


From ac1389909ea46c856dd68983336a198520318505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:45 +0000
Subject: [PATCH 08/36] fix: a slave which fails on a broadcast does not hide
 it from the others

---
 modbus_tk/modbus.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/modbus_tk/modbus.py b/modbus_tk/modbus.py
index b27ab5d..2e4ddac 100644
--- a/modbus_tk/modbus.py
+++ b/modbus_tk/modbus.py
@@ -970,7 +970,14 @@ class Databank(object):
                 with self._lock:
                     slaves = list(self._slaves.values())
                 for slave in slaves:
-                    slave.handle_request(request_pdu, broadcast=True)
+                    try:
+                        slave.handle_request(request_pdu, broadcast=True)
+                    except ModbusInvalidRequestError:
+                        raise
+                    except Exception as excpt:
+                        # the other slaves must handle the broadcast anyway
+                        call_hooks("modbus.Databank.on_error", (self, excpt, request_pdu))
+                        LOGGER.error("handle broadcast failed: " + str(excpt))
                 return
             else:
                 try:
-- 
2.43.0


From 55e0b890d64797028929559f524ca6c30514b3be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:46 +0000
Subject: [PATCH 09/36] fix: the server sends complete responses or gives up
 the connection

send() may accept only a part of the response when the client reads slowly:
the rest was lost. And after a failed send the connection was kept open, so
that the client would take the next response for the end of the previous one.
---
 modbus_tk/modbus_tcp.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/modbus_tk/modbus_tcp.py b/modbus_tk/modbus_tcp.py
index e4808e9..25129da 100644
--- a/modbus_tk/modbus_tcp.py
+++ b/modbus_tk/modbus_tcp.py
@@ -342,17 +342,23 @@ class TcpServer(Server):
 
                         # send back the response
                         if response:
+                            is_sending = False
                             try:
                                 retval = call_hooks("modbus_tcp.TcpServer.before_send", (self, sock, response))
                                 if retval is not None:
                                     response = retval
-                                sock.send(response)
+                                is_sending = True
+                                sock.sendall(response)
+                                is_sending = False
                                 call_hooks("modbus_tcp.TcpServer.after_send", (self, sock, response))
                             except Exception as msg:
                                 is_ok = False
                                 LOGGER.error(
                                     "Error while sending on socket %d, Exception occurred: %s", sock.fileno(), msg
                                 )
+                                if is_sending:
+                                    # the response may be sent in part only: give up the connection
+                                    raise
             except Exception as excpt:
                 LOGGER.warning("Error while processing data on socket %d: %s", sock.fileno(), excpt)
                 call_hooks("modbus_tcp.TcpServer.on_error", (self, sock, excpt))
-- 
2.43.0


From 3c1c4cb93fba7ee5322861a84ac3a10bd9c077af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:10 +0000
Subject: [PATCH 10/36] fix: an error on a client never stops the TCP server

An error while accepting a connection, or an exception of the on_connect hook,
closed the listening socket: the server did not accept clients any more. An
exception of the on_error hook or of close() ended the server thread.
---
 modbus_tk/modbus_tcp.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/modbus_tk/modbus_tcp.py b/modbus_tk/modbus_tcp.py
index 25129da..ba66fad 100644
--- a/modbus_tk/modbus_tcp.py
+++ b/modbus_tk/modbus_tcp.py
@@ -281,6 +281,15 @@ class TcpServer(Server):
         self._sock.close()
         self._sock = None
 
+    def _close_client(self, sock):
+        """close the connection with a client and forget it"""
+        if sock in self._sockets:
+            self._sockets.remove(sock)
+        try:
+            sock.close()
+        except Exception as msg:
+            LOGGER.warning("Error while closing socket, Exception occurred: %s", msg)
+
     def _do_run(self):
         """called in a almost-for-ever loop by the server"""
         # check the status of every socket
@@ -292,6 +301,8 @@ class TcpServer(Server):
                 if sock == self._sock:
                     # handle the server socket
                     client, address = self._sock.accept()
+                    # from now on, an error is an error on this client
+                    sock = client
                     client.setblocking(0)
                     LOGGER.debug("%s is connected with socket %d...", str(address), client.fileno())
                     self._sockets.append(client)
@@ -361,6 +372,10 @@ class TcpServer(Server):
                                     raise
             except Exception as excpt:
                 LOGGER.warning("Error while processing data on socket %d: %s", sock.fileno(), excpt)
-                call_hooks("modbus_tcp.TcpServer.on_error", (self, sock, excpt))
-                sock.close()
-                self._sockets.remove(sock)
+                try:
+                    call_hooks("modbus_tcp.TcpServer.on_error", (self, sock, excpt))
+                except Exception as msg:
+                    LOGGER.error("Error in the on_error hook: %s", msg)
+                if sock is not self._sock:
+                    # never close the server socket because of a client
+                    self._close_client(sock)
-- 
2.43.0


From f2da43f75ea75c13735ce2c9b03dd7fd7f3477c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:09 +0000
Subject: [PATCH 11/36] fix: a master refuses the response to another function

---
 modbus_tk/modbus.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/modbus_tk/modbus.py b/modbus_tk/modbus.py
index 2e4ddac..8d5119d 100644
--- a/modbus_tk/modbus.py
+++ b/modbus_tk/modbus.py
@@ -372,6 +372,15 @@ class Master(object):
             # analyze the received data
             (return_code, byte_2) = struct.unpack(">BB", response_pdu[0:2])
 
+            # the response must be the response to this function
+            (request_code, ) = struct.unpack(">B", pdu[0:1])
+            if return_code not in (request_code, request_code | 0x80):
+                raise ModbusInvalidResponseError(
+                    "Response function code {0} is different from request function code {1}".format(
+                        return_code, request_code
+                    )
+                )
+
             if return_code > 0x80:
                 # the slave has returned an error
                 exception_code = byte_2
-- 
2.43.0


From f4eab62a2f758ca0bb573649b68624cdee3cad25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:18 +0000
Subject: [PATCH 12/36] fix: the RTU master keeps the bytes read when the
 software timeout ends

The bytes returned by the last read were dropped when the software timeout had
expired: exception responses, shorter than expected, were always lost. And
without timeout (None), every response raised a TypeError.
---
 modbus_tk/modbus_rtu.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/modbus_tk/modbus_rtu.py b/modbus_tk/modbus_rtu.py
index 11c9ee8..cab199a 100644
--- a/modbus_tk/modbus_rtu.py
+++ b/modbus_tk/modbus_rtu.py
@@ -151,13 +151,13 @@ class RtuMaster(Master):
                 read_bytes = self._serial.read(expected_length - readed_len if (expected_length - readed_len) > 0 else 1)
             else:
                 read_bytes = self._serial.read(expected_length if expected_length > 0 else 1)
-            if self.use_sw_timeout:
-                read_duration = time.time() - start_time
-            else:
-                read_duration = 0
-            if (not read_bytes) or (read_duration > self._serial.timeout):
+            if not read_bytes:
                 break
             response += read_bytes
+            if self.use_sw_timeout and self._serial.timeout is not None:
+                if time.time() - start_time > self._serial.timeout:
+                    # the bytes which were read are a part of the response: do not lose them
+                    break
             if expected_length >= 0 and len(response) >= expected_length:
                 # if the expected number of byte is received consider that the response is done
                 # improve performance by avoiding end-of-response detection by timeout
-- 
2.43.0


From cc7af3e6ff92a8df35b8424d6cdb38c81683b644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:44 +0000
Subject: [PATCH 13/36] fix: RTU over TCP master handles disconnections and
 short responses

A disconnection while the response was awaited made the master loop for ever,
and an exception response (shorter than the expected length) was lost with a
socket timeout instead of raising the Modbus error.
---
 modbus_tk/modbus_rtu_over_tcp.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/modbus_tk/modbus_rtu_over_tcp.py b/modbus_tk/modbus_rtu_over_tcp.py
index becc866..cd8fec5 100644
--- a/modbus_tk/modbus_rtu_over_tcp.py
+++ b/modbus_tk/modbus_rtu_over_tcp.py
@@ -9,6 +9,8 @@
  This is distributed under GNU LGPL license, see license.txt
 """
 
+import socket
+
 from modbus_tk.hooks import call_hooks
 from modbus_tk.modbus_rtu import RtuQuery
 from modbus_tk.modbus_tcp import TcpMaster
@@ -21,11 +23,19 @@ class RtuOverTcpMaster(TcpMaster):
     def _recv(self, expected_length=-1):
         """Receive the response from the slave"""
         response = to_data('')
-        length = 255
+        length = 256
         while len(response) < length:
-            rcv_byte = self._sock.recv(1)
-            if rcv_byte:
-                response += rcv_byte
+            try:
+                rcv_byte = self._sock.recv(1)
+            except socket.timeout:
+                if not response:
+                    raise
+                # like on a serial line: the response is shorter than expected (an exception for example)
+                break
+            if not rcv_byte:
+                # the slave is disconnected
+                break
+            response += rcv_byte
             if expected_length >= 0 and len(response) >= expected_length:
                 break
         retval = call_hooks("modbus_rtu_over_tcp.RtuOverTcpMaster.after_recv", (self, response))
-- 
2.43.0


From 4c1926d1a0e15d1caa3a4851a789d76ceec45851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:05 +0000
Subject: [PATCH 14/36] fix: a server that stops or fails releases everything
 and can be restarted

---
 modbus_tk/modbus.py     | 30 +++++++++++++++++++-----------
 modbus_tk/modbus_tcp.py |  5 +++--
 2 files changed, 22 insertions(+), 13 deletions(-)

diff --git a/modbus_tk/modbus.py b/modbus_tk/modbus.py
index 8d5119d..aa08daf 100644
--- a/modbus_tk/modbus.py
+++ b/modbus_tk/modbus.py
@@ -1051,8 +1051,10 @@ class Server(object):
 
     def _make_thread(self):
         """create the main thread of the server"""
-        self._thread = threading.Thread(target=Server._run_server, args=(self,))
+        thread = threading.Thread(target=Server._run_server, args=(self,))
+        # may run while another thread calls stop: the thread is replaced last
         self._go = threading.Event()
+        self._thread = thread
 
     def set_verbose(self, verbose):
         """if verbose is true the sent and received packets will be logged"""
@@ -1092,23 +1094,29 @@ class Server(object):
 
     def stop(self):
         """stop the server. It doesn't handle request anymore"""
-        if self._thread.is_alive():
-            self._go.clear()
-            self._thread.join()
+        # the server thread replaces both of them when it ends
+        thread, go = self._thread, self._go
+        if thread.is_alive():
+            go.clear()
+            thread.join()
 
     def _run_server(self):
         """main function of the main thread"""
         try:
-            self._do_init()
-            while self._go.isSet():
-                self._do_run()
-            LOGGER.debug("%s has stopped", self.__class__)
-            self._do_exit()
+            try:
+                self._do_init()
+                while self._go.isSet():
+                    self._do_run()
+                LOGGER.debug("%s has stopped", self.__class__)
+            finally:
+                # also after an error: do not keep anything open
+                self._do_exit()
         except Exception as excpt:
             LOGGER.error("server error: %s", str(excpt))
             call_hooks("modbus.Server.on_exception", (self, excpt))
-        # make possible to rerun in future
-        self._make_thread()
+        finally:
+            # make possible to rerun in future
+            self._make_thread()
 
     def _handle(self, request):
         """handle a received sentence"""
diff --git a/modbus_tk/modbus_tcp.py b/modbus_tk/modbus_tcp.py
index ba66fad..baeb480 100644
--- a/modbus_tk/modbus_tcp.py
+++ b/modbus_tk/modbus_tcp.py
@@ -278,8 +278,9 @@ class TcpServer(Server):
             except Exception as msg:
                 LOGGER.warning("Error while closing socket, Exception occurred: %s", msg)
         self._sockets = []
-        self._sock.close()
-        self._sock = None
+        if self._sock:
+            self._sock.close()
+            self._sock = None
 
     def _close_client(self, sock):
         """close the connection with a client and forget it"""
-- 
2.43.0


From cc31bcaac8e5ad02cfbfb6507f8f350682560106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:56 +0000
Subject: [PATCH 15/36] fix: the RTU server never blocks after the serial port
 could not be reopened

---
 modbus_tk/modbus_rtu.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/modbus_tk/modbus_rtu.py b/modbus_tk/modbus_rtu.py
index cab199a..22badda 100644
--- a/modbus_tk/modbus_rtu.py
+++ b/modbus_tk/modbus_rtu.py
@@ -270,7 +270,9 @@ class RtuServer(Server):
                 except Exception as e:
                     self._serial.close()
                     self._serial.open()
-                self._serial.timeout = self._timeout
+                finally:
+                    # also when the port can not be opened again: never block on the next read
+                    self._serial.timeout = self._timeout
 
             # Read rest of the request
             while True:
-- 
2.43.0


From 8952aceb744e5d9d681ec28bbbf106504687ed7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:04 +0000
Subject: [PATCH 16/36] fix: hooks are called without the hook lock, and their
 errors are not hidden

---
 modbus_tk/hooks.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/modbus_tk/hooks.py b/modbus_tk/hooks.py
index 29f60b6..0185400 100644
--- a/modbus_tk/hooks.py
+++ b/modbus_tk/hooks.py
@@ -99,12 +99,11 @@ def uninstall_hook(name, fct=None):
 def call_hooks(name, args):
     """call the function associated with the hook and pass the given args"""
     with _LOCK:
-        try:
-            for fct in _HOOKS[name]:
-                retval = fct(args)
-                if retval is not None:
-                    return retval
-        except KeyError:
-            pass
-        return None
+        fcts = list(_HOOKS.get(name, ()))
+    # the functions are called without the lock: they can take time or (un)install hooks
+    for fct in fcts:
+        retval = fct(args)
+        if retval is not None:
+            return retval
+    return None
 
-- 
2.43.0


From 55dd9607b1a29e467e794b7ebee03bdd82afa670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:12 +0000
Subject: [PATCH 17/36] fix: a Modbus error raised by the handle_request hook
 is answered as this exception

---
 modbus_tk/modbus.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modbus_tk/modbus.py b/modbus_tk/modbus.py
index aa08daf..fbe0159 100644
--- a/modbus_tk/modbus.py
+++ b/modbus_tk/modbus.py
@@ -793,6 +793,8 @@ class Slave(object):
 
             except ModbusError as excpt:
                 LOGGER.debug(str(excpt))
+                # the handle_request hook may have raised the error
+                (function_code, ) = struct.unpack(">B", request_pdu[0:1])
                 call_hooks("modbus.Slave.on_exception", (self, function_code, excpt))
                 return struct.pack(">BB", function_code+128, excpt.get_exception_code())
 
-- 
2.43.0


From ee4c0ab94a6ef1d80be2e079bff42908f9b6de85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:54 +0000
Subject: [PATCH 18/36] fix: masters do not wait for each other

---
 modbus_tk/modbus.py |  6 ++++--
 modbus_tk/utils.py  | 18 ++++++++++++++++++
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/modbus_tk/modbus.py b/modbus_tk/modbus.py
index fbe0159..1ea99c2 100644
--- a/modbus_tk/modbus.py
+++ b/modbus_tk/modbus.py
@@ -26,7 +26,7 @@ from modbus_tk.exceptions import(
     ModbusInvalidRequestError
 )
 from modbus_tk.hooks import call_hooks
-from modbus_tk.utils import threadsafe_function, get_log_buffer
+from modbus_tk.utils import threadsafe_method, get_log_buffer
 
 # modbus_tk is using the python logging mechanism
 # you can define this logger in your app in order to see its prints logs
@@ -85,6 +85,8 @@ class Master(object):
         self._timeout = timeout_in_sec
         self._verbose = False
         self._is_opened = False
+        # one call at a time on a given master
+        self._lock = threading.RLock()
 
     def __del__(self):
         """Destructor: close the connection"""
@@ -134,7 +136,7 @@ class Master(object):
         """
         raise NotImplementedError()
 
-    @threadsafe_function
+    @threadsafe_method
     def execute(
         self, slave, function_code, starting_address, quantity_of_x=0, output_value=0, data_format="",
         expected_length=-1, write_starting_address_fc23=0, number_file=None, pdu="", returns_raw=False, and_mask=-1, or_mask=-1
diff --git a/modbus_tk/utils.py b/modbus_tk/utils.py
index 3d6be34..dd64137 100644
--- a/modbus_tk/utils.py
+++ b/modbus_tk/utils.py
@@ -44,6 +44,24 @@ def threadsafe_function(fcn):
     return new
 
 
+def threadsafe_method(fcn):
+    """
+    decorator making sure that the decorated method is called by one thread at a time on a given object:
+    contrary to threadsafe_function, two objects don't wait for each other
+    The object must have a _lock attribute
+    """
+    def new(self, *args, **kwargs):
+        """Lock the object and call the decorated method
+
+           Unless kwargs['threadsafe'] == False
+        """
+        if not kwargs.pop('threadsafe', True):
+            return fcn(self, *args, **kwargs)
+        with self._lock:
+            return fcn(self, *args, **kwargs)
+    return new
+
+
 def flush_socket(socks, lim=0):
     """remove the data present on the socket"""
     input_socks = [socks]
-- 
2.43.0


From c0f71b4213b1538099d7b627c0cd606af2e50c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:37 +0000
Subject: [PATCH 19/36] fix: an RTU master whose port is closed can be opened
 again

---
 modbus_tk/modbus_rtu.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/modbus_tk/modbus_rtu.py b/modbus_tk/modbus_rtu.py
index 22badda..fbd28c6 100644
--- a/modbus_tk/modbus_rtu.py
+++ b/modbus_tk/modbus_rtu.py
@@ -113,8 +113,10 @@ class RtuMaster(Master):
         """Close the serial port if still opened"""
         if self._serial.is_open:
             self._serial.close()
+            # the port is closed even if the hook fails
+            self._is_opened = False
             call_hooks("modbus_rtu.RtuMaster.after_close", (self, ))
-            return True
+        return True
 
     def set_timeout(self, timeout_in_sec, use_sw_timeout=False):
         """Change the timeout value"""
-- 
2.43.0


From 9fcfd23a3ad70a48db0b168588d18c1ee133e240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:27 +0000
Subject: [PATCH 20/36] fix: an error in the on_error hook does not end the RTU
 server

---
 modbus_tk/modbus_rtu.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/modbus_tk/modbus_rtu.py b/modbus_tk/modbus_rtu.py
index fbd28c6..ada279f 100644
--- a/modbus_tk/modbus_rtu.py
+++ b/modbus_tk/modbus_rtu.py
@@ -315,4 +315,7 @@ class RtuServer(Server):
 
         except Exception as excpt:
             LOGGER.error("Error while handling request, Exception occurred: %s", excpt)
-            call_hooks("modbus_rtu.RtuServer.on_error", (self, excpt))
+            try:
+                call_hooks("modbus_rtu.RtuServer.on_error", (self, excpt))
+            except Exception as msg:
+                LOGGER.error("Error in the on_error hook: %s", msg)
-- 
2.43.0


From 301da58b9a62796bd70b6432f6e866ba92eaf6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:11 +0000
Subject: [PATCH 21/36] fix: a TCP master sends the whole request

---
 modbus_tk/modbus_tcp.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/modbus_tk/modbus_tcp.py b/modbus_tk/modbus_tcp.py
index baeb480..8dc3bf6 100644
--- a/modbus_tk/modbus_tcp.py
+++ b/modbus_tk/modbus_tcp.py
@@ -202,7 +202,12 @@ class TcpMaster(Master):
             #try to reconnect
             LOGGER.error('Error while flushing the socket: {0}'.format(msg))
             self._do_open()
-        self._sock.send(request)
+        try:
+            self._sock.sendall(request)
+        except Exception:
+            # a part of the request may have been sent: this connection can not be used any more
+            self.close()
+            raise
 
     def _recv(self, expected_length=-1):
         """
-- 
2.43.0


From 1609842c5eb501978046af9f7e4753ce60005ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:11 +0000
Subject: [PATCH 22/36] fix: the response to the diagnostic function is decoded

---
 modbus_tk/modbus.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/modbus_tk/modbus.py b/modbus_tk/modbus.py
index 1ea99c2..3ed62a8 100644
--- a/modbus_tk/modbus.py
+++ b/modbus_tk/modbus.py
@@ -294,16 +294,18 @@ class Master(object):
         elif function_code == defines.DIAGNOSTIC:
             # SubFuncCode  are in starting_address
             pdu = struct.pack(">BH", function_code, starting_address)
-            if len(output_value) > 0:
-                for j in output_value:
-                    # copy data in pdu
-                    pdu += struct.pack(">B", j)
-                if not data_format:
-                    data_format = ">" + (len(output_value) * "B")
-                if expected_length < 0:
-                    # No length was specified and calculated length can be used:
-                    # slave + func + SubFunc1 + SubFunc2 + Data + crc1 + crc2
-                    expected_length = len(output_value) + 6
+            # the data bytes are optional
+            output_value = output_value or []
+            for j in output_value:
+                # copy data in pdu
+                pdu += struct.pack(">B", j)
+            if not data_format:
+                # SubFunc + Data
+                data_format = ">H" + (len(output_value) * "B")
+            if expected_length < 0:
+                # No length was specified and calculated length can be used:
+                # slave + func + SubFunc1 + SubFunc2 + Data + crc1 + crc2
+                expected_length = len(output_value) + 6
 
         elif function_code == defines.READ_WRITE_MULTIPLE_REGISTERS:
             is_read_function = True
-- 
2.43.0


From 97f6a29687c39195d7c3cd26df6374150886681b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:31 +0000
Subject: [PATCH 23/36] fix: a TCP master whose connection failed is closed and
 leaves no socket behind

---
 modbus_tk/modbus_tcp.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/modbus_tk/modbus_tcp.py b/modbus_tk/modbus_tcp.py
index 8dc3bf6..4a6fe5a 100644
--- a/modbus_tk/modbus_tcp.py
+++ b/modbus_tk/modbus_tcp.py
@@ -167,11 +167,18 @@ class TcpMaster(Master):
         if self._sock:
             self._sock.close()
         self._sock = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
-        self.set_timeout(self.get_timeout())
-        self._sock.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
-        call_hooks("modbus_tcp.TcpMaster.before_connect", (self, ))
-        self._sock.connect((self._host, self._port))
-        call_hooks("modbus_tcp.TcpMaster.after_connect", (self, ))
+        try:
+            self.set_timeout(self.get_timeout())
+            self._sock.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
+            call_hooks("modbus_tcp.TcpMaster.before_connect", (self, ))
+            self._sock.connect((self._host, self._port))
+            call_hooks("modbus_tcp.TcpMaster.after_connect", (self, ))
+        except Exception:
+            # do not leave a socket behind: the master is closed
+            self._sock.close()
+            self._sock = None
+            self._is_opened = False
+            raise
 
     def _do_close(self):
         """Close the connection with the Modbus Slave"""
-- 
2.43.0


From accfd1c45d928fa46a643f69c0c06878c2bf0711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:13 +0000
Subject: [PATCH 24/36] fix: a log handler which fails does not disturb the
 exchanges

---
 modbus_tk/utils.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/modbus_tk/utils.py b/modbus_tk/utils.py
index dd64137..7ea5a8f 100644
--- a/modbus_tk/utils.py
+++ b/modbus_tk/utils.py
@@ -96,7 +96,11 @@ class ConsoleHandler(logging.Handler):
 
     def emit(self, record):
         """format and print the record on the console"""
-        print(self.format(record))
+        try:
+            print(self.format(record))
+        except Exception:
+            # the program which logs must not be disturbed
+            self.handleError(record)
 
 
 class LogitHandler(logging.Handler):
@@ -110,10 +114,14 @@ class LogitHandler(logging.Handler):
 
     def emit(self, record):
         """format and send the record over udp"""
-        data = self.format(record) + "\r\n"
-        if PY3:
-            data = to_data(data)
-        self._sock.sendto(data, self._dest)
+        try:
+            data = self.format(record) + "\r\n"
+            if PY3:
+                data = data.encode('utf-8')
+            self._sock.sendto(data, self._dest)
+        except Exception:
+            # the program which logs must not be disturbed
+            self.handleError(record)
 
 
 class DummyHandler(logging.Handler):
-- 
2.43.0


From 6188dff10a1a199b50fac27380732d0e6af39d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:49 +0000
Subject: [PATCH 25/36] fix: the pymodbus-style client returns the values read

---
 modbus_tk/pymodbusclient.py | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/modbus_tk/pymodbusclient.py b/modbus_tk/pymodbusclient.py
index c466591..c6e76b1 100644
--- a/modbus_tk/pymodbusclient.py
+++ b/modbus_tk/pymodbusclient.py
@@ -5,7 +5,10 @@ class PyModbusClientTCP():
     """ Client that allows a drop in replacement for pymodbus without any code change """
 
     def __init__(self, host=None, port=None, timeout=None, **kwargs):
-        self.client = modbus_tcp.TcpMaster(host=host, port=port, timeout_in_sec=timeout)
+        # use the default settings of the master for what is not given
+        settings = {'host': host, 'port': port, 'timeout_in_sec': timeout}
+        settings = dict((key, value) for (key, value) in settings.items() if value is not None)
+        self.client = modbus_tcp.TcpMaster(**settings)
 
     def open(self):
         self.client.open()
@@ -16,9 +19,7 @@ class PyModbusClientTCP():
 
     def read_input_registers(self, register, num=1):
         ret = self.client.execute(1, cst.READ_INPUT_REGISTERS, register, num)
-        to_array = None
-        to_array = map(to_array, ret)
-        return to_array
+        return list(ret)
 
     def write_single_register(self, register, word):
         self.client.execute(1, cst.WRITE_SINGLE_REGISTER, register, output_value=word)
@@ -28,17 +29,12 @@ class PyModbusClientTCP():
         self.client.execute(1, cst.WRITE_SINGLE_COIL, coil, output_value=value)
 
     def read_coils(self, bit_addr, bit_number=1):
-        self.client.execute(1, cst.READ_COILS, bit_addr, bit_number)
-        coils = self.coils[bit_addr:bit_addr+bit_number]
-        to_array = None
-        to_array = map(to_array, coils)
-        return to_array
+        coils = self.client.execute(1, cst.READ_COILS, bit_addr, bit_number)
+        return list(coils)
 
     def read_discrete_inputs(self, bit_addr, bit_number=1):
         registers = self.client.execute(1, cst.READ_DISCRETE_INPUTS, bit_addr, bit_number)
-        to_array = None
-        to_array = map(to_array, registers)
-        return to_array
+        return list(registers)
 
     def last_error(self):
         # TODO: Needs to have something here
-- 
2.43.0


From fef939ea25305308f125a2233bd681b5d5512715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:37 +0000
Subject: [PATCH 26/36] fix: the simulator uninstalls the hook function it was
 asked to, not all of them

---
 modbus_tk/simulator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/modbus_tk/simulator.py b/modbus_tk/simulator.py
index a220c52..8faeaf9 100644
--- a/modbus_tk/simulator.py
+++ b/modbus_tk/simulator.py
@@ -315,8 +315,10 @@ class Simulator(object):
         If no function is given, uninstall all functions
         """
         hook_name = args[1]
+        fct_name = args[2] if len(args) > 2 else ""
+        fct = self._hooks_fct[fct_name] if fct_name else None
         try:
-            hooks.uninstall_hook(hook_name)
+            hooks.uninstall_hook(hook_name, fct)
         except KeyError as exception:
             LOGGER.error(str(exception))
 
-- 
2.43.0


From d638f03175531689047f4a0cf73e6110556b464e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:37 +0000
Subject: [PATCH 27/36] fix: only the quit command ends the simulator, not
 every line which begins with it

---
 modbus_tk/simulator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modbus_tk/simulator.py b/modbus_tk/simulator.py
index 8faeaf9..f166376 100644
--- a/modbus_tk/simulator.py
+++ b/modbus_tk/simulator.py
@@ -333,7 +333,7 @@ class Simulator(object):
         while True:
             cmd = self.inq.get()
             args = cmd.strip('\r\n').split(' ')
-            if cmd.find('quit') == 0:
+            if args[0].strip() == 'quit':
                 self.outq.put('bye-bye\r\n')
                 break
             elif args[0] in self.cmds:
-- 
2.43.0


From 5e649ddae0d69512ba7724c99d20331feacd73f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:12 +0000
Subject: [PATCH 28/36] fix: the simulator and its RPC client exchange bytes:
 the RPC interface works on Python 3

---
 modbus_tk/simulator.py            | 4 ++--
 modbus_tk/simulator_rpc_client.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/modbus_tk/simulator.py b/modbus_tk/simulator.py
index f166376..c735695 100644
--- a/modbus_tk/simulator.py
+++ b/modbus_tk/simulator.py
@@ -90,13 +90,13 @@ class RpcHandler(SocketServer.BaseRequestHandler):
         """This function is called automatically by the SocketServer"""
         # self.request is the TCP socket connected to the client
         # read the incoming command
-        request = self.request.recv(1024).strip()
+        request = self.request.recv(1024).decode("utf-8", "replace").strip()
         # write to the queue waiting to be processed by the server
         INPUT_QUEUE.put(request)
         # wait for the server answer in the output queue
         response = OUTPUT_QUEUE.get(timeout=5.0)
         # send back the answer
-        self.request.send(response)
+        self.request.sendall(response.encode("utf-8"))
 
 
 class RpcInterface(threading.Thread):
diff --git a/modbus_tk/simulator_rpc_client.py b/modbus_tk/simulator_rpc_client.py
index 28049e7..7bda405 100644
--- a/modbus_tk/simulator_rpc_client.py
+++ b/modbus_tk/simulator_rpc_client.py
@@ -28,8 +28,8 @@ class SimulatorRpcClient(object):
         sock = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
         sock.settimeout(self.timeout)
         sock.connect((self.host, self.port))
-        sock.send(query)
-        response = sock.recv(1024)
+        sock.sendall(query.encode("utf-8"))
+        response = sock.recv(1024).decode("utf-8")
         sock.close()
         return self._response_to_values(response.strip("\r\n"), query.split(" ")[0])
 
-- 
2.43.0


From fbe472a20cb6fa8bc1658a95e39f3466932a2919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:12 +0000
Subject: [PATCH 29/36] fix: the answer to a simulator command goes to the user
 who gave it, also after somebody gave up waiting

---
 modbus_tk/simulator.py | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/modbus_tk/simulator.py b/modbus_tk/simulator.py
index c735695..8cf8632 100644
--- a/modbus_tk/simulator.py
+++ b/modbus_tk/simulator.py
@@ -92,9 +92,11 @@ class RpcHandler(SocketServer.BaseRequestHandler):
         # read the incoming command
         request = self.request.recv(1024).decode("utf-8", "replace").strip()
         # write to the queue waiting to be processed by the server
-        INPUT_QUEUE.put(request)
-        # wait for the server answer in the output queue
-        response = OUTPUT_QUEUE.get(timeout=5.0)
+        # with the queue where the answer to this command (and no other) is expected
+        answers = queue.Queue()
+        INPUT_QUEUE.put((request, answers))
+        # wait for the server answer
+        response = answers.get(timeout=5.0)
         # send back the answer
         self.request.sendall(response.encode("utf-8"))
 
@@ -166,8 +168,12 @@ class ConsoleInterface(threading.Thread):
         while self._go.isSet(): #while app is running
             if self._check_console_input(): #if something to read on the console
                 cmd = sys.stdin.readline() #read it
-                self.inq.put(cmd) #dispatch it tpo the server
-                response = self.outq.get(timeout=2.0) #wait for an answer
+                answers = queue.Queue() #for the answer to this command and no other
+                self.inq.put((cmd, answers)) #dispatch it tpo the server
+                try:
+                    response = answers.get(timeout=2.0) #wait for an answer
+                except queue.Empty:
+                    response = "error: no answer\r\n"
                 sys.stdout.write(response) #write the answer on the console
 
     def close(self):
@@ -332,18 +338,20 @@ class Simulator(object):
         """almost-for-ever loop in charge of listening for command and executing it"""
         while True:
             cmd = self.inq.get()
+            # the interfaces give the queue where they expect the answer
+            cmd, outq = cmd if isinstance(cmd, tuple) else (cmd, self.outq)
             args = cmd.strip('\r\n').split(' ')
             if args[0].strip() == 'quit':
-                self.outq.put('bye-bye\r\n')
+                outq.put('bye-bye\r\n')
                 break
             elif args[0] in self.cmds:
                 try:
                     answer = self.cmds[args[0]](args)
-                    self.outq.put("%s done: %s\r\n" % (args[0], answer))
+                    outq.put("%s done: %s\r\n" % (args[0], answer))
                 except Exception as msg:
-                    self.outq.put("%s error: %s\r\n" % (args[0], msg))
+                    outq.put("%s error: %s\r\n" % (args[0], msg))
             else:
-                self.outq.put("error: unknown command %s\r\n" % (args[0]))
+                outq.put("error: unknown command %s\r\n" % (args[0]))
 
     def close(self):
         """close every server"""
-- 
2.43.0


From d82f91bb269591fa2ee6e7fd2c0f9e393d2ce028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:12 +0000
Subject: [PATCH 30/36] fix: simulator RPC commands and answers which come in
 several parts or exceed 1024 bytes are not cut

---
 modbus_tk/simulator.py            | 22 +++++++++++++++++++++-
 modbus_tk/simulator_rpc_client.py | 18 +++++++++++++-----
 2 files changed, 34 insertions(+), 6 deletions(-)

diff --git a/modbus_tk/simulator.py b/modbus_tk/simulator.py
index 8cf8632..7b16534 100644
--- a/modbus_tk/simulator.py
+++ b/modbus_tk/simulator.py
@@ -18,6 +18,7 @@ import os
 import sys
 import select
 import serial
+import socket
 import threading
 import time
 
@@ -86,11 +87,30 @@ class CompositeServer(modbus.Server):
 class RpcHandler(SocketServer.BaseRequestHandler):
     """An instance of this class is created every time an RPC call is received by the server"""
 
+    def _read_command(self):
+        """read a command: one line. The end of the line can be missing if nothing follows"""
+        command = self.request.recv(1024)
+        self.request.settimeout(0.2)
+        while command and b"\n" not in command:
+            try:
+                data = self.request.recv(1024)
+            except socket.timeout:
+                break
+            if not data:
+                break
+            command += data
+        self.request.settimeout(None)
+        return command
+
     def handle(self):
         """This function is called automatically by the SocketServer"""
         # self.request is the TCP socket connected to the client
         # read the incoming command
-        request = self.request.recv(1024).decode("utf-8", "replace").strip()
+        request = self._read_command()
+        if not request:
+            # the client has gone
+            return
+        request = request.decode("utf-8", "replace").strip()
         # write to the queue waiting to be processed by the server
         # with the queue where the answer to this command (and no other) is expected
         answers = queue.Queue()
diff --git a/modbus_tk/simulator_rpc_client.py b/modbus_tk/simulator_rpc_client.py
index 7bda405..50af10a 100644
--- a/modbus_tk/simulator_rpc_client.py
+++ b/modbus_tk/simulator_rpc_client.py
@@ -26,11 +26,19 @@ class SimulatorRpcClient(object):
     def _rpc_call(self, query):
         """send a rpc call and return the result"""
         sock = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
-        sock.settimeout(self.timeout)
-        sock.connect((self.host, self.port))
-        sock.sendall(query.encode("utf-8"))
-        response = sock.recv(1024).decode("utf-8")
-        sock.close()
+        try:
+            sock.settimeout(self.timeout)
+            sock.connect((self.host, self.port))
+            sock.sendall((query + "\r\n").encode("utf-8"))
+            response = b""
+            while not response.endswith(b"\n"):
+                data = sock.recv(1024)
+                if not data:
+                    raise Exception("no complete answer to %s" % query)
+                response += data
+        finally:
+            sock.close()
+        response = response.decode("utf-8")
         return self._response_to_values(response.strip("\r\n"), query.split(" ")[0])
 
     def _response_to_values(self, response, command):
-- 
2.43.0


From 43ab357687f21f3c4d8895bae20fa615a585a2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:12 +0000
Subject: [PATCH 31/36] fix: an RPC client which sends nothing does not block
 the simulator's other RPC clients

---
 modbus_tk/simulator.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/modbus_tk/simulator.py b/modbus_tk/simulator.py
index 7b16534..3d32858 100644
--- a/modbus_tk/simulator.py
+++ b/modbus_tk/simulator.py
@@ -121,13 +121,18 @@ class RpcHandler(SocketServer.BaseRequestHandler):
         self.request.sendall(response.encode("utf-8"))
 
 
+class RpcServer(SocketServer.ThreadingMixIn, SocketServer.TCPServer):
+    """TCP server of the RPC interface: a silent client doesn't block the others"""
+    daemon_threads = True
+
+
 class RpcInterface(threading.Thread):
     """Manage RPC call over TCP/IP thanks to the SocketServer module"""
 
     def __init__(self):
         """Constructor"""
         super(RpcInterface, self).__init__()
-        self.rpc_server = SocketServer.TCPServer(("", 2711), RpcHandler)
+        self.rpc_server = RpcServer(("", 2711), RpcHandler)
 
     def run(self):
         """run the server and wait that it returns"""
-- 
2.43.0


From 94fa82b2a5e8cd477ba3cabdbf4475e69401d39c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:13 +0000
Subject: [PATCH 32/36] fix: the end of the console input does not give the
 simulator empty commands for ever

---
 modbus_tk/simulator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modbus_tk/simulator.py b/modbus_tk/simulator.py
index 3d32858..d7293bf 100644
--- a/modbus_tk/simulator.py
+++ b/modbus_tk/simulator.py
@@ -193,6 +193,8 @@ class ConsoleInterface(threading.Thread):
         while self._go.isSet(): #while app is running
             if self._check_console_input(): #if something to read on the console
                 cmd = sys.stdin.readline() #read it
+                if not cmd: #end of input
+                    break
                 answers = queue.Queue() #for the answer to this command and no other
                 self.inq.put((cmd, answers)) #dispatch it tpo the server
                 try:
-- 
2.43.0


From 6063f789d4b834e6b6a2dae4d7b845def2f7bdaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:36 +0000
Subject: [PATCH 33/36] fix: SimulatorRpcClient.get_values of no value returns
 an empty tuple instead of raising ValueError

---
 modbus_tk/simulator_rpc_client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modbus_tk/simulator_rpc_client.py b/modbus_tk/simulator_rpc_client.py
index 50af10a..52f6da4 100644
--- a/modbus_tk/simulator_rpc_client.py
+++ b/modbus_tk/simulator_rpc_client.py
@@ -97,7 +97,7 @@ class SimulatorRpcClient(object):
         """get the values of some registers"""
         query = "get_values %d %s %d %d" % (slave_id, block_name, address, length)
         ret_values = self._rpc_call(query)
-        return tuple([int(val) for val in ret_values.split(' ')])
+        return tuple([int(val) for val in ret_values.split()])
 
     def install_hook(self, hook_name, fct_name):
         """add a hook"""
-- 
2.43.0


From b178592e151cc5651544678fbdc8f53acad6aac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:04 +0000
Subject: [PATCH 34/36] fix: Simulator.close works when the simulator could not
 start, and releases the RPC port

---
 modbus_tk/simulator.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/modbus_tk/simulator.py b/modbus_tk/simulator.py
index d7293bf..177c162 100644
--- a/modbus_tk/simulator.py
+++ b/modbus_tk/simulator.py
@@ -141,8 +141,10 @@ class RpcInterface(threading.Thread):
     def close(self):
         """force the socket server to exit"""
         try:
-            self.rpc_server.shutdown()
-            self.join(1.0)
+            if self.is_alive():
+                self.rpc_server.shutdown()
+                self.join(1.0)
+            self.rpc_server.server_close()
         except Exception:
             LOGGER.warning("An error occurred while closing RPC interface")
 
@@ -206,7 +208,8 @@ class ConsoleInterface(threading.Thread):
     def close(self):
         """terminates the thread"""
         self._go.clear()
-        self.join(1.0)
+        if self.is_alive():
+            self.join(1.0)
 
 
 class Simulator(object):
-- 
2.43.0


From c9d41cbc3b037568ccd5585e7d8ca44704e0972e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:12 +0000
Subject: [PATCH 35/36] fix: the simulator can be started again just after an
 RPC call (address already in use)

---
 modbus_tk/simulator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modbus_tk/simulator.py b/modbus_tk/simulator.py
index 177c162..9a2fb3f 100644
--- a/modbus_tk/simulator.py
+++ b/modbus_tk/simulator.py
@@ -124,6 +124,8 @@ class RpcHandler(SocketServer.BaseRequestHandler):
 class RpcServer(SocketServer.ThreadingMixIn, SocketServer.TCPServer):
     """TCP server of the RPC interface: a silent client doesn't block the others"""
     daemon_threads = True
+    # the port can be used again just after the simulator was closed
+    allow_reuse_address = True
 
 
 class RpcInterface(threading.Thread):
-- 
2.43.0


From 1870d92158350473c0bf0256d84075f7deaea144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:29 +0000
Subject: [PATCH 36/36] fix: commands given after quit are not executed by the
 next simulator of the process

---
 modbus_tk/simulator.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/modbus_tk/simulator.py b/modbus_tk/simulator.py
index 9a2fb3f..54e5127 100644
--- a/modbus_tk/simulator.py
+++ b/modbus_tk/simulator.py
@@ -390,6 +390,12 @@ class Simulator(object):
         self.console.close()
         self.rpc.close()
         self.server.stop()
+        # the commands which nobody executed are not for the next simulator
+        try:
+            while True:
+                self.inq.get_nowait()
+        except queue.Empty:
+            pass
 
 
 def print_me(args):
-- 
2.43.0

