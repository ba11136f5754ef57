From 48fb35c6b7be4ca8714eae16631ae62a84a9d132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:33 +0000
Subject: [PATCH 01/41] fix: no EOF after prepared-statement parameters when
 the client negotiated CLIENT_DEPRECATE_EOF

---
 mysql_mimic/connection.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mysql_mimic/connection.py b/mysql_mimic/connection.py
index 5160192..b7f198a 100644
--- a/mysql_mimic/connection.py
+++ b/mysql_mimic/connection.py
@@ -660,4 +660,5 @@ class Connection:
                 yield packets.make_column_definition_41(
                     server_charset=self.server_charset, name="?"
                 )
-            yield self.eof()
+            if not self.deprecate_eof():
+                yield self.eof()
-- 
2.43.0


From c89333694eb2db207700afc0aa9680e04644fa31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:33 +0000
Subject: [PATCH 02/41] fix: COM_FIELD_LIST sends one packet per column
 definition

---
 mysql_mimic/connection.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/mysql_mimic/connection.py b/mysql_mimic/connection.py
index b7f198a..6746352 100644
--- a/mysql_mimic/connection.py
+++ b/mysql_mimic/connection.py
@@ -393,19 +393,17 @@ class Connection:
         com_field_list = parse_com_field_list(self.client_charset, data)
         sql = com_field_list_to_show_statement(com_field_list)
         result = await self.query(sql=sql, query_attrs={})
-        columns = b"".join(
-            [
+        async for row in aiterate(result.rows):
+            await self.stream.write(
                 make_column_definition_41(
                     server_charset=self.server_charset,
                     table=com_field_list.table,
                     name=row[0],
                     is_com_field_list=True,
                     default=row[4],
-                )
-                async for row in aiterate(result.rows)
-            ]
-        )
-        await self.stream.write(columns)
+                ),
+                drain=False,
+            )
         await self.stream.write(self.ok_or_eof())
 
     async def handle_query(self, data: bytes) -> None:
-- 
2.43.0


From 70e5fbbdb34d2e25faddefa9d1169276c2703116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:33 +0000
Subject: [PATCH 03/41] fix: encode the COM_FIELD_LIST default value as one
 length-encoded string

---
 mysql_mimic/packets.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mysql_mimic/packets.py b/mysql_mimic/packets.py
index 19604d0..fe1b1d6 100644
--- a/mysql_mimic/packets.py
+++ b/mysql_mimic/packets.py
@@ -377,8 +377,7 @@ def make_column_definition_41(
         if default is None:
             parts.append(uint_len(0))
         else:
-            default_values = server_charset.encode(default)
-            parts.extend([uint_len(len(default_values)), str_len(default_values)])
+            parts.append(str_len(server_charset.encode(default)))
     return _concat(*parts)
 
 
-- 
2.43.0


From 11ea3310d7124a0525629e51d8277cb4c441bda7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:33 +0000
Subject: [PATCH 04/41] fix: do not reuse a write buffer that the transport may
 still hold

---
 mysql_mimic/stream.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mysql_mimic/stream.py b/mysql_mimic/stream.py
index ed8c280..e29b53d 100644
--- a/mysql_mimic/stream.py
+++ b/mysql_mimic/stream.py
@@ -71,8 +71,10 @@ class MysqlStream:
 
     async def drain(self) -> None:
         if self._buffer:
-            self.writer.write(self._buffer)
-            self._buffer.clear()
+            # The transport may keep a reference to the data it couldn't send yet,
+            # so hand over the buffer instead of reusing it.
+            data, self._buffer = self._buffer, bytearray()
+            self.writer.write(data)
         await self.writer.drain()
 
     def reset_seq(self) -> None:
-- 
2.43.0


From 5c1c2bd66107e3de477072735021dd6c90aaef44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:33 +0000
Subject: [PATCH 05/41] fix: COM_STMT_SEND_LONG_DATA for an unknown statement
 has no response

---
 mysql_mimic/connection.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mysql_mimic/connection.py b/mysql_mimic/connection.py
index 6746352..6dcf4f3 100644
--- a/mysql_mimic/connection.py
+++ b/mysql_mimic/connection.py
@@ -458,7 +458,10 @@ class Connection:
         COM_STMT_SEND_LONG_DATA sends the data for a column.
         """
         com_stmt_send_long_data = packets.parse_com_stmt_send_long_data(data)
-        stmt = self.get_stmt(com_stmt_send_long_data.stmt_id)
+        stmt = self.prepared_stmts.get(com_stmt_send_long_data.stmt_id)
+        if stmt is None:
+            # This command has no response, not even an error
+            return
         if stmt.param_buffers is None:
             stmt.param_buffers = {}
         buffer = stmt.param_buffers.setdefault(
-- 
2.43.0


From 5a43b59c1aa7db4bd92afa4614f3714f5d0ba9e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:33 +0000
Subject: [PATCH 06/41] fix: error messages that cannot be encoded must not
 kill the connection

---
 mysql_mimic/packets.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mysql_mimic/packets.py b/mysql_mimic/packets.py
index fe1b1d6..e9f896b 100644
--- a/mysql_mimic/packets.py
+++ b/mysql_mimic/packets.py
@@ -165,7 +165,8 @@ def make_error(
         parts.append(str_fixed(1, b"#"))
         parts.append(str_fixed(5, get_sqlstate(code)))
 
-    parts.append(str_rest(server_charset.encode(str(msg))))
+    # The message must reach the client even if it can't be represented in its charset
+    parts.append(str_rest(str(msg).encode(server_charset.codec, errors="replace")))
 
     return _concat(*parts)
 
-- 
2.43.0


From 0019a442e9e03b08c741fe1f7d9fbb0cf6a9ca74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:39 +0000
Subject: [PATCH 07/41] fix: accept any async iterable as a row source, not
 only async generators

---
 mysql_mimic/utils.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mysql_mimic/utils.py b/mysql_mimic/utils.py
index e1444af..676f045 100644
--- a/mysql_mimic/utils.py
+++ b/mysql_mimic/utils.py
@@ -1,7 +1,6 @@
 from __future__ import annotations
 
 import asyncio
-import inspect
 import sys
 from collections.abc import Iterator
 import random
@@ -103,7 +102,7 @@ def dict_depth(d: dict) -> int:
 
 async def aiterate(iterable: AsyncIterable[T] | Iterable[T]) -> AsyncIterator[T]:
     """Iterate either an async iterable or a regular iterable"""
-    if inspect.isasyncgen(iterable):
+    if isinstance(iterable, AsyncIterable):
         async for item in iterable:
             yield item
     else:
-- 
2.43.0


From 1d7d4eb0c4ee6dd30f7a609ed331cd83b683a787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:06 +0000
Subject: [PATCH 08/41] fix: a packet header may be split across network reads

---
 mysql_mimic/stream.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mysql_mimic/stream.py b/mysql_mimic/stream.py
index e29b53d..582ea25 100644
--- a/mysql_mimic/stream.py
+++ b/mysql_mimic/stream.py
@@ -27,10 +27,10 @@ class MysqlStream:
     async def read(self) -> bytes:
         data = b""
         while True:
-            header = await self.reader.read(4)
-
-            if not header:
-                raise ConnectionClosed()
+            try:
+                header = await self.reader.readexactly(4)
+            except asyncio.IncompleteReadError as e:
+                raise ConnectionClosed() from e
 
             i = struct.unpack("<I", header)[0]
             payload_length = i & 0x00FFFFFF
-- 
2.43.0


From ae01bdd72533e00df06ce7dbce60f06eeec35bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:39 +0000
Subject: [PATCH 09/41] fix: do not lose TLS handshake bytes that arrive
 together with the SSL request

---
 mysql_mimic/stream.py | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/mysql_mimic/stream.py b/mysql_mimic/stream.py
index 582ea25..4ca49bd 100644
--- a/mysql_mimic/stream.py
+++ b/mysql_mimic/stream.py
@@ -11,6 +11,20 @@ class ConnectionClosed(Exception):
     pass
 
 
+def _feed_protocol(transport: asyncio.Transport, data: bytes) -> None:
+    """Deliver data to the current protocol of a transport"""
+    protocol = transport.get_protocol()
+    if not isinstance(protocol, asyncio.BufferedProtocol):  # python <3.11
+        protocol.data_received(data)  # type: ignore
+        return
+    while data:
+        buffer = protocol.get_buffer(len(data))
+        n = min(len(buffer), len(data))
+        buffer[:n] = data[:n]
+        protocol.buffer_updated(n)
+        data = data[n:]
+
+
 class MysqlStream:
     def __init__(
         self,
@@ -84,6 +98,19 @@ class MysqlStream:
         transport = self.writer.transport
         protocol = transport.get_protocol()
         loop = asyncio.get_event_loop()
+
+        # The client may have sent the beginning of the TLS handshake together with the SSL request.
+        # Those bytes are already in the reader's buffer, so hand them over to the TLS protocol.
+        transport.pause_reading()
+        buffer = self.reader._buffer  # type: ignore # pylint: disable=protected-access
+        early_data = bytes(buffer)
+        buffer.clear()
+        if early_data:
+            # Two iterations from now, the TLS protocol is connected and hasn't received anything yet
+            loop.call_soon(
+                loop.call_soon, _feed_protocol, transport, early_data  # type: ignore
+            )
+
         new_transport = await loop.start_tls(
             transport=transport,
             protocol=protocol,
-- 
2.43.0


From 1caf147ff2132f2959102d17d538765585cee09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:37 +0000
Subject: [PATCH 10/41] fix: close the connection when authentication fails,
 and never serve it

A failed handshake or COM_CHANGE_USER answered with an error, but the connection went on to the command
phase. Session state is now updated only once the client is authenticated, and COM_CHANGE_USER resets the
session before it answers OK.
---
 mysql_mimic/connection.py | 97 +++++++++++++++++++++++++++------------
 1 file changed, 68 insertions(+), 29 deletions(-)

diff --git a/mysql_mimic/connection.py b/mysql_mimic/connection.py
index 6dcf4f3..9f15857 100644
--- a/mysql_mimic/connection.py
+++ b/mysql_mimic/connection.py
@@ -94,7 +94,8 @@ class Connection:
         context.connection_id.set(self.connection_id)
         logger.info("Started new connection: %s", self.connection_id)
         try:
-            await self.connection_phase()
+            if not await self.connection_phase():
+                return
             await self.session.init(self)
         except Exception as e:
             await self.stream.write(self.error(msg=e, code=ErrorCode.HANDSHAKE_ERROR))
@@ -121,7 +122,8 @@ class Connection:
             self._kill = kind
             self._task.cancel()
 
-    async def connection_phase(self) -> None:
+    async def connection_phase(self) -> bool:
+        """Returns True if the client is authenticated. Otherwise, it must not be served."""
         default_auth_plugin = self.identity_provider.get_default_plugin()
         auth_data, auth_state = await default_auth_plugin.start()
         assert isinstance(auth_data, bytes)
@@ -153,13 +155,11 @@ class Connection:
         self.capabilities = response.capabilities
         self.max_packet_size = response.max_packet_size
         self.session.variables.set("character_set_client", response.client_charset.name)
-        self.session.database = response.database
         self.client_plugin_name = response.client_plugin
         self.client_connect_attrs = response.connect_attrs
         self.zstd_compression_level = response.zstd_compression_level
-        self.session.variables.set("external_user", response.username, force=True)
 
-        await self.authenticate(
+        authenticated_as = await self.authenticate(
             auth_state=auth_state,
             server_plugin=default_auth_plugin,
             username=response.username,
@@ -167,15 +167,51 @@ class Connection:
             auth_response=response.auth_response,
             connect_attrs=response.connect_attrs,
         )
+        if authenticated_as is None:
+            return False
+
+        self.session.username = authenticated_as
+        self.session.database = response.database
+        self.session.variables.set("external_user", response.username, force=True)
+        await self.stream.write(self.ok())
         self.stream.reset_seq()
+        return True
+
+    async def handle_change_user(self, data: bytes) -> bool:
+        """
+        https://dev.mysql.com/doc/internals/en/com-change-user.html
+
+        COM_CHANGE_USER changes the user of the current connection.
+
+        Returns True if the client is authenticated. Otherwise, the connection must be closed.
+        """
+        try:
+            return await self._change_user(data)
+        except Exception as e:  # pylint: disable=broad-except
+            logger.exception(e)
+            if isinstance(e, MysqlError):
+                await self.stream.write(self.error(msg=e.msg, code=e.code))
+            else:
+                await self.stream.write(self.error(msg=e))
+            return False
 
-    async def handle_change_user(self, data: bytes) -> None:
+    async def _change_user(self, data: bytes) -> bool:
         com_change_user = packets.parse_com_change_user(
             capabilities=self.capabilities,
             client_charset=self.client_charset,
             data=data,
         )
 
+        authenticated_as = await self.authenticate(
+            username=com_change_user.username,
+            auth_response=com_change_user.auth_response,
+            client_plugin_name=com_change_user.client_plugin,
+            connect_attrs=com_change_user.connect_attrs,
+        )
+        if authenticated_as is None:
+            return False
+
+        self.session.username = authenticated_as
         self.session.database = com_change_user.database
         self.session.variables.set(
             "external_user", com_change_user.username, force=True
@@ -187,14 +223,9 @@ class Connection:
         if com_change_user.connect_attrs:
             self.client_connect_attrs = com_change_user.connect_attrs
 
-        await self.authenticate(
-            username=com_change_user.username,
-            auth_response=com_change_user.auth_response,
-            client_plugin_name=com_change_user.client_plugin,
-            connect_attrs=com_change_user.connect_attrs,
-        )
-
         await self.session.reset()
+        await self.stream.write(self.ok())
+        return True
 
     async def authenticate(
         self,
@@ -204,7 +235,14 @@ class Connection:
         connect_attrs: Dict[str, str],
         auth_state: Optional[AuthState] = None,
         server_plugin: Optional[AuthPlugin] = None,
-    ) -> None:
+    ) -> Optional[str]:
+        """
+        Run the authentication exchange.
+
+        Returns:
+            The name the client authenticated as.
+            None if access was denied, in which case the client has received an error.
+        """
         user = await self.identity_provider.get_user(username)
 
         if not user:
@@ -214,7 +252,7 @@ class Connection:
                     code=ErrorCode.USER_DOES_NOT_EXIST,
                 )
             )
-            return
+            return None
 
         user_plugin = (
             self.identity_provider.get_plugin(user.auth_plugin or "")
@@ -270,20 +308,20 @@ class Connection:
             decision = await auth_state.asend(auth_info)
 
         if isinstance(decision, Success):
-            self.session.username = decision.authenticated_as
-            await self.stream.write(self.ok())
-        else:
-            logger.info(
-                "Access denied for user '%s' with plugin '%s'",
-                auth_info.user.name,
-                user_plugin.name,
-            )
-            await self.stream.write(
-                self.error(
-                    msg=decision.msg or f"Access denied for user {auth_info.user.name}",
-                    code=ErrorCode.ACCESS_DENIED_ERROR,
-                )
+            return decision.authenticated_as
+
+        logger.info(
+            "Access denied for user '%s' with plugin '%s'",
+            auth_info.user.name,
+            user_plugin.name,
+        )
+        await self.stream.write(
+            self.error(
+                msg=decision.msg or f"Access denied for user {auth_info.user.name}",
+                code=ErrorCode.ACCESS_DENIED_ERROR,
             )
+        )
+        return None
 
     async def command_phase(self) -> None:
         """https://dev.mysql.com/doc/internals/en/command-phase.html"""
@@ -314,7 +352,8 @@ class Connection:
                 elif command == types.Commands.COM_PING:
                     await self.handle_ping(rest)
                 elif command == types.Commands.COM_CHANGE_USER:
-                    await self.handle_change_user(rest)
+                    if not await self.handle_change_user(rest):
+                        return
                 elif command == types.Commands.COM_RESET_CONNECTION:
                     await self.handle_reset_connection(rest)
                 elif command == types.Commands.COM_DEBUG:
-- 
2.43.0


From b3156a0712a37949769a545354edf8cdaf399a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:23 +0000
Subject: [PATCH 11/41] fix: packets with truncated or unterminated strings are
 malformed

An unterminated string put the server in an endless loop, and fixed length strings were silently cut short.
---
 mysql_mimic/types.py | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/mysql_mimic/types.py b/mysql_mimic/types.py
index 81b2e67..7eee7e9 100644
--- a/mysql_mimic/types.py
+++ b/mysql_mimic/types.py
@@ -4,6 +4,8 @@ import struct
 
 from enum import IntEnum, IntFlag, auto
 
+from mysql_mimic.errors import ErrorCode, MysqlError
+
 
 class ColumnType(IntEnum):
     DECIMAL = 0x00
@@ -308,16 +310,25 @@ def read_uint_len(reader: io.BytesIO) -> int:
 
 
 def read_str_fixed(reader: io.BytesIO, l: int) -> bytes:
-    return reader.read(l)
+    data = reader.read(l)
+    if len(data) < l:
+        raise MysqlError(
+            f"Malformed packet: expected {l} bytes, got {len(data)}",
+            ErrorCode.MALFORMED_PACKET,
+        )
+    return data
 
 
 def read_str_null(reader: io.BytesIO) -> bytes:
-    data = b""
-    while True:
-        b = reader.read(1)
-        if b == b"\x00":
-            return data
-        data += b
+    start = reader.tell()
+    end = reader.getvalue().find(b"\x00", start)
+    if end < 0:
+        raise MysqlError(
+            "Malformed packet: string is not terminated", ErrorCode.MALFORMED_PACKET
+        )
+    data = reader.read(end - start)
+    reader.seek(end + 1)
+    return data
 
 
 def read_str_len(reader: io.BytesIO) -> bytes:
-- 
2.43.0


From 8969d0db2611a7f727c864b4bc25c12dcb475dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:52 +0000
Subject: [PATCH 12/41] fix: infer the type of every column, even if they have
 the same name

---
 mysql_mimic/results.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/mysql_mimic/results.py b/mysql_mimic/results.py
index 9716207..ae7f052 100644
--- a/mysql_mimic/results.py
+++ b/mysql_mimic/results.py
@@ -103,9 +103,9 @@ async def _ensure_result_cols(
     rows: Sequence[Sequence[Any]] | AsyncIterable[Sequence[Any]],
     columns: Sequence[AllowedColumn],
 ) -> ResultSet:
-    # Which columns need to be inferred?
+    # Which columns need to be inferred? Names aren't necessarily unique.
     remaining = {
-        col: i for i, col in enumerate(columns) if not isinstance(col, ResultColumn)
+        i: col for i, col in enumerate(columns) if not isinstance(col, ResultColumn)
     }
 
     if not remaining:
@@ -132,7 +132,7 @@ async def _ensure_result_cols(
         peeks.append(peek)
 
         inferred = []
-        for name, i in remaining.items():
+        for i, name in remaining.items():
             value = peek[i]
             if value is not None:
                 type_ = infer_type(value)
@@ -140,13 +140,13 @@ async def _ensure_result_cols(
                     name=str(name),
                     type=type_,
                 )
-                inferred.append(name)
+                inferred.append(i)
 
-        for name in inferred:
-            remaining.pop(name)
+        for i in inferred:
+            remaining.pop(i)
 
     # If we failed to find a non-null value, set the type to NULL
-    for name, i in remaining.items():
+    for i, name in remaining.items():
         columns[i] = ResultColumn(
             name=str(name),
             type=ColumnType.NULL,
-- 
2.43.0


From d80c020fc11fe8d0694bf5a2768052db0662e58e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:52 +0000
Subject: [PATCH 13/41] fix: encode negative durations and durations of a day
 or longer

---
 mysql_mimic/results.py | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/mysql_mimic/results.py b/mysql_mimic/results.py
index ae7f052..bc2fa03 100644
--- a/mysql_mimic/results.py
+++ b/mysql_mimic/results.py
@@ -248,12 +248,19 @@ def _binary_encode_double(col: ResultColumn, val: Any) -> bytes:
     return struct.pack("<d", val)
 
 
-def _binary_encode_timedelta(col: ResultColumn, val: Any) -> bytes:
-    days = abs(val.days)
-    hours, remainder = divmod(abs(val.seconds), 3600)
+def _split_timedelta(val: timedelta) -> Tuple[bool, int, int, int, int, int]:
+    """Split into (is_negative, days, hours, minutes, seconds, microseconds)"""
+    # Python normalizes negative timedeltas such that only `days` is negative,
+    # whereas MySQL has a sign and a magnitude.
+    is_negative = val < timedelta(0)
+    val = abs(val)
+    hours, remainder = divmod(val.seconds, 3600)
     minutes, seconds = divmod(remainder, 60)
-    microseconds = val.microseconds
-    is_negative = val.total_seconds() < 0
+    return is_negative, val.days, hours, minutes, seconds, val.microseconds
+
+
+def _binary_encode_timedelta(col: ResultColumn, val: Any) -> bytes:
+    is_negative, days, hours, minutes, seconds, microseconds = _split_timedelta(val)
 
     if microseconds == 0:
         if days == hours == minutes == seconds == 0:
@@ -295,6 +302,17 @@ def _text_encode_tiny(col: ResultColumn, val: Any) -> bytes:
     return _text_encode_str(col, int(val))
 
 
+def _text_encode_timedelta(col: ResultColumn, val: Any) -> bytes:
+    if not isinstance(val, timedelta):
+        return _text_encode_str(col, val)
+
+    is_negative, days, hours, minutes, seconds, microseconds = _split_timedelta(val)
+    text = f"{'-' if is_negative else ''}{days * 24 + hours:02}:{minutes:02}:{seconds:02}"
+    if microseconds:
+        text += f".{microseconds:06}"
+    return _text_encode_str(col, text)
+
+
 def _unsupported(col: ResultColumn, val: Any) -> bytes:
     raise MysqlError(f"Unsupported column type: {col.type}")
 
@@ -330,7 +348,7 @@ _TEXT_ENCODERS: Dict[ColumnType, Encoder] = {
     ColumnType.LONGLONG: _text_encode_str,
     ColumnType.INT24: _text_encode_str,
     ColumnType.DATE: _text_encode_str,
-    ColumnType.TIME: _text_encode_str,
+    ColumnType.TIME: _text_encode_timedelta,
     ColumnType.DATETIME: _text_encode_str,
     ColumnType.YEAR: _text_encode_str,
     ColumnType.NEWDATE: _text_encode_str,
-- 
2.43.0


From cd4f24e61b944793a6fc11847bdca538e719f2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:52 +0000
Subject: [PATCH 14/41] fix: encode TINY as an integer, and booleans in numeric
 columns as numbers

---
 mysql_mimic/results.py | 46 +++++++++++++++++++++++++++++-------------
 1 file changed, 32 insertions(+), 14 deletions(-)

diff --git a/mysql_mimic/results.py b/mysql_mimic/results.py
index bc2fa03..5d0da1b 100644
--- a/mysql_mimic/results.py
+++ b/mysql_mimic/results.py
@@ -164,10 +164,14 @@ async def _ensure_result_cols(
     return ResultSet(rows=gen_rows(), columns=cast(Sequence[ResultColumn], columns))
 
 
-def _binary_encode_tiny(col: ResultColumn, val: Any) -> bytes:
+def _binary_encode_bool(col: ResultColumn, val: Any) -> bytes:
     return uint_1(int(bool(val)))
 
 
+def _binary_encode_tiny(col: ResultColumn, val: Any) -> bytes:
+    return struct.pack("<b", int(val))
+
+
 def _binary_encode_str(col: ResultColumn, val: Any) -> bytes:
     if not isinstance(val, bytes):
         val = str(val)
@@ -302,6 +306,20 @@ def _text_encode_tiny(col: ResultColumn, val: Any) -> bytes:
     return _text_encode_str(col, int(val))
 
 
+def _text_encode_bool(col: ResultColumn, val: Any) -> bytes:
+    return _text_encode_str(col, int(bool(val)))
+
+
+def _text_encode_number(col: ResultColumn, val: Any) -> bytes:
+    if isinstance(val, bool):
+        val = int(val)
+    return _text_encode_str(col, val)
+
+
+def _binary_encode_decimal(col: ResultColumn, val: Any) -> bytes:
+    return str_len(_text_encode_number(col, val))
+
+
 def _text_encode_timedelta(col: ResultColumn, val: Any) -> bytes:
     if not isinstance(val, timedelta):
         return _text_encode_str(col, val)
@@ -337,20 +355,20 @@ _PY_TO_MYSQL_TYPE = {
 
 
 _TEXT_ENCODERS: Dict[ColumnType, Encoder] = {
-    ColumnType.DECIMAL: _text_encode_str,
+    ColumnType.DECIMAL: _text_encode_number,
     ColumnType.TINY: _text_encode_tiny,
-    ColumnType.SHORT: _text_encode_str,
-    ColumnType.LONG: _text_encode_str,
-    ColumnType.FLOAT: _text_encode_str,
-    ColumnType.DOUBLE: _text_encode_str,
+    ColumnType.SHORT: _text_encode_number,
+    ColumnType.LONG: _text_encode_number,
+    ColumnType.FLOAT: _text_encode_number,
+    ColumnType.DOUBLE: _text_encode_number,
     ColumnType.NULL: _unsupported,
     ColumnType.TIMESTAMP: _text_encode_str,
-    ColumnType.LONGLONG: _text_encode_str,
-    ColumnType.INT24: _text_encode_str,
+    ColumnType.LONGLONG: _text_encode_number,
+    ColumnType.INT24: _text_encode_number,
     ColumnType.DATE: _text_encode_str,
     ColumnType.TIME: _text_encode_timedelta,
     ColumnType.DATETIME: _text_encode_str,
-    ColumnType.YEAR: _text_encode_str,
+    ColumnType.YEAR: _text_encode_number,
     ColumnType.NEWDATE: _text_encode_str,
     ColumnType.VARCHAR: _text_encode_str,
     ColumnType.BIT: _text_encode_str,
@@ -359,9 +377,9 @@ _TEXT_ENCODERS: Dict[ColumnType, Encoder] = {
     ColumnType.TIME2: _unsupported,
     ColumnType.TYPED_ARRAY: _unsupported,
     ColumnType.INVALID: _unsupported,
-    ColumnType.BOOL: _binary_encode_tiny,
+    ColumnType.BOOL: _text_encode_bool,
     ColumnType.JSON: _text_encode_str,
-    ColumnType.NEWDECIMAL: _text_encode_str,
+    ColumnType.NEWDECIMAL: _text_encode_number,
     ColumnType.ENUM: _text_encode_str,
     ColumnType.SET: _text_encode_str,
     ColumnType.TINY_BLOB: _text_encode_str,
@@ -374,7 +392,7 @@ _TEXT_ENCODERS: Dict[ColumnType, Encoder] = {
 }
 
 _BINARY_ENCODERS: Dict[ColumnType, Encoder] = {
-    ColumnType.DECIMAL: _binary_encode_str,
+    ColumnType.DECIMAL: _binary_encode_decimal,
     ColumnType.TINY: _binary_encode_tiny,
     ColumnType.SHORT: _binary_encode_short,
     ColumnType.LONG: _binary_encode_long,
@@ -396,9 +414,9 @@ _BINARY_ENCODERS: Dict[ColumnType, Encoder] = {
     ColumnType.TIME2: _unsupported,
     ColumnType.TYPED_ARRAY: _unsupported,
     ColumnType.INVALID: _unsupported,
-    ColumnType.BOOL: _binary_encode_tiny,
+    ColumnType.BOOL: _binary_encode_bool,
     ColumnType.JSON: _binary_encode_str,
-    ColumnType.NEWDECIMAL: _binary_encode_str,
+    ColumnType.NEWDECIMAL: _binary_encode_decimal,
     ColumnType.ENUM: _binary_encode_str,
     ColumnType.SET: _binary_encode_str,
     ColumnType.TINY_BLOB: _binary_encode_str,
-- 
2.43.0


From 961c95c0ad64c705b6f2464a331d68247de999cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:44 +0000
Subject: [PATCH 15/41] fix: utf16 and utf32 are big-endian, without a byte
 order mark

---
 mysql_mimic/charset.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mysql_mimic/charset.py b/mysql_mimic/charset.py
index 5e971a8..cf48408 100644
--- a/mysql_mimic/charset.py
+++ b/mysql_mimic/charset.py
@@ -49,6 +49,11 @@ class CharacterSet(IntEnum):
     def codec(self) -> str:
         if self.name == "utf8mb4":
             return "utf8"
+        # MySQL's utf16 and utf32 are big-endian, without a byte order mark
+        if self.name == "utf16":
+            return "utf_16_be"
+        if self.name == "utf32":
+            return "utf_32_be"
         return self.name
 
     @property
-- 
2.43.0


From c0b4daf3f4b69c7c52e4434b591a634c328734c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:51 +0000
Subject: [PATCH 16/41] fix: a fetch must not drop a row, and a failed fetch is
 not the end of the result

---
 mysql_mimic/connection.py | 24 ++++++++++++++++--------
 mysql_mimic/prepared.py   |  4 ++--
 2 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/mysql_mimic/connection.py b/mysql_mimic/connection.py
index 9f15857..59e149c 100644
--- a/mysql_mimic/connection.py
+++ b/mysql_mimic/connection.py
@@ -522,6 +522,7 @@ class Connection:
         )
 
         com_stmt_execute.stmt.param_buffers = None
+        com_stmt_execute.stmt.cursor = None
 
         result_set = await self.query(
             com_stmt_execute.sql, com_stmt_execute.query_attrs
@@ -572,15 +573,22 @@ class Connection:
         stmt = self.get_stmt(com_stmt_fetch.stmt_id)
         assert stmt.cursor is not None
         count = 0
+        done = False
 
-        async for packet in cooperative_iterate(stmt.cursor):
-            if count >= com_stmt_fetch.num_rows:
-                break
-            await self.stream.write(packet, drain=False)
-            count += 1
-        await self.stream.drain()
-
-        done = count < com_stmt_fetch.num_rows
+        try:
+            while count < com_stmt_fetch.num_rows:
+                try:
+                    packet = await stmt.cursor.__anext__()
+                except StopAsyncIteration:
+                    done = True
+                    break
+                await self.stream.write(packet, drain=False)
+                count += 1
+            await self.stream.drain()
+        except BaseException:
+            # The cursor can't be resumed. Don't let it look like it's exhausted.
+            stmt.cursor = None
+            raise
 
         await self.stream.write(
             self.ok_or_eof(
diff --git a/mysql_mimic/prepared.py b/mysql_mimic/prepared.py
index 925efba..15867c4 100644
--- a/mysql_mimic/prepared.py
+++ b/mysql_mimic/prepared.py
@@ -1,6 +1,6 @@
 import re
 from dataclasses import dataclass
-from typing import Optional, Dict, AsyncIterable
+from typing import Optional, Dict, AsyncIterator
 
 # Borrowed from mysql-connector-python
 REGEX_PARAM = re.compile(r"""\?(?=(?:[^"'`]*["'`][^"'`]*["'`])*[^"'`]*$)""")
@@ -12,4 +12,4 @@ class PreparedStatement:
     sql: str
     num_params: int
     param_buffers: Optional[Dict[int, bytearray]] = None
-    cursor: Optional[AsyncIterable[bytes]] = None
+    cursor: Optional[AsyncIterator[bytes]] = None
-- 
2.43.0


From 9db6969089a3fd3242a14d68b3da0ea1ccf07f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:25 +0000
Subject: [PATCH 17/41] fix: bind prepared-statement parameters as data, never
 as SQL

---
 mysql_mimic/connection.py |  4 +--
 mysql_mimic/packets.py    | 21 ++++++++++++---
 mysql_mimic/prepared.py   | 55 ++++++++++++++++++++++++++++++++++++---
 3 files changed, 71 insertions(+), 9 deletions(-)

diff --git a/mysql_mimic/connection.py b/mysql_mimic/connection.py
index 59e149c..8f0b91e 100644
--- a/mysql_mimic/connection.py
+++ b/mysql_mimic/connection.py
@@ -21,7 +21,7 @@ from mysql_mimic.packets import (
     parse_com_field_list,
     make_column_definition_41,
 )
-from mysql_mimic.prepared import PreparedStatement, REGEX_PARAM
+from mysql_mimic.prepared import PreparedStatement, find_params
 from mysql_mimic.results import ensure_result_set, ResultSet
 from mysql_mimic import types, packets, context
 from mysql_mimic.schema import com_field_list_to_show_statement
@@ -477,7 +477,7 @@ class Connection:
         sql = self.client_charset.decode(data)
 
         stmt_id = next(self.prepared_stmt_seq)
-        num_params = len(REGEX_PARAM.findall(sql))
+        num_params = len(find_params(sql))
 
         stmt = PreparedStatement(
             stmt_id=stmt_id,
diff --git a/mysql_mimic/packets.py b/mysql_mimic/packets.py
index e9f896b..c215aa7 100644
--- a/mysql_mimic/packets.py
+++ b/mysql_mimic/packets.py
@@ -1,11 +1,12 @@
 import io
+import math
 from dataclasses import dataclass, field
 from typing import Optional, Dict, Any, Sequence, Callable, Tuple, List, Union
 
 from mysql_mimic.charset import Collation, CharacterSet
 from mysql_mimic.constants import DEFAULT_SERVER_CAPABILITIES
 from mysql_mimic.errors import ErrorCode, get_sqlstate, MysqlError
-from mysql_mimic.prepared import PreparedStatement, REGEX_PARAM
+from mysql_mimic.prepared import PreparedStatement, replace_params
 from mysql_mimic.results import NullBitmap, ResultColumn
 from mysql_mimic.types import (
     Capabilities,
@@ -522,6 +523,12 @@ def _interpolate_params(
         if Capabilities.CLIENT_QUERY_ATTRIBUTES in capabilities:
             parameter_count = read_uint_len(reader)
 
+    if parameter_count < stmt.num_params:
+        raise MysqlError(
+            f"Expected {stmt.num_params} parameters. Received: {parameter_count}",
+            ErrorCode.MALFORMED_PACKET,
+        )
+
     if parameter_count > 0:
         # When there are query attributes, they are combined with statement parameters.
         # The statement parameters will be first, query attributes second.
@@ -529,8 +536,9 @@ def _interpolate_params(
             capabilities, client_charset, reader, parameter_count, stmt.param_buffers
         )
 
-        for _, value in params[: stmt.num_params]:
-            sql = REGEX_PARAM.sub(_encode_param_as_sql(value), sql, 1)
+        sql = replace_params(
+            sql, [_encode_param_as_sql(value) for _, value in params[: stmt.num_params]]
+        )
 
         query_attrs = {k: v for k, v in params[stmt.num_params :] if k is not None}
 
@@ -539,13 +547,18 @@ def _interpolate_params(
 
 def _encode_param_as_sql(param: Any) -> str:
     if isinstance(param, str):
-        return f"'{param}'"
+        escaped = param.replace("\\", "\\\\").replace("'", "''")
+        return f"'{escaped}'"
     if param is None:
         return "NULL"
     if param is True:
         return "TRUE"
     if param is False:
         return "FALSE"
+    if isinstance(param, float) and not math.isfinite(param):
+        raise MysqlError(
+            f"Unsupported parameter value: {param}", ErrorCode.NOT_SUPPORTED_YET
+        )
     return str(param)
 
 
diff --git a/mysql_mimic/prepared.py b/mysql_mimic/prepared.py
index 15867c4..4d6e090 100644
--- a/mysql_mimic/prepared.py
+++ b/mysql_mimic/prepared.py
@@ -1,9 +1,23 @@
 import re
 from dataclasses import dataclass
-from typing import Optional, Dict, AsyncIterator
+from typing import Optional, Dict, AsyncIterator, List, Sequence
 
-# Borrowed from mysql-connector-python
-REGEX_PARAM = re.compile(r"""\?(?=(?:[^"'`]*["'`][^"'`]*["'`])*[^"'`]*$)""")
+# Everything that can contain a question mark which isn't a placeholder, or else a placeholder
+_REGEX_TOKEN = re.compile(
+    r"""
+      '[^'\\]*(?:\\.[^'\\]*)*(?:'|\\?\Z)   # Single quoted string
+    | "[^"\\]*(?:\\.[^"\\]*)*(?:"|\\?\Z)   # Double quoted string
+    | `[^`]*(?:`|\Z)                       # Quoted identifier
+    | \#[^\n]*                             # Comment
+    | --(?=[\x00-\x20]|\Z)[^\n]*           # Comment
+    | /\*.*?(?:\*/|\Z)                     # Comment
+    | (?P<param>\?)                        # Placeholder
+    """,
+    re.VERBOSE | re.DOTALL,
+)
+
+# Characters that would join the token in front of (or behind) a literal
+_REGEX_ADJACENT = re.compile(r"""[\w$@.'"`?]""")
 
 
 @dataclass
@@ -13,3 +27,38 @@ class PreparedStatement:
     num_params: int
     param_buffers: Optional[Dict[int, bytearray]] = None
     cursor: Optional[AsyncIterator[bytes]] = None
+
+
+def find_params(sql: str) -> List[int]:
+    """Find the positions of all placeholders"""
+    return [m.start() for m in _REGEX_TOKEN.finditer(sql) if m.group("param")]
+
+
+def replace_params(sql: str, literals: Sequence[str]) -> str:
+    """
+    Replace placeholders with SQL literals.
+
+    Args:
+        sql: statement with placeholders
+        literals: SQL literals, one for each placeholder
+    Returns:
+        The statement, which is otherwise unchanged. Literals that would join an adjacent
+        token are separated from it.
+    """
+    parts = []
+    end = 0
+    for position, literal in zip(find_params(sql), literals):
+        before = sql[position - 1 : position]
+        after = sql[position + 1 : position + 2]
+
+        parts.append(sql[end:position])
+        if before == "-" and literal[0] == "-":
+            literal = f"({literal})"  # Two dashes would start a comment
+        elif _REGEX_ADJACENT.match(before):
+            parts.append(" ")
+        parts.append(literal)
+        if _REGEX_ADJACENT.match(after):
+            parts.append(" ")
+        end = position + 1
+    parts.append(sql[end:])
+    return "".join(parts)
-- 
2.43.0


From b575ccc2253ce3252885a3f440b8d6010f334112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:18 +0000
Subject: [PATCH 18/41] fix: SQL operators of static and catalog queries do a
 bounded amount of work

---
 mysql_mimic/executor.py | 152 ++++++++++++++++++++++++++++++++++++++++
 mysql_mimic/schema.py   |  10 +--
 mysql_mimic/session.py  |   9 ++-
 3 files changed, 158 insertions(+), 13 deletions(-)
 create mode 100644 mysql_mimic/executor.py

diff --git a/mysql_mimic/executor.py b/mysql_mimic/executor.py
new file mode 100644
index 0000000..c6f9520
--- /dev/null
+++ b/mysql_mimic/executor.py
@@ -0,0 +1,152 @@
+"""
+Execution of the queries that are answered without the application, using SQLGlot's Python executor.
+
+SQLGlot maps SQL operators to the equivalent Python operators, some of which do an unbounded amount of work
+(e.g. `POW(9, POW(9, 9))`, `1 << 10000000000` or `'a' * 10000000000`). Clients must not be able to block the event loop
+or exhaust memory like that, so those operators are replaced here.
+"""
+
+from __future__ import annotations
+
+import re
+from datetime import date, timedelta
+from typing import Any, Callable, Dict, Optional
+
+from sqlglot import expressions as exp
+from sqlglot.executor import Table
+from sqlglot.executor.python import PythonExecutor
+from sqlglot.executor.table import ensure_tables
+from sqlglot.optimizer import optimize
+from sqlglot.planner import Plan
+from sqlglot.schema import ensure_schema
+
+from mysql_mimic.errors import ErrorCode, MysqlError
+
+MAX_UINT_64 = 2**64 - 1
+MAX_EXACT_INT = 2**53
+MAX_ROUND_DIGITS = 30
+
+
+def like(value: Any, pattern: str) -> bool:
+    """
+    SQL LIKE: match the whole value, where `%` is any string, `_` is any character and `\\` escapes a wildcard.
+
+    This doesn't backtrack.
+    """
+    value = str(value)
+
+    # The pieces of the pattern in between of the '%' wildcards, as regular expressions
+    pieces = [""]
+    chars = iter(str(pattern))
+    for char in chars:
+        if char == "%":
+            pieces.append("")
+        elif char == "_":
+            pieces[-1] += "."
+        else:
+            if char == "\\":
+                char = next(chars, char)
+            pieces[-1] += re.escape(char)
+
+    first, *middle = (re.compile(piece, re.DOTALL) for piece in pieces)
+
+    if not middle:
+        return bool(first.fullmatch(value))
+
+    match = first.match(value)
+    for piece in middle[:-1]:
+        if not match:
+            return False
+        match = piece.search(value, match.end())
+    if not match:
+        return False
+
+    # The last piece only contains fixed length patterns, so there's at most one place it can match
+    return bool(re.compile(f"(?:{pieces[-1]})\\Z", re.DOTALL).search(value, match.end()))
+
+
+def _null_if_any(func: Callable[..., Any]) -> Callable[..., Any]:
+    def wrapper(*args: Any) -> Any:
+        if any(a is None for a in args):
+            return None
+        return func(*args)
+
+    return wrapper
+
+
+def _arithmetic(func: Callable[[Any, Any], Any]) -> Callable[..., Any]:
+    """Operands of arithmetic operators can't be sequences, which Python would repeat or format"""
+
+    def wrapper(left: Any, right: Any) -> Any:
+        for operand in (left, right):
+            if not isinstance(operand, (int, float, date, timedelta)):
+                raise MysqlError(
+                    f"Invalid operand: {str(operand)[:100]}",
+                    code=ErrorCode.NOT_SUPPORTED_YET,
+                )
+        return func(left, right)
+
+    return _null_if_any(wrapper)
+
+
+def _pow(this: Any, power: Any) -> Any:
+    result = float(this) ** float(power)
+    if (
+        isinstance(this, int)
+        and isinstance(power, int)
+        and power >= 0
+        and abs(result) < MAX_EXACT_INT
+    ):
+        return int(result)
+    return result
+
+
+def _shift(func: Callable[[int, int], int]) -> Callable[..., Any]:
+    """Bit shifts are 64-bit operations"""
+
+    def wrapper(this: int, bits: int) -> int:
+        if not 0 <= bits < 64:
+            return 0
+        return func(this & MAX_UINT_64, bits) & MAX_UINT_64
+
+    return _null_if_any(wrapper)
+
+
+def _round(this: Any, decimals: Any = None, *_: Any) -> Any:
+    if this is None:
+        return None
+    if decimals is None:
+        return round(this)
+    return round(this, max(-MAX_ROUND_DIGITS, min(MAX_ROUND_DIGITS, decimals)))
+
+
+def _unsupported(*_: Any) -> Any:
+    raise MysqlError("Unsupported function", code=ErrorCode.NOT_SUPPORTED_YET)
+
+
+ENV: Dict[str, Callable[..., Any]] = {
+    "ADD": _arithmetic(lambda left, right: left + right),
+    "SUB": _arithmetic(lambda left, right: left - right),
+    "MUL": _arithmetic(lambda left, right: left * right),
+    "MOD": _arithmetic(lambda left, right: left % right),
+    "POW": _arithmetic(_pow),
+    "ROUND": _round,
+    "BITWISELEFTSHIFT": _shift(lambda this, bits: this << bits),
+    "BITWISERIGHTSHIFT": _shift(lambda this, bits: this >> bits),
+    "LIKE": _null_if_any(like),
+    "ARRAYANY": _unsupported,
+    "STRFTIME": _unsupported,
+}
+
+
+def execute(
+    expression: exp.Expression,
+    schema: Optional[Dict] = None,
+    tables: Optional[Dict[str, Dict[str, Table]]] = None,
+) -> Table:
+    """Like `sqlglot.executor.execute`, but safe to use with any expression"""
+    optimized = optimize(
+        expression, ensure_schema(schema or {}), leave_tables_isolated=True
+    )
+    executor = PythonExecutor(env=ENV, tables=ensure_tables(tables))
+    return executor.execute(Plan(optimized))
diff --git a/mysql_mimic/schema.py b/mysql_mimic/schema.py
index 5d7f587..e10c340 100644
--- a/mysql_mimic/schema.py
+++ b/mysql_mimic/schema.py
@@ -1,17 +1,17 @@
 from __future__ import annotations
 
-import re
 from collections import defaultdict
 from itertools import chain
 from dataclasses import dataclass
 from typing import Any, Optional, List, Dict, Iterable
 
-from sqlglot.executor import Table, execute
+from sqlglot.executor import Table
 from sqlglot import expressions as exp
 
 from mysql_mimic.constants import INFO_SCHEMA
 from mysql_mimic.results import AllowedResult
 from mysql_mimic.errors import MysqlError, ErrorCode
+from mysql_mimic.executor import execute
 from mysql_mimic.packets import ComFieldList
 from mysql_mimic.utils import dict_depth
 
@@ -264,12 +264,6 @@ def com_field_list_to_show_statement(com_field_list: ComFieldList) -> str:
     return show.sql(dialect="mysql")
 
 
-def like_to_regex(like: str) -> re.Pattern:
-    like = like.replace("%", ".*?")
-    like = like.replace("_", ".")
-    return re.compile(like)
-
-
 class BaseInfoSchema:
     """
     Base InfoSchema interface used by the `Session` class.
diff --git a/mysql_mimic/session.py b/mysql_mimic/session.py
index 0fdb119..1a81896 100644
--- a/mysql_mimic/session.py
+++ b/mysql_mimic/session.py
@@ -16,10 +16,10 @@ from typing import (
 from sqlglot import Dialect
 from sqlglot.dialects import MySQL
 from sqlglot import expressions as exp
-from sqlglot.executor import execute
 
 from mysql_mimic.charset import CharacterSet
 from mysql_mimic.errors import ErrorCode, MysqlError
+from mysql_mimic.executor import execute, like
 from mysql_mimic.intercept import (
     setitem_kind,
     value_to_expression,
@@ -28,7 +28,6 @@ from mysql_mimic.intercept import (
 )
 from mysql_mimic.schema import (
     show_statement_to_info_schema_query,
-    like_to_regex,
     BaseInfoSchema,
     ensure_info_schema,
 )
@@ -578,9 +577,9 @@ class Session(BaseSession):
 
     def _show_variables(self, show: exp.Show) -> AllowedResult:
         rows = [(k, None if v is None else str(v)) for k, v in self.variables.list()]
-        like = show.text("like")
-        if like:
-            rows = [(k, v) for k, v in rows if like_to_regex(like).match(k)]
+        pattern = show.text("like")
+        if pattern:
+            rows = [(k, v) for k, v in rows if like(k, pattern)]
         return rows, ["Variable_name", "Value"]
 
     def _show_status(self, show: exp.Show) -> AllowedResult:
-- 
2.43.0


From e77644525658621192f45b1f2816d519f16d5083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:26 +0000
Subject: [PATCH 19/41] fix: killing a query affects nothing but that query,
 and killing a connection does not wait for the client

---
 mysql_mimic/connection.py | 193 ++++++++++++++++++++++++--------------
 mysql_mimic/stream.py     |  22 ++++-
 2 files changed, 143 insertions(+), 72 deletions(-)

diff --git a/mysql_mimic/connection.py b/mysql_mimic/connection.py
index 8f0b91e..0913c33 100644
--- a/mysql_mimic/connection.py
+++ b/mysql_mimic/connection.py
@@ -72,9 +72,15 @@ class Connection:
         self.prepared_stmts: Dict[int, PreparedStatement] = {}
 
         self.connection_id: int = 0
-        self._kill: Optional[KillKind] = None
         self._task: Optional[asyncio.Task] = None
 
+        # The kill that has been requested, if any
+        self._kill: Optional[KillKind] = None
+        # Whether a command is being executed, i.e. its response isn't complete yet
+        self._executing = False
+        # Whether the session is being closed already
+        self._closing = False
+
     @property
     def server_charset(self) -> CharacterSet:
         return CharacterSet[self.session.variables.get("character_set_results")]
@@ -85,6 +91,8 @@ class Connection:
 
     async def start(self) -> None:
         self._task = asyncio.create_task(self._start())
+        if self._kill:  # before we even started
+            self._task.cancel()
         try:
             await self._task
         finally:
@@ -106,22 +114,61 @@ class Connection:
         except asyncio.CancelledError:
             if self._kill == KillKind.CONNECTION:
                 logger.info("Connection %s killed", self.connection_id)
-                await self.stream.write(
+                # Don't wait for the client to read this
+                self.stream.write_nowait(
                     self.error(
                         msg="Session was killed", code=ErrorCode.SESSION_WAS_KILLED
                     )
                 )
-                self._kill = None
+                self.stream.abort_if_stalled()
             else:
                 raise
         finally:
+            self._closing = True
             await self.session.close()
 
     def kill(self, kind: KillKind = KillKind.CONNECTION) -> None:
+        if self._closing or self._kill == KillKind.CONNECTION:
+            return
+        if kind == KillKind.QUERY and (self._kill or not self._executing):
+            # There's nothing to kill, or it's being killed already
+            return
+        self._kill = kind
         if self._task:
-            self._kill = kind
             self._task.cancel()
 
+    async def _deliver_kill(self) -> None:
+        """Raise CancelledError if a kill has been requested but hasn't been delivered to this task yet."""
+        if self._kill:
+            await asyncio.sleep(0)
+
+    async def _end_command(self) -> None:
+        """Make sure that killing a query doesn't affect the connection after that query"""
+        self._executing = False
+        if not self._kill:
+            return
+        try:
+            await self._deliver_kill()
+        except asyncio.CancelledError:
+            if self._kill != KillKind.QUERY:
+                raise
+        if self._kill == KillKind.CONNECTION:
+            # This was requested, but the application caught the CancelledError
+            raise asyncio.CancelledError()
+        self._kill = None
+        if self._task and hasattr(self._task, "uncancel"):  # python >=3.11
+            self._task.uncancel()
+
+    async def _before_last_packet(self) -> None:
+        """From here on, the command can't be killed anymore"""
+        await self._deliver_kill()
+        self._executing = False
+
+    async def _write_last(self, data: bytes) -> None:
+        """Write the last packet of a response"""
+        await self._before_last_packet()
+        await self.stream.write(data)
+
     async def connection_phase(self) -> bool:
         """Returns True if the client is authenticated. Otherwise, it must not be served."""
         default_auth_plugin = self.identity_provider.get_default_plugin()
@@ -185,6 +232,8 @@ class Connection:
 
         Returns True if the client is authenticated. Otherwise, the connection must be closed.
         """
+        # There's no query to kill, and the authentication can't be resumed
+        self._executing = False
         try:
             return await self._change_user(data)
         except Exception as e:  # pylint: disable=broad-except
@@ -331,66 +380,70 @@ class Connection:
             except ConnectionClosed:
                 logger.info("Connection closed")
                 return
+
+            error = None
+            self._executing = True
             try:
-                command = data[0]
-                rest = data[1:]
-
-                if command == types.Commands.COM_QUERY:
-                    await self.handle_query(rest)
-                elif command == types.Commands.COM_STMT_PREPARE:
-                    await self.handle_stmt_prepare(rest)
-                elif command == types.Commands.COM_STMT_SEND_LONG_DATA:
-                    await self.handle_stmt_send_long_data(rest)
-                elif command == types.Commands.COM_STMT_EXECUTE:
-                    await self.handle_stmt_execute(rest)
-                elif command == types.Commands.COM_STMT_FETCH:
-                    await self.handle_stmt_fetch(rest)
-                elif command == types.Commands.COM_STMT_RESET:
-                    await self.handle_stmt_reset(rest)
-                elif command == types.Commands.COM_STMT_CLOSE:
-                    await self.handle_stmt_close(rest)
-                elif command == types.Commands.COM_PING:
-                    await self.handle_ping(rest)
-                elif command == types.Commands.COM_CHANGE_USER:
-                    if not await self.handle_change_user(rest):
-                        return
-                elif command == types.Commands.COM_RESET_CONNECTION:
-                    await self.handle_reset_connection(rest)
-                elif command == types.Commands.COM_DEBUG:
-                    await self.handle_debug(rest)
-                elif command == types.Commands.COM_QUIT:
+                if not await self.handle_command(data):
                     return
-                elif command == types.Commands.COM_INIT_DB:
-                    await self.handle_init_db(rest)
-                elif command == types.Commands.COM_FIELD_LIST:
-                    await self.handle_field_list(rest)
-                else:
-                    raise MysqlError(
-                        f"Unsupported Command: {hex(command)}",
-                        ErrorCode.UNKNOWN_COM_ERROR,
-                    )
-
             except MysqlError as e:
                 logger.error(e)
-                await self.stream.write(self.error(msg=e.msg, code=e.code))
+                error = self.error(msg=e.msg, code=e.code)
             except asyncio.CancelledError:
-                if self._kill == KillKind.QUERY:
-                    logger.info("Query killed on connection %s", self.connection_id)
-                    if self._task and hasattr(self._task, "uncancel"):  # python >=3.11
-                        self._task.uncancel()
-                    await self.stream.write(
-                        self.error(
-                            msg="Query was killed", code=ErrorCode.SESSION_WAS_KILLED
-                        )
-                    )
-                    self._kill = None
-                else:
+                if self._kill != KillKind.QUERY:
                     raise
+                logger.info("Query killed on connection %s", self.connection_id)
+                error = self.error(
+                    msg="Query was killed", code=ErrorCode.SESSION_WAS_KILLED
+                )
             except Exception as e:  # pylint: disable=broad-except
                 logger.exception(e)
-                await self.stream.write(self.error(msg=e))
-            finally:
-                self.stream.reset_seq()
+                error = self.error(msg=e)
+
+            await self._end_command()
+            if error is not None:
+                await self.stream.write(error)
+            self.stream.reset_seq()
+
+    async def handle_command(self, data: bytes) -> bool:
+        """Returns False if the connection must be closed"""
+        command = data[0]
+        rest = data[1:]
+
+        if command == types.Commands.COM_QUERY:
+            await self.handle_query(rest)
+        elif command == types.Commands.COM_STMT_PREPARE:
+            await self.handle_stmt_prepare(rest)
+        elif command == types.Commands.COM_STMT_SEND_LONG_DATA:
+            await self.handle_stmt_send_long_data(rest)
+        elif command == types.Commands.COM_STMT_EXECUTE:
+            await self.handle_stmt_execute(rest)
+        elif command == types.Commands.COM_STMT_FETCH:
+            await self.handle_stmt_fetch(rest)
+        elif command == types.Commands.COM_STMT_RESET:
+            await self.handle_stmt_reset(rest)
+        elif command == types.Commands.COM_STMT_CLOSE:
+            await self.handle_stmt_close(rest)
+        elif command == types.Commands.COM_PING:
+            await self.handle_ping(rest)
+        elif command == types.Commands.COM_CHANGE_USER:
+            return await self.handle_change_user(rest)
+        elif command == types.Commands.COM_RESET_CONNECTION:
+            await self.handle_reset_connection(rest)
+        elif command == types.Commands.COM_DEBUG:
+            await self.handle_debug(rest)
+        elif command == types.Commands.COM_QUIT:
+            return False
+        elif command == types.Commands.COM_INIT_DB:
+            await self.handle_init_db(rest)
+        elif command == types.Commands.COM_FIELD_LIST:
+            await self.handle_field_list(rest)
+        else:
+            raise MysqlError(
+                f"Unsupported Command: {hex(command)}",
+                ErrorCode.UNKNOWN_COM_ERROR,
+            )
+        return True
 
     async def handle_ping(self, data: bytes) -> None:  # pylint: disable=unused-argument
         """
@@ -398,7 +451,7 @@ class Connection:
 
         COM_PING check if the server is alive.
         """
-        await self.stream.write(self.ok())
+        await self._write_last(self.ok())
 
     async def handle_reset_connection(
         self, data: bytes
@@ -410,7 +463,7 @@ class Connection:
 
         For now, we're just treating this like a no-op.
         """
-        await self.stream.write(self.ok())
+        await self._write_last(self.ok())
 
     async def handle_debug(
         self, data: bytes
@@ -422,11 +475,11 @@ class Connection:
 
         For now, we're just treating this like a no-op.
         """
-        await self.stream.write(self.ok())
+        await self._write_last(self.ok())
 
     async def handle_init_db(self, data: bytes) -> None:
         await self.session.use(parse_com_init_db(self.client_charset, data))
-        await self.stream.write(self.ok())
+        await self._write_last(self.ok())
 
     async def handle_field_list(self, data: bytes) -> None:
         com_field_list = parse_com_field_list(self.client_charset, data)
@@ -443,7 +496,7 @@ class Connection:
                 ),
                 drain=False,
             )
-        await self.stream.write(self.ok_or_eof())
+        await self._write_last(self.ok_or_eof())
 
     async def handle_query(self, data: bytes) -> None:
         """
@@ -461,7 +514,7 @@ class Connection:
         result_set = await self.query(com_query.sql, com_query.query_attrs)
 
         if not result_set:
-            await self.stream.write(self.ok())
+            await self._write_last(self.ok())
             return
 
         async for packet in self.text_resultset(result_set):
@@ -486,9 +539,10 @@ class Connection:
         )
         self.prepared_stmts[stmt_id] = stmt
 
-        for packet in self.com_stmt_prepare_response(stmt):
+        *first, last = self.com_stmt_prepare_response(stmt)
+        for packet in first:
             await self.stream.write(packet, drain=False)
-        await self.stream.drain()
+        await self._write_last(last)
 
     async def handle_stmt_send_long_data(self, data: bytes) -> None:
         """
@@ -529,7 +583,7 @@ class Connection:
         )
 
         if not result_set:
-            await self.stream.write(self.ok())
+            await self._write_last(self.ok())
             return
 
         await self.stream.write(types.uint_len(len(result_set.columns)))
@@ -552,7 +606,7 @@ class Connection:
 
         if com_stmt_execute.use_cursor:
             com_stmt_execute.stmt.cursor = rows
-            await self.stream.write(
+            await self._write_last(
                 self.ok_or_eof(flags=types.ServerStatus.SERVER_STATUS_CURSOR_EXISTS)
             )
         else:
@@ -560,7 +614,7 @@ class Connection:
                 await self.stream.write(self.eof())
             async for row in rows:
                 await self.stream.write(row)
-            await self.stream.write(self.ok_or_eof())
+            await self._write_last(self.ok_or_eof())
 
     async def handle_stmt_fetch(self, data: bytes) -> None:
         """
@@ -590,7 +644,7 @@ class Connection:
             stmt.cursor = None
             raise
 
-        await self.stream.write(
+        await self._write_last(
             self.ok_or_eof(
                 flags=(
                     types.ServerStatus.SERVER_STATUS_LAST_ROW_SENT
@@ -612,7 +666,7 @@ class Connection:
         stmt.param_buffers = None
         stmt.cursor = None
         await self.session.reset()
-        await self.stream.write(self.ok())
+        await self._write_last(self.ok())
 
     async def handle_stmt_close(self, data: bytes) -> None:
         """
@@ -697,6 +751,7 @@ class Connection:
             affected_rows += 1
             yield packets.make_text_resultset_row(row, result_set.columns)
 
+        await self._before_last_packet()
         yield self.ok_or_eof(affected_rows=affected_rows)
 
     def com_stmt_prepare_response(
diff --git a/mysql_mimic/stream.py b/mysql_mimic/stream.py
index 4ca49bd..115e2a2 100644
--- a/mysql_mimic/stream.py
+++ b/mysql_mimic/stream.py
@@ -66,6 +66,16 @@ class MysqlStream:
                 return data
 
     async def write(self, data: bytes, drain: bool = True) -> None:
+        self._buffer_packets(data)
+        if drain or len(self._buffer) >= self._buffer_size:
+            await self.drain()
+
+    def write_nowait(self, data: bytes) -> None:
+        """Like `write`, but without waiting for the client to read it"""
+        self._buffer_packets(data)
+        self._flush()
+
+    def _buffer_packets(self, data: bytes) -> None:
         while True:
             # Grab first 0xFFFFFF bytes to send
             payload = data[:0xFFFFFF]
@@ -76,21 +86,27 @@ class MysqlStream:
             packet = payload_length + sequence_id + payload
 
             self._buffer.extend(packet)
-            if drain or len(self._buffer) >= self._buffer_size:
-                await self.drain()
 
             # We are done unless len(send) == 0xFFFFFF
             if len(payload) != 0xFFFFFF:
                 return
 
-    async def drain(self) -> None:
+    def _flush(self) -> None:
         if self._buffer:
             # The transport may keep a reference to the data it couldn't send yet,
             # so hand over the buffer instead of reusing it.
             data, self._buffer = self._buffer, bytearray()
             self.writer.write(data)
+
+    async def drain(self) -> None:
+        self._flush()
         await self.writer.drain()
 
+    def abort_if_stalled(self) -> None:
+        """Don't wait for a client that doesn't read what has been sent"""
+        if self.writer.transport.get_write_buffer_size():
+            self.writer.transport.abort()
+
     def reset_seq(self) -> None:
         self.seq.reset()
 
-- 
2.43.0


From fa23e4bc9c94586b1259636e467f97a230960ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:14 +0000
Subject: [PATCH 20/41] fix: validate the values of system variables, and apply
 time_zone to NOW() right away

---
 mysql_mimic/session.py   |  16 +++--
 mysql_mimic/variables.py | 130 ++++++++++++++++++++++++++++-----------
 2 files changed, 105 insertions(+), 41 deletions(-)

diff --git a/mysql_mimic/session.py b/mysql_mimic/session.py
index 1a81896..9af00b1 100644
--- a/mysql_mimic/session.py
+++ b/mysql_mimic/session.py
@@ -38,6 +38,7 @@ from mysql_mimic.variables import (
     SessionVariables,
     GlobalVariables,
     DEFAULT,
+    parse_charset,
     parse_timezone,
 )
 from mysql_mimic.results import AllowedResult
@@ -190,9 +191,9 @@ class Session(BaseSession):
             "CURRENT_USER": lambda: self.username,
             "VERSION": lambda: self.variables.get("version"),
             "DATABASE": lambda: self.database,
-            "NOW": lambda: self.timestamp.strftime("%Y-%m-%d %H:%M:%S"),
-            "CURDATE": lambda: self.timestamp.strftime("%Y-%m-%d"),
-            "CURTIME": lambda: self.timestamp.strftime("%H:%M:%S"),
+            "NOW": lambda: self._now().strftime("%Y-%m-%d %H:%M:%S"),
+            "CURDATE": lambda: self._now().strftime("%Y-%m-%d"),
+            "CURTIME": lambda: self._now().strftime("%H:%M:%S"),
         }
         # Synonyms
         self._functions.update(
@@ -559,15 +560,16 @@ class Session(BaseSession):
             charset_name = DEFAULT
             collation_name = DEFAULT
         else:
-            charset_name = item.name
+            charset_name = parse_charset(item.name)
             collation_name = (
                 item.text("collate")
                 or CharacterSet[charset_name].default_collation.name
             )
+        # This might fail, in which case nothing must change
+        self.variables.set("collation_connection", collation_name)
         self.variables.set("character_set_client", charset_name)
         self.variables.set("character_set_connection", charset_name)
         self.variables.set("character_set_results", charset_name)
-        self.variables.set("collation_connection", collation_name)
 
     def _set_transaction(self, item: exp.SetItem) -> None:
         characteristics = [e.name.upper() for e in item.expressions]
@@ -591,6 +593,10 @@ class Session(BaseSession):
     def _show_errors(self, show: exp.Show) -> AllowedResult:
         return [], ["Level", "Code", "Message"]
 
+    def _now(self) -> datetime:
+        """Time when query started, in the current time zone"""
+        return self.timestamp.astimezone(self.timezone())
+
     def timezone(self) -> timezone_:
         tz = self.variables.get("time_zone")
         return parse_timezone(tz)
diff --git a/mysql_mimic/variables.py b/mysql_mimic/variables.py
index e5a0d8a..7d2f5aa 100644
--- a/mysql_mimic/variables.py
+++ b/mysql_mimic/variables.py
@@ -1,6 +1,7 @@
 from __future__ import annotations
 
 import abc
+import codecs
 import re
 from datetime import timezone, timedelta
 from functools import lru_cache
@@ -19,41 +20,96 @@ VariableSchema = Tuple[VariableType, Any, bool]
 
 DEFAULT = Default()
 
+
+def _wrong_value(value: Any) -> MysqlError:
+    return MysqlError(
+        f"Invalid value: {str(value)[:100]}", code=ErrorCode.WRONG_VALUE_FOR_VAR
+    )
+
+
+def parse_str(value: Any) -> str:
+    if isinstance(value, bool):
+        return "ON" if value else "OFF"
+    return str(value)
+
+
+def parse_bool(value: Any) -> bool:
+    if isinstance(value, str):
+        if value.upper() in {"ON", "TRUE", "1"}:
+            return True
+        if value.upper() in {"OFF", "FALSE", "0"}:
+            return False
+        raise _wrong_value(value)
+    return bool(value)
+
+
+def parse_int(value: Any) -> int:
+    try:
+        result = int(value)
+    except (ValueError, OverflowError) as e:
+        raise _wrong_value(value) from e
+    if not -(2**63) <= result < 2**64:
+        raise _wrong_value(value)
+    return result
+
+
+def parse_charset(value: Any) -> str:
+    """Character sets are used to communicate with the client, so they must be known, and there must be a codec"""
+    try:
+        charset = CharacterSet[str(value).lower()]
+        codecs.lookup(charset.codec)
+    except LookupError as e:
+        raise _wrong_value(value) from e
+    return charset.name
+
+
+def parse_collation(value: Any) -> str:
+    try:
+        return Collation[str(value).lower()].name
+    except LookupError as e:
+        raise _wrong_value(value) from e
+
+
+def parse_timezone_name(value: Any) -> str:
+    parse_timezone(str(value))
+    return str(value)
+
+
 SYSTEM_VARIABLES: dict[str, VariableSchema] = {
     # name: (type, default, dynamic)
-    "auto_increment_increment": (int, 1, True),
-    "autocommit": (bool, True, True),
-    "character_set_client": (str, CharacterSet.utf8mb4.name, True),
-    "character_set_connection": (str, CharacterSet.utf8mb4.name, True),
-    "character_set_database": (str, CharacterSet.utf8mb4.name, True),
-    "character_set_results": (str, CharacterSet.utf8mb4.name, True),
-    "character_set_server": (str, CharacterSet.utf8mb4.name, True),
-    "collation_connection": (str, Collation.utf8mb4_general_ci.name, True),
-    "collation_database": (str, Collation.utf8mb4_general_ci.name, True),
-    "collation_server": (str, Collation.utf8mb4_general_ci.name, True),
-    "external_user": (str, "", False),
-    "init_connect": (str, "", True),
-    "interactive_timeout": (int, 28800, True),
-    "license": (str, "MIT", False),
-    "lower_case_table_names": (int, 0, True),
-    "max_allowed_packet": (int, 67108864, True),
-    "max_execution_time": (int, 0, True),
-    "net_buffer_length": (int, 16384, True),
-    "net_write_timeout": (int, 28800, True),
-    "performance_schema": (bool, False, False),
-    "sql_auto_is_null": (bool, False, True),
-    "sql_mode": (str, "ANSI", True),
-    "sql_select_limit": (int, None, True),
-    "system_time_zone": (str, "UTC", False),
-    "time_zone": (str, "UTC", True),
-    "transaction_read_only": (bool, False, True),
-    "transaction_isolation": (str, "READ-COMMITTED", True),
-    "version": (str, "8.0.29", False),
-    "version_comment": (str, "mysql-mimic", False),
-    "wait_timeout": (int, 28800, True),
-    "event_scheduler": (str, "OFF", True),
-    "default_storage_engine": (str, "mysql-mimic", True),
-    "default_tmp_storage_engine": (str, "mysql-mimic", True),
+    "auto_increment_increment": (parse_int, 1, True),
+    "autocommit": (parse_bool, True, True),
+    "character_set_client": (parse_charset, CharacterSet.utf8mb4.name, True),
+    "character_set_connection": (parse_charset, CharacterSet.utf8mb4.name, True),
+    "character_set_database": (parse_charset, CharacterSet.utf8mb4.name, True),
+    "character_set_results": (parse_charset, CharacterSet.utf8mb4.name, True),
+    "character_set_server": (parse_charset, CharacterSet.utf8mb4.name, True),
+    "collation_connection": (parse_collation, Collation.utf8mb4_general_ci.name, True),
+    "collation_database": (parse_collation, Collation.utf8mb4_general_ci.name, True),
+    "collation_server": (parse_collation, Collation.utf8mb4_general_ci.name, True),
+    "external_user": (parse_str, "", False),
+    "init_connect": (parse_str, "", True),
+    "interactive_timeout": (parse_int, 28800, True),
+    "license": (parse_str, "MIT", False),
+    "lower_case_table_names": (parse_int, 0, True),
+    "max_allowed_packet": (parse_int, 67108864, True),
+    "max_execution_time": (parse_int, 0, True),
+    "net_buffer_length": (parse_int, 16384, True),
+    "net_write_timeout": (parse_int, 28800, True),
+    "performance_schema": (parse_bool, False, False),
+    "sql_auto_is_null": (parse_bool, False, True),
+    "sql_mode": (parse_str, "ANSI", True),
+    "sql_select_limit": (parse_int, None, True),
+    "system_time_zone": (parse_str, "UTC", False),
+    "time_zone": (parse_timezone_name, "UTC", True),
+    "transaction_read_only": (parse_bool, False, True),
+    "transaction_isolation": (parse_str, "READ-COMMITTED", True),
+    "version": (parse_str, "8.0.29", False),
+    "version_comment": (parse_str, "mysql-mimic", False),
+    "wait_timeout": (parse_int, 28800, True),
+    "event_scheduler": (parse_str, "OFF", True),
+    "default_storage_engine": (parse_str, "mysql-mimic", True),
+    "default_tmp_storage_engine": (parse_str, "mysql-mimic", True),
 }
 
 
@@ -124,16 +180,18 @@ class SessionVariables(Variables):
         return self.global_variables.schema
 
 
-RE_TIMEZONE = re.compile(r"^(?P<sign>[+-])(?P<hours>\d\d):(?P<minutes>\d\d)")
+RE_TIMEZONE = re.compile(r"(?P<sign>[+-])(?P<hours>[0-1][0-9]|2[0-3]):(?P<minutes>[0-5][0-9])")
 
 
 @lru_cache(maxsize=48)
 def parse_timezone(tz: str) -> timezone:
     if tz.lower() == "utc":
         return timezone.utc
-    match = RE_TIMEZONE.match(tz)
+    match = RE_TIMEZONE.fullmatch(tz)
     if not match:
-        raise MysqlError(msg=f"Invalid timezone: {tz}")
+        raise MysqlError(
+            f"Invalid timezone: {tz[:100]}", code=ErrorCode.WRONG_VALUE_FOR_VAR
+        )
     offset = timedelta(
         hours=int(match.group("hours")), minutes=int(match.group("minutes"))
     )
-- 
2.43.0


From 09ca8db256fe19cf4ed78192645f5cddb631794e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:33 +0000
Subject: [PATCH 21/41] fix: close the connection if it is refused or its
 session can't be created

---
 mysql_mimic/server.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mysql_mimic/server.py b/mysql_mimic/server.py
index 6410a1e..d4102c7 100644
--- a/mysql_mimic/server.py
+++ b/mysql_mimic/server.py
@@ -84,6 +84,7 @@ class MysqlServer:
                 # Return an error so clients don't freeze
                 packets.make_error(capabilities=self.capabilities)
             )
+            writer.close()
             return
 
         try:
@@ -96,10 +97,12 @@ class MysqlServer:
                     code=ErrorCode.CON_COUNT_ERROR,
                 )
             )
+            writer.close()
             return
         except Exception:  # pylint: disable=broad-except
             logger.exception("Failed to register connection")
             await stream.write(connection.error(msg="Failed to register connection"))
+            writer.close()
             return
 
         try:
-- 
2.43.0


From fc70971b99790833d4441d1b00f22865a309debe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:46 +0000
Subject: [PATCH 22/41] fix: 0 is a valid server ID

---
 mysql_mimic/control.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mysql_mimic/control.py b/mysql_mimic/control.py
index 8ef037c..b44eb61 100644
--- a/mysql_mimic/control.py
+++ b/mysql_mimic/control.py
@@ -59,7 +59,11 @@ class LocalControl(Control):
     def __init__(self, server_id: Optional[int] = None):
         self._connection_seq = seq(self._MAX_CONNECTION_SEQ)
         self._connections: Dict[int, Connection] = {}
-        self.server_id = server_id or random.randint(0, self._MAX_SERVER_ID - 1)
+        self.server_id = (
+            random.randint(0, self._MAX_SERVER_ID - 1)
+            if server_id is None
+            else server_id
+        )
 
     async def add(self, connection: Connection) -> int:
         connection_id = self._new_connection_id()
-- 
2.43.0


From 09a2597b46070d305eb8fb85ba38dd8fa6a1b4a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:49 +0000
Subject: [PATCH 23/41] fix: infer column types from a bounded number of rows

---
 mysql_mimic/results.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/mysql_mimic/results.py b/mysql_mimic/results.py
index 5d0da1b..b147438 100644
--- a/mysql_mimic/results.py
+++ b/mysql_mimic/results.py
@@ -81,6 +81,10 @@ AllowedResult = Union[
 ]
 
 
+# Rows that are peeked to infer the types of columns are kept in memory, and results aren't necessarily bounded
+MAX_PEEKED_ROWS = 10_000
+
+
 async def ensure_result_set(result: AllowedResult) -> ResultSet:
     if result is None:
         return ResultSet([], [])
@@ -122,8 +126,16 @@ async def _ensure_result_cols(
     # Keep track of rows we've consumed from the iterator so we can add them back
     peeks = []
 
+    # The type of columns for which all values are NULL
+    null_type = ColumnType.NULL
+
     # Find the first non-null value for each column
     while remaining:
+        if len(peeks) >= MAX_PEEKED_ROWS:
+            # There may be values in rows that we haven't seen
+            null_type = ColumnType.VARCHAR
+            break
+
         try:
             peek = await arows.__anext__()
         except StopAsyncIteration:
@@ -149,7 +161,7 @@ async def _ensure_result_cols(
     for i, name in remaining.items():
         columns[i] = ResultColumn(
             name=str(name),
-            type=ColumnType.NULL,
+            type=null_type,
         )
 
     # Add the consumed rows back in to the iterator
-- 
2.43.0


From 88608da0b6fe349c9b416159d0a2ca789bc72923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:57 +0000
Subject: [PATCH 24/41] fix: only queries that read nothing but catalog
 databases are catalog queries

With a catalog database as the default database, every statement was executed by the catalog, even
INSERTs or queries on tables of other databases. Queries using the same alias twice were rejected.
---
 mysql_mimic/session.py |  7 +++----
 mysql_mimic/utils.py   | 42 ++++++++++++++++++++++++++++++------------
 2 files changed, 33 insertions(+), 16 deletions(-)

diff --git a/mysql_mimic/session.py b/mysql_mimic/session.py
index 9af00b1..80ff317 100644
--- a/mysql_mimic/session.py
+++ b/mysql_mimic/session.py
@@ -506,10 +506,9 @@ class Session(BaseSession):
 
     async def _info_schema_middleware(self, q: Query) -> AllowedResult:
         """Intercept queries to INFORMATION_SCHEMA tables"""
-        dbs = find_dbs(q.expression)
-        if (self.database and self.database.lower() in INFO_SCHEMA) or (
-            dbs and all(db.lower() in INFO_SCHEMA for db in dbs)
-        ):
+        # Unqualified tables are in the default database
+        dbs = [db or self.database or "" for db in find_dbs(q.expression)]
+        if dbs and all(db.lower() in INFO_SCHEMA for db in dbs):
             return await self._query_info_schema(q.expression)
         return await q.next()
 
diff --git a/mysql_mimic/utils.py b/mysql_mimic/utils.py
index 676f045..7bdf711 100644
--- a/mysql_mimic/utils.py
+++ b/mysql_mimic/utils.py
@@ -8,7 +8,6 @@ from typing import List, TypeVar, AsyncIterable, Iterable, AsyncIterator, cast
 import string
 
 from sqlglot import expressions as exp
-from sqlglot.optimizer.scope import traverse_scope
 
 
 T = TypeVar("T")
@@ -53,17 +52,36 @@ def nonce(nbytes: int) -> bytes:
 
 
 def find_tables(expression: exp.Expression) -> List[exp.Table]:
-    """Find all tables in an expression"""
-    if isinstance(
-        expression, (exp.Select, exp.Subquery, exp.Union, exp.Except, exp.Intersect)
-    ):
-        return [
-            source
-            for scope in traverse_scope(expression)
-            for source in scope.sources.values()
-            if isinstance(source, exp.Table)
-        ]
-    return []
+    """Find all tables that a query reads"""
+    if not isinstance(expression, exp.Query):
+        return []
+    return [
+        table
+        for table in expression.find_all(exp.Table)
+        if not isinstance(table.parent, (exp.Into, exp.Lock))
+        and not _is_cte_reference(table)
+    ]
+
+
+def _is_cte_reference(table: exp.Table) -> bool:
+    """True if this refers to a common table expression, instead of a table in a database"""
+    if table.text("db"):
+        return False
+    name = table.name.lower()
+    child: exp.Expression = table
+    parent = child.parent
+    while parent:
+        ctes: List[exp.Expression] = []
+        if isinstance(parent, exp.With):
+            # Only preceding CTEs are visible in here, and this one if it's recursive
+            index = next(i for i, e in enumerate(parent.expressions) if e is child)
+            ctes = parent.expressions[: index + (1 if parent.recursive else 0)]
+        elif not isinstance(child, exp.With) and parent.args.get("with"):
+            ctes = parent.args["with"].expressions
+        if any(cte.alias.lower() == name for cte in ctes):
+            return True
+        child, parent = parent, parent.parent
+    return False
 
 
 def find_dbs(expression: exp.Expression) -> List[str]:
-- 
2.43.0


From d93d73d15800a5c4c82c59cd960ad18249f92576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:57 +0000
Subject: [PATCH 25/41] fix: a SELECT without FROM is answered statically iff
 it reads no table

With clauses such as WHERE or DISTINCT it was passed to the application, and with a subquery that
reads a table of the application it was not.
---
 mysql_mimic/session.py | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/mysql_mimic/session.py b/mysql_mimic/session.py
index 80ff317..54a8c34 100644
--- a/mysql_mimic/session.py
+++ b/mysql_mimic/session.py
@@ -32,7 +32,7 @@ from mysql_mimic.schema import (
     ensure_info_schema,
 )
 from mysql_mimic.constants import INFO_SCHEMA, KillKind
-from mysql_mimic.utils import find_dbs
+from mysql_mimic.utils import find_dbs, find_tables
 from mysql_mimic.variables import (
     Variables,
     SessionVariables,
@@ -49,6 +49,18 @@ if TYPE_CHECKING:
 
 Middleware = Callable[["Query"], Awaitable[AllowedResult]]
 
+# Clauses that are supported in a SELECT without FROM
+STATIC_QUERY_ARGS = {
+    "with",
+    "hint",
+    "distinct",
+    "expressions",
+    "where",
+    "order",
+    "limit",
+    "locks",
+}
+
 
 @dataclass
 class Query:
@@ -470,10 +482,20 @@ class Session(BaseSession):
 
         These very common, as many clients execute commands like SELECT DATABASE() when connecting.
         """
-        if isinstance(q.expression, exp.Select) and not any(
-            q.expression.args.get(a)
-            for a in set(exp.Select.arg_types) - {"expressions", "limit", "hint"}
+        if (
+            isinstance(q.expression, exp.Select)
+            and not q.expression.args.get("from")
+            and not find_tables(q.expression)
         ):
+            for arg in sorted(set(exp.Select.arg_types) - STATIC_QUERY_ARGS):
+                if q.expression.args.get(arg):
+                    raise MysqlError(
+                        f"Unsupported clause in a SELECT without FROM: {arg.upper()}",
+                        code=ErrorCode.NOT_SUPPORTED_YET,
+                    )
+            # There's at most one row
+            for arg in ("distinct", "order", "locks"):
+                q.expression.set(arg, None)
             result = execute(q.expression)
             return result.rows, result.columns
         return await q.next()
-- 
2.43.0


From 4cd15a87e9c29e4599903e1f1ba5d8ae8c6782cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:44 +0000
Subject: [PATCH 26/41] fix: SET and SHOW statements never reach the
 application, even if they are unsupported

---
 mysql_mimic/intercept.py |  5 +++++
 mysql_mimic/session.py   | 11 +++++++++++
 2 files changed, 16 insertions(+)

diff --git a/mysql_mimic/intercept.py b/mysql_mimic/intercept.py
index 26e77c0..800b05f 100644
--- a/mysql_mimic/intercept.py
+++ b/mysql_mimic/intercept.py
@@ -19,6 +19,11 @@ TRANSACTION_CHARACTERISTICS = {
 }
 
 
+def is_command(expression: exp.Expression, name: str) -> bool:
+    """True if this is a statement that SQLGlot recognizes, but doesn't parse any further"""
+    return isinstance(expression, exp.Command) and expression.name.upper() == name
+
+
 def setitem_kind(setitem: exp.SetItem) -> str:
     kind = setitem.text("kind")
     if not kind:
diff --git a/mysql_mimic/session.py b/mysql_mimic/session.py
index 54a8c34..3bd2ca1 100644
--- a/mysql_mimic/session.py
+++ b/mysql_mimic/session.py
@@ -21,6 +21,7 @@ from mysql_mimic.charset import CharacterSet
 from mysql_mimic.errors import ErrorCode, MysqlError
 from mysql_mimic.executor import execute, like
 from mysql_mimic.intercept import (
+    is_command,
     setitem_kind,
     value_to_expression,
     expression_to_value,
@@ -387,6 +388,11 @@ class Session(BaseSession):
         """Intercept SHOW statements"""
         if isinstance(q.expression, exp.Show):
             return await self._show(q.expression)
+        if is_command(q.expression, "SHOW"):
+            raise MysqlError(
+                f"Unsupported SHOW command: {q.expression.text('expression').strip()}",
+                code=ErrorCode.NOT_SUPPORTED_YET,
+            )
         return await q.next()
 
     async def _show(self, expression: exp.Show) -> AllowedResult:
@@ -524,6 +530,11 @@ class Session(BaseSession):
                     )
 
             return [], []
+        if is_command(q.expression, "SET"):
+            raise MysqlError(
+                f"Unsupported SET statement: {q.expression.text('expression').strip()}",
+                code=ErrorCode.NOT_SUPPORTED_YET,
+            )
         return await q.next()
 
     async def _info_schema_middleware(self, q: Query) -> AllowedResult:
-- 
2.43.0


From d7fe918b9722b22145fd36ac0171edd20b1d95ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:57 +0000
Subject: [PATCH 27/41] fix: DESCRIBE supports qualified and quoted table names

---
 mysql_mimic/session.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/mysql_mimic/session.py b/mysql_mimic/session.py
index 3bd2ca1..f169bcd 100644
--- a/mysql_mimic/session.py
+++ b/mysql_mimic/session.py
@@ -411,12 +411,14 @@ class Session(BaseSession):
     async def _describe_middleware(self, q: Query) -> AllowedResult:
         """Intercept DESCRIBE statements"""
         if isinstance(q.expression, exp.Describe):
-            if isinstance(q.expression.this, exp.Select):
+            table = q.expression.this
+            if not isinstance(table, exp.Table):
                 # Mysql parse treats EXPLAIN SELECT as a DESCRIBE SELECT statement
                 return await q.next()
-            name = q.expression.this.name
-            show = self.dialect().parse(f"SHOW COLUMNS FROM {name}")[0]
-            return await self._show(show) if isinstance(show, exp.Show) else None
+            show = exp.Show(
+                this="COLUMNS", target=table.this, db=table.args.get("db")
+            )
+            return await self._show(show)
         return await q.next()
 
     async def _rollback_middleware(self, q: Query) -> AllowedResult:
-- 
2.43.0


From 92b203018749e95aee21c052061c829071174e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:37 +0000
Subject: [PATCH 28/41] fix: SHOW filters compare names and LIKE patterns as
 data

---
 mysql_mimic/schema.py  | 33 +++++++++++++++++++--------------
 mysql_mimic/session.py |  4 ++--
 2 files changed, 21 insertions(+), 16 deletions(-)

diff --git a/mysql_mimic/schema.py b/mysql_mimic/schema.py
index e10c340..382e8b3 100644
--- a/mysql_mimic/schema.py
+++ b/mysql_mimic/schema.py
@@ -156,6 +156,14 @@ def info_schema_tables(columns: Iterable[Column]) -> Dict[str, Dict[str, Table]]
     return data
 
 
+def _equals(column: str, value: str) -> exp.Expression:
+    return exp.EQ(this=exp.column(column), expression=exp.Literal.string(value))
+
+
+def _like(column: str, pattern: str) -> exp.Expression:
+    return exp.Like(this=exp.column(column), expression=exp.Literal.string(pattern))
+
+
 def show_statement_to_info_schema_query(
     show: exp.Show, database: Optional[str] = None
 ) -> exp.Select:
@@ -186,14 +194,13 @@ def show_statement_to_info_schema_query(
         select = (
             exp.select(*outputs)
             .from_("information_schema.columns")
-            .where(f"table_name = '{table}'")
+            .where(_equals("table_name", table))
         )
         db = show.text("db") or database
         if db:
-            select = select.where(f"table_schema = '{db}'")
-        like = show.text("like")
-        if like:
-            select = select.where(f"column_name LIKE '{like}'")
+            select = select.where(_equals("table_schema", db))
+        if show.args.get("like"):
+            select = select.where(_like("column_name", show.text("like")))
     elif kind == "TABLES":
         outputs = ['table_name AS "Table_name"']
         if show.args.get("full"):
@@ -203,17 +210,15 @@ def show_statement_to_info_schema_query(
         db = show.text("db") or database
         if not db:
             raise MysqlError("No database selected.", code=ErrorCode.NO_DB_ERROR)
-        select = select.where(f"table_schema = '{db}'")
-        like = show.text("like")
-        if like:
-            select = select.where(f"table_name LIKE '{like}'")
+        select = select.where(_equals("table_schema", db))
+        if show.args.get("like"):
+            select = select.where(_like("table_name", show.text("like")))
     elif kind == "DATABASES":
         select = exp.select('schema_name AS "Database"').from_(
             "information_schema.schemata"
         )
-        like = show.text("like")
-        if like:
-            select = select.where(f"schema_name LIKE '{like}'")
+        if show.args.get("like"):
+            select = select.where(_like("schema_name", show.text("like")))
     elif kind == "INDEX":
         outputs = [
             '"table_name" AS Table',
@@ -241,11 +246,11 @@ def show_statement_to_info_schema_query(
         select = (
             exp.select(*outputs)
             .from_("information_schema.statistics")
-            .where(f"table_name = '{table}'")
+            .where(_equals("table_name", table))
         )
         db = show.text("db") or database
         if db:
-            select = select.where(f"table_schema = '{db}'")
+            select = select.where(_equals("table_schema", db))
     else:
         raise MysqlError(
             f"Unsupported SHOW command: {kind}", code=ErrorCode.NOT_SUPPORTED_YET
diff --git a/mysql_mimic/session.py b/mysql_mimic/session.py
index f169bcd..695eaa9 100644
--- a/mysql_mimic/session.py
+++ b/mysql_mimic/session.py
@@ -613,8 +613,8 @@ class Session(BaseSession):
 
     def _show_variables(self, show: exp.Show) -> AllowedResult:
         rows = [(k, None if v is None else str(v)) for k, v in self.variables.list()]
-        pattern = show.text("like")
-        if pattern:
+        if show.args.get("like"):
+            pattern = show.text("like")
             rows = [(k, v) for k, v in rows if like(k, pattern)]
         return rows, ["Variable_name", "Value"]
 
-- 
2.43.0


From 35ccda3d353a3af2589783f9ae221dddbe51ba31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:32 +0000
Subject: [PATCH 29/41] fix: list databases without tables and tables without
 columns

---
 mysql_mimic/schema.py | 41 ++++++++++++++++++++++++++++++-----------
 mysql_mimic/utils.py  |  7 +++----
 2 files changed, 33 insertions(+), 15 deletions(-)

diff --git a/mysql_mimic/schema.py b/mysql_mimic/schema.py
index 382e8b3..63dadba 100644
--- a/mysql_mimic/schema.py
+++ b/mysql_mimic/schema.py
@@ -3,7 +3,7 @@ from __future__ import annotations
 from collections import defaultdict
 from itertools import chain
 from dataclasses import dataclass
-from typing import Any, Optional, List, Dict, Iterable
+from typing import Any, Optional, List, Dict, Iterable, Set, Tuple
 
 from sqlglot.executor import Table
 from sqlglot import expressions as exp
@@ -28,11 +28,11 @@ class Column:
     catalog: Optional[str] = "def"
 
 
-def mapping_to_columns(schema: dict) -> List[Column]:
-    """Convert a schema mapping into a list of Column instances"""
+def _normalize_mapping(schema: dict) -> dict:
+    """Convert a schema mapping into a {catalog: {db: {table: {col: type}}}} mapping"""
     depth = dict_depth(schema)
     if depth < 2:
-        return []
+        return {}
     if depth == 2:
         # {table: {col: type}}
         schema = {"": schema}
@@ -43,9 +43,13 @@ def mapping_to_columns(schema: dict) -> List[Column]:
         depth += 1
     if depth != 4:
         raise MysqlError("Invalid schema mapping")
+    return schema
 
+
+def mapping_to_columns(schema: dict) -> List[Column]:
+    """Convert a schema mapping into a list of Column instances"""
     result = []
-    for catalog, dbs in schema.items():
+    for catalog, dbs in _normalize_mapping(schema).items():
         for db, tables in dbs.items():
             for table, cols in tables.items():
                 for column, coltype in cols.items():
@@ -62,11 +66,20 @@ def mapping_to_columns(schema: dict) -> List[Column]:
     return result
 
 
-def info_schema_tables(columns: Iterable[Column]) -> Dict[str, Dict[str, Table]]:
+def info_schema_tables(
+    columns: Iterable[Column],
+    empty_tables: Iterable[Tuple[Optional[str], Optional[str], str]] = (),
+    empty_dbs: Iterable[Tuple[Optional[str], Optional[str]]] = (),
+) -> Dict[str, Dict[str, Table]]:
     """
     Convert a list of Column instances into a mapping of SQLGlot Tables.
 
     These Tables are used by SQLGlot to execute INFORMATION_SCHEMA queries.
+
+    Args:
+        columns: all columns
+        empty_tables: (catalog, db, table) of tables that may not have any columns
+        empty_dbs: (catalog, db) of databases that may not have any tables
     """
     ordinal_positions: dict[Any, int] = defaultdict(lambda: 0)
 
@@ -75,16 +88,14 @@ def info_schema_tables(columns: Iterable[Column]) -> Dict[str, Dict[str, Table]]
         for db, tables in INFO_SCHEMA.items()
     }
 
-    tables = set()
-    dbs = set()
-    catalogs = set()
+    tables: Set[Tuple[Optional[str], Optional[str], str]] = set(empty_tables)
+    dbs: Set[Tuple[Optional[str], Optional[str]]] = set(empty_dbs)
 
     info_schema_cols = mapping_to_columns(INFO_SCHEMA)
 
     for column in chain(columns, info_schema_cols):
         tables.add((column.catalog, column.schema, column.table))
         dbs.add((column.catalog, column.schema))
-        catalogs.add(column.catalog)
         key = (column.catalog, column.schema, column.table)
         ordinal_position = ordinal_positions[key]
         ordinal_positions[key] += 1
@@ -293,7 +304,15 @@ class InfoSchema(BaseInfoSchema):
     @classmethod
     def from_mapping(cls, mapping: dict) -> InfoSchema:
         columns = mapping_to_columns(mapping)
-        return cls(info_schema_tables(columns))
+        catalogs = _normalize_mapping(mapping)
+        tables = [
+            (catalog, db, table)
+            for catalog, dbs in catalogs.items()
+            for db, tables in dbs.items()
+            for table in tables
+        ]
+        dbs = [(catalog, db) for catalog, dbs in catalogs.items() for db in dbs]
+        return cls(info_schema_tables(columns, tables, dbs))
 
     def _preprocess(self, expression: exp.Expression) -> exp.Expression:
         return expression.transform(_remove_collate)
diff --git a/mysql_mimic/utils.py b/mysql_mimic/utils.py
index 7bdf711..154c76f 100644
--- a/mysql_mimic/utils.py
+++ b/mysql_mimic/utils.py
@@ -103,19 +103,18 @@ def dict_depth(d: dict) -> int:
         2
         >>> dict_depth({"a": {"b": {}}})
         3
+        >>> dict_depth({"a": {}, "b": {"c": {}}})
+        3
     Args:
         d (dict): dictionary
     Returns:
         int: depth
     """
     try:
-        return 1 + dict_depth(next(iter(d.values())))
+        return 1 + max((dict_depth(v) for v in d.values()), default=0)
     except AttributeError:
         # d doesn't have attribute "values"
         return 0
-    except StopIteration:
-        # d.values() returns an empty sequence
-        return 1
 
 
 async def aiterate(iterable: AsyncIterable[T] | Iterable[T]) -> AsyncIterator[T]:
-- 
2.43.0


From b248abcbdb2c05832a7953fcb4da05e28230cba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:03 +0000
Subject: [PATCH 30/41] fix: find the codecs of character sets that Python
 names differently

---
 mysql_mimic/charset.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/mysql_mimic/charset.py b/mysql_mimic/charset.py
index cf48408..8ee4c7c 100644
--- a/mysql_mimic/charset.py
+++ b/mysql_mimic/charset.py
@@ -2,6 +2,21 @@ from __future__ import annotations
 from enum import IntEnum
 
 
+# Python codecs of the character sets that have a different name in Python
+CODECS = {
+    "utf8mb4": "utf8",
+    # MySQL's utf16, utf32 and ucs2 are big-endian, without a byte order mark
+    "utf16": "utf_16_be",
+    "utf16le": "utf_16_le",
+    "utf32": "utf_32_be",
+    "ucs2": "utf_16_be",
+    "koi8r": "koi8_r",
+    "koi8u": "koi8_u",
+    "hp8": "hp_roman8",
+    "macce": "mac_latin2",
+}
+
+
 class CharacterSet(IntEnum):
     big5 = 1
     dec8 = 3
@@ -47,14 +62,7 @@ class CharacterSet(IntEnum):
 
     @property
     def codec(self) -> str:
-        if self.name == "utf8mb4":
-            return "utf8"
-        # MySQL's utf16 and utf32 are big-endian, without a byte order mark
-        if self.name == "utf16":
-            return "utf_16_be"
-        if self.name == "utf32":
-            return "utf_32_be"
-        return self.name
+        return CODECS.get(self.name, self.name)
 
     @property
     def default_collation(self) -> Collation:
-- 
2.43.0


From 171c8b5ae7eb9a28fc6929d15e62ed25baecd441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:05 +0000
Subject: [PATCH 31/41] fix: latin1 is cp1252

---
 mysql_mimic/charset.py | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/mysql_mimic/charset.py b/mysql_mimic/charset.py
index 8ee4c7c..5fdfe6c 100644
--- a/mysql_mimic/charset.py
+++ b/mysql_mimic/charset.py
@@ -1,10 +1,37 @@
 from __future__ import annotations
+
+import codecs
 from enum import IntEnum
+from typing import Any, Optional, Tuple
+
+# MySQL's latin1 is cp1252, with the bytes that cp1252 doesn't define being control characters
+_LATIN1_CHARS = "".join(
+    b.decode("latin1" if b in b"\x81\x8d\x8f\x90\x9d" else "cp1252")
+    for b in (bytes([i]) for i in range(256))
+)
+_LATIN1_BYTES = {ord(char): byte for byte, char in enumerate(_LATIN1_CHARS)}
+
+
+def _latin1_encode(s: str, errors: str = "strict") -> Tuple[bytes, int]:
+    return codecs.charmap_encode(s, errors, _LATIN1_BYTES)
+
+
+def _latin1_decode(b: Any, errors: str = "strict") -> Tuple[str, int]:
+    return codecs.charmap_decode(b, errors, _LATIN1_CHARS)
+
+
+def _find_codec(name: str) -> Optional[codecs.CodecInfo]:
+    if name == "mysql_latin1":
+        return codecs.CodecInfo(_latin1_encode, _latin1_decode, name=name)
+    return None
+
 
+codecs.register(_find_codec)
 
 # Python codecs of the character sets that have a different name in Python
 CODECS = {
     "utf8mb4": "utf8",
+    "latin1": "mysql_latin1",
     # MySQL's utf16, utf32 and ucs2 are big-endian, without a byte order mark
     "utf16": "utf_16_be",
     "utf16le": "utf_16_le",
-- 
2.43.0


From 07bb04853fb80b29a84e72ade25314164878ec6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:33 +0000
Subject: [PATCH 32/41] fix: a comment after the last semicolon is not a
 statement

---
 mysql_mimic/session.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mysql_mimic/session.py b/mysql_mimic/session.py
index 695eaa9..acb598b 100644
--- a/mysql_mimic/session.py
+++ b/mysql_mimic/session.py
@@ -318,7 +318,12 @@ class Session(BaseSession):
         self.database = database
 
     def _parse(self, sql: str) -> List[exp.Expression]:
-        return [e for e in self.dialect().parse(sql) if e]
+        # Comments after a semicolon are parsed as Semicolon
+        return [
+            e
+            for e in self.dialect().parse(sql)
+            if e and e.key != "semicolon"
+        ]
 
     async def _query_info_schema(self, expression: exp.Expression) -> AllowedResult:
         return await ensure_info_schema(await self.schema()).query(expression)
-- 
2.43.0


From 1a529714954032e8680449e5514ce9956939ab4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:33 +0000
Subject: [PATCH 33/41] fix: DEFAULT, ON, OFF and SET_VAR are case-insensitive

---
 mysql_mimic/intercept.py | 7 ++++---
 mysql_mimic/session.py   | 6 +++---
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/mysql_mimic/intercept.py b/mysql_mimic/intercept.py
index 800b05f..9b27db5 100644
--- a/mysql_mimic/intercept.py
+++ b/mysql_mimic/intercept.py
@@ -61,11 +61,12 @@ def expression_to_value(expression: exp.Expression) -> Any:
             return float(expression.this)
     if isinstance(expression, exp.Literal):
         return expression.name
-    if expression.name == "DEFAULT":
+    keyword = expression.name.upper()
+    if keyword == "DEFAULT":
         return DEFAULT
-    if expression.name == "ON":
+    if keyword == "ON":
         return True
-    if expression.name == "OFF":
+    if keyword == "OFF":
         return False
     raise MysqlError(
         "Complex expressions in variables not supported yet",
diff --git a/mysql_mimic/session.py b/mysql_mimic/session.py
index acb598b..903e0a9 100644
--- a/mysql_mimic/session.py
+++ b/mysql_mimic/session.py
@@ -341,7 +341,7 @@ class Session(BaseSession):
             set_var_hint = None
 
             for e in hint.expressions:
-                if isinstance(e, exp.Func) and e.name == "SET_VAR":
+                if isinstance(e, exp.Func) and e.name.upper() == "SET_VAR":
                     set_var_hint = e
                     for eq in e.expressions:
                         assignments[eq.left.name] = expression_to_value(eq.right)
@@ -582,7 +582,7 @@ class Session(BaseSession):
     def _set_charset(self, item: exp.SetItem) -> None:
         charset_name: Any
         charset_conn: Any
-        if item.name == "DEFAULT":
+        if item.name.upper() == "DEFAULT":
             charset_name = DEFAULT
             charset_conn = DEFAULT
         else:
@@ -595,7 +595,7 @@ class Session(BaseSession):
     def _set_names(self, item: exp.SetItem) -> None:
         charset_name: Any
         collation_name: Any
-        if item.name == "DEFAULT":
+        if item.name.upper() == "DEFAULT":
             charset_name = DEFAULT
             collation_name = DEFAULT
         else:
-- 
2.43.0


From a388787686b42096b395fb83cb6b968c84038122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:48 +0000
Subject: [PATCH 34/41] fix: SET GLOBAL TRANSACTION must not change session
 variables

---
 mysql_mimic/session.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mysql_mimic/session.py b/mysql_mimic/session.py
index 903e0a9..ddc5623 100644
--- a/mysql_mimic/session.py
+++ b/mysql_mimic/session.py
@@ -611,6 +611,11 @@ class Session(BaseSession):
         self.variables.set("character_set_results", charset_name)
 
     def _set_transaction(self, item: exp.SetItem) -> None:
+        if item.args.get("global"):
+            raise MysqlError(
+                "Cannot SET TRANSACTION with scope GLOBAL",
+                code=ErrorCode.NOT_SUPPORTED_YET,
+            )
         characteristics = [e.name.upper() for e in item.expressions]
         for characteristic in characteristics:
             variable, value = TRANSACTION_CHARACTERISTICS[characteristic]
-- 
2.43.0


From a6057d87b26caeb5f533bf21e856386b0dc82f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:04 +0000
Subject: [PATCH 35/41] fix: ignore long data for a parameter the statement
 doesn't have

It replaced the query attribute at the same position of the next
execution.
---
 mysql_mimic/connection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mysql_mimic/connection.py b/mysql_mimic/connection.py
index 0913c33..4ece4c9 100644
--- a/mysql_mimic/connection.py
+++ b/mysql_mimic/connection.py
@@ -552,7 +552,7 @@ class Connection:
         """
         com_stmt_send_long_data = packets.parse_com_stmt_send_long_data(data)
         stmt = self.prepared_stmts.get(com_stmt_send_long_data.stmt_id)
-        if stmt is None:
+        if stmt is None or com_stmt_send_long_data.param_id >= stmt.num_params:
             # This command has no response, not even an error
             return
         if stmt.param_buffers is None:
-- 
2.43.0


From 4136f14caa00abc4f59303bc593e367d928f5ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:55 +0000
Subject: [PATCH 36/41] fix: announce the result set metadata to clients that
 negotiated optional metadata, for prepared statements too

---
 mysql_mimic/connection.py |  8 ++++++--
 mysql_mimic/packets.py    | 13 ++++++++++---
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/mysql_mimic/connection.py b/mysql_mimic/connection.py
index 4ece4c9..217693d 100644
--- a/mysql_mimic/connection.py
+++ b/mysql_mimic/connection.py
@@ -586,7 +586,11 @@ class Connection:
             await self._write_last(self.ok())
             return
 
-        await self.stream.write(types.uint_len(len(result_set.columns)))
+        await self.stream.write(
+            packets.make_column_count(
+                capabilities=self.capabilities, column_count=len(result_set.columns)
+            )
+        )
 
         for column in result_set.columns:
             await self.stream.write(
@@ -757,7 +761,7 @@ class Connection:
     def com_stmt_prepare_response(
         self, statement: PreparedStatement
     ) -> Iterator[bytes]:
-        yield packets.make_com_stmt_prepare_ok(statement)
+        yield packets.make_com_stmt_prepare_ok(self.capabilities, statement)
         if statement.num_params:
             for _ in range(statement.num_params):
                 yield packets.make_column_definition_41(
diff --git a/mysql_mimic/packets.py b/mysql_mimic/packets.py
index c215aa7..58a01fa 100644
--- a/mysql_mimic/packets.py
+++ b/mysql_mimic/packets.py
@@ -398,15 +398,22 @@ def make_text_resultset_row(
     return _concat(*parts)
 
 
-def make_com_stmt_prepare_ok(statement: PreparedStatement) -> bytes:
-    return _concat(
+def make_com_stmt_prepare_ok(
+    capabilities: Capabilities, statement: PreparedStatement
+) -> bytes:
+    parts = [
         uint_1(0),  # OK
         uint_4(statement.stmt_id),
         uint_2(0),  # number of columns
         uint_2(statement.num_params),
         uint_1(0),  # filler
         uint_2(0),  # number of warnings
-    )
+    ]
+
+    if Capabilities.CLIENT_OPTIONAL_RESULTSET_METADATA in capabilities:
+        parts.append(uint_1(ResultsetMetadata.RESULTSET_METADATA_FULL))
+
+    return _concat(*parts)
 
 
 def parse_com_stmt_send_long_data(data: bytes) -> ComStmtSendLongData:
-- 
2.43.0


From 5dac18feba8eb493cb65972d107f7336a1e956cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:46 +0000
Subject: [PATCH 37/41] fix: authenticate clients without pluggable
 authentication with mysql_native_password instead of an auth switch

---
 mysql_mimic/connection.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mysql_mimic/connection.py b/mysql_mimic/connection.py
index 217693d..033a274 100644
--- a/mysql_mimic/connection.py
+++ b/mysql_mimic/connection.py
@@ -10,6 +10,7 @@ from mysql_mimic.auth import (
     AuthPlugin,
     AuthState,
     IdentityProvider,
+    NativePasswordAuthPlugin,
 )
 from mysql_mimic.charset import CharacterSet
 from mysql_mimic.constants import DEFAULT_SERVER_CAPABILITIES, KillKind
@@ -308,6 +309,11 @@ class Connection:
             or self.identity_provider.get_default_plugin()
         )
         assert self.handshake_auth_plugin is not None
+
+        if Capabilities.CLIENT_PLUGIN_AUTH not in self.capabilities:
+            # Clients without pluggable authentication don't understand an auth switch. This is what they use.
+            client_plugin_name = NativePasswordAuthPlugin.client_plugin_name
+
         auth_info = AuthInfo(
             username=username,
             data=auth_response,
-- 
2.43.0


From 576dac5d5c0dfa110d5aecbec6babe3f700f2d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:51 +0000
Subject: [PATCH 38/41] fix: bytearray and memoryview values are bytes

---
 mysql_mimic/results.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/mysql_mimic/results.py b/mysql_mimic/results.py
index b147438..d92c3c8 100644
--- a/mysql_mimic/results.py
+++ b/mysql_mimic/results.py
@@ -185,6 +185,9 @@ def _binary_encode_tiny(col: ResultColumn, val: Any) -> bytes:
 
 
 def _binary_encode_str(col: ResultColumn, val: Any) -> bytes:
+    if isinstance(val, (bytearray, memoryview)):
+        val = bytes(val)
+
     if not isinstance(val, bytes):
         val = str(val)
 
@@ -305,6 +308,9 @@ def _binary_encode_timedelta(col: ResultColumn, val: Any) -> bytes:
 
 
 def _text_encode_str(col: ResultColumn, val: Any) -> bytes:
+    if isinstance(val, (bytearray, memoryview)):
+        val = bytes(val)
+
     if not isinstance(val, bytes):
         val = str(val)
 
@@ -359,6 +365,8 @@ _PY_TO_MYSQL_TYPE = {
     datetime: ColumnType.DATETIME,
     str: ColumnType.STRING,
     bytes: ColumnType.BLOB,
+    bytearray: ColumnType.BLOB,
+    memoryview: ColumnType.BLOB,
     int: ColumnType.LONGLONG,
     float: ColumnType.DOUBLE,
     date: ColumnType.DATE,
-- 
2.43.0


From 6029fc3ca8141aa3386c2e5a09742a5f9af9d0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:21 +0000
Subject: [PATCH 39/41] fix: don't keep the socket of a client that doesn't
 read the end of its conversation

---
 mysql_mimic/server.py |  1 +
 mysql_mimic/stream.py | 14 ++++++++++++++
 2 files changed, 15 insertions(+)

diff --git a/mysql_mimic/server.py b/mysql_mimic/server.py
index d4102c7..31a90b7 100644
--- a/mysql_mimic/server.py
+++ b/mysql_mimic/server.py
@@ -108,6 +108,7 @@ class MysqlServer:
         try:
             return await connection.start()
         finally:
+            stream.abort_if_stalled_later()
             writer.close()
             await self.control.remove(connection_id)
 
diff --git a/mysql_mimic/stream.py b/mysql_mimic/stream.py
index 115e2a2..df92835 100644
--- a/mysql_mimic/stream.py
+++ b/mysql_mimic/stream.py
@@ -7,6 +7,10 @@ from mysql_mimic.types import uint_3, uint_1
 from mysql_mimic.utils import seq
 
 
+# Seconds that a client has to read the end of a conversation
+STALL_TIMEOUT = 30
+
+
 class ConnectionClosed(Exception):
     pass
 
@@ -107,6 +111,16 @@ class MysqlStream:
         if self.writer.transport.get_write_buffer_size():
             self.writer.transport.abort()
 
+    def abort_if_stalled_later(self) -> None:
+        """Like `abort_if_stalled`, but give the client some time"""
+        transport = self.writer.transport
+        # TLS transports have a timeout of their own
+        if (
+            transport.get_extra_info("sslcontext") is None
+            and transport.get_write_buffer_size()
+        ):
+            asyncio.get_event_loop().call_later(STALL_TIMEOUT, self.abort_if_stalled)
+
     def reset_seq(self) -> None:
         self.seq.reset()
 
-- 
2.43.0


From b4cf20d92996aadd6be81f53a9f36c1420facbb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:06 +0000
Subject: [PATCH 40/41] fix: a kill during Session.init that the application
 caught must still end the connection

---
 mysql_mimic/connection.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mysql_mimic/connection.py b/mysql_mimic/connection.py
index 033a274..fb47baa 100644
--- a/mysql_mimic/connection.py
+++ b/mysql_mimic/connection.py
@@ -111,6 +111,7 @@ class Connection:
             raise
 
         try:
+            await self._end_command()  # The session may have been killed while it was initialised
             await self.command_phase()
         except asyncio.CancelledError:
             if self._kill == KillKind.CONNECTION:
-- 
2.43.0


From 8b22ea747fcba979c45b32e71426dc28f1c300b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:56 +0000
Subject: [PATCH 41/41] fix: the handshake is well-formed if the default plugin
 has less than 8 bytes of initial data

---
 mysql_mimic/packets.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mysql_mimic/packets.py b/mysql_mimic/packets.py
index 58a01fa..a63c487 100644
--- a/mysql_mimic/packets.py
+++ b/mysql_mimic/packets.py
@@ -189,7 +189,8 @@ def make_handshake_v10(
         uint_1(10),  # protocol version
         str_null(server_charset.encode(server_version)),  # server version
         uint_4(connection_id),  # connection ID
-        str_null(auth_data[:8]),  # plugin data
+        str_fixed(8, auth_data[:8]),  # plugin data
+        uint_1(0),  # filler
         uint_2(capabilities & 0xFFFF),  # lower capabilities flag
         uint_1(server_charset),  # lower character set
         uint_2(status_flags),  # server status flag
-- 
2.43.0

