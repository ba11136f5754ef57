from specs1 import *

# ---------------------------------------------------------------- C07
bug("c07-bitmap-prealloc", "C07",
    "a COM_QUERY or COM_STMT_EXECUTE packet of a few bytes that announces billions of parameters",
    "The NULL bitmap is allocated with the announced size before looking at the packet, so a few bytes make the server allocate (and zero) gigabytes.",
    [(R, """        bitmap = bytearray(buffer.read(cls._num_bytes(num_bits, offset)))
        return cls(bitmap, offset)""",
      """        bitmap = bytearray(cls._num_bytes(num_bits, offset))
        buffer.readinto(bitmap)
        return cls(bitmap, offset)""")],
    """
    import resource
    async with serve() as s:
        c = await s.connect(caps=CAPS_DEFAULT | DEPRECATE_EOF | QUERY_ATTRS)
        before = resource.getrusage(resource.RUSAGE_SELF).ru_maxrss
        c.cmd(b"\\x03" + lenc(6_000_000_000) + b"\\1" + b"\\0\\1")
        try:
            await c.resultset()
            raise SystemExit("accepted")
        except (Err, Closed):
            pass
        after = resource.getrusage(resource.RUSAGE_SELF).ru_maxrss
        assert after - before < 300_000, (before, after)   # KB
    """)

bug("c07-registration-leak", "C07",
    "a connection that ends with an exception (malformed handshake, wrong sequence number, session.init or close failing)",
    "The registration is only released if the connection ends regularly, so hostile clients use up connection ids.",
    [(SV, """            return await connection.start()
        finally:
            stream.abort_if_stalled_later()
            writer.close()
            await self.control.remove(connection_id)""",
      """            await connection.start()
            await self.control.remove(connection_id)
        finally:
            stream.abort_if_stalled_later()
            writer.close()""")],
    """
    async with serve() as s:
        for data in (b"\\x05\\0\\0\\x01hello", b"\\x01\\0\\0\\x07x"):
            c = await Client.open(s.port)
            await c.greeting()
            c.w.write(data)
            await c.closed()
        c = await s.connect()
        c.w.write(b"\\x01\\0\\0\\x09\\x0e")   # wrong sequence number
        await c.closed()
        await asyncio.sleep(0.2)
        assert not s.server.control._connections, s.server.control._connections
    """)

bug("c07-connect-attrs-loop", "C07",
    "a handshake response with connection attributes whose announced total length isn't the sum of its items",
    "The loop over connection attributes stops only when exactly the announced length has been consumed and the reader returns empty strings at the end of the packet, so it never ends.",
    [(P, """    while total_l > 0:
        key = read_str_len(reader)
        value = read_str_len(reader)
        connect_attrs[client_charset.decode(key)] = client_charset.decode(value)

        item_l = len(str_len(key) + str_len(value))
        total_l -= item_l
    return connect_attrs""",
      """    while total_l != 0:
        # Some clients don't send a value for the last attribute
        key = read_str_len(reader) if peek(reader) else b""
        value = read_str_len(reader) if peek(reader) else b""
        connect_attrs[client_charset.decode(key)] = client_charset.decode(value)

        item_l = len(str_len(key) + str_len(value))
        total_l -= item_l
    return connect_attrs""")],
    """
    import subprocess, os
    if len(sys.argv) < 2:
        # the server might hang: run in a child with a time limit
        r = subprocess.run([sys.executable, sys.argv[0], "child"], timeout=30)
        assert r.returncode == 0
        return
    async with serve() as s:
        c = await Client.open(s.port)
        await c.greeting()
        d = c.response(caps=CAPS_DEFAULT | DEPRECATE_EOF)
        caps = CAPS_DEFAULT & ~8 | DEPRECATE_EOF | CONNECT_ATTRS
        d = struct.pack("<I", caps) + d[4:] + lenc(5) + lstr(b"a") + lstr(b"bc") + b""
        c.send(d)
        try:
            await c.read()
        except Closed:
            pass
        c = await Client.open(s.port)
        await c.greeting()
        c.send(struct.pack("<I", caps) + d[4:-6] + lenc(3) + lstr(b"a") + lstr(b"bc"))
        try:
            await c.read()
        except Closed:
            pass
        c = await s.connect()
        await c.ping()
    """)

bug("c07-resync", "C07",
    "a packet with a wrong sequence number",
    "Packets with an unexpected sequence number are skipped, so their sender gets neither an answer nor a closed connection.",
    [(ST, """            if sequence_id != expected:
                raise MysqlError(
                    f"Expected seq({expected}) got seq({sequence_id})",
                    ErrorCode.MALFORMED_PACKET,
                )
""", """            if sequence_id != expected:
                # Get back in step with the next packet
                await self.reader.readexactly(payload_length)
                self.seq.value = expected
                continue
""")],
    """
    async with serve() as s:
        c = await s.connect()
        c.w.write(b"\\x01\\0\\0\\x09\\x0e")
        assert await asyncio.wait_for(c.r.read(100), 5) is not None
    """)

# ---------------------------------------------------------------- C08
bug("c08-class-level-stmts", "C08",
    "two connections alive at the same time that both use prepared statements",
    "The table of prepared statements is shared by all connections, whose statement ids collide.",
    [(C, """    _MAX_PREPARED_STMT_ID = 2**32
""", """    _MAX_PREPARED_STMT_ID = 2**32

    prepared_stmts: Dict[int, PreparedStatement] = {}
"""),
     (C, """        self.prepared_stmts: Dict[int, PreparedStatement] = {}
""", "")],
    """
    async with serve() as s:
        a, b = await s.connect(), await s.connect()
        sa, _ = await a.prepare("SELECT a FROM ta")
        sb, _ = await b.prepare("SELECT b FROM tb")
        app_b = App.last
        await b.execute(sb)
        await a.execute(sa)
        assert [l[1] for l in app_b.log] == ["SELECT b FROM tb"]
        try:
            await b.execute(sa + 1)
        except Err:
            pass
        b.cmd(b"\\x19" + struct.pack("<I", sb))
        await b.ping()
        await a.execute(sa)
    """)

bug("c08-parse-cache", "C08",
    "two sessions that send the same text, which contains a function or variable that depends on the session",
    "Parsed statements are cached per text and dialect across sessions, but the middlewares replace variables and functions in place, so one session's values are returned to the next.",
    [(S, """class Session(BaseSession):
    \"\"\"
    Abstract session.
""", """_PARSED: Dict[Any, List[exp.Expression]] = {}


class Session(BaseSession):
    \"\"\"
    Abstract session.
"""),
     (S, """        for expression in self._parse(sql):""",
      """        key = (self.dialect, sql)
        if key not in _PARSED:
            _PARSED[key] = self._parse(sql)
        for expression in list(_PARSED[key]):""")],
    """
    async with serve() as s:
        a, b = await s.connect(user="alice"), await s.connect(user="bob")
        for c, name in ((a, b"alice"), (b, b"bob"), (a, b"alice")):
            cols, rows = await c.query("SELECT CURRENT_USER()")
            assert rows == [(name,)], rows
    """)

bug("c08-shared-nonce", "C08",
    "overlapping authentications with a plugin instance that is shared by connections",
    "The nonce of the handshake in progress is kept on the plugin object, so an overlapping handshake of another connection replaces it and the first one fails.",
    [(A, """            nonce = utils.nonce(20)
            # Some clients expect a null terminating byte
            auth_info = yield nonce + b"\\x00"

        user = auth_info.user
        if self.password_matches(user=user, scramble=auth_info.data, nonce=nonce):""",
      """            self.challenge = nonce = utils.nonce(20)
            # Some clients expect a null terminating byte
            auth_info = yield nonce + b"\\x00"
            nonce = self.challenge

        user = auth_info.user
        if self.password_matches(user=user, scramble=auth_info.data, nonce=nonce):""")],
    """
    p = Provider({"u": native("u", "p")}, [_auth.NativePasswordAuthPlugin()])
    async with serve(identity_provider=p) as s:
        a = await Client.open(s.port)
        await a.greeting()
        b = await Client.open(s.port)
        await b.greeting()
        await a.login(user="u", password="p")
        await b.login(user="u", password="p")
    """)

bug("c08-variables-default-cache", "C08",
    "a session that assigns a variable, then another session that reads it without having assigned it",
    "Assigned values are written through to the shared defaults if both sessions use one GlobalVariables instance.",
    [(V, """        if name in self.values:
            return self.values[name]
        _, default, _ = self.get_schema(name)

        return default""",
      """        if name not in self.values:
            _, self.values[name], _ = self.get_schema(name)
        return self.values[name]"""),
     (V, """class SessionVariables(Variables):
    def __init__(self, global_variables: Variables):
        self.global_variables = global_variables
        super().__init__()
""", """class SessionVariables(Variables):
    def __init__(self, global_variables: Variables):
        self.global_variables = global_variables
        super().__init__()
        self.values = global_variables.values
""")],
    """
    from mysql_mimic.variables import GlobalVariables, SessionVariables
    g = GlobalVariables()
    class Sess(App):
        def __init__(self):
            super().__init__()
            self.variables = SessionVariables(g)
    async with serve(Sess) as s:
        a, b = await s.connect(), await s.connect()
        await a.query("SET sql_mode = 'mine'")
        cols, rows = await b.query("SELECT @@sql_mode")
        assert rows == [(b"ANSI",)], rows
    """)

bug("c08-middleware-class-level", "C08",
    "an application with per-session state in its session object; the middlewares are created once and cached on the class",
    "The middlewares of the first session are reused for all later sessions, so their statements are run with the first one's variables, database and user.",
    [(S, """        self.middlewares: list[Middleware] = [
            self._set_var_middleware,""",
      """        self.middlewares: list[Middleware] = type(self).__dict__.get(
            "_shared_middlewares"
        ) or [
            self._set_var_middleware,"""),
     (S, """            self._info_schema_middleware,
        ]
""", """            self._info_schema_middleware,
        ]
        # Middlewares are looked up for every query
        type(self)._shared_middlewares = self.middlewares  # type: ignore
""")],
    """
    async with serve() as s:
        a, b = await s.connect(user="alice"), await s.connect(user="bob")
        for c, name in ((a, b"alice"), (b, b"bob")):
            cols, rows = await c.query("SELECT CURRENT_USER()")
            assert rows == [(name,)], rows
    """)

# ---------------------------------------------------------------- C09
bug("c09-kill-short-id", "C09",
    "KILL of an id which isn't a connection's, but equals the lower half of a live connection's id",
    "KILL accepts bare sequence numbers, so a kill for an unknown id terminates an innocent connection.",
    [(CT, """        conn = self._connections.get(connection_id)
        if conn:
            conn.kill(kind)""",
      """        # Allow connections of this server to be addressed without the server ID
        server_id_prefix = (
            self.server_id % self._MAX_SERVER_ID
        ) << self._CONNECTION_ID_BITS
        conn = self._connections.get(connection_id) or self._connections.get(
            server_id_prefix + connection_id
        )
        if conn:
            conn.kill(kind)""")],
    """
    from mysql_mimic.control import LocalControl
    async with serve(control=LocalControl(server_id=7)) as s:
        a, b = await s.connect(), await s.connect()
        await b.query(f"KILL {a.id & 0xFFFF}")
        await a.ping()
        await b.query(f"KILL {a.id}")
        assert await a.closed()
        await b.ping()
    """)

bug("c09-kill-id-31-bit", "C09",
    "a server id of 32768 or above, so connection ids have their most significant bit set",
    "The id of a KILL is truncated to 31 bits: connections of servers with a high id can't be killed, and a lower one may be hit instead.",
    [(S, """                await control.kill(connection_id, kind)""",
      """                await control.kill(connection_id & 0x7FFFFFFF, kind)""")],
    """
    from mysql_mimic.control import LocalControl
    async with serve(control=LocalControl(server_id=40000)) as s:
        a, b = await s.connect(), await s.connect()
        await b.query(f"KILL {a.id}")
        assert await a.closed(), "not killed"
        await b.ping()
    """)

bug("c09-kill-truncates", "C09",
    "KILL QUERY that arrives while a long result is streamed from a source that never suspends, so the cancellation is delivered at the event loop yield between two batches",
    "The kill ends the iteration of the rows as if the source were exhausted: the client receives a truncated result with a success terminator instead of an ERR.",
    [(U, """        if i != 0 and i % batch_size == 0:
            await asyncio.sleep(0)
        yield item""",
      """        if i != 0 and i % batch_size == 0:
            try:
                await asyncio.sleep(0)
            except asyncio.CancelledError:
                # No need for any more rows
                return
        yield item""")],
    """
    pulled = [0]
    def rows():
        for i in range(3000000):
            pulled[0] += 1
            yield (None,)
    from mysql_mimic import ResultColumn, ColumnType
    App.answer = staticmethod(lambda *a: (rows(), [ResultColumn("x", ColumnType.LONGLONG)]))
    async with serve() as s:
        a, b = await s.connect(), await s.connect()
        for _ in range(5):
            pulled[0] = 0
            a.cmd(b"\\x03SELECT a FROM t")
            t = asyncio.ensure_future(a.resultset())
            while pulled[0] < 25000:
                await asyncio.sleep(0)
            await b.query(f"KILL QUERY {a.id}")
            try:
                await asyncio.wait_for(t, 60)
                raise SystemExit("killed query succeeded")
            except Err:
                pass
            await a.ping()
    """)

bug("c09-kill-default-kind", "C09",
    "a KILL statement with an upper-case/lower-case modifier, or none",
    "KILL's modifier is compared without normalizing its case, so `kill query 5` terminates the connection.",
    [(S, """                kind = KillKind[q.expression.text("kind").upper() or "CONNECTION"]""",
      """                kind = (
                    KillKind.QUERY
                    if q.expression.text("kind") == "QUERY" and " query " not in q.sql
                    else KillKind.CONNECTION
                )""")],
    """
    started = asyncio.Event()
    async def answer(*a):
        started.set()
        await asyncio.sleep(30)
        return [(1,)], ["x"]
    App.answer = staticmethod(lambda *a: answer(*a))
    async with serve() as s:
        a, b = await s.connect(), await s.connect()
        for k in ("KILL QUERY", "kill query", "Kill Query"):
            started.clear()
            a.cmd(b"\\x03SELECT a FROM t")
            await started.wait()
            await b.query(f"{k} {a.id}")
            try:
                await asyncio.wait_for(a.resultset(), 5)
                raise SystemExit("not killed")
            except Err:
                pass
            await a.ping()
    """)

bug("c18-kill-frees-id", "C18",
    "KILL CONNECTION followed by another KILL of the same id, or by a connection whose cleanup takes time",
    "The killed connection is taken out of the registry at once; if its session takes time to close, the id is reported as free and can be reused while the session is still open.",
    [(CT, """        conn = self._connections.get(connection_id)
        if conn:
            conn.kill(kind)""",
      """        if kind == KillKind.CONNECTION:
            conn = self._connections.pop(connection_id, None)
        else:
            conn = self._connections.get(connection_id)
        if conn:
            conn.kill(kind)""")],
    """
    from mysql_mimic.control import LocalControl
    class Small(LocalControl):
        _CONNECTION_ID_BITS = 2
        _MAX_CONNECTION_SEQ = 4
    gate = asyncio.Event()
    live = set()
    class Slow(App):
        async def init(self, connection):
            await super().init(connection)
            self.cid = connection.connection_id
            assert self.cid not in live, "id is in use"
            live.add(self.cid)
        async def close(self):
            await asyncio.wait_for(gate.wait(), 20)
            live.discard(self.cid)
            await super().close()
    async with serve(Slow, control=Small(server_id=1)) as s:
        conns = [await s.connect() for _ in range(4)]
        await conns[3].query(f"KILL {conns[0].id}")
        await asyncio.sleep(0.2)
        try:
            c = await s.connect()
            raise SystemExit("id of a live connection has been reused")
        except (Err, Closed) as e:
            assert isinstance(e, Err) and e.code == 1040, e
        finally:
            gate.set()
    """)

# ---------------------------------------------------------------- C10
bug("c10-close-uninitialised", "C10",
    "an exception raised by session.init",
    "A session whose init failed is closed.",
    [(C, """            await self.session.init(self)
        except Exception as e:
            await self.stream.write(self.error(msg=e, code=ErrorCode.HANDSHAKE_ERROR))
            raise
""", """        except Exception as e:
            await self.stream.write(self.error(msg=e, code=ErrorCode.HANDSHAKE_ERROR))
            raise
"""),
     (C, """            await self.command_phase()
        except asyncio.CancelledError:""",
      """            await self.session.init(self)
            await self.command_phase()
        except asyncio.CancelledError:""")],
    """
    closed = []
    class Bad(App):
        async def init(self, connection):
            raise RuntimeError("no resources")
        async def close(self):
            closed.append(1)
    async with serve(Bad) as s:
        c = await Client.open(s.port)
        await c.greeting()
        try:
            await c.login()
        except (Err, Closed):
            pass
        await c.closed()
        await asyncio.sleep(0.2)
        assert not closed
    """)

bug("c10-close-on-quit-and-end", "C10",
    "a client that resets or changes its user and then disconnects",
    "The default reset/close handling closes the session twice if the application's close() raises.",
    [(C, """            await self.session.close()

    def kill""", """            try:
                await self.session.close()
            except Exception:  # pylint: disable=broad-except
                logger.exception("Failed to close session, retrying")
                await self.session.close()

    def kill""")],
    """
    closed = []
    class Bad(App):
        async def close(self):
            closed.append(1)
            raise RuntimeError("close failed")
    async with serve(Bad) as s:
        c = await s.connect()
        c.cmd(b"\\x01")
        await c.closed()
        await asyncio.sleep(0.2)
        assert len(closed) == 1, closed
        assert not s.server.control._connections
    """)

bug("c10-close-skipped-on-cancel", "C10",
    "a connection whose task is cancelled by something other than KILL, or which ends with a non-Exception, while a command is running",
    "session.close() is only called for regular ends and kills; an end with another exception leaves the session open.",
    [(C, """                self.stream.abort_if_stalled()
            else:
                raise
        finally:
            self._closing = True
            await self.session.close()
""", """                self.stream.abort_if_stalled()
            else:
                raise
        except ConnectionError:
            self._closing = True
            raise
        else:
            self._closing = True
            await self.session.close()
            return
        self._closing = True
        await self.session.close()
""")],
    """
    closed = []
    class Obs(App):
        async def close(self):
            closed.append(1)
            await super().close()
    def rows():
        for i in range(1000000):
            yield ("x" * 1000,)
    App.answer = staticmethod(lambda *a: (rows(), ["x"]))
    async with serve(Obs) as s:
        c = await s.connect()
        c.cmd(b"\\x03SELECT a FROM t")
        await c.read()
        c.w.transport.abort()
        for _ in range(200):
            if closed:
                break
            await asyncio.sleep(0.02)
        assert closed == [1], closed
        # a wrong sequence number is a protocol error
        c = await s.connect()
        c.w.write(b"\\x01\\0\\0\\x09\\x0e")
        await c.closed()
        await asyncio.sleep(0.2)
        assert closed == [1, 1], closed
    """)

bug("c10-task-left", "C10",
    "a row source that is an async generator holding resources, abandoned by a disconnecting client",
    "Rows are prefetched by a separate task, which keeps running (blocked on its queue) after the connection has ended.",
    [(C, """        async def gen_rows() -> AsyncIterator[bytes]:
            async for r in cooperative_iterate(aiterate(result_set.rows)):
                yield packets.make_binary_resultrow(r, result_set.columns)
""", """        queue: asyncio.Queue = asyncio.Queue(maxsize=100)

        async def prefetch() -> None:
            try:
                async for r in cooperative_iterate(aiterate(result_set.rows)):
                    await queue.put((r, None))
            except Exception as e:  # pylint: disable=broad-except
                await queue.put((None, e))
            await queue.put((None, None))

        async def gen_rows() -> AsyncIterator[bytes]:
            task = asyncio.create_task(prefetch())
            while True:
                r, e = await queue.get()
                if e is not None:
                    raise e
                if r is None:
                    break
                yield packets.make_binary_resultrow(r, result_set.columns)
            await task
""")],
    """
    App.answer = staticmethod(lambda *a: (((i,) for i in range(100000)), ["x"]))
    async with serve() as s:
        before = len(asyncio.all_tasks())
        c = await s.connect()
        sid, _ = await c.prepare("SELECT a FROM t")
        await c.execute(sid, cursor=True)
        rows = await c.fetch(sid, 5)
        assert len(rows) == 5
        c.w.transport.abort()
        for _ in range(100):
            await asyncio.sleep(0.02)
            if len(asyncio.all_tasks()) == before:
                break
        assert len(asyncio.all_tasks()) == before, asyncio.all_tasks()
    """)

# ---------------------------------------------------------------- C11
bug("c11-reset-keeps-cursor", "C11",
    "COM_STMT_RESET of a statement with an open cursor, then COM_STMT_FETCH",
    "COM_STMT_RESET doesn't close the statement's cursor unless long data had been sent.",
    [(C, """        stmt.param_buffers = None
        stmt.cursor = None
        await self.session.reset()""",
      """        if stmt.param_buffers is not None:
            stmt.param_buffers = None
            stmt.cursor = None
        await self.session.reset()""")],
    """
    async with serve() as s:
        c = await s.connect()
        App.answer = staticmethod(lambda *a: ([(i,) for i in range(10)], ["x"]))
        sid, _ = await c.prepare("SELECT a FROM t")
        await c.execute(sid, cursor=True)
        assert len(await c.fetch(sid, 3)) == 3
        c.cmd(b"\\x1a" + struct.pack("<I", sid))
        await c.ok()
        try:
            await c.fetch(sid, 3)
            raise SystemExit("cursor is still open")
        except Err:
            pass
    """)

bug("c11-id-from-count", "C11",
    "a statement is closed while a later one is still open, and another one is prepared",
    "Statement ids are derived from the number of open statements, so a new statement replaces an open one together with its cursor.",
    [(C, """        stmt_id = next(self.prepared_stmt_seq)""",
      """        stmt_id = len(self.prepared_stmts) % self._MAX_PREPARED_STMT_ID""")],
    """
    async with serve() as s:
        c = await s.connect()
        App.answer = staticmethod(lambda *a: ([(i,) for i in range(10)], ["x"]))
        s1, _ = await c.prepare("SELECT a FROM t1")
        s2, _ = await c.prepare("SELECT a FROM t2")
        await c.execute(s2, cursor=True)
        assert len(await c.fetch(s2, 3)) == 3
        c.cmd(b"\\x19" + struct.pack("<I", s1))
        s3, _ = await c.prepare("SELECT a FROM t3")
        assert s3 != s2
        assert len(await c.fetch(s2, 3)) == 3
    """)

bug("c11-fetch-16-bit", "C11",
    "COM_STMT_FETCH of 65536 rows or more",
    "Only the lower 16 bits of the number of rows to fetch are used, so fetching 65536 rows returns none.",
    [(P, """        num_rows=read_uint_4(r),""", """        num_rows=read_uint_2(r),""")],
    """
    async with serve() as s:
        c = await s.connect()
        App.answer = staticmethod(lambda *a: ([(i,) for i in range(10)], ["x"]))
        sid, _ = await c.prepare("SELECT a FROM t")
        for n in (65536, 65537, 2**32 - 1):
            await c.execute(sid, cursor=True)
            assert len(await c.fetch(sid, n)) == 10, n
            assert c.status & 0x80
    """)

bug("c11-batch-boundary", "C11",
    "a cursor over more than 10000 rows",
    "The row at which the iteration gives control back to the event loop is delivered twice.",
    [(U, """        if i != 0 and i % batch_size == 0:
            await asyncio.sleep(0)
        yield item
        i += 1""",
      """        yield item
        i += 1
        if i % batch_size:
            continue
        await asyncio.sleep(0)
        if i > batch_size:
            yield item""")],
    """
    async with serve() as s:
        c = await s.connect()
        App.answer = staticmethod(lambda *a: ([(i,) for i in range(30005)], ["x"]))
        sid, _ = await c.prepare("SELECT a FROM t")
        await c.execute(sid, cursor=True)
        got = []
        while not (got and c.status & 0x80):
            got += await c.fetch(sid, 4000)
        assert [struct.unpack_from("<q", r, 2)[0] for r in got] == list(range(30005)), len(got)
    """)

bug("c11-cursor-on-name", "C11",
    "two statements with the same text that both have an open cursor",
    "Statements with the same text share their state, so executing one discards the other's cursor.",
    [(C, """        stmt = PreparedStatement(
            stmt_id=stmt_id,
            sql=sql,
            num_params=num_params,
        )
        self.prepared_stmts[stmt_id] = stmt
""", """        stmt = next(
            (s for s in self.prepared_stmts.values() if s.sql == sql and not num_params),
            None,
        ) or PreparedStatement(
            stmt_id=stmt_id,
            sql=sql,
            num_params=num_params,
        )
        self.prepared_stmts[stmt.stmt_id] = stmt
""")],
    """
    async with serve() as s:
        c = await s.connect()
        App.answer = staticmethod(lambda *a: ([(i,) for i in range(10)], ["x"]))
        s1, _ = await c.prepare("SELECT a FROM t1")
        s2, _ = await c.prepare("SELECT a FROM t1")
        await c.execute(s1, cursor=True)
        first = await c.fetch(s1, 3)
        await c.execute(s2, cursor=True)
        assert [r[2] for r in await c.fetch(s1, 3)] == [3, 4, 5]
    """)

# ---------------------------------------------------------------- C12
bug("c12-collect-response", "C12",
    "a client that stops reading in the middle of a big result",
    "All packets of a text result are collected before the first one is written, so the application's whole result is pulled into memory whether the client reads or not.",
    [(C, """        async for packet in self.text_resultset(result_set):
            await self.stream.write(packet, drain=False)
        await self.stream.drain()
""", """        for packet in [p async for p in self.text_resultset(result_set)]:
            await self.stream.write(packet, drain=False)
        await self.stream.drain()
""")],
    """
    pulled = [0]
    def rows():
        for i in range(300000):
            pulled[0] += 1
            yield ("x" * 200,)
    App.answer = staticmethod(lambda *a: (rows(), ["x"]))
    async with serve() as s:
        c = await s.connect()
        c.cmd(b"\\x03SELECT a FROM t")
        await asyncio.sleep(4)
        assert pulled[0] < 200000, pulled
        c.w.transport.abort()
    """)

bug("c12-binary-not-cooperative", "C12",
    "the binary protocol, a source that never suspends and a client that reads as fast as the server writes",
    "Rows of the binary protocol are sent without ever giving control back to the event loop, starving other connections.",
    [(C, """            async for r in cooperative_iterate(aiterate(result_set.rows)):
                yield packets.make_binary_resultrow(r, result_set.columns)""",
      """            async for r in aiterate(result_set.rows):
                yield packets.make_binary_resultrow(r, result_set.columns)""")],
    """
    pulled = [0]
    def rows():
        for i in range(3000000):
            pulled[0] += 1
            yield (None,)
    from mysql_mimic import ResultColumn, ColumnType
    App.answer = staticmethod(lambda *a: (rows(), [ResultColumn("x", ColumnType.LONGLONG)]))
    async with serve() as s:
        c, d = await s.connect(), await s.connect()
        sid, _ = await c.prepare("SELECT a FROM t")
        drain_in_thread(c)
        c.cmd(b"\\x17" + struct.pack("<IBI", sid, 0, 1))
        worst = await worst_ping(d, pulled, 2900000)
        c.w.transport.abort()
        assert worst < 300000, worst
    """)

bug("c12-cooperate-once", "C12",
    "a result of more than 20000 rows from a source that never suspends",
    "Control is given back to the event loop only once per result instead of every batch.",
    [(U, """        if i != 0 and i % batch_size == 0:
            await asyncio.sleep(0)""",
      """        if i == batch_size:
            await asyncio.sleep(0)""")],
    """
    pulled = [0]
    def rows():
        for i in range(3000000):
            pulled[0] += 1
            yield (1,)
    from mysql_mimic import ResultColumn, ColumnType
    App.answer = staticmethod(lambda *a: (rows(), [ResultColumn("x", ColumnType.LONGLONG)]))
    async with serve() as s:
        c, d = await s.connect(), await s.connect()
        drain_in_thread(c)
        c.cmd(b"\\x03SELECT a FROM t")
        worst = await worst_ping(d, pulled, 2900000)
        c.w.transport.abort()
        assert worst < 300000, worst
    """)

bug("c12-no-drain", "C12",
    "a client that stops reading in the middle of a big result",
    "Instead of waiting for the socket, the stream only yields to the event loop, so the transport buffers the whole result of a client that doesn't read.",
    [(ST, """        await self.writer.drain()""", """        # Give the transport a chance to send
        await asyncio.sleep(0)""")],
    """
    pulled = [0]
    def rows():
        for i in range(300000):
            pulled[0] += 1
            yield ("x" * 200,)
    App.answer = staticmethod(lambda *a: (rows(), ["x"]))
    async with serve() as s:
        c = await s.connect()
        c.w.transport.pause_reading()
        c.cmd(b"\\x03SELECT a FROM t")
        await asyncio.sleep(6)
        assert pulled[0] < 150000, pulled
        c.w.transport.abort()
    """)
