from specs2 import *

# ---------------------------------------------------------------- C13
bug("c13-mixed-catalog", "C13",
    "a query that joins a catalog table with an unqualified table of the application",
    "Unqualified tables are ignored when deciding whether a query only reads catalog tables, so such a join never reaches the application.",
    [(U, """    return [table.text("db") for table in find_tables(expression)]""",
      """    return [t.text("db") for t in find_tables(expression) if t.text("db")]""")],
    """
    async with serve() as s:
        c = await s.connect(db="app")
        sql = "SELECT a.x FROM t AS a JOIN information_schema.tables AS i ON i.table_name = a.x"
        try:
            await c.query(sql)
        except Err:
            pass
        assert [l[1] for l in App.last.log] == [sql], App.last.log
    """)

bug("c13-change-user-keeps-db", "C13",
    "COM_CHANGE_USER without a database on a connection that has one",
    "COM_CHANGE_USER without database keeps the previous user's default database.",
    [(C, """        self.session.database = com_change_user.database
""", """        if com_change_user.database:
            self.session.database = com_change_user.database
""")],
    """
    async with serve() as s:
        c = await s.connect(db="one")
        seen = []
        App.answer = staticmethod(lambda session, *a: (seen.append(session.database), ([(1,)], ["x"]))[1])
        await c.query("SELECT a FROM t")
        await c.change_user("u", db="two")
        await c.query("SELECT a FROM t")
        await c.change_user("u", db="")
        await c.query("SELECT a FROM t")
        assert seen[:2] == ["one", "two"] and not seen[2], seen
    """)

bug("c13-first-result", "C13",
    "several statements in one COM_QUERY of which an earlier one returns rows and the last one doesn't",
    "The client receives the last non-empty result instead of the result of the last statement.",
    [(S, """            result = await q.start()
        return result""",
      """            # Statements like SET don't have a result
            result = await q.start() or result
        return result"""),
     ],
    """
    App.answer = staticmethod(lambda session, e, sql, attrs: None if e.key == "insert" else ([(1,)], ["x"]))
    async with serve() as s:
        c = await s.connect()
        assert (await c.query("SELECT a FROM t"))[1] == [(b"1",)]
        assert (await c.query("INSERT INTO t VALUES (1); SELECT a FROM t"))[1] == [(b"1",)]
        assert await c.query("SELECT a FROM t; INSERT INTO t VALUES (1)") is None
    """)

bug("c13-init-db-shortcut", "C13",
    "an application that overrides use() (to validate or to observe), and COM_INIT_DB",
    "COM_INIT_DB sets the database of the session after use() again, so an application whose use() normalizes the name observes another one (or a refused one).",
    [(C, """        await self.session.use(parse_com_init_db(self.client_charset, data))
""", """        self.session.database = database = parse_com_init_db(self.client_charset, data)
        await self.session.use(database)
""")],
    """
    class Sess(App):
        async def use(self, database):
            if database != "good":
                raise RuntimeError("no such database")
            await super().use(database)
    async with serve(Sess) as s:
        c = await s.connect()
        c.cmd(b"\\x02good")
        await c.ok()
        c.cmd(b"\\x02bad")
        try:
            await c.ok()
            raise SystemExit("?")
        except Err:
            pass
        cols, rows = await c.query("SELECT DATABASE()")
        assert rows == [(b"good",)], rows
    """)

bug("c13-commit-by-text", "C13",
    "an application statement that contains the word COMMIT (a column, a string, another statement of the same COM_QUERY)",
    "COMMIT is recognized by looking for the word in the text, so application statements that contain it don't reach the application.",
    [(S, """        if isinstance(q.expression, exp.Commit):
            return [], []""",
      """        if q.sql.upper().find("COMMIT") >= 0:
            return [], []""")],
    """
    async with serve() as s:
        c = await s.connect()
        await c.query("COMMIT")
        assert not App.last.log
        sql = "SELECT committed_at FROM t"
        await c.query(sql)
        assert [l[1] for l in App.last.log] == [sql]
    """)

# ---------------------------------------------------------------- C14
bug("c14-hint-restore-on-success", "C14",
    "a statement with a SET_VAR hint that fails in the application (or is killed)",
    "Variables are only restored after a successful statement.",
    [(S, """        try:
            for k, v in assignments.items():
                self.variables.set(k, v)
            return await q.next()
        finally:
            for k, v in orig.items():
                self.variables.set(k, v)
""", """        for k, v in assignments.items():
            self.variables.set(k, v)
        result = await q.next()
        for k, v in orig.items():
            self.variables.set(k, v)
        return result
""")],
    """
    def fail(*a):
        raise RuntimeError("no")
    App.answer = staticmethod(fail)
    async with serve() as s:
        c = await s.connect()
        try:
            await c.query("SELECT /*+ SET_VAR(sql_mode = 'X') */ a FROM t")
        except Err:
            pass
        cols, rows = await c.query("SELECT @@sql_mode")
        assert rows == [(b"ANSI",)], rows
    """)

bug("c14-hint-partial", "C14",
    "a SET_VAR hint with several assignments of which a later one is invalid",
    "If one assignment of a SET_VAR hint is refused, the ones before it stay in effect.",
    [(S, """        try:
            for k, v in assignments.items():
                self.variables.set(k, v)
            return await q.next()
        finally:""",
      """        for k, v in assignments.items():
            self.variables.set(k, v)
        try:
            return await q.next()
        finally:""")],
    """
    async with serve() as s:
        c = await s.connect()
        try:
            await c.query("SELECT /*+ SET_VAR(sql_mode = 'X') SET_VAR(wait_timeout = 'abc') */ a FROM t")
            raise SystemExit("?")
        except Err:
            pass
        cols, rows = await c.query("SELECT @@sql_mode")
        assert rows == [(b"ANSI",)], rows
    """)

bug("c14-default-readonly", "C14",
    "SET of a read-only variable to DEFAULT",
    "DEFAULT and NULL are handled before the check for read-only variables, so a client can reset e.g. external_user.",
    [(V, """        if not dynamic and not force:
            raise MysqlError(
                f"Variable is not dynamic: {name}", code=ErrorCode.PARSE_ERROR
            )

        if value is DEFAULT or value is None:
            self.values[name] = default
        else:
            self.values[name] = type_(value)""",
      """        if value is DEFAULT or value is None:
            # Always valid
            self.values[name] = default
            return

        if not dynamic and not force:
            raise MysqlError(
                f"Variable is not dynamic: {name}", code=ErrorCode.PARSE_ERROR
            )

        self.values[name] = type_(value)""")],
    """
    async with serve() as s:
        c = await s.connect(user="someone")
        for v in ("DEFAULT", "NULL"):
            try:
                await c.query(f"SET external_user = {v}")
                raise SystemExit("accepted")
            except Err:
                pass
        cols, rows = await c.query("SELECT @@external_user")
        assert rows == [(b"someone",)], rows
    """)

bug("c14-timezone-negative-minutes", "C14",
    "a negative time zone with minutes other than 00",
    "The sign of a time zone offset only applies to its hours: -03:30 is treated like -02:30.",
    [(V, """        offset = offset * -1""",
      """        offset = offset - timedelta(hours=2 * int(match.group("hours")))""")],
    """
    from datetime import datetime, timedelta
    async with serve() as s:
        c = await s.connect()
        for tz, m in (("-03:30", -210), ("+03:30", 210), ("-03:00", -180)):
            await c.query(f"SET time_zone = '{tz}'")
            cols, rows = await c.query("SELECT NOW()")
            now = datetime.strptime(rows[0][0].decode(), "%Y-%m-%d %H:%M:%S")
            from datetime import timezone
            expect = datetime.now(timezone.utc).replace(tzinfo=None) + timedelta(minutes=m)
            assert abs((now - expect).total_seconds()) < 60, (tz, now, expect)
    """)

bug("c14-falsy-values", "C14",
    "a variable assigned to a falsy value (0, OFF, '') whose default isn't falsy",
    "Reading a variable that was assigned a falsy value returns its default.",
    [(V, """        if name in self.values:
            return self.values[name]
        _, default, _ = self.get_schema(name)

        return default""",
      """        _, default, _ = self.get_schema(name)
        return self.values.get(name) or default""")],
    """
    async with serve() as s:
        c = await s.connect()
        for name, value, want in (("sql_mode", "''", b""), ("wait_timeout", "0", b"0"), ("autocommit", "0", b"0")):
            await c.query(f"SET {name} = {value}")
            cols, rows = await c.query(f"SELECT @@{name}")
            assert rows == [(want,)], (name, rows)
    """)

# ---------------------------------------------------------------- C15
bug("c15-results-charset", "C15",
    "a session whose character_set_results differs from its character_set_client (handshake with one, SET character_set_results, ...)",
    "Column names and errors are encoded in the client character set instead of in the results character set.",
    [(C, """        return CharacterSet[self.session.variables.get("character_set_results")]""",
      """        # Fall back to utf8mb4, which every client understands
        variables = self.session.variables
        if variables.get("character_set_results") == variables.get("character_set_client"):
            return CharacterSet[variables.get("character_set_results")]
        return CharacterSet.utf8mb4""")],
    """
    async with serve() as s:
        c = await s.connect()
        await c.query("SET character_set_results = 'latin1'")
        App.answer = staticmethod(lambda *a: ([(1,)], ["h\\u00e9"]))
        cols, rows = await c.query("SELECT a FROM t")
        assert cols[0][0] == "h\\u00e9".encode("latin1"), cols
    """)

bug("c15-long-data-utf8", "C15",
    "a string parameter sent with COM_STMT_SEND_LONG_DATA in a client character set other than utf8",
    "Long data is decoded as utf8 regardless of the client character set.",
    [(P, """                params.append((param_name, client_charset.decode(buffers[i])))""",
      """                params.append((param_name, buffers[i].decode()))""")],
    """
    async with serve() as s:
        c = await s.connect(charset=8)   # latin1
        sid, _ = await c.prepare("SELECT a FROM t WHERE b = ?")
        c.long_data(sid, 0, "h\\u00e9".encode("latin1"))
        await c.execute(sid, [(STR, False, b"")])
        assert App.last.log[-1][1] == "SELECT a FROM t WHERE b = 'h\\u00e9'", App.last.log
    """)

bug("c15-change-user-name", "C15",
    "COM_CHANGE_USER with non-ASCII strings that declares another character set than the current one",
    "The strings in front of the character set field of COM_CHANGE_USER are decoded twice: database in the new character set.",
    [(P, """            client_charset = Collation(read_uint_2(r)).charset
            response.client_charset = client_charset
""", """            client_charset = Collation(read_uint_2(r)).charset
            response.client_charset = client_charset
            response.database = client_charset.decode(raw_database)
"""),
     (P, """        auth_response = read_str_null(r)
    database = client_charset.decode(read_str_null(r))
""", """        auth_response = read_str_null(r)
    raw_database = read_str_null(r)
    database = client_charset.decode(raw_database)
""")],
    """
    async with serve() as s:
        c = await s.connect(charset=45)
        try:
            await c.change_user("u", db="d\\u00e9", charset=8, codec="utf8")
        except (Err, Closed):
            raise SystemExit("refused")
        assert App.last.database == "d\\u00e9", App.last.database
    """)

bug("c15-field-list-wildcard", "C15",
    "COM_FIELD_LIST with a non-ASCII wildcard in a client character set other than utf8",
    "The wildcard of COM_FIELD_LIST is decoded as utf8.",
    [(P, """        wildcard=client_charset.decode(read_str_rest(r)),""",
      """        wildcard=read_str_rest(r).decode(errors="replace"),""")],
    """
    App.tables = {"db": {"t": {"h\\u00e9": "INT", "other": "INT"}}}
    async with serve() as s:
        c = await s.connect(charset=8, db="db")
        c.cmd(b"\\x04t\\0" + "h\\u00e9%".encode("latin1"))
        n = 0
        while True:
            p = await c.read()
            c.check_err(p)
            if c.is_end(p):
                break
            n += 1
        assert n == 1, n
    """)

bug("c15-binary-charset", "C15",
    "string columns in a character set other than utf8, through the binary protocol",
    "The binary protocol encodes strings in utf8 regardless of the column's character set.",
    [(R, """    if isinstance(val, str):
        val = val.encode(col.character_set.codec)

    return str_len(val)""",
      """    if isinstance(val, str):
        val = val.encode()

    return str_len(val)""")],
    """
    from mysql_mimic import ResultColumn, ColumnType
    from mysql_mimic.charset import CharacterSet
    App.answer = staticmethod(lambda *a: ([("h\\u00e9",)], [ResultColumn("x", ColumnType.VARCHAR, character_set=CharacterSet.latin1)]))
    async with serve() as s:
        c = await s.connect()
        sid, _ = await c.prepare("SELECT a FROM t")
        cols, rows = await c.execute(sid)
        assert rows == [b"\\0\\0\\x02" + "h\\u00e9".encode("latin1")], rows
    """)

# ---------------------------------------------------------------- C16
bug("c16-schema-cached", "C16",
    "an application whose declared schema changes while a session is open",
    "The catalog of a session is built once, so later changes of the declared schema aren't visible in it.",
    [(S, """        return await ensure_info_schema(await self.schema()).query(expression)""",
      """        info_schema = self.__dict__.get("_info_schema")
        if info_schema is None:
            # Building the tables is expensive
            info_schema = ensure_info_schema(await self.schema())
            self.__dict__["_info_schema"] = info_schema
        return await info_schema.query(expression)""")],
    """
    App.tables = {"db": {"t": {"a": "INT"}}}
    async with serve() as s:
        c = await s.connect(db="db")
        assert (await c.query("SHOW TABLES"))[1] == [(b"t",)]
        App.tables = {"db": {"t": {"a": "INT"}, "u": {"b": "TEXT"}}}
        rows = (await c.query("SHOW TABLES"))[1]
        assert sorted(rows) == [(b"t",), (b"u",)], rows
    """)

bug("c16-ordinal-per-table-name", "C16",
    "tables with the same name in different databases",
    "The ordinal positions of columns continue from a table of the same name in another database.",
    [(SC, """        key = (column.catalog, column.schema, column.table)
""", """        key = (column.catalog, column.table)
""")],
    """
    App.tables = {"d1": {"t": {"a": "INT", "b": "INT"}}, "d2": {"t": {"a": "INT", "b": "INT"}}}
    async with serve() as s:
        c = await s.connect()
        q = "SELECT table_schema, column_name, ordinal_position FROM information_schema.columns WHERE table_name = 't'"
        rows = sorted((await c.query(q))[1])
        pos = {}
        for d, n, p in rows:
            pos.setdefault(d, []).append(p)
        assert pos[b"d1"] == pos[b"d2"], rows
    """)

bug("c16-show-from-other-db", "C16",
    "SHOW COLUMNS / SHOW TABLES ... FROM another database than the current one",
    "The current database takes precedence over the one named in SHOW COLUMNS / SHOW INDEX.",
    [(SC, """        db = show.text("db") or database
        if db:
            select = select.where(_equals("table_schema", db))
        if show.args.get("like"):
            select = select.where(_like("column_name", show.text("like")))""",
      """        db = database or show.text("db")
        if db:
            select = select.where(_equals("table_schema", db))
        if show.args.get("like"):
            select = select.where(_like("column_name", show.text("like")))""")],
    """
    App.tables = {"d1": {"t": {"a": "INT"}}, "d2": {"t": {"b": "INT"}}}
    async with serve() as s:
        c = await s.connect(db="d1")
        assert [r[0] for r in (await c.query("SHOW COLUMNS FROM t"))[1]] == [b"a"]
        assert [r[0] for r in (await c.query("SHOW COLUMNS FROM t FROM d2"))[1]] == [b"b"]
    """)

bug("c16-type-normalized", "C16",
    "a declared column type that isn't upper case (or has case-sensitive parts such as ENUM values)",
    "Declared types are converted to upper case, which changes e.g. the values of an ENUM.",
    [(SC, """                            type=coltype,""", """                            type=coltype.upper(),""")],
    """
    App.tables = {"d1": {"t": {"a": "ENUM('x','Y')", "b": "varchar(10)"}}}
    async with serve() as s:
        c = await s.connect(db="d1")
        rows = (await c.query("SHOW COLUMNS FROM t"))[1]
        assert [r[1] for r in rows] == [b"ENUM('x','Y')", b"varchar(10)"], rows
    """)

bug("c16-tables-by-name", "C16",
    "a table name that is used in several databases",
    "Tables are collected by name, so a table whose name exists in several databases is only listed in one of them.",
    [(SC, """    for catalog, db, table in sorted(tables):
        data""", """    for catalog, db, table in sorted({t: (c, d, t) for c, d, t in sorted(tables)}.values()):
        data""")],
    """
    App.tables = {"d1": {"t": {"a": "INT"}, "u": {"a": "INT"}}, "d2": {"t": {"b": "INT"}}}
    async with serve() as s:
        c = await s.connect(db="d1")
        assert sorted((await c.query("SHOW TABLES"))[1]) == [(b"t",), (b"u",)]
        assert (await c.query("SHOW TABLES FROM d2"))[1] == [(b"t",)]
    """)

# ---------------------------------------------------------------- C17
bug("c17-no-params-no-attrs", "C17",
    "query attributes attached to the execution of a prepared statement without parameters",
    "The parameter block is only read for statements with parameters, so the attributes of other statements are lost.",
    [(P, """    if stmt.num_params > 0 or (
        Capabilities.CLIENT_QUERY_ATTRIBUTES in capabilities and param_count_available
    ):
        if Capabilities.CLIENT_QUERY_ATTRIBUTES in capabilities:
            parameter_count = read_uint_len(reader)
""", """    if stmt.num_params > 0 and Capabilities.CLIENT_QUERY_ATTRIBUTES in capabilities:
        parameter_count = read_uint_len(reader)
""")],
    """
    async with serve() as s:
        c = await s.connect(caps=CAPS_DEFAULT | DEPRECATE_EOF | QUERY_ATTRS)
        sid, _ = await c.prepare("SELECT a FROM t")
        await c.execute(sid, [], [("k", *S("v"))])
        assert App.last.log[-1][2] == {"k": "v"}, App.last.log
    """)

bug("c17-first-statement-only", "C17",
    "attributes attached to a COM_QUERY with several statements for the application",
    "Only the first statement of a COM_QUERY receives the query attributes.",
    [(S, """                attrs=attrs,
                _middlewares=self.middlewares,""",
      """                attrs=attrs if result is None else {},
                _middlewares=self.middlewares,""")],
    """
    async with serve() as s:
        c = await s.connect(caps=CAPS_DEFAULT | DEPRECATE_EOF | QUERY_ATTRS)
        await c.query("SELECT a FROM t; SELECT b FROM t", [("k", *S("v"))])
        assert [l[2] for l in App.last.log] == [{"k": "v"}] * 2, App.last.log
    """)

bug("c17-uint3-shift", "C17",
    "an attribute value of 64 KiB or more",
    "The third byte of three-byte lengths is shifted by the wrong amount, so values of 64 KiB and more are cut.",
    [(T, """    t = struct.unpack("<HB", data)
    return t[0] + (t[1] << 16)""",
      """    t = struct.unpack("<HB", data)
    return t[0] | (t[1] << 8)""")],
    """
    async with serve() as s:
        c = await s.connect(caps=CAPS_DEFAULT | DEPRECATE_EOF | QUERY_ATTRS)
        for n in (65535, 65536, 70000, 200000):
            v = "z" * n
            try:
                await c.query("SELECT a FROM t", [("k", *S(v)), ("l", *S("w"))])
            except Err:
                raise SystemExit("refused")
            assert App.last.log[-1][2] == {"k": v, "l": "w"}, n
    """)

bug("c17-eight-attributes", "C17",
    "exactly eight (or sixteen, ...) parameters and attributes",
    "The NULL bitmap of a block whose number of parameters is a multiple of eight is taken to be one byte longer.",
    [(R, """        return (num_bits + 7 + offset) // 8""",
      """        return (num_bits + offset) // 8 + bool(num_bits % 8 + offset or num_bits // 8 == 2)""")],
    """
    async with serve() as s:
        c = await s.connect(caps=CAPS_DEFAULT | DEPRECATE_EOF | QUERY_ATTRS)
        for n in range(1, 34):
            try:
                await c.query("SELECT a FROM t", [(f"k{i}", *S(f"v{i}")) for i in range(n)])
            except Err:
                raise SystemExit(n)
            assert App.last.log[-1][2] == {f"k{i}": f"v{i}" for i in range(n)}, n
    """)

bug("c17-falsy-attr", "C17",
    "an attribute whose value is NULL, together with others",
    "Attributes with NULL values are dropped from the mapping of a COM_QUERY.",
    [(P, """            for k, v in _read_params(capabilities, client_charset, r, parameter_count)
            if k is not None
        }""",
      """            for k, v in _read_params(capabilities, client_charset, r, parameter_count)
            if v is not None
        }""")],
    """
    async with serve() as s:
        c = await s.connect(caps=CAPS_DEFAULT | DEPRECATE_EOF | QUERY_ATTRS)
        await c.query("SELECT a FROM t", [("k", STR, False, None), ("l", *S("w"))])
        assert App.last.log[-1][2] == {"k": None, "l": "w"}, App.last.log
    """)

# ---------------------------------------------------------------- C18
bug("c18-collision-once", "C18",
    "two neighbouring connections that are older than a wraparound of the sequence",
    "After a collision, the next id is used without checking it, so two live connections get the same id if neighbouring ids are in use.",
    [(CT, """        while connection_id in self._connections:
            connection_id = server_id_prefix + next(self._connection_seq)
""", """        if connection_id in self._connections:
            connection_id = server_id_prefix + next(self._connection_seq)
""")],
    """
    from mysql_mimic.control import LocalControl
    ctl = LocalControl(server_id=1)
    a, b = await ctl.add(object()), await ctl.add(object())
    for _ in range(65534):
        await ctl.remove(await ctl.add(object()))
    c = await ctl.add(object())
    assert len({a, b, c}) == 3, (a, b, c)
    """)

bug("c18-server-id-overflow", "C18",
    "a server id above 65535",
    "Server ids aren't reduced modulo 2^16, so ids of servers with a larger one exceed 32 bits.",
    [(CT, """        server_id_prefix = (
            self.server_id % self._MAX_SERVER_ID
        ) << self._CONNECTION_ID_BITS
""", """        server_id_prefix = self.server_id << self._CONNECTION_ID_BITS
""")],
    """
    from mysql_mimic.control import LocalControl
    for sid in (65535, 65536, 65537, 1 << 20):
        async with serve(control=LocalControl(server_id=sid)) as s:
            try:
                c = await s.connect()
            except (Err, Closed):
                raise SystemExit(f"server id {sid}: refused")
            assert c.id >> 16 == sid % 65536, (sid, c.id)
            c.close()
    """)

bug("c18-seq-skips-freed", "C18",
    "the registry is full except for one id that was released",
    "The connection limit is one too low: the last free id is never given out.",
    [(CT, """        if len(self._connections) >= self._MAX_CONNECTION_SEQ:
            raise TooManyConnections()
""", """        if len(self._connections) + 1 >= self._MAX_CONNECTION_SEQ:
            raise TooManyConnections()
""")],
    """
    from mysql_mimic.control import LocalControl, TooManyConnections
    ctl = LocalControl(server_id=1)
    ids = [await ctl.add(object()) for _ in range(65536)]
    assert len(set(ids)) == 65536
    try:
        await ctl.add(object())
        raise SystemExit("?")
    except TooManyConnections:
        pass
    await ctl.remove(ids[77])
    assert await ctl.add(object()) == ids[77]
    """)

bug("c18-slow-registration", "C18",
    "a Control whose add() suspends (registration in a shared store) and overlapping connects",
    "The id is announced from the connection's context instead of the registered one, which a suspending registration of another connection may have replaced.",
    [(SV, """            connection_id = await self.control.add(connection)
            connection.connection_id = connection_id
""", """            self._connection_id = await self.control.add(connection)
            await asyncio.sleep(0)
            connection_id = connection.connection_id = self._connection_id
""")],
    """
    async with serve() as s:
        cs = await asyncio.gather(*[Client.open(s.port) for _ in range(20)])
        for c in cs:
            await c.greeting()
        assert len({c.id for c in cs}) == 20, sorted(c.id for c in cs)
    """)
