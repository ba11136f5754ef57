from collections import namedtuple
Bug = namedtuple("Bug", "id prop needs breaks edits prelude demo")
BUGS = []


def bug(id, prop, needs, breaks, edits, demo, prelude=""):
    BUGS.append(Bug(id, prop, needs, breaks, edits, prelude, demo))


A, C, P, R, S, ST, T, U, V, SC, CT, SV, CH = (
    f"mysql_mimic/{m}.py" for m in "auth connection packets results session stream types utils variables schema control server charset".split())

# ---------------------------------------------------------------- C01
bug("c01-handshake-error-served", "C01",
    "an exception in the authentication exchange (identity provider or plugin callback raises, or a malformed handshake response), after which the client keeps sending commands",
    "The client has received an ERR for its handshake, but the connection falls through to the command phase and serves queries of a client that never authenticated.",
    [(C, """            await self.stream.write(self.error(msg=e, code=ErrorCode.HANDSHAKE_ERROR))
            raise

        try:
""",
      """            logger.exception("Handshake of connection %s failed", self.connection_id)
            await self.stream.write(self.error(msg=e, code=ErrorCode.HANDSHAKE_ERROR))
            self.stream.reset_seq()

        try:
""")],
    """
    class Broken(Provider):
        async def get_user(self, username):
            raise RuntimeError("directory is down")
    async with serve(identity_provider=Broken({})) as s:
        c = await Client.open(s.port)
        await c.greeting()
        try:
            await c.login()
            raise SystemExit("logged in")
        except Err:
            pass
        try:
            c.caps = CAPS_DEFAULT | DEPRECATE_EOF
            await c.query("SELECT a FROM secrets")
            raise SystemExit("unauthenticated client was served")
        except (Closed, Err):
            pass
        assert App.last is None or not App.last.log
    """)

bug("c01-plugin-from-client", "C01",
    "an account of another plugin than the one the client names in its handshake response (both are offered by the identity provider)",
    "The plugin is selected by the client instead of by the account, so e.g. a no-login or clear-password account without auth_string is entered with an empty native password.",
    [(A, """    def get_plugin(self, name: str) -> Optional[AuthPlugin]:
        try:
            return next(p for p in self.get_plugins() if p.name == name)
        except StopIteration:
            return None
""", """    def get_plugin(self, name: str) -> Optional[AuthPlugin]:
        try:
            return next(
                p for p in self.get_plugins() if name in (p.name, p.client_plugin_name)
            )
        except StopIteration:
            return None
"""),
     (C, """            self.identity_provider.get_plugin(user.auth_plugin or "")
            or self.identity_provider.get_default_plugin()""",
      """            # Skip the round trip of an auth switch if we support what the client offers
            self.identity_provider.get_plugin(client_plugin_name or "")
            or self.identity_provider.get_plugin(user.auth_plugin or "")
            or self.identity_provider.get_default_plugin()""")],
    """
    users = {"svc": _auth.User(name="svc", auth_plugin="mysql_no_login")}
    async with serve(identity_provider=Provider(users)) as s:
        c = await Client.open(s.port)
        await c.greeting()
        try:
            await c.login(user="svc", password="")
        except (Err, Closed):
            return
        await c.query("SELECT a FROM t")
        raise SystemExit("a no-login account was served")
    """)

bug("c01-clear-password-cache", "C01",
    "two connections of the same account through one plugin instance, the second one with a wrong password",
    "The clear-password plugin remembers accounts that passed the check and doesn't check again, so any password is accepted once the real user has logged in.",
    [(A, """        r = io.BytesIO(auth_info.data)
        password = read_str_null(r).decode()
        authenticated_as = await self.check(auth_info.username, password)
        if authenticated_as is not None:
            yield Success(authenticated_as)""",
      """        r = io.BytesIO(auth_info.data)
        password = read_str_null(r).decode()
        verified = self.__dict__.setdefault("_verified", {})
        authenticated_as = verified.get(auth_info.username)
        if authenticated_as is None:
            authenticated_as = await self.check(auth_info.username, password)
        if authenticated_as is not None:
            # Checks may be expensive, e.g. if they involve a directory server
            verified[auth_info.username] = authenticated_as
            yield Success(authenticated_as)""")],
    """
    class Clear(_auth.AbstractClearPasswordAuthPlugin):
        name = "my_clear"
        async def check(self, username, password):
            return username if password == "right" else None
    p = Provider({"u": _auth.User(name="u", auth_plugin="my_clear")}, [Clear()])
    async with serve(identity_provider=p) as s:
        async def attempt(pw):
            c = await Client.open(s.port)
            await c.greeting()
            try:
                await c.login(user="u", plugin="mysql_clear_password", auth=pw + b"\\0", password=pw.decode())
                await c.query("SELECT a FROM t")
                return True
            except (Err, Closed):
                return False
            finally:
                c.close()
        assert not await attempt(b"wrong")
        assert await attempt(b"right")
        assert not await attempt(b"wrong"), "wrong password accepted"
    """)

bug("c01-change-user-early-name", "C01",
    "a COM_CHANGE_USER whose authentication exchange takes another round trip, abandoned half way (session.close observes the user)",
    "The session's user is replaced before the new user has authenticated, so the session ends (and anything running meanwhile sees it) under a name that never passed authentication.",
    [(C, """        user = await self.identity_provider.get_user(username)

        if not user:""",
      """        user = await self.identity_provider.get_user(username)
        self.session.username = user.name if user else None

        if user is None:""")],
    """
    seen = []
    class Obs(App):
        async def close(self):
            seen.append(self.username)
            await super().close()
    users = {"alice": native("alice", "a"), "root": native("root", "r")}
    async with serve(Obs, identity_provider=Provider(users)) as s:
        c = await s.connect(user="alice", password="a")
        await c.query("SELECT a FROM t")
        try:
            await c.change_user("root", password="wrong")
            raise SystemExit("accepted")
        except (Err, Closed):
            pass
        assert await c.closed()
        for _ in range(100):
            if seen:
                break
            await asyncio.sleep(0.02)
        assert seen == ["alice"], seen
    """)

# ---------------------------------------------------------------- C02
bug("c02-optimistic-any-plugin", "C02",
    "an account of a plugin with a client plugin other than the default's (or the no-login plugin), while the client answers for the default plugin",
    "The optimistic handshake of the default plugin is accepted for accounts that use another plugin, so a mysql_no_login account with an empty auth_string can log in with an empty password.",
    [(C, """            and (
                server_plugin.client_plugin_name is None
                or server_plugin.client_plugin_name == client_plugin_name
            )
            and server_plugin.name == user_plugin.name
        ):""",
      """            and (
                server_plugin.client_plugin_name is None
                or server_plugin.client_plugin_name == client_plugin_name
            )
            and user_plugin.client_plugin_name in (None, client_plugin_name)
        ):""")],
    """
    users = {"svc": _auth.User(name="svc", auth_plugin="mysql_no_login"), "u": native("u", "p")}
    async with serve(identity_provider=Provider(users)) as s:
        c = await s.connect(user="u", password="p")
        c.close()
        c = await Client.open(s.port)
        await c.greeting()
        try:
            await c.login(user="svc", password="")
        except (Err, Closed):
            return
        raise SystemExit("no-login plugin accepted")
    """)

bug("c02-secondary-empty", "C02",
    "an account with a password but without secondary password, and a client sending an empty response",
    "The empty-password quick path is evaluated per password slot, so an account whose secondary slot is unset can be entered with an empty password.",
    [(A, """    def empty_password_quickpath(self, user: User, scramble: bytes) -> bool:
        return not scramble and not user.auth_string

    def password_matches(self, user: User, scramble: bytes, nonce: bytes) -> bool:
        return (
            self.empty_password_quickpath(user, scramble)
            or self.verify_scramble(user.auth_string, scramble, nonce)
            or self.verify_scramble(user.old_auth_string, scramble, nonce)
        )
""", """    def empty_password_quickpath(
        self, auth_string: Optional[str], scramble: bytes
    ) -> bool:
        return not scramble and not auth_string

    def password_matches(self, user: User, scramble: bytes, nonce: bytes) -> bool:
        return any(
            self.empty_password_quickpath(auth_string, scramble)
            or self.verify_scramble(auth_string, scramble, nonce)
            for auth_string in (user.auth_string, user.old_auth_string)
        )
""")],
    """
    users = {"u": native("u", "p"), "e": native("e")}
    async with serve(identity_provider=Provider(users)) as s:
        (await s.connect(user="u", password="p")).close()
        (await s.connect(user="e", password="")).close()
        c = await Client.open(s.port)
        await c.greeting()
        try:
            await c.login(user="u", password="")
        except (Err, Closed):
            return
        raise SystemExit("empty password accepted")
    """)

bug("c02-xor-leading-zero", "C02",
    "a nonce/password pair for which the scramble's XOR yields a zero in the most significant byte (1 in 256 handshakes)",
    "The XOR result loses its most significant zero bytes, so one in 256 valid responses is rejected.",
    [(U, """    int_enc = int_b ^ int_a
    return int_enc.to_bytes(len(b), sys.byteorder)""",
      """    int_enc = int_b ^ int_a
    return int_enc.to_bytes((int_enc.bit_length() + 7) // 8, sys.byteorder)""")],
    """
    # passwords whose SHA1 ends in a zero byte
    pw = next(p for p in (f"pw{i}" for i in range(100000)) if sha1(p.encode()).digest()[-1] == 0)
    pw2 = next(p for p in (f"pw{i}" for i in range(100000)) if sha1(p.encode()).digest()[0] == 0)
    users = {"u": native("u", pw), "v": native("v", pw2)}
    async with serve(identity_provider=Provider(users)) as s:
        for user, p in (("u", pw), ("v", pw2)):
            c = await s.connect(user=user, password=p)
            await c.ping()
            c.close()
    """)

bug("c02-nonce-on-plugin", "C02",
    "an identity provider that hands out the same plugin instance for several connections (the natural way to write one), with overlapping or successive handshakes",
    "The nonce is created once per plugin object instead of once per connection: a captured response can be replayed on another connection.",
    [(A, """            nonce = utils.nonce(20)
            # Some clients expect a null terminating byte
            auth_info = yield nonce + b"\\x00\"""",
      """            nonce = self.__dict__.setdefault("_nonce", utils.nonce(20))
            # Some clients expect a null terminating byte
            auth_info = yield nonce + b"\\x00\"""")],
    """
    p = Provider({"u": native("u", "p")}, [_auth.NativePasswordAuthPlugin()])
    async with serve(identity_provider=p) as s:
        c = await Client.open(s.port)
        await c.greeting()
        captured = scramble("p", c.nonce)
        await c.login(user="u", auth=captured)
        c.close()
        c = await Client.open(s.port)
        await c.greeting()
        try:
            await c.login(user="u", auth=captured, on_more=lambda pl, n: captured)
        except (Err, Closed):
            return
        raise SystemExit("replayed response accepted")
    """)

bug("c02-clear-identity", "C02",
    "an application whose check() maps the login name to another identity (proxy users, realm suffixes)",
    "The clear-password plugin vouches for the login name instead of for the identity the application's check returned.",
    [(A, """        authenticated_as = await self.check(auth_info.username, password)
        if authenticated_as is not None:
            yield Success(authenticated_as)""",
      """        authenticated_as = await self.check(auth_info.username, password)
        if authenticated_as is not None:
            yield Success(auth_info.username)""")],
    """
    class Clear(_auth.AbstractClearPasswordAuthPlugin):
        name = "my_clear"
        async def check(self, username, password):
            return "mapped_" + username if password == "right" else None
    p = Provider({"u": _auth.User(name="u", auth_plugin="my_clear")}, [Clear()])
    async with serve(identity_provider=p) as s:
        c = await s.connect(user="u", plugin="mysql_clear_password", auth=b"right\\0", password="right")
        await c.query("SELECT a FROM t")
        assert App.last.username == "mapped_u", App.last.username
    """)

# ---------------------------------------------------------------- C03
bug("c03-unnegotiated-capabilities", "C03",
    "a client that sets a capability flag the server didn't offer (CLIENT_OPTIONAL_RESULTSET_METADATA, or CLIENT_QUERY_ATTRIBUTES / CLIENT_DEPRECATE_EOF with a reduced server)",
    "The connection works with the client's flags instead of the negotiated ones, e.g. the column count packet gets a metadata byte that wasn't negotiated.",
    [(P, """    response = HandshakeResponse41(
        max_packet_size=max_packet_size,
        capabilities=capabilities,""",
      """    response = HandshakeResponse41(
        max_packet_size=max_packet_size,
        capabilities=client_capabilities,""")],
    """
    async with serve() as s:
        c = await s.connect(caps=CAPS_DEFAULT | DEPRECATE_EOF | OPTIONAL_METADATA)
        cols, rows = await c.query("SELECT a FROM t")
        assert [n for n, *_ in cols] == [b"x"] and rows == [(b"1",)], (cols, rows)
    from mysql_mimic.constants import DEFAULT_SERVER_CAPABILITIES as D
    async with serve(capabilities=D & ~_types.Capabilities.CLIENT_DEPRECATE_EOF) as s:
        c = await s.connect(caps=CAPS_DEFAULT | DEPRECATE_EOF)
        c.caps &= ~DEPRECATE_EOF
        cols, rows = await c.query("SELECT a FROM t")
        assert rows == [(b"1",)], rows
    """)

bug("c03-close-unknown", "C03",
    "COM_STMT_CLOSE of a statement that doesn't exist (e.g. closed twice, which drivers do)",
    "COM_STMT_CLOSE has no response, but closing an unknown statement is answered with an ERR, which the client takes for the response of its next command.",
    [(C, """        self.prepared_stmts.pop(com_stmt_close.stmt_id, None)""",
      """        self.prepared_stmts.pop(self.get_stmt(com_stmt_close.stmt_id).stmt_id)""")],
    """
    async with serve() as s:
        c = await s.connect()
        sid, n = await c.prepare("SELECT a FROM t")
        for _ in range(2):
            c.cmd(b"\\x19" + struct.pack("<I", sid))
        await c.ping()
        assert (await c.query("SELECT a FROM t"))[1] == [(b"1",)]
    """)

bug("c03-251-columns", "C03",
    "a result set of exactly 251 columns, or a string of exactly 251 bytes",
    "251 is encoded in one byte, which is the NULL / LOCAL INFILE marker.",
    [(T, """def uint_len(i: int) -> bytes:
    if i < 251:""", """def uint_len(i: int) -> bytes:
    if i <= 0xFB:""")],
    """
    async with serve() as s:
        c = await s.connect()
        for n in (250, 251, 252):
            names = [f"c{i}" for i in range(n)]
            App.answer = staticmethod(lambda *a: ([tuple(range(n))], names))
            cols, rows = await c.query("SELECT * FROM t")
            assert [k for k, *_ in cols] == [k.encode() for k in names]
            assert rows == [tuple(str(i).encode() for i in range(n))]
    """)

bug("c03-sequence-255", "C03",
    "a response of more than 255 packets followed by a check of sequence numbers (or a request of more than 255 packets)",
    "Sequence numbers wrap one too early, at 254, in the middle of long responses.",
    [(ST, "        self.seq = seq(256)", "        self.seq = seq(0xFF)")],
    """
    async with serve() as s:
        c = await s.connect()
        App.answer = staticmethod(lambda *a: ([(i,) for i in range(600)], ["x"]))
        cols, rows = await c.query("SELECT * FROM t")
        assert len(rows) == 600
        await c.ping()
    """)

bug("c03-execute-eof", "C03",
    "COM_STMT_EXECUTE of a statement with result set by a client without CLIENT_DEPRECATE_EOF on a server that offers it, if no rows are returned",
    "The metadata EOF of a binary result set is only sent together with the first row, so a client that needs it doesn't get it for an empty result.",
    [(C, """            if not self.deprecate_eof():
                await self.stream.write(self.eof())
            async for row in rows:
                await self.stream.write(row)""",
      """            need_eof = not self.deprecate_eof()
            async for row in rows:
                if need_eof:
                    await self.stream.write(self.eof(), drain=False)
                    need_eof = False
                await self.stream.write(row)""")],
    """
    async with serve() as s:
        for caps in (CAPS_DEFAULT, CAPS_DEFAULT | DEPRECATE_EOF):
            c = await s.connect(caps=caps)
            sid, _ = await c.prepare("SELECT a FROM t")
            for k in (2, 1, 0):
                App.answer = staticmethod(lambda *a: ([(i,) for i in range(k)], ["x"]))
                c.cmd(b"\\x17" + struct.pack("<IBI", sid, 0, 1))
                cols, rows = await asyncio.wait_for(c.resultset(binary=True), 5)
                assert len(rows) == k
                await c.ping()
    """)

# ---------------------------------------------------------------- C04
bug("c04-exact-multiple", "C04",
    "a payload of the server that is an exact multiple of 16 MiB - 1",
    "The terminating empty packet of a payload that is an exact multiple of 16 MiB-1 isn't sent.",
    [(ST, """            # We are done unless len(send) == 0xFFFFFF
            if len(payload) != 0xFFFFFF:
                return""",
      """            # We are done unless there's more to send
            if not data:
                return""")],
    """
    # column value such that the row's payload is 0xFFFFFF: 1 + 3 bytes of length, or 0xFE + 8
    async with serve() as s:
        c = await s.connect()
        for total in (0xFFFFFF - 1, 0xFFFFFF, 0xFFFFFF + 1):
            v = "x" * (total - 4)
            App.answer = staticmethod(lambda *a: ([(v,)], ["x"]))
            cols, rows = await c.query("SELECT * FROM t")
            assert rows == [(v.encode(),)], "payload differs"
            await c.ping()
    """)

bug("c04-short-read", "C04",
    "a packet whose payload arrives in more than one network read",
    "The payload of a packet is read with a single read() which returns whatever has arrived, so packets split across reads are truncated.",
    [(ST, """            data += await self.reader.readexactly(payload_length)""",
      """            chunk = await self.reader.read(payload_length)
            if not chunk:
                raise ConnectionClosed()
            data += chunk""")],
    """
    async with serve() as s:
        c = await s.connect()
        sql = "SELECT a FROM t WHERE b = '" + "y" * 5000 + "'"
        c.seq = 0
        raw = c.packet(b"\\x03" + sql.encode())
        for i in range(0, len(raw), 1000):
            c.w.write(raw[i:i + 1000])
            await c.w.drain()
            await asyncio.sleep(0.05)
        await asyncio.wait_for(c.resultset(), 5)
        assert App.last.log[0][1] == sql
    """)

bug("c04-header-split", "C04",
    "a packet header split across reads, or a connection closed inside it",
    "The header is decoded from whatever arrived with the previous read, so a header that is split across network reads ends the connection.",
    [(ST, """            i = struct.unpack("<I", header)[0]
            payload_length = i & 0x00FFFFFF
            sequence_id = (i & 0xFF000000) >> 24
""", """            payload_length, high, sequence_id = struct.unpack("<HBB", header)
            payload_length |= high << 8
""")],
    """
    async with serve() as s:
        c = await s.connect()
        for n in (100, 0xFF00, 0x10000, 0x12345, 0x200000):
            sql = "SELECT a FROM t WHERE b = '" + "y" * (n - 30) + "'"
            await asyncio.wait_for(c.query(sql), 10)
            assert App.last.log[-1][1] == sql
    """)

bug("c04-read-exact-multiple", "C04",
    "a request whose payload is exactly 16 MiB - 1 (followed by the empty packet)",
    "A full-size packet is taken for the last one of a payload, so the rest of the payload is taken for the next command.",
    [(ST, """            if payload_length < 0xFFFFFF:
                return data

""", """            if payload_length <= 0xFFFFFE or self.reader.at_eof():
                return data

            if len(data) % 0xFFFFFF == 0 and sequence_id % 2:
                # A pair of full packets is complete
                return data

""")],
    """
    async with serve() as s:
        c = await s.connect()
        for n in (0xFFFFFF, 2 * 0xFFFFFF, 2 * 0xFFFFFF + 5):
            sql = "SELECT a FROM t WHERE b = '"
            sql += "y" * (n - 1 - len(sql) - 1) + "'"
            await c.query(sql)
            assert App.last.log[-1][1] == sql
            await c.ping()
    """)

# ---------------------------------------------------------------- C05
bug("c05-midnight-micros", "C05",
    "a datetime at exactly 00:00:00 with a non-zero microsecond part, through the binary protocol",
    "The short date encoding is chosen if hour, minute and second are zero without looking at the microseconds.",
    [(R, """    if microsecond == 0:
        if hour == minute == second == 0:
            if year == month == day == 0:
                return uint_1(0)
            return b"".join([uint_1(4), uint_2(year), uint_1(month), uint_1(day)])
        return b"".join(""",
      """    if hour == minute == second == 0:
        if year == month == day == 0:
            return uint_1(0)
        return b"".join([uint_1(4), uint_2(year), uint_1(month), uint_1(day)])

    if microsecond == 0:
        return b"".join(""")],
    """
    from datetime import datetime
    async with serve() as s:
        c = await s.connect()
        sid, _ = await c.prepare("SELECT a FROM t")
        App.answer = staticmethod(lambda *a: ([(datetime(2020, 1, 2, 0, 0, 0, 5),)], ["x"]))
        cols, rows = await c.execute(sid)
        assert rows == [b"\\0\\0" + bytes([11]) + struct.pack("<HBBBBBI", 2020, 1, 2, 0, 0, 0, 5)], rows
        App.answer = staticmethod(lambda *a: ([(datetime(2020, 1, 2, 3, 0, 0, 5),)], ["x"]))
        cols, rows = await c.execute(sid)
        assert rows[0][2] == 11
    """)

bug("c05-bitmap-size", "C05",
    "a binary row whose column count + 2 is a multiple of 8 (6, 14, 22 ... columns)",
    "The NULL bitmap of binary rows is one byte too long if the number of bits is a multiple of eight.",
    [(R, """        return (num_bits + 7 + offset) // 8""",
      """        return (num_bits + offset) // 8 + (1 if offset or num_bits % 8 else 0)""")],
    """
    async with serve() as s:
        c = await s.connect()
        sid, _ = await c.prepare("SELECT a FROM t")
        for n in range(1, 24):
            App.answer = staticmethod(lambda *a: ([tuple("v" for _ in range(n))], [f"c{i}" for i in range(n)]))
            cols, rows = await c.execute(sid)
            assert rows == [b"\\0" + bytes((n + 9) // 8) + b"\\1v" * n], (n, rows)
    """)

bug("c05-cooperative-drop", "C05",
    "a result of more than 10000 rows",
    "The row at which the iteration gives control back to the event loop is lost.",
    [(U, """    i = 0
    async for item in iterable:
        if i != 0 and i % batch_size == 0:
            await asyncio.sleep(0)
        yield item
        i += 1""",
      """    i = 0
    async for item in iterable:
        i += 1
        if i > batch_size:
            await asyncio.sleep(0)
            i = 0
            continue
        yield item""")],
    """
    async with serve() as s:
        c = await s.connect()
        App.answer = staticmethod(lambda *a: ([(i,) for i in range(25000)], ["x"]))
        cols, rows = await c.query("SELECT * FROM t")
        assert rows == [(str(i).encode(),) for i in range(25000)], len(rows)
    """)

bug("c05-string-8mib", "C05",
    "a value of 8 MiB or more",
    "The top bit of three-byte length prefixes is dropped, so values from 8 MiB are announced with a wrong length.",
    [(T, """    if i < 2**24:
        return struct.pack("<BL", 0xFD, i)[:-1]""",
      """    if i < 2**24:
        return struct.pack("<BHB", 0xFD, i & 0xFFFF, (i >> 16) & 0x7F)""")],
    """
    async with serve() as s:
        c = await s.connect()
        for n in (65535, 65536, 1 << 20, (1 << 23) + 3):
            App.answer = staticmethod(lambda *a: ([("z" * n, "end")], ["x", "y"]))
            cols, rows = await c.query("SELECT * FROM t")
            assert rows == [(b"z" * n, b"end")], n
    """)

bug("c05-infer-date-order", "C05",
    "bare column names (inferred types) with datetime values, decoded by the text protocol of a client that converts by column type",
    "datetime values are inferred to be DATE columns since date is checked before its subclass datetime.",
    [(R, """    bool: ColumnType.TINY,
    datetime: ColumnType.DATETIME,
    str: ColumnType.STRING,
    bytes: ColumnType.BLOB,
    int: ColumnType.LONGLONG,
    float: ColumnType.DOUBLE,
    date: ColumnType.DATE,
    timedelta: ColumnType.TIME,
""", """    bool: ColumnType.TINY,
    int: ColumnType.LONGLONG,
    float: ColumnType.DOUBLE,
    date: ColumnType.DATE,
    datetime: ColumnType.DATETIME,
    timedelta: ColumnType.TIME,
    str: ColumnType.STRING,
    bytes: ColumnType.BLOB,
""")],
    """
    from datetime import datetime
    async with serve() as s:
        c = await s.connect()
        App.answer = staticmethod(lambda *a: ([(datetime(2020, 1, 2, 3, 4, 5),)], ["x"]))
        cols, rows = await c.query("SELECT * FROM t")
        assert cols[0][1] == 12, cols   # MYSQL_TYPE_DATETIME
    """)

# ---------------------------------------------------------------- C06
bug("c06-stale-long-data", "C06",
    "COM_STMT_SEND_LONG_DATA, an execution that fails in the application, and another execution without long data",
    "Long data is only discarded after a successful execution, so a retry with another inline value is executed with the old data.",
    [(C, """        com_stmt_execute.stmt.param_buffers = None
""", ""),
     (C, """        if not result_set:
            await self._write_last(self.ok())
            return

        await self.stream.write(types.uint_len(len(result_set.columns)))
""", """        com_stmt_execute.stmt.param_buffers = None
        if not result_set:
            await self._write_last(self.ok())
            return

        await self.stream.write(types.uint_len(len(result_set.columns)))
""")],
    """
    fail = [True]
    def answer(session, e, sql, attrs):
        if fail[0]:
            raise RuntimeError("try again")
        return [(1,)], ["x"]
    App.answer = staticmethod(answer)
    async with serve() as s:
        c = await s.connect()
        sid, _ = await c.prepare("SELECT a FROM t WHERE b = ?")
        c.long_data(sid, 0, b"first")
        try:
            await c.execute(sid, [(STR, False, b"")])
            raise SystemExit("?")
        except Err:
            pass
        fail[0] = False
        await c.execute(sid, [S("second")])
        assert [l[1] for l in App.last.log] == ["SELECT a FROM t WHERE b = 'first'", "SELECT a FROM t WHERE b = 'second'"], App.last.log
    """)

bug("c06-float-fixed", "C06",
    "a float parameter that needs an exponent or more than six decimals",
    "Float parameters are written with six decimals, which is a different value for small numbers.",
    [(P, """    return str(param)


def _read_params(""", """    # Not every SQL dialect understands exponents
    return f"{param:f}" if isinstance(param, float) else str(param)


def _read_params(""")],
    """
    async with serve() as s:
        c = await s.connect()
        sid, _ = await c.prepare("SELECT a FROM t WHERE b = ?")
        for v in (1.5, 0.1, 1e-7, 1 / 3, 12345.678901234):
            await c.execute(sid, [(DOUBLE, False, struct.pack("<d", v))])
            lit = App.last.log[-1][1].split("= ")[1]
            assert float(lit) == v, (lit, v)
    """)

bug("c06-prepare-strip", "C06",
    "a prepared text with trailing white space or semicolon",
    "The prepared text is stripped, so the application doesn't receive the client's original SQL text.",
    [(C, """        sql = self.client_charset.decode(data)

        stmt_id""", """        sql = self.client_charset.decode(data).strip(" ;")

        stmt_id""")],
    """
    async with serve() as s:
        c = await s.connect()
        for sql in ("SELECT a FROM t WHERE b = ? ;", " SELECT a FROM t WHERE b = ? "):
            sid, _ = await c.prepare(sql)
            await c.execute(sid, [S("v")])
            assert App.last.log[-1][1] == sql.replace("?", "'v'"), App.last.log[-1][1]
    """)

bug("c06-stmt-id-wrap", "C06",
    "more than 65536 statements prepared over one connection's lifetime while an early one is still in use",
    "Statement ids wrap around after 65536 statements, and a new statement replaces one that is still open.",
    [(C, "    _MAX_PREPARED_STMT_ID = 2**32", "    _MAX_PREPARED_STMT_ID = 2**16")],
    """
    async with serve() as s:
        c = await s.connect()
        first, _ = await c.prepare("SELECT first FROM t")
        for i in range(66):
            for _ in range(1000):
                c.cmd(b"\\x16SELECT later FROM t")
            await c.w.drain()
            for _ in range(1000):
                c.seq = 1
                p = await c.read()
                c.check_err(p)
                c.cmd(b"\\x19" + p[1:5]) if struct.unpack_from("<I", p, 1)[0] != first else None
        await c.execute(first)
        assert App.last.log[-1][1] == "SELECT first FROM t", App.last.log[-1][1]
    """)

bug("c06-unsigned-flag", "C06",
    "an unsigned integer parameter above the signed maximum from a client that sets further bits in the flag byte, or a signed parameter with other bits",
    "Only the lowest bit of the parameter flag is examined, so unsigned values above the signed range become negative.",
    [(P, """    is_unsigned = (read_uint_1(reader) & 0x80) > 0
    return param_type, is_unsigned""",
      """    is_unsigned = read_uint_1(reader) & 0x80 > 0x80
    return param_type, is_unsigned""")],
    """
    async with serve() as s:
        c = await s.connect()
        sid, _ = await c.prepare("SELECT a FROM t WHERE b = ?")
        for t, f, v in ((TINY, "<B", 200), (SHORT, "<H", 60000), (LONG, "<I", 4000000000), (LONGLONG, "<Q", 2**63 + 5)):
            await c.execute(sid, [(t, True, struct.pack(f, v))])
            assert App.last.log[-1][1].endswith(f"= {v}"), App.last.log[-1][1]
    """)
