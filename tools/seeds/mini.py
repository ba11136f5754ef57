"""Tiny raw MySQL client + in-process server for the demonstrations (asyncio, ephemeral loopback port)."""
import asyncio, logging, struct, sys
from hashlib import sha1

logging.disable(logging.CRITICAL)
from mysql_mimic import MysqlServer, Session  # noqa: E402
from mysql_mimic import auth as _auth, results as _results, types as _types  # noqa: E402,F401

CAPS_DEFAULT = (
    0x1 | 0x8 | 0x200 | 0x2000 | 0x8000 | 0x80000 | 0x200000
)  # LONG_PASSWORD CONNECT_WITH_DB PROTOCOL_41 TRANSACTIONS SECURE PLUGIN_AUTH LENENC
DEPRECATE_EOF = 1 << 24
OPTIONAL_METADATA = 1 << 25
QUERY_ATTRS = 1 << 27
CONNECT_ATTRS = 1 << 20
TIMEOUT = 20


class Closed(Exception):
    pass


class Err(Exception):
    def __init__(self, code, msg):
        super().__init__(code, msg)
        self.code, self.msg = code, msg


def lenc(n):
    if n < 251:
        return bytes([n])
    if n < 1 << 16:
        return b"\xfc" + struct.pack("<H", n)
    if n < 1 << 24:
        return b"\xfd" + struct.pack("<I", n)[:3]
    return b"\xfe" + struct.pack("<Q", n)


def lstr(b):
    return lenc(len(b)) + b


def read_lenc(b, i):
    c = b[i]
    if c < 251:
        return c, i + 1
    n = {0xFC: 2, 0xFD: 3, 0xFE: 8}[c]
    return int.from_bytes(b[i + 1 : i + 1 + n], "little"), i + 1 + n


def read_lstr(b, i):
    if b[i] == 0xFB:
        return None, i + 1
    n, i = read_lenc(b, i)
    assert i + n <= len(b), "string exceeds packet"
    return b[i : i + n], i + n


def scramble(password, nonce):
    if not password:
        return b""
    h1 = sha1(password.encode()).digest()
    h2 = sha1(nonce[:20] + sha1(h1).digest()).digest()
    return bytes(a ^ b for a, b in zip(h1, h2))


class Client:
    def __init__(self, reader, writer):
        self.r, self.w, self.seq = reader, writer, 0

    @classmethod
    async def open(cls, port):
        return cls(*await asyncio.wait_for(asyncio.open_connection("127.0.0.1", port), TIMEOUT))

    @classmethod
    async def connect(cls, port, **kw):
        c = await cls.open(port)
        await c.greeting()
        await c.login(**kw)
        return c

    async def read(self):
        data = b""
        while True:
            try:
                h = await asyncio.wait_for(self.r.readexactly(4), TIMEOUT)
                n = int.from_bytes(h[:3], "little")
                assert h[3] == self.seq, f"sequence {h[3]} != {self.seq}"
                self.seq = (self.seq + 1) & 255
                data += await asyncio.wait_for(self.r.readexactly(n), TIMEOUT)
            except (asyncio.IncompleteReadError, ConnectionError) as e:
                raise Closed() from e
            if n < 0xFFFFFF:
                return data

    def packet(self, data):
        out = b""
        while True:
            part, data = data[:0xFFFFFF], data[0xFFFFFF:]
            out += len(part).to_bytes(3, "little") + bytes([self.seq]) + part
            self.seq = (self.seq + 1) & 255
            if len(part) < 0xFFFFFF:
                return out

    def send(self, data):
        self.w.write(self.packet(data))

    def cmd(self, data):
        self.seq = 0
        self.send(data)

    async def greeting(self):
        p = await self.read()
        self.raw_greeting = p
        self.check_err(p)
        assert p[0] == 10
        i = p.index(0, 1)
        self.version = p[1:i]
        i += 1
        self.id = struct.unpack_from("<I", p, i)[0]
        n1 = p[i + 4 : i + 12]
        lower = struct.unpack_from("<H", p, i + 13)[0]
        upper = struct.unpack_from("<H", p, i + 18)[0]
        self.server_caps = lower | upper << 16
        rest = p[i + 13 + 2 + 1 + 2 + 2 + 1 + 10 :]
        j = rest.index(0, 12) if 0 in rest[12:] else 12
        self.nonce = n1 + rest[:12]
        self.plugin = rest[13:].rstrip(b"\0").decode()
        return p

    def response(self, user="u", password="", db=None, caps=CAPS_DEFAULT | DEPRECATE_EOF, charset=45,
                 plugin="mysql_native_password", auth=None, attrs=None, codec="utf8"):
        if db is None:
            caps &= ~0x8
        self.caps = caps
        if auth is None:
            auth = scramble(password, self.nonce)
        d = struct.pack("<IIB23x", caps, 1 << 24, charset) + user.encode(codec) + b"\0"
        d += lstr(auth) if caps & 0x200000 else bytes([len(auth)]) + auth
        if caps & 0x8:
            d += db.encode(codec) + b"\0"
        if caps & 0x80000:
            d += plugin.encode() + b"\0"
        if caps & CONNECT_ATTRS:
            kv = b"".join(lstr(k) + lstr(v) for k, v in (attrs or {}).items())
            d += lstr(kv)
        return d

    async def login(self, on_more=None, **kw):
        """on_more(packet) -> bytes answers auth switch / auth more data"""
        self.send(self.response(**kw))
        while True:
            p = await self.read()
            self.check_err(p)
            if p[0] == 0:
                return
            if p[0] == 0xFE:
                i = p.index(0)
                plugin, nonce = p[1:i].decode(), p[i + 1 :].rstrip(b"\0")
                ans = on_more(plugin, nonce) if on_more else (
                    scramble(kw.get("password", ""), nonce) if plugin == "mysql_native_password"
                    else kw.get("password", "").encode() + b"\0")
            else:
                ans = on_more(None, p[1:]) if on_more else b""
            self.send(ans)

    @staticmethod
    def check_err(p):
        if p[:1] == b"\xff":
            code = struct.unpack_from("<H", p, 1)[0]
            m = p[3:]
            if m[:1] == b"#":
                m = m[6:]
            raise Err(code, m)

    async def query_raw(self, sql, attrs=None):
        """Returns None for OK, or (columns, rows) with text values as bytes"""
        if isinstance(sql, str):
            sql = sql.encode()
        d = b"\x03"
        if self.caps & QUERY_ATTRS:
            attrs = attrs or []
            d += lenc(len(attrs)) + b"\1"
            if attrs:
                d += params(attrs, True)
        self.cmd(d + sql)
        return await self.resultset()

    query = query_raw

    async def columns(self, n):
        cols = []
        for _ in range(n):
            p = await self.read()
            i, f = 0, []
            for _ in range(6):
                s, i = read_lstr(p, i)
                f.append(s)
            assert p[i] == 0x0C and len(p) >= i + 13
            cols.append((f[4], p[i + 7], struct.unpack_from("<H", p, i + 1)[0]))
        if n and not self.caps & DEPRECATE_EOF:
            p = await self.read()
            assert p[0] == 0xFE and len(p) == 5, p
        return cols

    def is_end(self, p):
        return p[:1] == b"\xfe" and len(p) < 0xFFFFFF

    async def resultset(self, binary=False, cursor=False):
        p = await self.read()
        self.check_err(p)
        if p[0] == 0:
            assert len(p) >= 7
            return None
        n, i = read_lenc(p, 0)
        assert i == len(p), "column count packet has trailing bytes"
        cols = await self.columns_(n, cursor)
        if cursor:
            return cols, []
        return cols, await self.rows(n, binary)

    async def columns_(self, n, cursor):
        if not cursor:
            return await self.columns(n)
        caps, self.caps = self.caps, self.caps | DEPRECATE_EOF
        try:
            cols = await self.columns(n)
        finally:
            self.caps = caps
        p = await self.read()
        self.check_err(p)
        assert p[0] == 0xFE
        self.status = self.end_status(p)
        return cols

    def end_status(self, p):
        if self.caps & DEPRECATE_EOF:
            _, i = read_lenc(p, 1)
            _, i = read_lenc(p, i)
            return struct.unpack_from("<H", p, i)[0]
        return struct.unpack_from("<H", p, 3)[0]

    async def rows(self, n, binary=False):
        out = []
        while True:
            p = await self.read()
            self.check_err(p)
            if self.is_end(p):
                self.status = self.end_status(p)
                return out
            if binary:
                out.append(p)
                continue
            i, row = 0, []
            for _ in range(n):
                v, i = read_lstr(p, i)
                row.append(v)
            assert i == len(p)
            out.append(tuple(row))

    async def ok(self):
        p = await self.read()
        self.check_err(p)
        assert p[0] in (0, 0xFE), p
        return p

    async def ping(self):
        self.cmd(b"\x0e")
        await self.ok()

    async def prepare(self, sql):
        self.cmd(b"\x16" + (sql.encode() if isinstance(sql, str) else sql))
        p = await self.read()
        self.check_err(p)
        sid, ncols, npar = struct.unpack_from("<IHH", p, 1)
        await self.columns(npar)
        return sid, npar

    async def execute(self, sid, values=(), attrs=(), cursor=False):
        qa = self.caps & QUERY_ATTRS
        flags = (1 if cursor else 0) | (8 if qa else 0)
        d = b"\x17" + struct.pack("<IBI", sid, flags, 1)
        allp = [("", *v) for v in values] + list(attrs)
        if qa:
            d += lenc(len(allp))
        if allp:
            d += params(allp, bool(qa))
        self.cmd(d)
        return await self.resultset(binary=True, cursor=cursor)

    def long_data(self, sid, i, data):
        self.cmd(b"\x18" + struct.pack("<IH", sid, i) + data)

    async def fetch(self, sid, n):
        self.cmd(b"\x1c" + struct.pack("<II", sid, n))
        return await self.rows(0, binary=True)

    async def change_user(self, user, password="", db="", charset=45, plugin="mysql_native_password", auth=None, codec="utf8"):
        if auth is None:
            auth = scramble(password, self.nonce)
        self.cmd(b"\x11" + user.encode(codec) + b"\0" + bytes([len(auth)]) + auth + db.encode(codec) + b"\0"
                 + struct.pack("<H", charset) + plugin.encode() + b"\0")
        p = await self.read()
        self.check_err(p)
        assert p[0] == 0, p

    async def closed(self):
        """True if the server closes the connection"""
        try:
            while await asyncio.wait_for(self.r.read(65536), 5):
                pass
            return True
        except ConnectionError:
            return True
        except asyncio.TimeoutError:
            return False

    def close(self):
        self.w.close()


def params(ps, named):
    """[(name, type, unsigned, encoded value or None)] -> null bitmap, flag, types and values"""
    bm = bytearray((len(ps) + 7) // 8)
    types = vals = b""
    for i, (name, t, uns, v) in enumerate(ps):
        types += bytes([t, 0x80 if uns else 0]) + (lstr(name.encode()) if named else b"")
        if v is None:
            bm[i // 8] |= 1 << i % 8
        else:
            vals += v
    return bytes(bm) + b"\1" + types + vals


STR, LONG, LONGLONG, DOUBLE, TINY, SHORT, FLOAT, BLOB = 0xFE, 3, 8, 5, 1, 2, 4, 0xFC


def S(s):
    return STR, False, lstr(s.encode() if isinstance(s, str) else s)


class App(Session):
    """Records every statement, answers with `answer`"""
    log = None
    answer = staticmethod(lambda session, expression, sql, attrs: ([(1,)], ["x"]))
    tables: dict = {}
    last = None

    def __init__(self):
        super().__init__()
        self.log = []
        type(self).last = self

    async def query(self, expression, sql, attrs):
        self.log.append((expression, sql, dict(attrs)))
        r = self.answer(self, expression, sql, attrs)
        if asyncio.iscoroutine(r):
            r = await r
        return r

    async def schema(self):
        return self.tables


class Provider(_auth.IdentityProvider):
    def __init__(self, users, plugins=None):
        self.users, self.plugins = users, plugins

    def get_plugins(self):
        return self.plugins if self.plugins is not None else super().get_plugins()

    async def get_user(self, username):
        return self.users.get(username)


class serve:
    def __init__(self, factory=App, **kw):
        self.server = MysqlServer(session_factory=factory, **kw)

    async def __aenter__(self):
        await self.server.start_server(host="127.0.0.1", port=0)
        self.port = self.server.sockets()[0].getsockname()[1]
        return self

    async def __aexit__(self, *exc):
        self.server.close()

    async def connect(self, **kw):
        return await Client.connect(self.port, **kw)


def native(name, password=None, old=None):
    mk = _auth.NativePasswordAuthPlugin.create_auth_string
    return _auth.User(name=name, auth_plugin="mysql_native_password",
                      auth_string=mk(password) if password else None,
                      old_auth_string=mk(old) if old else None)


def run(main, timeout=120):
    async def outer():
        await asyncio.wait_for(main(), timeout)
    asyncio.run(outer())
    print("ok")


def drain_in_thread(client):
    """Read everything the server sends to this client as fast as possible, in another process"""
    import atexit
    import subprocess

    client.w.transport.pause_reading()
    raw = client.w.transport.get_extra_info("socket").dup()
    raw.setblocking(True)
    child = subprocess.Popen(["cat"], stdin=raw.fileno(), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    raw.close()
    atexit.register(child.kill)


async def worst_ping(client, pulled, total, n=30):
    """How many rows are pulled from the source while a ping of another connection is served?"""
    for _ in range(100000):
        if pulled[0]:
            break
        await asyncio.sleep(0)
    worst = pulled[0]
    for _ in range(n):
        before = pulled[0]
        if before >= total:
            break
        await client.ping()
        worst = max(worst, pulled[0] - before)
    return worst
