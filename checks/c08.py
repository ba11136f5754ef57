"""C08: connections do not interfere: each behaves as if it were alone."""
import asyncio
import datetime
import random
import struct

from vlib import proto as P
from vlib.apps import AppError, FixedIdentity, RecControl, RecSession
from vlib.client import World, native_scramble
from vlib.runner import Violation

from mysql_mimic import NativePasswordAuthPlugin, ResultColumn, User, context
from mysql_mimic.auth import AbstractClearPasswordAuthPlugin
from mysql_mimic.types import ColumnType as CT
from mysql_mimic.variables import GlobalVariables, SessionVariables

ID = "C08"
LEVEL = "schedule_exploration"
RULE = ("each connection's program is first run alone (bytes in, bytes out and application calls recorded), then several programs run "
        "together under a generated schedule (partial packets, single event-loop iterations, gate releases, closed windows); every "
        "byte each connection receives and every call its session sees must equal the run alone (own id and nonces masked); "
        "distinct = (pair of operations, preemption point) and (program shapes, schedule prefix)")
ASSUMPTIONS = ["statement ids, error texts and packet splits are part of the response", "the clock is compared with the machine's, with 5 s of tolerance",
               "output of a connection that is killed or that disappears is compared as a prefix"]
MIN = {"pair_runs": 3000, "commands": 15000, "switches": 30000, "gates": 8000, "bytes_compared": 2000000, "stalls": 1000, "kills": 50, "clock_reads": 500}
DEADLINE = {"quick": 480, "thorough": 780}
EXHAUSTIVE = ["all ordered pairs of the operation catalogue x every event-loop iteration / gate of the first operation as the preemption point"]
CASE_CPU = 60

SID = 40000          # ids have 10 digits
PROPS = ["sql_mode", "time_zone", "character_set_client", "character_set_results", "character_set_connection", "collation_connection",
         "autocommit", "max_execution_time", "wait_timeout", "external_user", "init_connect", "transaction_isolation"]
PW = {"pa": "secret-a", "pb": "secret-b", "pw0": "x0", "pw1": "x1", "pw2": "x2", "pw3": "x3"}


class Clear(AbstractClearPasswordAuthPlugin):
    world = None

    async def check(self, username, password):
        await self.world.wait(None)
        return username + "-checked" if password == "clear:" + username else None


class Ident(FixedIdentity):
    def __init__(self):
        users = {u: User(name=u, auth_string=NativePasswordAuthPlugin.create_auth_string(p), auth_plugin="mysql_native_password") for u, p in PW.items()}
        self.clear = Clear()
        for i in range(4):
            users[f"cl{i}"] = User(name=f"cl{i}", auth_plugin=self.clear.name)
        super().__init__(users, [NativePasswordAuthPlugin(), self.clear], allow_any=True)
        self.world = None

    async def get_user(self, username):
        if username.startswith(("ghost",)):
            return None
        await self.world.wait(None)
        return await super().get_user(username)


class CSession(RecSession):
    cid = None

    def _rec(self, name, *args):
        self.calls.append((name,) + args)

    async def init(self, connection):
        self.cid = connection.connection_id
        await super().init(connection)
        await self.world.wait(self.cid)

    def snap(self, attrs=None):
        try:
            ctx = context.connection_id.get()
        except LookupError:
            ctx = None
        c = self.connection
        return [("user", self.username), ("db", self.database), ("ctx", ctx), ("cid", c.connection_id), ("cs", c.client_charset.name + "/" + c.server_charset.name),
                ("caps", int(c.capabilities)), ("attrs", repr(sorted((attrs or {}).items(), key=repr)))] + [(v, str(self.variables.get(v))) for v in PROPS] + [
            ("conn_attrs", repr(sorted(c.client_connect_attrs.items())))]

    async def schema(self):
        await self.world.wait(self.cid)
        u = (self.username or "none").replace("-", "_")
        if u.startswith("any"):
            # the same databases (and partly tables) for everybody, with different contents
            return {"own": {f"tab_{u}": {"id": "INT"}, "common": {"x": "INT", f"c_{u}": "TEXT"}}, "shared": {"common": {f"z_{u}": "INT"}}}
        return {f"db_{u}": {f"tab_{u}": {"id": "INT", f"c_{u}": "TEXT"}, "common": {"x": "INT"}}, "shared": {f"s_{u}": {"y": "TEXT"}}}

    async def use(self, db):
        await self.world.wait(self.cid)
        await super().use(db)

    async def reset(self):
        await self.world.wait(self.cid)
        await super().reset()

    async def query(self, expression, sql, attrs):
        self.calls.append(("query", sql, repr(attrs)))
        w = self.world
        table = next((t.name for t in expression.find_all(_table()) if t.name.startswith("t_")), "t_now")
        mode, _, n = table[2:].partition("_")
        n = int(n or 0)
        first = self.snap(attrs)
        cols = [ResultColumn("k", CT.VARCHAR), ResultColumn("v", CT.VARCHAR)]
        if mode == "gate":
            for _ in range(n):
                await w.wait(self.cid)
        elif mode == "err":
            await w.wait(self.cid)
            raise AppError(f"failed for {self.username}")
        elif mode == "stream":
            return self.stream(first, n), cols
        elif mode == "infer":
            return self.stream(first, n), ["k", "v"]
        elif mode == "big":
            return ((f"{self.username}-{i}", str(self.database) + "z" * 3000) for i in range(n)), cols
        elif mode == "many":
            return [(i, str(self.username)) for i in range(n)], [ResultColumn("k", CT.LONG), ResultColumn("v", CT.VARCHAR)]
        elif mode == "app":
            await w.wait(self.cid)
            self.variables.set("init_connect", f"by-{self.username}")
            await w.wait(self.cid)
        elif mode == "none":
            await w.wait(self.cid)
            return None
        self.calls.append(("snap", repr(self.snap(attrs))))
        return [(k, None if v is None else str(v)) for k, v in first + self.snap(attrs)], cols

    async def stream(self, first, n):
        for k, v in first:
            yield k, str(v)
        for i in range(n):
            if i % 3 == 0:
                await self.world.wait(self.cid)
            else:
                await asyncio.sleep(0)
            yield f"r{i}", f"{self.username}/{self.database}/{self.variables.get('sql_mode')}"


def _table():
    from sqlglot import expressions as exp
    return exp.Table


class W(World):
    """World with labelled gates."""

    def __init__(self, conf):
        self.gates = []
        self.conf = conf
        ident = Ident()
        ident.world = self
        ident.clear.world = self
        shared = GlobalVariables() if conf.get("globals") else None

        def setup(s):
            if shared is not None:
                s.variables = SessionVariables(shared)
        super().__init__(session=CSession, identity=ident, control=RecControl(server_id=SID), setup=setup, tls=bool(conf.get("tls")),
                         factory=self.afactory if conf.get("afactory") else None)

    async def afactory(self):
        await self.wait(None)
        s = self.make_session()
        await self.wait(None)
        return s

    async def wait(self, cid):
        f = self.loop.create_future()
        self.gates.append((cid, f))
        await f

    def pending(self, cid=None, own=False):
        self.gates = [(c, f) for c, f in self.gates if not f.done()]
        return [f for c, f in self.gates if not own or c == cid or c is None]


# ------------------------------------------------------------------ a connection following a script
class Cx:
    """One connection: out() is everything received so far (plaintext, own id masked)."""

    def __init__(self, w):
        self.w = w
        self.c = w.connect()
        self.nonce = None
        self.cid = None
        self.raw = b""
        self.mark = 0
        self.masks = []          # (start, end) of nonces in raw
        self.script = None
        self.i = 0
        self.buf = []
        self.dead = None

    def pump(self):
        buf, pos = self.c._stream()
        new = bytes(buf[pos:])
        if new:
            self.c._advance(len(new))
            self.raw += new
        return self.raw

    def note_greeting(self):
        raw = self.pump()
        if self.cid is None and len(raw) >= 4 and len(raw) >= 4 + int.from_bytes(raw[:3], "little"):
            n = int.from_bytes(raw[:3], "little")
            if raw[4] == 0xFF:
                raise Violation(f"a client was refused: {raw!r}")
            hs = P.Handshake(raw[4:4 + n])
            self.c.hs = hs
            self.nonce = hs.nonce
            self.cid = hs.thread_id
            off = raw.index(hs.nonce[:8])
            off2 = raw.index(hs.nonce[8:20], off + 8)
            self.masks += [(off, off + 8), (off2, off2 + 12)]
            o = 4 + 1 + raw[5:].index(b"\0") + 1
            self.masks.append((o, o + 4))

    def note_switch(self, start):
        """an AuthSwitchRequest at raw[start:]"""
        raw = self.pump()
        n = int.from_bytes(raw[start:start + 3], "little")
        pay = raw[start + 4:start + 4 + n]
        if pay[:1] == b"\xfe":
            z = pay.index(b"\0", 1)
            data = pay[z + 1:]
            self.nonce = data[:20]
            self.masks.append((start + 4 + z + 1, start + 4 + n))

    def norm(self):
        b = bytearray(self.pump())
        for s, e in self.masks:
            b[s:e] = b"\0" * (e - s)
        b = bytes(b)
        if self.cid is not None:
            b = b.replace(str(self.cid).encode(), b"<my--id--!").replace(struct.pack("<I", self.cid), b"<id>")
        return b

    def calls(self):
        for s in self.w.sessions:
            if s.cid is not None and s.cid == self.cid:
                return [repr(c).replace(str(self.cid), "<id>") for c in s.calls]
        return []

    # ---- sending
    def payload(self, step):
        """-> wire bytes of a step"""
        k = step[0]
        if k == "resp":
            _, user, pw, db, caps, charset, plugin, attrs, wrong = step
            caps &= self.c.hs.caps
            self.c.caps = caps
            auth = native_scramble(pw, self.nonce) if pw else b""
            if wrong and auth:
                auth = bytes([auth[0] ^ 1]) + auth[1:]
            if plugin == "mysql_clear_password":
                auth = pw.encode() + b"\0"
            pay = P.handshake_response(caps, charset=charset, user=user.encode(), auth=auth, db=None if db is None else db.encode(),
                                       plugin=plugin.encode(), attrs=attrs)
            return P.frame(pay, step_seq(self, 1))[0]
        if k == "auth":
            pw = step[1]
            seq = step[2]
            if step[3] == "clear":
                return P.frame(pw.encode() + b"\0", seq)[0]
            return P.frame(native_scramble(pw, self.nonce) if pw else b"", seq)[0]
        if k == "cu":
            _, user, pw, db, charset, plugin = step
            auth = native_scramble(pw, self.nonce) if pw else b""
            return P.frame(P.com_change_user(self.c.caps, user.encode(), auth, db.encode(), charset=charset, plugin=plugin.encode()), 0)[0]
        if k == "cmd":
            return P.frame(step[1], 0)[0]
        if k == "raw":
            return step[1]
        raise KeyError(k)


def step_seq(cx, seq):
    return seq + (1 if cx.c.tls is not None else 0)


class Rec:
    """What one program did when it was alone."""

    def __init__(self):
        self.steps = []      # [(step, cumulative length of output afterwards, starts_switch_at|None)]
        self.out = b""
        self.calls = []
        self.closed = False
        self.desc = []


class Solo:
    def __init__(self, conf):
        self.w = W(conf)
        self.cx = Cx(self.w)
        self.rec = Rec()
        self.nstmt = []

    def settle(self):
        for _ in range(10000):
            self.w.quiesce()
            p = self.w.pending()
            if not p:
                break
            for f in p:
                f.set_result(None)
        else:
            raise RuntimeError("harness: endless gates")
        self.cx.pump()

    def greet(self, tls=False):
        self.settle()
        self.cx.note_greeting()
        self.rec.steps.append((("greet", tls), len(self.cx.raw), None))
        if tls:
            do_tls(self.cx, self.settle)

    def do(self, step, desc=""):
        """-> payloads"""
        cx = self.cx
        start = len(cx.pump())
        cx.c.deliver(cx.payload(step))
        self.settle()
        sw = None
        if step[0] in ("resp", "cu") and len(cx.raw) > start + 4 and cx.raw[start + 4] == 0xfe:
            sw = start
            cx.note_switch(start)
        self.rec.steps.append((step, len(cx.raw), sw))
        self.rec.desc.append(desc or step[0])
        pk, used = P.deframe_packets(cx.raw[start:])
        return [p for _, p in pk], (pk[-1][0] if pk else None)

    def finish(self):
        self.settle()
        r = self.rec
        r.out = self.cx.norm()
        r.closed = self.cx.c.closed()
        r.calls = self.cx.calls()
        self.w.close()
        return r


def do_tls(cx, settle):
    c = cx.c
    data, _ = P.frame(P.ssl_request(P.BASE_CAPS | P.SSL, charset=45), 1)
    c.pos = len(c.sock.out)
    c.deliver(data + c.start_tls())
    tls = c._pending_tls
    import ssl
    for _ in range(50):
        settle_raw(cx)
        d = bytes(c.sock.out[c.pos:])
        c.pos = len(c.sock.out)
        if d:
            c.tls_in.write(d)
        try:
            tls.do_handshake()
            done = True
        except ssl.SSLWantReadError:
            done = False
        out = c.tls_out.read()
        if out:
            c.tls_chunk(out)
        if done:
            break
    else:
        raise Violation("TLS handshake stalled")
    c.tls = tls
    c.ppos = 0


def settle_raw(cx):
    # advance everybody that can move; gates of others stay closed
    cx.w.quiesce()


CAPSETS = [P.BASE_CAPS | P.DEPRECATE_EOF | P.LENENC_AUTH, P.BASE_CAPS | P.LENENC_AUTH, P.BASE_CAPS,
           P.BASE_CAPS | P.DEPRECATE_EOF | P.QUERY_ATTRIBUTES | P.LENENC_AUTH, P.BASE_CAPS | P.QUERY_ATTRIBUTES | P.OPTIONAL_META | P.LENENC_AUTH]
CHARSETS = [45, 8, 33, 28, 13, 51]


def login_steps(solo, rng, ident=None, tls=False, ok=True):
    """log in as one of several kinds of users."""
    solo.greet(tls)
    kind = rng.choice(["any", "any", "pw", "pw", "clear", "switch"]) if ident is None else ident
    caps = rng.choice(CAPSETS)
    cs = rng.choice(CHARSETS)
    db = rng.choice([None, "shared", "db_x", f"db{rng.randint(0, 3)}"])
    if db is not None:
        caps |= P.CONNECT_WITH_DB
    attrs = None
    if rng.random() < .4:
        caps |= P.CONNECT_ATTRS
        attrs = {b"who": b"c%d" % rng.randint(0, 99)}
    plugin = "mysql_native_password"
    wrong = not ok
    if kind == "any":
        user, pw, wrong = f"any{rng.randint(0, 5)}", "", False
    elif kind in ("pw", "switch"):
        user = rng.choice(list(PW))
        pw = PW[user]
        if kind == "switch":
            plugin = "caching_sha2_password"
    else:
        user = f"cl{rng.randint(0, 3)}"
        pw = "clear:" + user
    pls, seq = solo.do(("resp", user, "" if kind == "clear" else pw, db, caps, cs, plugin, attrs, wrong and kind == "pw"), "login")
    for _ in range(3):
        if pls and pls[0][:1] == b"\xfe":
            pls, seq = solo.do(("auth", ("!" if wrong else "") + pw, seq + 1, "clear" if kind == "clear" else "native"), "auth")
    if not (pls and pls[-1][:1] == b"\0") and not wrong:
        raise Violation(f"alone: login as {user} failed: {pls!r}")
    return wrong


# ------------------------------------------------------------------ operations
def q(cx, sql, attrs=(), codec="utf8"):
    if isinstance(sql, str):
        sql = sql.encode(codec, "replace")
    return ("cmd", P.com_query(sql, cx.c.caps, attrs))


def catalogue(role):
    """name -> function(cx, sids) -> list of steps; role makes the values of the two connections differ."""
    r = role
    o = {}

    def one(name, f):
        o[name] = f
    sqls = {
        "set_mode": f"SET sql_mode = 'M{r}'", "set_tz": f"SET time_zone = '+0{r + 1}:00'", "set_multi": f"SET @@session.wait_timeout = {100 + r}, autocommit = {r % 2}",
        "names": "SET NAMES " + ["latin1", "gbk"][r % 2], "cs_client": "SET character_set_client = " + ["cp1251", "latin1"][r % 2],
        "cs_results": "SET character_set_results = " + ["latin1", "cp1251"][r % 2], "use": f"USE db_{r}", "hint": f"SELECT /*+ SET_VAR(sql_mode='H{r}') SET_VAR(max_execution_time={r + 5}) */ * FROM t_gate_2",
        "gate": "SELECT 1 FROM t_gate_3", "err": "SELECT 1 FROM t_err", "stream": "SELECT * FROM t_stream_4", "infer": "SELECT * FROM t_infer_4", "many": "SELECT * FROM t_many_40",
        "app": "SELECT * FROM t_app", "none": "SELECT * FROM t_none", "tables": "SHOW TABLES", "dbs": "SHOW DATABASES", "cols": "SHOW COLUMNS FROM common FROM shared", "cols2": "SHOW FULL COLUMNS FROM own.common", "tables2": "SHOW TABLES FROM own", "icol": "SELECT table_name, column_name FROM information_schema.columns WHERE table_schema = 'own' ORDER BY column_name",
        "isch": "SELECT table_schema, table_name FROM information_schema.tables ORDER BY table_schema, table_name", "vars": "SHOW VARIABLES",
        "funcs": "SELECT DATABASE(), USER(), CURRENT_USER(), CONNECTION_ID(), @@sql_mode, @@time_zone", "syntax": "SELECT FROM WHERE", "unknown": f"SELECT @@nosuch{r}",
        "setdef": "SET sql_mode = DEFAULT", "two": f"SET sql_mode = 'T{r}'; SELECT * FROM t_gate_1", "iso": "SET SESSION TRANSACTION ISOLATION LEVEL SERIALIZABLE",
        "desc": "DESCRIBE common", "static": f"SELECT 'é漢{r}' AS x, {r} + 1"}
    for n, s in sqls.items():
        one(n, lambda cx, sids, s=s: [q(cx, s)])
    one("attrs", lambda cx, sids: [q(cx, "SELECT * FROM t_gate_1", [(f"k{r}", ("i32", r)), ("s", ("varchar", f"v{r}"))])])
    one("init_db", lambda cx, sids: [("cmd", bytes([P.COM_INIT_DB]) + f"idb_{r}".encode())])
    one("field_list", lambda cx, sids: [("cmd", P.com_field_list(b"common"))])
    one("prepare", lambda cx, sids: [("cmd", P.com_stmt_prepare(f"SELECT ?, 'p{r}' FROM t_gate_1"))])
    one("exec", lambda cx, sids: [("cmd", P.com_stmt_execute(sids[0], [("varchar", f"e{r}")], cx.c.caps))])
    one("exec_long", lambda cx, sids: [("cmd", P.com_stmt_execute(sids[1], [("varchar", ""), ("i32", r)], cx.c.caps, long_idx=(0,)))])
    one("exec_cursor", lambda cx, sids: [("cmd", P.com_stmt_execute(sids[0], [("i32", r)], cx.c.caps, cursor=True)), ("cmd", P.com_stmt_fetch(sids[0], 3))])
    one("fetch", lambda cx, sids: [("cmd", P.com_stmt_fetch(sids[2], 5))])
    one("fetch_all", lambda cx, sids: [("cmd", P.com_stmt_fetch(sids[2], 1000))])
    one("stmt_reset", lambda cx, sids: [("cmd", P.com_stmt_reset(sids[2]))])
    one("stmt_close", lambda cx, sids: [("cmd", P.com_stmt_close(sids[0]))])
    one("long", lambda cx, sids: [("cmd", P.com_stmt_long(sids[1], 0, f"more{r}".encode()))])
    one("ping", lambda cx, sids: [("cmd", bytes([P.COM_PING]))])
    one("bad", lambda cx, sids: [("cmd", b"\x55xyz")])
    one("badstmt", lambda cx, sids: [("cmd", P.com_stmt_execute(77, [], cx.c.caps))])
    one("resetconn", lambda cx, sids: [("cmd", b"\x1f")])
    one("change", lambda cx, sids: [("cu", f"any{r}-ch", "", f"cdb{r}", [33, 8][r % 2], "mysql_native_password")])
    one("killnone", lambda cx, sids: [q(cx, "KILL 4294900000")])
    return o


OPS = sorted(catalogue(0))


def prologue(solo, role):
    """log in and build up state of every kind."""
    cx = solo.cx
    solo.greet()
    solo.do(("resp", f"any{role}", "", f"start{role}", (CAPSETS[3] if role else CAPSETS[4]) | P.CONNECT_WITH_DB | P.CONNECT_ATTRS, [45, 33][role % 2],
             "mysql_native_password", {b"role": b"%d" % role}, False), "login")
    solo.do(q(cx, f"SET sql_mode = 'S{role}'"))
    sids = []
    for sql in (f"SELECT ?, 'one{role}' FROM t_stream_2", f"SELECT ?, ?, 'two{role}' FROM t_gate_1", f"SELECT 'three{role}' FROM t_stream_9"):
        pls, _ = solo.do(("cmd", P.com_stmt_prepare(sql)))
        sids.append(struct.unpack("<I", pls[0][1:5])[0])
    solo.do(("cmd", P.com_stmt_long(sids[1], 0, f"long{role}".encode())))
    solo.do(("cmd", P.com_stmt_execute(sids[2], [], cx.c.caps, cursor=True)))
    solo.do(("cmd", P.com_stmt_fetch(sids[2], 2)))
    return sids


def epilogue(solo, sids):
    """read everything back."""
    cx = solo.cx
    solo.do(("cmd", bytes([P.COM_PING])))
    solo.do(q(cx, "SHOW VARIABLES"))
    solo.do(q(cx, "SELECT DATABASE(), USER(), CURRENT_USER(), CONNECTION_ID()"))
    solo.do(q(cx, "SELECT * FROM t_now"))
    solo.do(("cmd", P.com_stmt_fetch(sids[2], 4)))
    solo.do(("cmd", P.com_stmt_execute(sids[1], [("varchar", ""), ("i32", 9)], cx.c.caps, long_idx=(0,))))
    solo.do(("cmd", P.com_stmt_execute(sids[0], [("varchar", "z")], cx.c.caps)))
    solo.do(q(cx, "SELECT 'é'".encode("latin1")))
    solo.do(("cmd", P.com_stmt_prepare("SELECT 1")))


_solo = {}


def solo_pair(role, op):
    key = (role, op)
    if key not in _solo:
        s = Solo({})
        sids = prologue(s, role)
        a = len(s.rec.steps)
        for step in catalogue(role)[op](s.cx, sids):
            s.do(step, op)
        b = len(s.rec.steps)
        epilogue(s, sids)
        rec = s.finish()
        _solo[key] = rec, a, b
    return _solo[key]


# ------------------------------------------------------------------ running scripts together
class Together:
    def __init__(self, conf, st):
        self.w = W(conf)
        self.st = st
        self.cxs = []

    def open(self, rec):
        cx = Cx(self.w)
        cx.script = rec
        cx.i = 0
        cx.sent = -1
        self.cxs.append(cx)
        return cx

    def have(self, cx):
        """number of leading steps whose output has completely arrived"""
        cx.pump()
        if cx.cid is None:
            cx.note_greeting()
        return len(cx.raw)

    def ready(self, cx):
        """may the next step be sent (its predecessor's answer is complete)?"""
        if cx.i >= len(cx.script.steps) or cx.buf:
            return False
        n = self.have(cx)
        if cx.i == 0:
            # TLS starts after the greeting
            return not cx.script.steps[0][0][1] or n >= cx.script.steps[0][1]
        return n >= cx.script.steps[cx.i - 1][1]

    def load(self, cx):
        """put the next step's bytes into cx.buf"""
        step, end, sw = cx.script.steps[cx.i]
        if cx.i:
            psw = cx.script.steps[cx.i - 1][2]
            if psw is not None:
                cx.note_switch(psw)
        cx.i += 1
        if step[0] == "greet":
            return
        if step[0] == "killv":
            return
        self.st.count("commands")
        cx.buf = bytearray(cx.payload(step))

    def deliver(self, cx, n=None):
        n = len(cx.buf) if n is None else n
        data = bytes(cx.buf[:n])
        del cx.buf[:n]
        if data:
            cx.c.deliver(data)

    def settle_own(self, cx):
        """run until cx has nothing more to do (only its own gates open)"""
        for _ in range(5000):
            self.w.quiesce()
            p = self.w.pending(cx.cid, own=True)
            if not p:
                return
            for f in p:
                f.set_result(None)
                self.st.count("gates")
        raise RuntimeError("endless")

    def settle_all(self):
        for _ in range(20000):
            for cx in self.cxs:
                cx.c.sock.window = None
                cx.c.sock.max_send = None
            self.w.quiesce()
            p = self.w.pending()
            if not p:
                return
            for f in p:
                f.set_result(None)
                self.st.count("gates")
        raise RuntimeError("endless")

    def run_steps(self, cx, upto):
        """steps cx.i..upto-1, each to completion"""
        while cx.i < upto:
            self.settle_own(cx)
            self.have(cx)
            self.load(cx)
            self.deliver(cx)
            self.settle_own(cx)
            self.have(cx)

    def compare(self, cx, who, prefix=False):
        rec = cx.script
        got = cx.norm()
        want = rec.out
        if prefix:
            # what came before it disappeared
            got = got[:cx.before]
        self.st.count("bytes_compared", len(got))
        if prefix:
            want = want[:len(got)]
        if got != want:
            n = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
            k = next((i for i, (s, end, _) in enumerate(rec.steps) if end > n), len(rec.steps) - 1)
            step = rec.steps[k][0]
            raise Violation(f"{who}: response to step {k} ({short(step)}) differs from the run alone at byte {n}: "
                            f"alone ...{want[max(0, n - 24):n + 60]!r}, together ...{got[max(0, n - 24):n + 60]!r}")
        if prefix:
            return
        calls = cx.calls()
        if calls != rec.calls:
            n = next((i for i, (a, b) in enumerate(zip(calls, rec.calls)) if a != b), min(len(calls), len(rec.calls)))
            raise Violation(f"{who}: the application sees other calls than alone: call {n}: alone {rec.calls[n:n + 1]!r}, together {calls[n:n + 1]!r}")
        if cx.c.closed() != rec.closed:
            raise Violation(f"{who}: connection {'closed' if cx.c.closed() else 'open'} at the end, alone it was {'closed' if rec.closed else 'open'}")


def short(step):
    r = repr(step)
    return r if len(r) < 160 else r[:150] + "..."


def gen(tier, seed):
    T = tier == "thorough"
    for a in OPS:
        for b in OPS:
            yield {"k": "pair", "a": a, "b": b, "max": 40 if T else 6, "seed": f"{seed}/{a}/{b}"}
    for i in range(900 if not T else 40000):
        yield {"k": "mix", "seed": f"{seed}/m{i}"}
    for i in range(150 if not T else 3000):
        yield {"k": "clock", "seed": f"{seed}/c{i}"}
    for i in range(400 if not T else 8000):
        yield {"k": "auth", "seed": f"{seed}/a{i}"}


def run(case, st):
    return globals()["run_" + case["k"]](case, st, random.Random(case["seed"]))


def run_pair(case, st, rng):
    """While the first connection is in the middle of operation a (at each iteration), the second does all of b."""
    a, b = case["a"], case["b"]
    ra, a0, a1 = solo_pair(0, a)
    rb, b0, b1 = solo_pair(1, b)
    # number of preemption points of a
    t = Together({}, st)
    A = t.open(ra)
    t.run_steps(A, a0)
    K = micro(t, A, a1, 10**6)
    t.w.close()
    ks = list(range(0, K + 1))
    if len(ks) > case["max"]:
        # the first ones, the last one, and a sample in between
        ks = sorted(set(ks[:case["max"] // 2] + ks[-1:] + rng.sample(ks, case["max"] // 2)))
    for k in ks:
        t = Together({}, st)
        A, B = t.open(ra), t.open(rb)
        t.run_steps(A, a0)
        t.run_steps(B, b0)
        micro(t, A, a1, k)
        st.count("switches")
        t.run_steps(B, b1)
        micro(t, A, a1, 10**6)
        t.run_steps(A, len(ra.steps))
        t.run_steps(B, len(rb.steps))
        t.settle_all()
        t.compare(A, f"{a} interrupted at {k} by {b}")
        t.compare(B, f"{b} in the middle ({k}) of {a}")
        st.count("pair_runs")
        st.seen("pair", a, b, k)
        t.w.close()


def micro(t, cx, upto, k):
    """k single moves (an event-loop iteration, or one gate of cx) of the steps up to `upto`; returns moves made"""
    n = 0
    while n < k:
        if not t.w.loop.idle():
            t.w.loop.step()
            n += 1
            continue
        p = t.w.pending(cx.cid, own=True)
        if p:
            p[0].set_result(None)
            t.st.count("gates")
            n += 1
            continue
        t.have(cx)
        if cx.i < upto:
            t.load(cx)
            t.deliver(cx)
            continue
        break
    return n


# ------------------------------------------------------------------ random programs
def program(conf, rng, tag, length):
    """run a random program alone -> Rec"""
    s = Solo(conf)
    cx = s.cx
    wrong = rng.random() < .05
    if login_steps(s, rng, tls=bool(conf.get("tls")) and rng.random() < .5, ok=not wrong):
        return s.finish()
    stmts = []
    cur = {}
    cat = catalogue(tag)
    simple = [n for n in cat if not n.startswith(("exec", "fetch", "stmt", "long"))]
    for _ in range(length):
        r = rng.random()
        if cx.c.closed():
            break
        if r < .5:
            n = rng.choice(simple)
            for step in cat[n](cx, None):
                s.do(step, n)
        elif r < .57:
            v = rng.choice(["sql_mode", "time_zone", "wait_timeout", "max_execution_time", "init_connect", "autocommit"])
            val = {"sql_mode": f"'{tag}-{rng.randint(0, 9)}'", "time_zone": f"'-0{rng.randint(0, 9)}:30'", "init_connect": f"'i{tag}'", "autocommit": str(rng.randint(0, 1))}.get(v, str(rng.randint(1, 999)))
            s.do(q(cx, f"SET {v} = {val}"))
        elif r < .62:
            s.do(q(cx, f"SELECT * FROM t_big_{rng.choice([5, 30, 60])}"), "big")
        elif r < .66:
            s.do(q(cx, f"SELECT * FROM t_many_{rng.choice([100, 260, 600])}"), "many")
        elif r < .70:
            user = rng.choice(list(PW))
            s.do(("cu", user, PW[user], f"cu{tag}", rng.choice(CHARSETS), "mysql_native_password"), "change_user")
        elif r < .80 or not stmts:
            k = rng.randint(0, 3)
            sql = "SELECT " + ", ".join(["?"] * k + [f"'{tag}'"]) + " FROM " + rng.choice(["t_gate_1", "t_stream_5", "t_infer_4", "t_now", "t_many_30", "t_err"])
            pls, _ = s.do(("cmd", P.com_stmt_prepare(sql)), "prepare")
            if pls and pls[0][:1] == b"\0":
                stmts.append((struct.unpack("<I", pls[0][1:5])[0], k))
        else:
            sid, k = rng.choice(stmts)
            w = rng.choice(["exec", "exec", "cursor", "fetch", "fetch", "fetch", "long", "reset", "close"])
            if w in ("exec", "cursor"):
                # the buffers belong to parameters announced with long data only
                longs = tuple(sorted(cur.pop(sid, {})))
                params = [("varchar", f"x{tag}") if i in longs else rng.choice([("i32", tag), ("varchar", f"s{tag}"), ("null", None)]) for i in range(k)]
                s.do(("cmd", P.com_stmt_execute(sid, params, cx.c.caps, cursor=w == "cursor", long_idx=longs)), w)
            elif w == "fetch":
                s.do(("cmd", P.com_stmt_fetch(sid, rng.choice([1, 2, 5, 20, 1000]))), w)
            elif w == "long" and k:
                i = rng.randrange(k)
                s.do(("cmd", P.com_stmt_long(sid, i, f"L{tag}.{rng.randint(0, 99)}".encode())), w)
                cur.setdefault(sid, {})[i] = 1
            elif w == "reset":
                s.do(("cmd", P.com_stmt_reset(sid)), w)
                cur.pop(sid, None)
            elif w == "close" and rng.random() < .4:
                s.do(("cmd", P.com_stmt_close(sid)), w)
                stmts.remove((sid, k))
                cur.pop(sid, None)
    if not cx.c.closed():
        s.do(q(cx, "SELECT * FROM t_now"), "readback")
        s.do(q(cx, "SHOW VARIABLES"), "readback")
        if rng.random() < .5:
            s.do(("cmd", b"\x01"), "quit")
    return s.finish()


def noise(t, rng, state):
    """one action of connections whose output nobody compares."""
    w = t.w
    live = state["noise"]
    r = rng.random()
    if r < .25 or not live:
        if len(live) < 3:
            live.append(Cx(w))
        return
    cx = rng.choice(live)
    cx.note_greeting()
    if cx.cid is None:
        return
    if r < .5:
        if not getattr(cx, "in_", False):
            cx.c.deliver(cx.payload(("resp", f"any{rng.randint(0, 9)}", "", "noise", CAPSETS[0] | P.CONNECT_WITH_DB, 45, "mysql_native_password", None, False)))
            cx.in_ = True
        else:
            n = rng.choice(list(catalogue(9)))
            cx.c.deliver(P.frame(P.com_query(rng.choice(["SELECT * FROM t_gate_3", "SELECT * FROM t_big_60", "SET sql_mode='noise'", "USE noise", "SELECT * FROM t_stream_9",
                                                         "SET NAMES latin1", "SELECT /*+ SET_VAR(sql_mode='noise') */ 1 FROM t_gate_5"]), cx.c.caps), 0)[0])
    elif r < .65:
        cx.c.deliver(bytes(rng.randrange(256) for _ in range(rng.randint(1, 40))))
    elif r < .75:
        cx.c.eof()
        live.remove(cx)
    elif r < .9:
        cx.c.reset()
        live.remove(cx)
    else:
        cx.c.sock.window = rng.choice([0, 10, None])


def run_mix(case, st, rng):
    conf = {"globals": rng.random() < .3, "afactory": rng.random() < .25, "tls": rng.random() < .12}
    nprog = rng.choice([2, 2, 3, 3, 4, 6])
    length = rng.choice([4, 8, 14])
    recs = [program(conf, random.Random(f"{case['seed']}/p{i}"), i, length) for i in range(nprog)]
    for r in recs[:1]:
        st.sample(f"{nprog} programs, first: {r.desc}")
    together(conf, recs, st, rng)
    st.seen("mix", tuple(tuple(r.desc) for r in recs), case["seed"])


def together(conf, recs, st, rng, noisy=None):
    t = Together(conf, st)
    w = t.w
    loop = w.loop
    waiting = list(recs)
    rng.shuffle(waiting)
    noisy = rng.random() < .4 if noisy is None else noisy
    state = {"noise": []}
    pipelined = {}
    style = rng.choice(["fine", "fine", "mixed", "coarse"])
    vanish = {}
    for i in range(len(recs)):
        if rng.random() < .08:
            vanish[i] = rng.randint(1, 12)
    moves = 0
    tlsbusy = False
    cap = 200000
    while True:
        moves += 1
        if moves > cap:
            raise RuntimeError("harness: schedule does not end")
        active = [cx for cx in t.cxs if not cx.dead]
        acts = []
        if waiting:
            acts += [("open", None)] * (2 if active else 10)
        for cx in active:
            if cx.buf:
                acts += [("send", cx)] * 3
            elif cx.i < len(cx.script.steps) and (t.ready(cx) or cx.pipe > cx.i):
                acts += [("load", cx)] * 2
        pend = w.pending()
        if pend:
            acts += [("gate", None)] * 2
        if not loop.idle():
            acts += [("step", None)] * (8 if style == "fine" else 4)
        stalled = [cx for cx in active if cx.c.sock.window is not None]
        if stalled:
            acts += [("unstall", rng.choice(stalled))]
        if not acts:
            break
        if active and rng.random() < .03:
            acts = [("stall", rng.choice(active))]
        elif noisy and rng.random() < .05:
            acts = [("noise", None)]
        what, cx = rng.choice(acts)
        if what == "open":
            rec = waiting.pop()
            cx = t.open(rec)
            cx.pipe = 0
            cx.n = recs.index(rec)
            cx.vanish = vanish.get(cx.n)
        elif what == "load":
            if cx.i == 0 and cx.script.steps[0][0][1]:
                # TLS handshake (the other connections go on meanwhile as far as they can)
                cx.i = 1
                cx.c.sock.window = None
                w.quiesce()
                do_tls(cx, w.quiesce)
                continue
            if cx.vanish is not None and cx.i >= cx.vanish:
                cx.before = len(cx.pump())
                if cx.i and cx.script.steps[cx.i - 1][2] is not None:
                    cx.note_switch(cx.script.steps[cx.i - 1][2])
                cx.c.eof() if rng.random() < .5 else cx.c.reset()
                cx.dead = "vanished"
                st.count("vanished")
                continue
            t.load(cx)
            # pipelining: commands whose bytes do not depend on answers may follow at once
            if rng.random() < .2 and cx.i >= cx.pipe:
                j = cx.i
                while j < len(cx.script.steps) and cx.script.steps[j][0][0] == "cmd" and cx.script.steps[j - 1][2] is None and \
                        all(s[0][0] == "cmd" for s in cx.script.steps[j - 1:j]) and j - cx.i < 4:
                    j += 1
                cx.pipe = j
        elif what == "send":
            n = len(cx.buf)
            t.deliver(cx, n if rng.random() < .5 else rng.randint(1, n))
            st.count("switches")
        elif what == "gate":
            rng.choice(pend).set_result(None)
            st.count("gates")
        elif what == "step":
            if style == "coarse" and rng.random() < .6:
                w.quiesce()
            else:
                for _ in range(rng.choice([1, 1, 1, 2, 3])):
                    if not loop.idle():
                        loop.step()
        elif what == "stall":
            cx.c.sock.window = rng.choice([0, 0, 1, 100, 5000])
            st.count("stalls")
        elif what == "unstall":
            cx.c.sock.window = rng.choice([None, None, 300, 20000])
        elif what == "noise":
            noise(t, rng, state)
            victims = [x for x in state["noise"] if x.cid]
            if victims and rng.random() < .3:
                # a KILL aimed at a noise connection, from another one or from outside
                v = rng.choice(victims)
                kind = rng.choice(["", "QUERY "])
                others = [x for x in victims if x is not v and getattr(x, "in_", False)]
                if others:
                    rng.choice(others).c.deliver(P.frame(P.com_query(f"KILL {kind}{v.cid}", CAPSETS[0]), 0)[0])
                else:
                    from mysql_mimic.constants import KillKind
                    loop.run(w.control.kill(v.cid, KillKind.QUERY if kind else KillKind.CONNECTION))
                st.count("kills")
    for x in state["noise"]:
        x.c.sock.window = None
    t.settle_all()
    for cx in t.cxs:
        if cx.i < len(cx.script.steps) and not cx.dead:
            k = cx.i
            t.compare(cx, f"program {cx.n} of {len(recs)}")
            raise Violation(f"program {cx.n}: step {k} was never answered completely")
        t.compare(cx, f"program {cx.n} of {len(recs)}", prefix=bool(cx.dead))
        st.count("programs")
    w.close()


def run_clock(case, st, rng):
    """Every connection's clock runs in its own time zone, whatever zones the others use and when they are asked."""
    conf = {"globals": rng.random() < .3}
    w = W(conf)
    cs = []

    def settle():
        for _ in range(1000):
            w.quiesce()
            p = w.pending()
            if not p:
                return
            for f in p:
                f.set_result(None)
    for i in range(rng.randint(2, 4)):
        cx = Cx(w)
        settle()
        cx.note_greeting()
        cx.c.pos = len(cx.c.sock.out)
        w.gates = []
        c = cx.c
        data, seq = P.frame(P.handshake_response(CAPSETS[0], user=b"any%d" % i, auth=b"", plugin=b"mysql_native_password"), 1)
        c.deliver(data)
        settle()
        c.caps = CAPSETS[0]
        if not c.take_payloads(seq):
            raise Violation("login not answered")
        cs.append([c, datetime.timedelta(0), "UTC"])
    for _ in range(rng.randint(8, 20)):
        x = rng.choice(cs)
        c = x[0]
        r = rng.random()
        if r < .35:
            name = rng.choice(["UTC"] + [f"{s}{h:02}:{m:02}" for s in "+-" for h in (0, 1, 3, 7, 11, 12) for m in (0, 30)])
            sgn = -1 if name[0] == "-" else 1
            off = datetime.timedelta(0) if name == "UTC" else sgn * datetime.timedelta(hours=int(name[1:3]), minutes=int(name[4:]))
            seq = c.send(P.com_query(f"SET time_zone = '{name}'", c.caps))
            settle()
            if P.parse_simple(c.take_payloads(seq), c.caps).kind != "ok":
                raise Violation(f"SET time_zone = {name!r} failed")
            x[1:] = [off, name]
        elif r < .45:
            # something else in progress while the clock is asked
            seq = c.send(P.com_query(f"SELECT /*+ SET_VAR(time_zone='+05:45') */ 1 FROM t_gate_3", c.caps))
            for _ in range(rng.randint(1, 4)):
                w.loop.step()
            y = rng.choice(cs)
            if y[0] is not c:
                ask(w, y, st, settle, keep=c)
            settle()
            c.take_payloads(seq)
        else:
            ask(w, x, st, settle)
    st.seen("clock", case["seed"])
    w.close()


def ask(w, x, st, settle, keep=None):
    c, off, name = x
    seq = c.send(P.com_query("SELECT NOW(), CURTIME(), CURDATE(), CURRENT_TIMESTAMP, @@time_zone", c.caps))
    if keep is None:
        settle()
    else:
        # only this connection proceeds (its own statement needs no gate)
        w.quiesce()
    utc = datetime.datetime.now(datetime.timezone.utc).replace(tzinfo=None)
    r = P.parse_query(c.take_payloads(seq), c.caps)
    if r.kind != "rs" or len(r.rows) != 1:
        raise Violation(f"the clock answered {r!r}")
    row = [v.decode() for v in r.rows[0]]
    want = utc + off
    for v in (row[0], row[3], row[2] + " " + row[1]):
        got = datetime.datetime.strptime(v[:19], "%Y-%m-%d %H:%M:%S")
        if abs(got - want) > datetime.timedelta(seconds=5):
            raise Violation(f"connection with time zone {name}: {row}, expected about {want}")
    if row[4] != name:
        raise Violation(f"@@time_zone is {row[4]!r}, the connection set {name!r}")
    st.count("clock_reads")


def run_auth(case, st, rng):
    """Overlapping authentications (greeting, response, switch, more data, change user) of many users, right and wrong."""
    conf = {"afactory": rng.random() < .3, "globals": rng.random() < .3}
    recs = []
    for i in range(rng.randint(3, 7)):
        r = random.Random(f"{case['seed']}/p{i}")
        s = Solo(conf)
        wrong = login_steps(s, r, ident=r.choice(["pw", "clear", "switch", "any"]), ok=r.random() < .7)
        if not wrong and not s.cx.c.closed():
            for _ in range(r.randint(0, 2)):
                user = r.choice(list(PW) + ["cl0", "cl1", "ghost1"])
                pw = PW.get(user, "clear:" + user)
                if r.random() < .3:
                    pw += "x"
                plugin = r.choice(["mysql_native_password", "caching_sha2_password"])
                pls, seq = s.do(("cu", user, pw, f"d{i}", 45, plugin), "cu")
                if pls and pls[0][:1] == b"\xfe":
                    s.do(("auth", pw, seq + 1, "clear" if user.startswith("cl") else "native"), "auth")
                if s.cx.c.closed():
                    break
                s.do(q(s.cx, "SELECT USER(), CURRENT_USER(), DATABASE(), CONNECTION_ID()"), "who")
            if not s.cx.c.closed():
                s.do(q(s.cx, "SELECT * FROM t_gate_1"), "who")
        recs.append(s.finish())
    st.count("auth_programs", len(recs))
    together(conf, recs, st, rng)
    st.seen("auth", tuple(tuple(r.desc) for r in recs), case["seed"])
