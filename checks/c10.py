"""C10: every initialised session is closed exactly once; every connection is released."""
import asyncio
import collections
import random

from vlib import proto as P
from vlib.apps import AppError, FixedIdentity, Gate, RecBase, RecControl, RecSession, arows, checkpoint
from vlib.client import World, native_scramble
from vlib.proto import ProtoError
from vlib.runner import Violation

from mysql_mimic import NativePasswordAuthPlugin, ResultColumn, User
from mysql_mimic.auth import AuthPlugin
from mysql_mimic.constants import KillKind
from mysql_mimic.control import TooManyConnections
from mysql_mimic.errors import MysqlError
from mysql_mimic.types import ColumnType as CT

ID = "C10"
LEVEL = "fault_enumeration"
RULE = ("one execution = (conversation, fault); the fault is a disconnect after the n-th client byte (EOF, RST, full close), a "
        "failing n-th socket write, an exception in the n-th call of an application callback, a kill at the n-th event-loop "
        "step, a protocol error, or a combination; distinct = (conversation, fault)")
ASSUMPTIONS = ["a session whose init() raised is not initialised; one whose init() was cancelled half-way may count either way",
               "an application call that never completes keeps its connection alive (the harness always completes it)",
               "TLS shutdown may take as long as asyncio's own timeout (virtual time)"]
EXHAUSTIVE = ["every byte position of every plain conversation x {EOF, RST}", "every socket write of every conversation",
              "every occurrence of every callback x every exception type (single faults)"]
MIN = {"closed_once": 3000, "never_init": 500, "released": 5000}
DEADLINE = {"quick": 480, "thorough": 800}
CASE_CPU = 20

COLS = [ResultColumn("a", CT.VARCHAR), ResultColumn("n", CT.LONG)]
CAPS = [P.BASE_CAPS | P.DEPRECATE_EOF | P.LENENC_AUTH, P.BASE_CAPS | P.LENENC_AUTH,
        P.BASE_CAPS | P.DEPRECATE_EOF | P.QUERY_ATTRIBUTES | P.OPTIONAL_META | P.LENENC_AUTH]


class Stop(Exception):
    pass


class Weird(Exception):
    def __str__(self):
        raise ValueError("no message")


EXCS = {
    "app": lambda: AppError("fault"),
    "mysql": lambda: MysqlError("fault"),
    "key": lambda: KeyError("x"),
    "cancelled": lambda: asyncio.CancelledError(),
    "reset": lambda: ConnectionResetError(104, "application's own socket"),
    "timeout": lambda: asyncio.TimeoutError(),
    "incomplete": lambda: asyncio.IncompleteReadError(b"x", 5),
    "eof": lambda: EOFError(),
    "assert": lambda: AssertionError(),
    "weird": lambda: Weird(),
    "unicode": lambda: AppError("\udcff \u4e2d" * 10),
    "stopasync": lambda: StopAsyncIteration(),
    "recursion": lambda: RecursionError("deep"),
    "memory": lambda: MemoryError("little"),
}


class Mix:
    """lifecycle instrumentation shared by both session flavours"""

    gates = None

    def _rec(self, name, *args):
        super()._rec(name, *args)

    async def _gate(self, name):
        g = self.world.gates.get((name, self.count(name))) or self.world.gates.get((name, None))
        if g is not None:
            await g.wait()

    async def init(self, connection):
        try:
            await super().init(connection)
            try:
                await self._gate("init")
            except asyncio.CancelledError:
                if not self.world.swallow:
                    raise
                # an application that doesn't let itself be interrupted
                for _ in range(self.world.swallow - 1):
                    await asyncio.sleep(0)
        except BaseException as e:
            self.calls.append(("init_failed", type(e).__name__))
            raise
        await checkpoint(1)
        self.calls.append(("init_done",))

    async def close(self):
        self.calls.append(("close_enter",))
        await super().close()
        await self._gate("close")
        await checkpoint(1)
        self.calls.append(("close_done",))

    async def reset(self):
        await super().reset()
        await self._gate("reset")

    async def use(self, db):
        await super().use(db)
        await self._gate("use")

    async def rows(self, sql):
        n = 6
        fail = self.world.rowfail
        try:
            for i in range(n):
                self._n_rows = getattr(self, "_n_rows", 0) + 1
                g = self.world.gates.get(("row", self._n_rows))
                if g is not None:
                    await g.wait()
                elif i % 3 == 1:
                    await asyncio.sleep(0)
                if fail and fail[0] == self._n_rows:
                    raise EXCS[fail[1]]()
                yield ("v" * (i * self.world.fat), i)
        finally:
            self.calls.append(("rows_closed",))

    def answer(self, sql):
        if "none" in sql:
            return None
        return self.rows(sql), (COLS if "inferred" not in sql else ["a", "n"])


class FullS(Mix, RecSession):
    async def query(self, expression, sql, attrs):
        self._rec("query", sql)
        await self._gate("query")
        return self.answer(sql)

    async def schema(self):
        self._rec("schema")
        await self._gate("schema")
        return {"db1": {"tab": {"c1": "TEXT", "c2": "INT"}}}


class BaseS(Mix, RecBase):
    async def handle_query(self, sql, attrs):
        self._rec("query", sql)
        await self._gate("query")
        return self.answer(sql)


class FaultyIdentity(FixedIdentity):
    fail = None
    nth = 0
    gate = None

    async def get_user(self, username):
        self.nth += 1
        if self.gate:
            await self.gate.wait()
        if self.fail and self.fail[0] == self.nth:
            raise EXCS[self.fail[1]]()
        return await super().get_user(username)


class FaultyPlugin(AuthPlugin):
    """multi-round plugin; fails in a given round"""
    name = "rounds"
    client_plugin_name = None

    def __init__(self, fail=None, gate=None):
        self.fail = fail
        self.gate = gate

    async def auth(self, auth_info=None):
        from mysql_mimic.auth import Success
        r = 0
        if self.fail and self.fail[0] == r:
            raise EXCS[self.fail[1]]()
        info = auth_info
        if info is None:
            info = yield b"x" * 20
        for r in (1, 2):
            if self.fail and self.fail[0] == r:
                raise EXCS[self.fail[1]]()
            if self.gate:
                await self.gate.wait()
            info = yield b"round%d" % r
        if self.fail and self.fail[0] == 3:
            raise EXCS[self.fail[1]]()
        yield Success(info.username if hasattr(info, "username") else "u")


class FaultyControl(RecControl):
    remove_exc = None

    async def remove(self, connection_id):
        await super().remove(connection_id)
        if self.remove_exc:
            raise self.remove_exc


class Inbox(collections.deque):
    """the client's network: fires the fault after a number of bytes"""
    budget = None
    fire = None
    total = 0

    def append(self, chunk):
        if self.budget is not None:
            room = self.budget - self.total
            if len(chunk) >= room:
                self.total = self.budget
                self.budget = None
                if room:
                    super().append(chunk[:room])
                self.fire()
                raise Stop()
        self.total += len(chunk)
        super().append(chunk)


# ------------------------------------------------------------------------------------- conversations
def c_full(c, w, caps):
    c.login(user="p", password="pw", db="db1", client_caps=caps, attrs={b"k": b"v"})
    yield
    c.ping()
    c.query("SELECT a FROM t1")
    yield
    c.query("SHOW TABLES FROM db1")
    c.query("USE db2; SELECT 1")
    yield
    p = c.prepare("SELECT a FROM t2 WHERE x = ?")
    sid = getattr(p, "stmt_id", 1)
    c.long_data(sid, 0, b"lo")
    yield
    c.execute(sid, [("varchar", "ng")], long_idx=(0,))
    c.execute(sid, [("varchar", "ng")], cursor=True)
    yield
    c.fetch(sid, 2)
    c.fetch(sid, 20)
    c.stmt_reset(sid)
    yield
    c.field_list("tab")
    c.init_db("db3")
    c.cmd(b"\x1f")
    yield
    c.cmd(P.com_change_user(c.caps, b"u", b"", db=b"db4", plugin=b"mysql_native_password"))
    c.query("SELECT a FROM t_inferred")
    c.query("UPDATE none SET a = 1")
    c.query("SELECT nonsense FROM ((")
    yield
    c.execute(sid, [("varchar", "again")])
    c.stmt_close(sid)
    c.quit()


def c_short(c, w, caps):
    c.login(client_caps=caps, db=None if caps == CAPS[0] else "", attrs=None if caps == CAPS[0] else {})
    yield
    c.query("SELECT a FROM t1")
    yield
    c.quit()


def c_switch(c, w, caps):
    r = c.login(user="p", client_caps=caps, plugin="other_plugin")
    if r.kind == "switch":
        data, nseq = P.frame(native_scramble("pw", r.data[:20]), r.seq)
        c.deliver(data)
        w.quiesce()
        c.auth_result(nseq)
    yield
    c.query("SELECT a FROM t1")


def c_denied(c, w, caps):
    c.login(user="p", password="wrong", client_caps=caps)
    yield
    c.deliver(P.frame(P.com_query("SELECT a FROM t1", c.caps), 0)[0])


def c_chdenied(c, w, caps):
    c.login(client_caps=caps)
    yield
    c.query("SELECT a FROM t1")
    yield
    c.cmd(P.com_change_user(c.caps, b"p", b"x" * 20, plugin=b"mysql_native_password"))
    yield
    c.deliver(P.frame(P.com_query("SELECT a FROM t1", c.caps), 0)[0])


def c_badseq(c, w, caps):
    c.login(client_caps=caps, db="d\u00e9 `x`", attrs={b"": b""})
    yield
    c.query("SELECT a FROM t1")
    c.deliver(P.frame(bytes([P.COM_PING]), 9)[0])
    w.quiesce()


def c_junk(c, w, caps):
    c.greet()
    yield
    c.deliver(P.frame(b"\xff\x00junk" * 9, 1)[0])
    w.quiesce()


def c_junkcmd(c, w, caps):
    c.login(client_caps=caps)
    yield
    for p in (b"", b"\x17\x01", b"\x1c", b"\x77", b"\x12\x00", b"\x11"):
        c.deliver(P.frame(p, 0)[0])
        w.quiesce()


def c_tls(c, w, caps):
    c.login(client_caps=caps, tls=True)
    yield
    c.query("SELECT a FROM t1")
    yield
    c.quit()


def c_rounds(c, w, caps):
    c.greet()
    r = c.login(user="r", client_caps=caps)
    for i in range(3):
        yield
        if r.kind not in ("more", "switch"):
            break
        data, nseq = P.frame(b"answer%d" % i, r.seq)
        c.deliver(data)
        w.quiesce()
        r = c.auth_result(nseq)
    if r.kind == "ok":
        c.query("SELECT a FROM t1")
        yield
        c.quit()


CONVS = {"full": c_full, "short": c_short, "switch": c_switch, "denied": c_denied, "chdenied": c_chdenied,
         "badseq": c_badseq, "junk": c_junk, "junkcmd": c_junkcmd, "tls": c_tls, "rounds": c_rounds}


def drive(gen_, stop_at=None):
    """Run a conversation until it is over; None or the reason."""
    n = 0
    try:
        for _ in gen_:
            n += 1
            if stop_at is not None and n >= stop_at:
                return "stopped"
        return "done"
    except Stop:
        return "fault"
    except ProtoError:
        return "proto"


def make_world(case):
    f = case.get("f") or {}
    plugins = [NativePasswordAuthPlugin()]
    users = {"u": User(name="u", auth_plugin="mysql_native_password"),
             "r": User(name="r", auth_plugin="rounds"),
             "p": User(name="p", auth_plugin="mysql_native_password",
                       auth_string=NativePasswordAuthPlugin.create_auth_string("pw"))}
    rounds = FaultyPlugin(tuple(f["plugin"]) if f.get("plugin") else None)
    plugins.append(rounds)
    ident = FaultyIdentity(users, plugins)
    control = FaultyControl(server_id=7)
    w = World(session=BaseS if case.get("base") else FullS, identity=ident, control=control, tls=case["conv"] == "tls")
    w.gates = {}
    w.rowfail = None
    w.fat = 1
    w.swallow = f.get("swallow", 0)
    w.ident = ident
    w.rounds = rounds
    return w


def release(w, exc=None, exclude=()):
    for _ in range(400):
        gs = [g for g in list(w.gates.values()) + [x for x in (w.ident.gate, w.rounds.gate) if x] if g.pending()]
        if not gs:
            return
        for g in gs:
            if exc is not None:
                g.release(exc=exc)
            else:
                g.release()
        w.quiesce()


def run(case, st):
    f = case.get("f") or {}
    caps = CAPS[case.get("caps", 0)]
    with make_world(case) as w:
        by = None
        w.quiesce()
        base_tasks = len(w.tasks())
        if case.get("bystander", True) and not case.get("nolog") and case["conv"] != "tls":
            by = w.login()
        live0 = set(w.control.live)
        n0 = len(w.sessions)
        # --- arm the fault
        w.ident.nth = 0
        if f.get("identity"):
            w.ident.fail = tuple(f["identity"])
        for k, v in (f.get("gates") or []):
            w.gates[(k, v)] = Gate(w.loop)
        if f.get("idgate"):
            w.ident.gate = Gate(w.loop)
        if f.get("rgate"):
            w.rounds.gate = Gate(w.loop)
        w.rowfail = f.get("row")
        w.fat = f.get("fat", 1)
        if f.get("cb"):
            name, nth, exc = f["cb"]
            w.setup = lambda s: setattr(s, "faults", {(name, nth): EXCS[exc]()})
        if f.get("cb2"):
            name2, nth2, exc2 = f["cb2"]
            w.setup = (lambda s: setattr(s, "faults", {(name, nth): EXCS[exc](), (name2, nth2): EXCS[exc2]()}))
        if f.get("add"):
            w.control.fail_add = TooManyConnections() if f["add"] == "many" else EXCS[f["add"]]()
        if f.get("remove"):
            w.control.remove_exc = EXCS[f["remove"]]()
        if f.get("factory"):
            orig = w.server.session_factory
            kind = f["factory"]

            def bad():
                raise EXCS[kind]()

            async def abad():
                await checkpoint(2)
                raise EXCS[kind]()
            w.server.session_factory = abad if f.get("async") else bad
        c = w.connect()
        inbox = Inbox()
        c.sock.inbox = inbox
        if f.get("send"):
            c.sock.fail_send_at = f["send"]
        if f.get("max_send"):
            c.sock.max_send = f["max_send"]
        if f.get("early"):       # gone before the server even looked
            cut(c, f["early"])

        def kill():
            for cid, cc in list(w.control.live.items()):
                if cid not in live0:
                    cc.kill(KillKind[f.get("kind", "CONNECTION")])
        if f.get("budget") is not None:
            def fire():
                how = f["how"]
                if f.get("wait"):
                    w.quiesce()
                if how == "stall":
                    c.sock.window = 0
                elif how == "kill":
                    w.quiesce() if f.get("wait") else None
                    kill()
                else:
                    cut(c, how)
            inbox.budget = f["budget"]
            inbox.fire = fire
        steps = [0]
        if f.get("step") is not None:
            orig_step = w.loop.step

            def step():
                steps[0] += 1
                if steps[0] == f["step"]:
                    if f["how"] == "kill":
                        kill()
                    else:
                        cut(c, f["how"])
                orig_step()
            w.loop.step = step
        if f.get("window") is not None:
            c.sock.window = f["window"]
        reason = drive(CONVS[case["conv"]](c, w, caps), f.get("stop"))
        w.quiesce()
        sess = w.sessions[n0] if len(w.sessions) > n0 else None
        pending = any(g.pending() for g in w.gates.values()) or (w.ident.gate and w.ident.gate.pending()) or \
            (w.rounds.gate and w.rounds.gate.pending())
        # --- the session must not be closed while the connection is still in use
        if sess is not None and sess.count("close_done") and not c.closed() and case["conv"] != "tls" and \
                c.sock.window is None:
            raise Violation("session closed although the connection is still open")
        if pending:
            st.count("pending_calls")
        if f.get("then"):
            # a second fault while the application call is pending / the server is stalled
            for a in f["then"]:
                if a == "kill":
                    kill()
                elif a == "killq":
                    for cid, cc in list(w.control.live.items()):
                        if cid not in live0:
                            cc.kill(KillKind.QUERY)
                elif a == "release":
                    release(w)
                elif a == "raise":
                    release(w, AppError("late fault"))
                elif a == "cancelraise":
                    release(w, asyncio.CancelledError())
                elif a == "step":
                    if not w.loop.idle():
                        w.loop.step()
                elif a == "open":
                    c.sock.window = None
                elif a == "quit":
                    if c.tls is None:
                        c.sock.inbox.append(P.frame(b"\x01", 0)[0])
                elif a == "badseq":
                    c.sock.inbox.append(P.frame(b"\x0e", 77)[0])
                elif a == "advance":
                    w.loop.advance(30)
                    w.quiesce()
                elif a in ("eof", "rst", "close"):
                    cut(c, a)
                elif a == "q":
                    w.quiesce()
        w.quiesce()
        # --- now let everything end
        if c.sock.window is not None and not f.get("keepstall"):
            c.sock.window = None
            w.quiesce()
        release(w)
        w.quiesce()
        if "kill" in f.get("then", ()) and f.get("keepstall") and w.control.log and not pending:
            # the client neither reads nor goes away: a killed connection ends all the same
            w.loop.advance(130)
            w.quiesce()
            if not c.closed():
                raise Violation("killed, but the socket of the client that doesn't read stays open")
            st.count("killed_while_stalled")
        elif f.get("swallow") and "kill" in f["then"]:
            if sess is not None and sess.count("init") and (not c.closed() or sess.count("query") or sess.count("use")):
                raise Violation("killed while the application initialised the session, but the connection goes on")
            st.count("killed_in_init")
        elif c.sock.window is not None and not pending:
            w.loop.advance(130)
            w.quiesce()
            if not c.closed() and len(w.sessions) > n0 and w.sessions[n0].count("close_done"):
                raise Violation("the connection has ended, but the socket of the client that doesn't read stays open")
            st.count("ended_while_stalled", c.closed())
        if not c.closed():
            cut(c, f.get("final", "eof"))
        for _ in range(4):
            w.quiesce()
            release(w)
            w.loop.advance(130)
        w.quiesce()
        verdict(case, f, w, c, by, live0, n0, base_tasks, st, reason)


def cut(c, how):
    if how == "eof":
        c.sock.eof = True
    elif how == "rst":
        c.reset()
    else:   # full close: pending input still readable, then EOF; writes fail
        c.sock.eof = True
        c.sock.send_exc = BrokenPipeError(32, "Broken pipe")


def verdict(case, f, w, c, by, live0, n0, base_tasks, st, reason):
    sess = w.sessions[n0] if len(w.sessions) > n0 else None
    what = f"{case['conv']} {f}"
    if sess is not None:
        calls = [x[0] for x in sess.calls]
        done = calls.count("init_done")
        started = calls.count("init")
        closes = calls.count("close_enter")
        failed = [x for x in sess.calls if x[0] == "init_failed"]
        if started > 1:
            raise Violation(f"session initialised {started} times")
        if done:
            if closes != 1:
                raise Violation(f"initialised session was closed {closes} times")
            after = calls[calls.index("close_enter") + 1:]
            bad = [x for x in after if x not in ("close", "close_done", "rows_closed", "db")]
            if bad:
                raise Violation(f"application called after its session was closed: {bad}")
            pre = calls[:calls.index("init")]
            if pre:
                raise Violation(f"application called before init: {pre}")
            st.count("closed_once")
        else:
            cancelled = any(x[1] == "CancelledError" for x in failed) or (started and not failed)
            if closes > (1 if cancelled else 0):
                raise Violation(f"session that was not initialised (init {'raised' if failed else 'not called'}) was "
                                f"closed {closes} times")
            if any(x in ("query", "use", "reset", "schema") for x in calls):
                raise Violation(f"application called without init: {calls}")
            st.count("never_init")
    if not c.closed():
        raise Violation("the connection's socket is still open")
    left = set(w.control.live) - live0
    if left:
        raise Violation(f"connection is still registered: {sorted(left)}")
    if w.control._connections.keys() - live0 if hasattr(w.control, "_connections") else False:
        raise Violation("connection is still in the registry")
    adds = sum(1 for e in w.control.log if e[0] == "add")
    removes = collections.Counter(e[1] for e in w.control.log if e[0] == "remove")
    if adds - len(live0) and len(removes) != adds - len(live0):
        raise Violation(f"{adds - len(live0)} registrations, {len(removes)} removals")
    st.count("released")
    w.setup = None
    w.control.remove_exc = None
    w.ident.fail = w.ident.gate = None
    w.gates = {}
    w.rowfail = None
    # nothing else was touched
    if by is not None:
        if by.closed() or set(w.control.live) != live0 or w.sessions[0].count("close_enter"):
            raise Violation("another connection was released")
        r = by.query("SELECT a FROM none")
        if r.kind not in ("ok", "rs", "err"):
            raise Violation(f"other connection: {r}")
        by.eof()
        w.quiesce()
        if w.sessions[0].count("close_enter") != 1 or w.control.live:
            raise Violation("the other connection was not released")
    for _ in range(3):
        w.loop.advance(130)
        w.quiesce()
    import gc
    tasks = w.tasks()
    if len(tasks) > base_tasks:
        raise Violation(f"server task still running: {tasks[0]!r:.300}")
    # still serving
    if not f.get("add") and not f.get("factory"):
        n = w.login()
        if n.query("SELECT a FROM t1").kind != "rs":
            raise Violation("a new connection is not served")
    st.seen(case["conv"], repr(f), case.get("base"), case.get("caps"))
    st.sample(f"{what}: {reason}, calls={[x[0] for x in sess.calls][:12] if sess else None}")


# ------------------------------------------------------------------------------------- generation
_sizes = {}


def size_of(conv, base=False, caps=0):
    """(client bytes, server sends, callback counts, steps) of the undisturbed conversation"""
    key = (conv, base, caps)
    if key not in _sizes:
        with make_world({"conv": conv, "base": base}) as w:
            c = w.connect()
            c.sock.inbox = Inbox()
            it0 = w.loop.iterations
            drive(CONVS[conv](c, w, CAPS[caps]))
            w.quiesce()
            cut(c, "eof")
            w.quiesce()
            s = w.sessions[0]
            _sizes[key] = (c.sock.inbox.total, c.sock.sends, collections.Counter(x[0] for x in s.calls),
                           w.loop.iterations - it0, getattr(s, "_n_rows", 0), w.ident.nth)
    return _sizes[key]


def gen(tier, seed):
    rnd = random.Random(seed * 31 + 10)
    deep = tier == "thorough"
    for conv in CONVS:
        for base in (False, True):
            for caps in range(3):
                yield {"k": "plain", "conv": conv, "base": base, "caps": caps}
    # disconnect after every byte
    for conv in CONVS:
        for base in (False, True):
            for caps in ((0, 1, 2) if deep else (rnd.randrange(3),)):
                n, sends, cbs, steps, nrows, nid = size_of(conv, base, caps)
                for b in range(n + 1):
                    for how in ("eof", "rst", "close"):
                        waits = (False, True) if deep else (rnd.random() < 0.5,)
                        if not deep and (base or conv in ("tls", "full")) and rnd.random() < 0.6 and how != "rst":
                            continue
                        for wait in waits:
                            yield {"k": "cut", "conv": conv, "base": base, "caps": caps,
                                   "f": {"budget": b, "how": how, "wait": wait}}
                for i in range(1, sends + 2):
                    yield {"k": "send", "conv": conv, "base": base, "caps": caps, "f": {"send": i}}
                    yield {"k": "send", "conv": conv, "base": base, "caps": caps,
                           "f": {"send": i * 3, "max_send": rnd.choice([1, 5, 50]), "fat": rnd.choice([1, 20])}}
                for s in range(1, min(steps, 600) + 1):
                    for how in ("kill", "rst", "eof"):
                        if how != "kill" and not deep and rnd.random() < 0.5:
                            continue
                        yield {"k": "step", "conv": conv, "base": base, "caps": caps, "f": {"step": s, "how": how}}
                # callbacks
                for cb in ("init", "query", "close", "reset", "use", "schema"):
                    for nth in range(1, min(cbs[cb], 40) + 1):
                        for exc in EXCS:
                            yield {"k": "cb", "conv": conv, "base": base, "caps": caps, "f": {"cb": [cb, nth, exc]}}
                            if cb != "close" and rnd.random() < 0.3:
                                yield {"k": "cb2", "conv": conv, "base": base, "caps": caps,
                                       "f": {"cb": [cb, nth, exc], "cb2": ["close", 1, rnd.choice(list(EXCS))]}}
                            if rnd.random() < 0.2:
                                yield {"k": "cbcut", "conv": conv, "base": base, "caps": caps,
                                       "f": {"cb": [cb, nth, exc], "send": rnd.randrange(1, sends + 1)}}
                            if rnd.random() < 0.2:
                                yield {"k": "cbcut", "conv": conv, "base": base, "caps": caps,
                                       "f": {"cb": [cb, nth, exc], "budget": rnd.randrange(n + 1), "how": "rst"}}
                for nth in range(1, min(nrows, 40) + 1):
                    for exc in EXCS:
                        if deep or rnd.random() < 0.5:
                            yield {"k": "row", "conv": conv, "base": base, "caps": caps, "f": {"row": [nth, exc]}}
                for nth in range(1, nid + 1):
                    for exc in EXCS:
                        yield {"k": "ident", "conv": conv, "base": base, "caps": caps, "f": {"identity": [nth, exc]}}
    for conv in ("short", "full", "tls", "rounds"):
        for exc in list(EXCS):
            for caps in range(3):
                yield {"k": "add", "conv": conv, "caps": caps, "f": {"add": exc}}
                yield {"k": "remove", "conv": conv, "caps": caps, "f": {"remove": exc}}
                yield {"k": "factory", "conv": conv, "caps": caps, "f": {"factory": exc}}
                yield {"k": "factory", "conv": conv, "caps": caps, "f": {"factory": exc, "async": True}}
        yield {"k": "add", "conv": conv, "f": {"add": "many"}}
        for e in ("eof", "rst", "close"):
            for extra in ({}, {"add": "many"}, {"factory": "app"}, {"send": 1}):
                yield {"k": "early", "conv": conv, "f": dict(extra, early=e)}
    for r in range(4):
        for exc in EXCS:
            yield {"k": "plugin", "conv": "rounds", "f": {"plugin": [r, exc]}}
    # application calls pending when the connection ends
    acts = ["eof", "rst", "close", "kill", "killq", "release", "raise", "cancelraise", "step", "q", "advance"]
    for conv in ("full", "short", "chdenied", "tls", "rounds", "switch"):
        for base in (False, True):
            n, sends, cbs, steps, nrows, nid = size_of(conv, base)
            pts = [(cb, i) for cb in ("init", "query", "reset", "use", "schema", "close") for i in range(1, min(cbs[cb], 8) + 1)]
            pts += [("row", i) for i in range(1, min(nrows, 14) + 1)]
            for p in pts:
                for _ in range(12 if not deep else 120):
                    then = [rnd.choice(acts) for _ in range(rnd.randrange(1, 5))]
                    f = {"gates": [list(p)], "then": then, "final": rnd.choice(["eof", "rst", "close"])}
                    if rnd.random() < 0.2:
                        f["gates"].append(list(rnd.choice(pts)))
                    if rnd.random() < 0.2:
                        f["gates"].append(["close", 1])
                    yield {"k": "pend", "conv": conv, "base": base, "caps": rnd.randrange(3), "f": f}
            for g in ("idgate", "rgate"):
                for _ in range(30):
                    yield {"k": "pend", "conv": conv, "base": base,
                           "f": {g: 1, "then": [rnd.choice(acts) for _ in range(rnd.randrange(1, 5))],
                                 "final": rnd.choice(["eof", "rst", "close"])}}
    # the application catches the CancelledError of a kill that arrives while it initialises the session
    for conv in ("full", "short", "rounds", "switch"):
        for base in (False, True):
            for sw in (1, 2, 3, 5):
                for then in (["kill"], ["kill", "q"], ["kill", "kill"], ["kill", "step", "kill"], ["killq", "kill"], ["step", "kill", "release"],
                             ["kill", "q", "kill"], ["kill", "step", "step", "kill", "step", "kill"]):
                    yield {"k": "swallow", "conv": conv, "base": base, "caps": rnd.randrange(3),
                           "f": {"gates": [["init", 1]], "swallow": sw, "then": then, "final": rnd.choice(["eof", "rst", "close"])}}
    # stalled clients
    for conv in ("full", "short"):
        for base in (False, True):
            for _ in range(150 if not deep else 2500):
                f = {"fat": rnd.choice([100, 5000, 60000]), "window": rnd.choice([100, 200, 1000, 5000, 100000]),
                     "then": [rnd.choice(["rst", "close", "kill", "killq", "open", "step", "q"])
                              for _ in range(rnd.randrange(1, 5))],
                     "final": rnd.choice(["rst", "close"])}
                if f["then"][-1] in ("rst", "close", "kill"):
                    f["keepstall"] = True
                yield {"k": "stall", "conv": conv, "base": base, "caps": rnd.randrange(3), "f": f}
                f = {"fat": rnd.choice([10, 100, 1000, 5000]), "window": rnd.choice([150, 200, 300, 1000, 3000]), "keepstall": True,
                     "then": [rnd.choice(["killq", "step", "q", "step"]) for _ in range(rnd.randrange(0, 3))] + [rnd.choice(["quit", "quit", "badseq"])],
                     "final": rnd.choice(["rst", "close"])}
                yield {"k": "stall", "conv": conv, "base": base, "caps": rnd.randrange(3), "f": f}
            for _ in range(150 if not deep else 2500):
                f = {"fat": rnd.choice([100, 5000, 60000, 200000]), "window": rnd.choice([0, 10, 77, 100, 110, 200, 1000, 5000, 100000]),
                     "then": [rnd.choice(["killq", "step", "q", "step"]) for _ in range(rnd.randrange(0, 3))] + ["kill"] +
                     [rnd.choice(["killq", "kill", "step", "q", "eof"]) for _ in range(rnd.randrange(0, 2))],
                     "keepstall": True, "final": rnd.choice(["rst", "close"])}
                yield {"k": "stall", "conv": conv, "base": base, "caps": rnd.randrange(3), "f": f}
