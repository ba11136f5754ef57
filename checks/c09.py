"""C09: KILL QUERY spares the connection; KILL CONNECTION ends exactly the target."""
import asyncio
import random
import re

from vlib import proto as P
from vlib.apps import AppError, Gate, RecSession, FixedIdentity, checkpoint, rand_exc
from vlib.client import World, native_scramble
from vlib.proto import ProtoError
from vlib.runner import Violation

from mysql_mimic import NativePasswordAuthPlugin, ResultColumn, User
from mysql_mimic.constants import KillKind
from mysql_mimic.types import ColumnType as CT

ID = "C09"
LEVEL = "fault_enumeration"
RULE = ("one execution = (scenario of the target, kill plan); kill plan = list of (event-loop step | socket send | application "
        "point, kind, delivery); all steps of every scenario are enumerated for single kills, pairs are sampled; "
        "distinct = (scenario, step, kinds, delivery, outcome)")
ASSUMPTIONS = ["a KILL QUERY may or may not hit a command whose bytes the server is just reading or answering",
               "an application that swallows the cancellation may get its result delivered or an ERR",
               "the final ERR of a killed connection is optional",
               "a kill during session.init()/authentication: the session may or may not count as initialised",
               "a multi-step COM_CHANGE_USER may be immune to KILL QUERY"]
EXHAUSTIVE = ["every event-loop iteration boundary and every socket send of every scenario x {QUERY, CONNECTION} x "
              "{before ready tasks, after ready tasks}"]
MIN = {"kills": 3000, "aborted": 200, "spared": 300, "ended": 500, "issuer": 200, "unknown": 50}
DEADLINE = {"quick": 480, "thorough": 780}
CASE_CPU = 20

CAPS = [P.BASE_CAPS | P.DEPRECATE_EOF | P.LENENC_AUTH, P.BASE_CAPS | P.LENENC_AUTH,
        P.BASE_CAPS | P.DEPRECATE_EOF | P.OPTIONAL_META | P.QUERY_ATTRIBUTES | P.LENENC_AUTH]

Q, C = "QUERY", "CONNECTION"
COLS = [ResultColumn("a", CT.VARCHAR), ResultColumn("n", CT.LONG)]


def rows_of(n):
    return [(f"r{i}" + "x" * (i % 7), i) for i in range(n)]


class KSession(RecSession):
    """dispatches on the table name of the statement: t_<mode>_<n>"""

    close_gate = None
    init_gate = None

    def __init__(self):
        super().__init__()
        self.closing = 0
        self.closed_done = 0

    async def init(self, connection):
        await super().init(connection)
        if self.init_gate:
            await self.init_gate.wait()
        self._rec("init_done")

    async def close(self):
        self.closing += 1
        await super().close()
        if self.close_gate:
            await self.close_gate.wait()
        self.closed_done += 1

    async def reset(self):
        await super().reset()
        await checkpoint(2)

    async def schema(self):
        await checkpoint(2)
        return {"db1": {"tab": {"c1": "TEXT", "c2": "INT"}}}

    async def use(self, db):
        await checkpoint(2)
        await super().use(db)

    async def query(self, expression, sql, attrs):
        self._rec("query", sql)
        m = re.search(r"t_([a-z0-9]+)_(\d+)", sql)
        if not m:
            return [("plain",)], [ResultColumn("p", CT.VARCHAR)]
        mode, n = m.group(1), int(m.group(2))
        w = self.world
        if mode == "sync":
            return rows_of(n), COLS
        if mode == "none":
            await checkpoint(n)
            return None
        if mode == "chk":
            await checkpoint(n)
            return rows_of(3), COLS
        if mode == "inferred":
            return self.stream(n), ["a", "n"]
        if mode == "gate":
            await w.gate.wait()
            return rows_of(n), COLS
        if mode == "stream":
            return self.stream(n), COLS
        if mode == "timer":
            return self.timer(n), COLS
        if mode == "gen":
            return (r for r in rows_of(n)), COLS
        if mode == "big":
            return ((f"{i:06d}" + "y" * 3000, i) for i in range(n)), COLS
        if mode == "inf":
            return ((f"{i}" + "z" * 500, i) for i in range(1 << 40)), COLS
        if mode == "inftimer":
            return self.timer(1 << 40), COLS
        if mode == "swallow":
            try:
                await w.gate.wait()
            except asyncio.CancelledError:
                self._rec("cancelled")
            return rows_of(n), COLS
        if mode == "swallowawait":
            try:
                await w.gate.wait()
            except asyncio.CancelledError:
                self._rec("cancelled")
                await checkpoint(2)
            await checkpoint(2)
            return rows_of(n), COLS
        if mode == "slowclean":
            try:
                await w.gate.wait()
            finally:
                await checkpoint(3)
            return rows_of(n), COLS
        if mode == "convert":
            try:
                await w.gate.wait()
            except asyncio.CancelledError:
                raise rand_exc(w.rnd, "cancelled in application")
            return rows_of(n), COLS
        if mode == "error":
            await checkpoint(n)
            raise rand_exc(w.rnd, "application error")
        if mode == "timeout":
            try:
                async with asyncio.timeout(0.5):
                    await asyncio.sleep(1000)
            except TimeoutError:
                return rows_of(n), COLS
        if mode == "group":
            async def bad():
                await asyncio.sleep(0)
                raise AppError("child")
            try:
                async with asyncio.TaskGroup() as tg:
                    tg.create_task(asyncio.sleep(100))
                    tg.create_task(bad())
            except ExceptionGroup:
                return rows_of(n), COLS
        if mode == "cancelling":
            t = asyncio.current_task()
            return [(str(t.cancelling()), 0)], COLS
        if mode.startswith("self"):      # the application kills its own connection: selfq / selfc (+ a = await)
            await w.control.kill(self.connection.connection_id,
                                 KillKind.QUERY if mode[4] == "q" else KillKind.CONNECTION)
            if mode.endswith("a"):
                await checkpoint(2)
            return rows_of(n), COLS
        if mode.startswith("rowself"):   # the row source does, in the middle
            return self.selfrows(n, mode[7]), COLS
        raise AppError("unknown mode " + mode)

    async def stream(self, n):
        for r in rows_of(n):
            await asyncio.sleep(0)
            yield r

    async def timer(self, n):
        for i in range(n):
            await asyncio.sleep(0.01 if n < 1000 else 7.0)
            yield (f"r{i}" + "x" * (i % 7), i)

    async def selfrows(self, n, k):
        for i, r in enumerate(rows_of(n)):
            if i == n // 2:
                await self.world.control.kill(self.connection.connection_id,
                                              KillKind.QUERY if k == "q" else KillKind.CONNECTION)
            yield r


FULL = {"sync": None, "chk": 3, "inferred": None, "gate": None, "stream": None, "timer": None, "gen": None,
        "swallow": None, "swallowawait": None, "slowclean": None, "convert": None, "timeout": None, "group": None}


def text_rows(n):
    return [(a.encode(), str(i).encode()) for a, i in rows_of(n)]


# ------------------------------------------------------------------------------------------ scenarios
# name -> dict(sql / kind ..., gated, stall)
SCEN = {}


def sc(name, **kw):
    SCEN[name] = kw


sc("idle", cmd=None)
sc("ping", cmd=("ping",))
sc("sync", cmd=("query", "SELECT a FROM t_sync_3"), n=3)
sc("empty", cmd=("query", "SELECT a FROM t_sync_0"), n=0)
sc("ok", cmd=("query", "UPDATE t_none_2 SET a = 1"), n=None)
sc("chk", cmd=("query", "SELECT a FROM t_chk_4"), n=3)
sc("inferred", cmd=("query", "SELECT a FROM t_inferred_4"), n=4)
sc("gate", cmd=("query", "SELECT a FROM t_gate_3"), n=3, gated=True)
sc("stream", cmd=("query", "SELECT a FROM t_stream_6"), n=6)
sc("timer", cmd=("query", "SELECT a FROM t_timer_4"), n=4)
sc("gen", cmd=("query", "SELECT a FROM t_gen_5"), n=5)
sc("swallow", cmd=("query", "SELECT a FROM t_swallow_3"), n=3, gated=True, soft=True)
sc("swallowawait", cmd=("query", "SELECT a FROM t_swallowawait_3"), n=3, gated=True, soft=True)
sc("slowclean", cmd=("query", "SELECT a FROM t_slowclean_3"), n=3, gated=True)
sc("convert", cmd=("query", "SELECT a FROM t_convert_3"), n=3, gated=True)
sc("error", cmd=("query", "SELECT a FROM t_error_3"), n="err")
sc("syntax", cmd=("query", "SELECT FROM WHERE ((("), n="err")
sc("timeout", cmd=("query", "SELECT a FROM t_timeout_2"), n=2)
sc("static", cmd=("query", "SELECT 1, 'x'"), rows=[(b"1", b"x")])
sc("show", cmd=("query", "SHOW TABLES FROM db1"), rows=[(b"tab",)])
sc("setvar", cmd=("query", "SET sql_mode = 'K'"), n=None, after=("SELECT @@sql_mode", [b"K", b"ANSI"]))
sc("use", cmd=("query", "USE db1"), n=None)
sc("initdb", cmd=("initdb", "db1"), n=None)
sc("fields", cmd=("fields", "tab"))
sc("prepare", cmd=("prepare", "SELECT a FROM t_sync_2 WHERE x = ?"))
sc("longgen", cmd=("query", "SELECT a FROM t_gen_25000"), n=25000)
sc("longexec", cmd=("execute", "SELECT a FROM t_gen_21000"), n=21000)
sc("longfetch", cmd=("fetch", "SELECT a FROM t_gen_23000", 22000))
sc("execute", cmd=("execute", "SELECT a FROM t_stream_4"), n=4)
sc("execgate", cmd=("execute", "SELECT a FROM t_gate_4"), n=4, gated=True)
sc("cursor", cmd=("cursor", "SELECT a FROM t_stream_5"))
sc("fetch", cmd=("fetch", "SELECT a FROM t_stream_5", 3))
sc("fetchtimer", cmd=("fetch", "SELECT a FROM t_timer_5", 5))
sc("fetchend", cmd=("fetch", "SELECT a FROM t_stream_2", 9))
sc("stmtreset", cmd=("stmtreset",))
sc("resetconn", cmd=("resetconn",))
sc("unknown", cmd=("raw", b"\x55abc"), n="err")
sc("multi", cmd=("query", "SELECT a FROM t_chk_2; SELECT a FROM t_stream_3"), n=3)
sc("pipeline", cmd=("pipeline",))
sc("longdata", cmd=("longdata",))
sc("partial", cmd=("partial",), n=3)
sc("stall", cmd=("query", "SELECT a FROM t_big_60"), stall=1000, bign=60)
sc("stallend", cmd=("query", "SELECT a FROM t_big_20"), stall=500, bign=20)
sc("stallfull", cmd=("query", "SELECT a FROM t_big_200"), stall=0, bign=200)
sc("infstall", cmd=("query", "SELECT a FROM t_inf_0"), stall=3000, n=0, only="must")
sc("inftimer", cmd=("query", "SELECT a FROM t_inftimer_0"), n=0, only="must")
sc("infexec", cmd=("execute", "SELECT a FROM t_inf_0"), stall=0, n=0, only="must")
sc("chuser", cmd=("chuser", False))
sc("chuser2", cmd=("chuser", True))
sc("quit", cmd=("quit",), ends=True)
sc("quitgate", cmd=("quit",), ends=True, close_gate=True)
sc("eof", cmd=("eof",), ends=True)
sc("badseq", cmd=("badseq",), ends=True)
sc("cancelling", cmd=("query", "SELECT a FROM t_cancelling_0"), rows=None)
PRE = {"auth_greet": {}, "auth_partial": {}, "auth_init": {}, "auth_switch": {}}

FOLLOW = ["ping", "cancelling", "timeout", "group", "sync", "exec"]


KILL_Q = ["KILL {k} {id}", "kill {k} {id}", "KILL {k} {id};", "kill query {id}", "Kill Query {id}", "KILL  query\n{id}",
          "/* c */ KILL {k} {id}", "KILL\tquery {id} ;"]
KILL_C = ["KILL {k} {id}", "KILL {id}", "Kill connection {id}", "kill {id}", "KILL CONNECTION\n{id}", "kill\t{id};",
          "KILL {id} -- KILL QUERY 1", "KILL /* query */ {id}", "/* kill query */ KILL CONNECTION {id}"]


class Run:
    def __init__(self, case, st):
        self.case = case
        self.st = st
        self.rnd = random.Random(case.get("r", 0))
        self.sc = SCEN[case["sc"]]
        self.killed = []         # (kind, step) performed
        self.kinds = set()

    # -------------------------------------------------------------------------- kill delivery
    def kill_now(self, kind, how):
        w = self.w
        cid = self.t.hs.thread_id
        kk = KillKind.QUERY if kind == Q else KillKind.CONNECTION
        self.killed.append(kind)
        self.st.count("kills")
        if how == "back":
            async def k():
                await w.control.kill(cid, kk)
            w.loop.enter()
            w.loop.create_task(k())
        elif how == "front":
            async def k():
                await w.control.kill(cid, kk)
            w.loop.enter()
            w.loop.spawn_front(k())
        elif how == "direct":
            conn = w.control.live.get(cid)
            if conn is not None:
                conn.kill(kk)
        else:  # stmt: issuer sends a KILL statement
            i = self.issuers[self.nissued % len(self.issuers)]
            self.nissued += 1
            v = self.rnd.choice(KILL_Q) if kind == Q else \
                self.rnd.choice(KILL_C)
            seq = i.send(P.com_query(v.format(k=kind, id=cid), i.caps))
            self.issued.append((i, seq, kind))

    # -------------------------------------------------------------------------- set-up
    def world(self):
        users = {"u": User(name="u", auth_plugin="mysql_native_password"),
                 "v": User(name="v", auth_plugin="mysql_native_password",
                           auth_string=NativePasswordAuthPlugin.create_auth_string("pw"))}
        w = self.w = World(session=KSession, identity=FixedIdentity(users))
        w.rnd = random.Random(f"{self.case}")
        w.gate = Gate(w.loop)
        return w

    def others(self):
        w = self.w
        self.by = w.login()
        self.issuers = [w.login() for _ in range(self.case.get("issuers", 2))]
        self.issued = []
        self.nissued = 0

    def prep(self):
        """Bring the target into the state in which the command is sent."""
        t, s = self.t, self.sc
        cmd = s["cmd"]
        r = t.prepare("SELECT a FROM t_sync_2")
        self.fsid = r.stmt_id
        if cmd and cmd[0] in ("execute", "cursor", "fetch"):
            self.sid = t.prepare(cmd[1]).stmt_id
        if cmd and cmd[0] == "fetch":
            r = t.execute(self.sid, cursor=True)
            if r.kind != "rs":
                raise Violation(f"cursor execute failed: {r}")
        if cmd and cmd[0] in ("stmtreset", "longdata"):
            self.sid = t.prepare("SELECT a FROM t_sync_3 WHERE x = ?").stmt_id

    def start(self):
        """Put the command's bytes on the wire (no loop step yet)."""
        t, s = self.t, self.sc
        cmd = s["cmd"]
        if s.get("stall") is not None:
            t.sock.window = s["stall"]
        if cmd is None:
            return
        k = cmd[0]
        if k == "ping":
            t.send(bytes([P.COM_PING]))
        elif k == "query":
            t.send(P.com_query(cmd[1], t.caps))
        elif k == "initdb":
            t.send(bytes([P.COM_INIT_DB]) + cmd[1].encode())
        elif k == "fields":
            t.send(P.com_field_list(cmd[1].encode()))
        elif k == "prepare":
            t.send(P.com_stmt_prepare(cmd[1]))
        elif k == "execute":
            t.send(P.com_stmt_execute(self.sid, [], t.caps))
        elif k == "cursor":
            t.send(P.com_stmt_execute(self.sid, [], t.caps, True))
        elif k == "fetch":
            t.send(P.com_stmt_fetch(self.sid, cmd[2]))
        elif k == "stmtreset":
            t.send(P.com_stmt_reset(self.sid))
        elif k == "resetconn":
            t.send(b"\x1f")
        elif k == "raw":
            t.send(cmd[1])
        elif k == "longdata":
            a, _ = P.frame(P.com_stmt_long(self.sid, 0, b"zz"), 0)
            t.deliver(a)
        elif k == "pipeline":
            data = b""
            for p in (P.com_query("SELECT a FROM t_stream_3", t.caps), bytes([P.COM_PING]),
                      P.com_query("SELECT a FROM t_chk_2", t.caps), bytes([P.COM_PING])):
                data += P.frame(p, 0)[0]
            t.deliver(data)
        elif k == "partial":
            data, _ = P.frame(P.com_query("SELECT a FROM t_sync_3", t.caps), 0)
            self.rest = [data[i:i + 9] for i in range(2, len(data), 9)]
            t.deliver(data[:2])
        elif k == "chuser":
            user, auth = (b"v", b"") if cmd[1] else (b"u", b"")
            # "v" needs a scramble for a nonce: answer the auth switch later
            t.send(P.com_change_user(t.caps, user, auth, plugin=b"other_plugin" if cmd[1] else b"mysql_native_password"))
        elif k == "quit":
            t.send(bytes([P.COM_QUIT]))
        elif k == "eof":
            t.eof()
        elif k == "badseq":
            t.deliver(P.frame(bytes([P.COM_PING]), 7)[0])

    def tick(self):
        """One loop iteration plus what the scenario's environment does at idle points; False when over."""
        w, s, t = self.w, self.sc, self.t
        if not w.loop.idle():
            w.loop.step()
            return True
        if s.get("gated") and w.gate.pending() and not self.released:
            self.released = True
            w.gate.release()
            return True
        if s["cmd"] and s["cmd"][0] == "partial" and self.rest:
            t.deliver(self.rest.pop(0))
            return True
        if s["cmd"] and s["cmd"] == ("chuser", True) and not self.switched:
            self.switched = True
            pl = P.deframe_packets(t.pending_bytes())[0]
            if len(pl) == 1 and pl[0][1][:1] == b"\xfe":
                b = P.Buf(pl[0][1])
                b.u(1)
                b.nul()
                t.deliver(P.frame(native_scramble("pw", b.rest()[:20]), pl[0][0] + 1)[0])
                self.sw_auth = True
                return True
        if t.sock.window is not None:
            if self.opened < 40 and not t.closed():
                self.opened += 1
                t.sock.window = max(t.sock.window, 0) + (20000 if self.opened < 39 else 10 ** 9)
                return True
            t.sock.window = None
            return True
        if s.get("close_gate") and w.sessions[self.ti].close_gate and w.sessions[self.ti].close_gate.pending() \
                and not self.released:
            self.released = True
            w.sessions[self.ti].close_gate.release()
            return True
        return False

    # -------------------------------------------------------------------------- run
    def go(self):
        case, st = self.case, self.st
        plan = case["plan"]
        with self.world() as w:
            self.others()
            self.ti = len(w.sessions)
            caps = CAPS[case.get("caps", 0)]
            if "raw" in case:
                pass
            self.t = t = w.connect()
            r = t.login(client_caps=caps)
            if r.kind != "ok":
                raise Violation(f"login failed: {r}")
            sess = w.sessions[self.ti]
            if self.sc.get("close_gate"):
                sess.close_gate = Gate(w.loop)
            self.prep()
            self.released = self.switched = False
            self.sw_auth = False
            self.opened = 0
            nq0 = sess.count("query")
            self.start()
            steps = 0
            sends0 = t.sock.sends
            todo = sorted(plan, key=lambda p: p[0] if isinstance(p[0], int) else 0)
            bysend = [p for p in todo if not isinstance(p[0], int)]
            todo = [p for p in todo if isinstance(p[0], int)]
            self.ended_before = []    # kills that arrived when the command was already answered

            def on_send(n):
                for p in list(bysend):
                    if t.sock.sends - sends0 == int(p[0][1:]):
                        bysend.remove(p)
                        self.kill_now(p[1], p[2])
            t.sock.on_send = on_send
            idle_kill = not plan or False
            more = True
            while more and steps < 20000:
                while todo and todo[0][0] <= steps:
                    p = todo.pop(0)
                    self.kill_now(p[1], p[2])
                more = self.tick()
                steps += 1
            late = bool(todo)
            for p in todo:           # the scenario was over before that step
                self.kill_now(p[1], p[2])
            t.sock.on_send = None
            self.steps = steps
            w.quiesce()
            st.peak("steps", steps)
            self.check(late)
            return steps

    # -------------------------------------------------------------------------- oracle
    def responses(self):
        """Complete responses of the target as lists of payloads (every command was one packet)."""
        t = self.t
        raw = t.pending_bytes()
        pk, used = P.deframe_packets(raw)
        out = []
        exp = None
        for seq, chunk in pk:
            if seq == 1 and not (exp is not None and exp > 256 and exp & 255 == 1):
                out.append([])
                exp = 1
            if exp is None:
                if self.t.closed():  # e.g. farewell ERR with any sequence number
                    out.append([])
                    exp = seq
                else:
                    raise Violation(f"unsolicited packet, seq {seq}: {chunk[:40]!r}")
            if self.sw_auth and seq == 3 and exp == 2:
                exp = 3
            if seq != exp & 255:
                if self.t.closed() and P.is_err(chunk):
                    out.append([chunk])
                    continue
                raise Violation(f"packet seq {seq}, expected {exp & 255}: {chunk[:40]!r}")
            exp += 1
            out[-1].append(chunk)
        return out, raw[used:]

    def alive(self):
        t, w = self.t, self.w
        return not t.closed() and t.hs.thread_id in w.control.live

    def check(self, late):
        case, st, t, w, s = self.case, self.st, self.t, self.w, self.sc
        sess = w.sessions[self.ti]
        cid = t.hs.thread_id
        nq = self.killed.count(Q)
        nc = self.killed.count(C)
        ends = s.get("ends")
        name = case["sc"]

        # --- issuers of KILL statements: exactly one response each
        for i, seq, kind in self.issued:
            pass
        per = {}
        for i, seq, kind in self.issued:
            per.setdefault(id(i), [i, 0])[1] += 1
        for i, n in per.values():
            pk, used = P.deframe_packets(i.pending_bytes())
            i._advance(used)
            if len(pk) != n or any(seq != 1 for seq, _ in pk):
                raise Violation(f"issuer of {n} KILL statement(s) received {len(pk)} packet(s): {[c[:30] for _, c in pk]}")
            for _, c in pk:
                P.parse_simple([c], i.caps)
            st.count("issuer", n)

        # --- nobody else is affected
        for o in [self.by] + self.issuers:
            r = o.query("SELECT a FROM t_sync_2")
            if r.kind != "rs" or [tuple(x) for x in r.rows] != text_rows(2):
                raise Violation(f"another connection was affected by the kill: {r}")
        for ix, so in enumerate(w.sessions):
            if ix != self.ti and so.closing:
                raise Violation("the session of another connection was closed")

        # --- the target
        if nc or ends:
            w.loop.advance(120)
            w.quiesce()
            if not t.closed():
                raise Violation(f"connection still open after {self.killed or 'its end'}")
            if cid in w.control.live:
                raise Violation("killed connection is still registered")
            if sess.closing != 1 or sess.closed_done != 1:
                raise Violation(f"session closed {sess.closing} times (completed {sess.closed_done})")
            st.count("ended")
            self.prefix_ok()
            st.seen(name, tuple(self.killed), tuple(str(p[0]) for p in case["plan"]), "ended")
            return
        if t.closed() or cid not in w.control.live:
            raise Violation(f"KILL QUERY ended the connection ({name}, after {self.killed})")
        if sess.closing:
            raise Violation("KILL QUERY closed the session")
        res, tail = self.responses()
        if tail:
            raise Violation("incomplete packet from the server")
        t._advance(len(t.pending_bytes()))
        expected = {"idle": 0, "pipeline": 4, "longdata": 0}.get(name, 1)
        if name == "chuser2":
            expected = 1
        if name == "chuser2" and self.sw_auth:
            # auth switch request (seq 1), then the result continues the numbering of the exchange
            if len(res) != 1 or len(res[0]) < 1:
                raise Violation(f"COM_CHANGE_USER: {res}")
        if len(res) != expected:
            raise Violation(f"{name}: {len(res)} responses for {expected} command(s): "
                            f"{[[p[:30] for p in r] for r in res][:6]}")
        errs = 0
        for i, pl in enumerate(res):
            try:
                errs += self.one(name, i, pl)
            except ProtoError as e:
                raise Violation(f"{name}: response {i} malformed: {e} {[p[:30] for p in pl][:8]}")
        if errs > nq:
            raise Violation(f"{errs} statements aborted by {nq} KILL QUERY")
        if late and case["plan"] and errs == nq and nq == 1:
            raise Violation("a kill that arrived after the response was complete aborted a statement")
        if errs:
            st.count("aborted", errs)
        else:
            st.count("spared")
        # a statement that is suspended inside the application must really be aborted
        must = case.get("must")
        if must and not errs:
            raise Violation(f"{name}: KILL QUERY did not abort the statement suspended in the application")
        if errs:
            st.sample(f"{name} plan={case['plan']} caps={case.get('caps')}: aborted, "
                      f"response {[p[:24] for p in res[-1]][-2:]}")
        st.seen(name, tuple(self.killed), tuple(str(p[0]) for p in case["plan"]), "aborted" if errs else "spared")
        self.follow()

    def one(self, name, i, pl):
        """Check one response; 1 if it was aborted by a kill."""
        s, t = self.sc, self.t
        cmd = s["cmd"]
        k = cmd[0]
        if k == "chuser" and self.sw_auth:
            pl = pl[1:]
            if len(pl) != 1:
                raise Violation(f"COM_CHANGE_USER was answered with {len(pl)} packets")
        if k in ("ping", "stmtreset", "resetconn", "initdb", "chuser") or (k == "pipeline" and i in (1, 3)):
            r = P.parse_simple(pl, t.caps)
            if r.kind == "ok":
                return 0
            return 1
        if k == "fields":
            r = P.parse_field_list(pl, t.caps)
            if r.kind == "err":
                return 1
            if [c.name for c in r.cols] != [b"c1", b"c2"]:
                raise Violation(f"wrong field list {r}")
            return 0
        if k == "prepare":
            r = P.parse_prepare(pl, t.caps)
            if r.kind == "err":
                return 1
            return 0
        if k == "fetch":
            cols = t.stmt_cols[self.sid]
            r = P.parse_fetch(pl, t.caps, cols)
            n = int(re.search(r"t_[a-z]+_(\d+)", cmd[1]).group(1))
            got = [tuple(x) for x in r.rows]
            exp = [(a, b) for a, b in rows_of(n)][:cmd[2]]
            norm = [(g[0] if isinstance(g[0], str) else g[0].decode(), int(g[1])) for g in got]
            if norm != exp[:len(norm)]:
                raise Violation(f"fetched rows {norm} are not a prefix of {exp}")
            self.fetched = norm
            if r.kind == "err":
                return 1
            if len(norm) != len(exp):
                raise Violation("short fetch")
            return 0
        binary = k in ("execute", "cursor")
        r = P.parse_query(pl, t.caps, binary=binary, cursor=k == "cursor")
        if r.kind == "err":
            return 0 if s.get("n") == "err" and b"illed" not in r.err.msg else 1
        if k == "cursor":
            return 0
        if "bign" in s:
            exp = [(f"{j:06d}" + "y" * 3000, j) for j in range(s["bign"])]
        elif k == "pipeline":
            exp = rows_of(3)
        elif s.get("rows", 0) is None:
            return 0
        elif "rows" in s:
            if [tuple(x) for x in r.rows] != s["rows"]:
                raise Violation(f"{name}: rows {r.rows}")
            return 0
        elif s["n"] is None:
            if r.kind != "ok":
                raise Violation(f"{name}: {r}")
            return 0
        elif s["n"] == "err":
            raise Violation(f"{name}: statement succeeded")
        else:
            exp = rows_of(s["n"])
        if s.get("n") == 0 and r.kind == "ok":
            return 0
        got = [((x[0].decode() if isinstance(x[0], bytes) else x[0]), int(x[1])) for x in r.rows]
        if got != exp:
            raise Violation(f"{name}: wrong rows {str(got)[:200]}")
        return 0

    def prefix_ok(self):
        """What the client of a killed connection received: complete packets in order, at most one farewell ERR, and
        an answered command must not be answered twice."""
        t = self.t
        raw = t.pending_bytes()
        pk, used = P.deframe_packets(raw)
        if self.sc.get("ends") and not self.killed:
            return
        errs = [c for _, c in pk if P.is_err(c)]
        lim = 2 if self.sc.get("n") == "err" or self.case["sc"] == "convert" else 1
        lim += self.killed.count(Q)
        if self.case["sc"] in ("badseq",):
            lim += 1
        if len(errs) > lim:
            raise Violation(f"{len(errs)} ERR packets on a killed connection")
        if errs and not P.is_err(pk[-1][1]) and C in self.killed and not self.killed.count(Q) and \
                self.sc.get("n") != "err" and self.case["sc"] != "convert":
            raise Violation("packets after the farewell ERR of a killed connection")
        t._advance(len(raw))

    def follow(self):
        """The connection is usable, in step and not half-cancelled."""
        t, w = self.t, self.w
        sess = w.sessions[self.ti]
        name = self.case["sc"]
        for f in FOLLOW:
            if f == "ping":
                r = t.ping()
                ok = r.kind == "ok"
            elif f == "exec":
                r = t.execute(self.fsid)
                ok = r.kind == "rs" and len(r.rows) == 2
            elif f == "cancelling":
                r = t.query("SELECT a FROM t_cancelling_0")
                ok = r.kind == "rs" and len(r.rows) == 1 and r.rows[0][0] == b"0"
            else:
                r = t.query(f"SELECT a FROM t_{f}_2")
                ok = r.kind == "rs" and [tuple(x) for x in r.rows] == text_rows(2)
            if not ok:
                raise Violation(f"after KILL QUERY ({name}) the next statements are disturbed: {f} -> {r}")
        if "after" in self.sc:
            sql, vals = self.sc["after"]
            r = t.query(sql)
            if r.kind != "rs" or r.rows[0][0] not in vals:
                raise Violation(f"{sql} -> {r}")
        if name in ("execute", "execgate", "cursor"):
            w.gate.release_all()
            t.send(P.com_stmt_execute(self.sid, [], t.caps))
            w.quiesce()
            w.gate.release_all()
            w.quiesce()
            r = P.parse_query(t.take_payloads(1), t.caps, binary=True)
            if r.kind != "rs":
                raise Violation(f"statement whose execution was killed cannot be executed again: {r}")
        if name.startswith("fetch"):
            n = int(re.search(r"t_[a-z]+_(\d+)", self.sc["cmd"][1]).group(1))
            r = t.fetch(self.sid, 100)
            got = [((x[0].decode() if isinstance(x[0], bytes) else x[0]), int(x[1])) for x in r.rows]
            rest = rows_of(n)[len(self.fetched):]
            if r.kind != "err" and got and got != rest:
                raise Violation(f"rows after a killed fetch: {got}, expected {rest} or an error")
            if r.kind != "err" and not got and rest:
                raise Violation("a killed fetch was reported as the end of the result")
        t.ping()
        if t.pending_bytes():
            raise Violation("unsolicited packet")


# --------------------------------------------------------------------------------------- other cases
def run_preauth(case, st):
    """Kills aimed at connections that aren't in the command phase yet."""
    with World(session=KSession, identity=FixedIdentity(
            {"u": User(name="u", auth_plugin="mysql_native_password"),
             "v": User(name="v", auth_plugin="mysql_native_password",
                       auth_string=NativePasswordAuthPlugin.create_auth_string("pw"))})) as w:
        w.rnd = random.Random(5)
        w.gate = Gate(w.loop)
        by = w.login()
        ti = len(w.sessions)
        if case["sc"] == "auth_init":
            w.setup = lambda s: setattr(s, "init_gate", Gate(w.loop))
        t = w.connect()
        kk = KillKind[case["kind"]]
        killed = 0
        steps = 0

        def maybe():
            nonlocal killed
            if steps == case["step"] or (case.get("step2") == steps):
                for cid, c in list(w.control.live.items()):
                    if cid != by.hs.thread_id:
                        if case["how"] == "direct":
                            c.kill(kk)
                        else:
                            w.loop.enter()
                            w.loop.create_task(w.control.kill(cid, kk))
                        killed += 1
                        st.count("kills")

        def run():
            nonlocal steps
            while True:
                maybe()
                steps += 1
                if w.loop.idle():
                    return
                w.loop.step()
        run()
        hs = None
        pl = t.take_payloads(0)
        if pl and not P.is_err(pl[0]):
            hs = t.hs = P.Handshake(pl[0])
        if hs:
            user, auth = ("v", b"") if case["sc"] == "auth_switch" else ("u", b"")
            plugin = b"other" if case["sc"] == "auth_switch" else b"mysql_native_password"
            t.caps = CAPS[0] & hs.caps
            data, nseq = P.frame(P.handshake_response(t.caps, user=user.encode(), auth=auth, plugin=plugin), 1)
            if case["sc"] == "auth_partial":
                t.deliver(data[:11])
                run()
                t.deliver(data[11:])
            else:
                t.deliver(data)
            run()
            if case["sc"] == "auth_switch":
                pl = t.take_payloads(nseq)
                if pl and pl[0][:1] == b"\xfe":
                    b = P.Buf(pl[0])
                    b.u(1)
                    b.nul()
                    data, nseq = P.frame(native_scramble("pw", b.rest()[:20]), t.next_seq)
                    t.deliver(data)
                    run()
            if case["sc"] == "auth_init" and ti < len(w.sessions) and w.sessions[ti].init_gate.pending():
                run()
                w.sessions[ti].init_gate.release()
                run()
        steps = 10 ** 9
        w.quiesce()
        sess = w.sessions[ti] if ti < len(w.sessions) else None
        r = by.query("SELECT a FROM t_sync_2")
        if r.kind != "rs":
            raise Violation(f"bystander: {r}")
        if not killed:
            t._advance(len(t.pending_bytes()))
            if hs and (t.ping().kind != "ok" or t.closed()):
                raise Violation("connection closed without a kill")
            st.count("prekill_none")
            return
        inits = sess.count("init_done") if sess else 0
        closes = sess.closing if sess else 0
        if case["kind"] == C:
            w.loop.advance(100)
            w.quiesce()
            if not t.closed():
                raise Violation(f"{case['sc']}: KILL CONNECTION did not end the connection")
            if len(w.control.live) != 1:
                raise Violation("killed connection still registered")
            if closes > 1 or (inits and closes != 1) or (not sess.count("init") and closes):
                raise Violation(f"session initialised {inits} times, closed {closes} times")
            st.count("ended")
        else:
            if t.closed():
                raise Violation(f"{case['sc']}: KILL QUERY ended a connection that executes no statement "
                                f"(step {case['step']})")
            raw = t.pending_bytes()
            pk, _ = P.deframe_packets(raw)
            errs = sum(P.is_err(c) for _, c in pk)
            oks = sum(c[:1] == b"\x00" for _, c in pk)
            if errs or oks != 1:
                raise Violation(f"{case['sc']}: after KILL QUERY the login got {errs} ERR and {oks} OK")
            t._advance(len(raw))
            if t.ping().kind != "ok" or t.query("SELECT a FROM t_timeout_2").kind != "rs":
                raise Violation("login disturbed by KILL QUERY")
            st.count("spared")
        st.seen(case["sc"], case["kind"], case["step"], case["how"])


UNKNOWN = ["0", "1", "4294967295", "4294967296", "99999999999999999999999", "-1", "abc", "'12'", "@@x", "1.5", "NULL",
           "", "1 2", "0x10", "CONNECTION", "?", "$"]


def run_unknown(case, st):
    with World(session=KSession) as w:
        w.rnd = random.Random(5)
        w.gate = Gate(w.loop)
        a, b, d = w.login(), w.login(), w.login()
        dead = w.login()
        did = dead.hs.thread_id
        dead.quit()
        w.quiesce()
        # b has a statement in flight
        b.send(P.com_query("SELECT a FROM t_gate_2", b.caps))
        w.quiesce()
        ident = case["id"]
        if ident == "dead":
            ident = str(did)
        elif ident.startswith("near"):
            ident = str(b.hs.thread_id + int(ident[4:]))
            if int(ident) in w.control.live:
                return
        via = case["via"]
        sql = f"KILL {case['kw']} {ident}"
        if via == "query":
            pl = a.cmd(P.com_query(sql, a.caps))
            r = P.parse_query(pl, a.caps) if pl else None
        elif via == "api":
            try:
                n = int(ident)
            except ValueError:
                return
            w.loop.run(w.control.kill(n, KillKind.QUERY if case["kw"] == Q else KillKind.CONNECTION))
            r = True
        else:
            p = a.prepare(sql)
            r = p if p.kind == "err" else a.execute(p.stmt_id) if not p.nparams else True
        if r is None or (hasattr(r, "kind") and r.kind in ("none", "closed")):
            raise Violation(f"{sql} was not answered")
        w.quiesce()
        for c in (a, d):
            if c.pending_bytes() or c.ping().kind != "ok":
                raise Violation(f"{sql} disturbed a connection")
        if b.pending_bytes() or w.gate.pending() != 1:
            raise Violation(f"{sql} disturbed a running statement of another connection")
        w.gate.release()
        w.quiesce()
        rb = P.parse_query(b.take_payloads(1), b.caps)
        if rb.kind != "rs" or len(rb.rows) != 2:
            raise Violation(f"{sql} disturbed a running statement: {rb}")
        if any(s.closing for s in w.sessions[:3]):
            raise Violation(f"{sql} closed a session")
        if len(w.control.live) != 3:
            raise Violation(f"{sql}: {len(w.control.live)} connections registered")
        st.count("unknown")
        st.seen("unknown", case["id"], case["kw"], via)


def run_self(case, st):
    """A connection kills itself: by statement, from the application or from its row source."""
    with World(session=KSession) as w:
        w.rnd = random.Random(5)
        w.gate = Gate(w.loop)
        by, t = w.login(), w.login(client_caps=CAPS[case["caps"]])
        sess = w.sessions[1]
        fsid = t.prepare("SELECT a FROM t_sync_2").stmt_id
        kind = case["kind"]
        how = case["how"]
        if how == "stmt":
            sql = f"KILL {kind} {t.hs.thread_id}"
        elif how == "multi":
            sql = f"KILL {kind} {t.hs.thread_id}; SELECT a FROM t_chk_2"
        elif how == "twice":
            sql = f"KILL {kind} {t.hs.thread_id}; KILL {kind} {t.hs.thread_id}"
        elif how == "both":
            sql = f"KILL QUERY {t.hs.thread_id}; KILL {kind} {t.hs.thread_id}; SELECT a FROM t_sync_1"
        else:
            sql = f"SELECT a FROM t_{how}{kind[0].lower()}{case.get('sfx', '')}_{case.get('n', 4)}"
        for rep in range(case.get("reps", 1)):
            if case.get("prep"):
                p = t.prepare(sql)
                if p.kind != "prep":
                    break
                pl = t.cmd(P.com_stmt_execute(p.stmt_id, [], t.caps))
                r = P.parse_query(pl, t.caps, binary=True)
            else:
                pl = t.cmd(P.com_query(sql, t.caps))
                r = P.parse_query(pl, t.caps)
            st.count("kills")
            if kind == C:
                break
            if t.closed() or sess.closing:
                raise Violation(f"{how}: KILL QUERY of itself ended the connection")
            if r.kind == "rs" and how in ("self", "rowself"):
                n = case.get("n", 4)
                if [tuple(x) for x in r.rows] != text_rows(n) and not case.get("prep"):
                    raise Violation(f"result changed: {r.rows}")
            if t.ping().kind != "ok":
                raise Violation("ping after self kill")
            r = t.query("SELECT a FROM t_cancelling_0")
            if r.kind != "rs" or (r.rows[0][0] != b"0" and not rep):
                raise Violation(f"{how}: cancellation still pending after self kill: {r}")
            for q in ("timeout", "group", "sync"):
                r = t.query(f"SELECT a FROM t_{q}_2")
                if r.kind != "rs" or [tuple(x) for x in r.rows] != text_rows(2):
                    raise Violation(f"{how}: after killing its own query: {r}")
            if t.execute(fsid).kind != "rs":
                raise Violation("prepared statement lost")
            st.count("issuer")
        if kind == C:
            w.loop.advance(100)
            w.quiesce()
            if not t.closed() or len(w.control.live) != 1:
                raise Violation(f"{how}: KILL CONNECTION of itself did not end the connection")
            if sess.closing != 1:
                raise Violation(f"{how}: session closed {sess.closing} times")
            nq = sess.count("query")
            t.deliver(P.frame(P.com_query("SELECT a FROM t_sync_2", t.caps), 0)[0])
            w.quiesce()
            if sess.count("query") != nq:
                raise Violation("killed connection executed another statement")
            st.count("ended")
            st.count("issuer")
        if by.query("SELECT a FROM t_sync_2").kind != "rs" or w.sessions[0].closing:
            raise Violation("bystander affected")
        st.seen("self", how, kind, case.get("sfx"), case.get("n"), case.get("prep"))


def run_history(case, st):
    """Random histories: several connections run commands, kill each other at random steps."""
    rnd = random.Random(case["s"])
    with World(session=KSession) as w:
        w.rnd = random.Random(5)
        w.gate = Gate(w.loop)
        n = rnd.randrange(2, 6)
        conns = [w.login(client_caps=rnd.choice(CAPS)) for _ in range(n)]
        cmds = [[] for _ in range(n)]     # what each sent, in order
        busy = [False] * n
        killsq = [0] * n
        killsc = [0] * n
        got = [0] * n
        errs = [0] * n
        modes = ["sync_2", "chk_3", "stream_4", "gate_2", "gen_10500", "timer_2", "gen_3", "timeout_2", "group_2", "swallow_2",
                 "slowclean_2", "inferred_3"]

        def collect():
            for i, c in enumerate(conns):
                raw = c.pending_bytes()
                pk, used = P.deframe_packets(raw)
                if not pk:
                    continue
                if not busy[i]:
                    if killsc[i] and len(pk) == 1 and P.is_err(pk[0][1]):
                        c._advance(used)
                        continue
                    raise Violation(f"unsolicited packet for connection {i}: {[p[1][:30] for p in pk][:3]}")
                if any(s != (k + 1) % 256 for k, (s, _) in enumerate(pk)):
                    if killsc[i]:
                        continue
                    raise Violation(f"sequence numbers {[s for s, _ in pk]}")
                try:
                    r = P.parse_query([p for _, p in pk], c.caps)
                except ProtoError as e:
                    if "missing packets" in str(e) or "truncated" in str(e):
                        continue      # not complete yet
                    if killsc[i]:
                        continue
                    raise
                c._advance(len(raw) if used == len(raw) else used)
                got[i] += 1
                busy[i] = False
                sql, exp = cmds[i][-1]
                if r.kind == "err":
                    errs[i] += 1
                    if errs[i] > killsq[i] + killsc[i]:
                        raise Violation(f"connection {i}: {errs[i]} errors but {killsq[i]} kills ({r}, {sql})")
                elif exp is not None and r.kind == "rs":
                    if [tuple(x) for x in r.rows] != exp:
                        raise Violation(f"connection {i}: wrong rows for {sql}")
        for step in range(case["n"]):
            for _ in range(rnd.randrange(0, 6)):
                if w.loop.idle():
                    break
                w.loop.step()
            collect()
            i = rnd.randrange(n)
            x = rnd.random()
            if x < 0.1 and w.gate.pending():
                w.gate.release()
            elif not busy[i] and not killsc[i] and not conns[i].closed():
                c = conns[i]
                if x < 0.55:
                    m = rnd.choice(modes)
                    k = int(m.split("_")[1])
                    exp = text_rows(3 if m.startswith("chk") else k)
                    cmds[i].append((m, exp))
                    c.send(P.com_query(f"SELECT a FROM t_{m}", c.caps))
                    busy[i] = True
                else:
                    j = rnd.randrange(n)
                    kind = C if rnd.random() < 0.12 else Q
                    cmds[i].append((f"KILL {kind} -> {j}", None))
                    (killsc if kind == C else killsq)[j] += 1
                    if j == i and kind == Q:
                        pass
                    c.send(P.com_query(f"KILL {kind} {conns[j].hs.thread_id}", c.caps))
                    busy[i] = True
                    st.count("kills")
            elif x < 0.4:
                j = rnd.randrange(n)
                kind = C if rnd.random() < 0.12 else Q
                cc = w.control.live.get(conns[j].hs.thread_id)
                if cc:
                    (killsc if kind == C else killsq)[j] += 1
                    cc.kill(KillKind[kind])
                    st.count("kills")
        for _ in range(60):
            w.gate.release_all()
            w.quiesce()
            collect()
            if not w.gate.pending():
                break
        w.loop.advance(100)
        w.quiesce()
        collect()
        for i, c in enumerate(conns):
            closes = w.sessions[i].closing
            if killsc[i]:
                # a KILL CONNECTION by a statement that was itself aborted may not have happened
                if c.closed() != (c.hs.thread_id not in w.control.live) or closes != (1 if c.closed() else 0):
                    raise Violation(f"connection {i}: closed={c.closed()} registered={c.hs.thread_id in w.control.live} "
                                    f"session closes={closes}")
                if c.closed():
                    st.count("ended")
                    continue
            if c.closed() or closes:
                raise Violation(f"connection {i} was closed by {killsq[i]} KILL QUERY")
            if busy[i]:
                raise Violation(f"connection {i}: no response to {cmds[i][-1][0]} after {killsq[i]} kills")
            if got[i] != len(cmds[i]):
                raise Violation(f"connection {i}: {got[i]} responses for {len(cmds[i])} commands")
            r = c.query("SELECT a FROM t_timeout_2")
            if r.kind != "rs":
                raise Violation(f"connection {i} unusable: {r}")
            st.count("spared")
            st.count("history_cmds", got[i])
        st.seen("hist", case["s"])


# --------------------------------------------------------------------------------------- generation
def base_steps(name):
    """Number of steps of the scenario without a kill (dry run)."""
    from vlib.runner import Stats
    r = Run({"sc": name, "plan": []}, Stats())
    return r.go(), r.t.sock.sends


_cache = {}


def steps_of(name):
    if name not in _cache:
        try:
            _cache[name] = base_steps(name)
        except Exception:
            _cache[name] = (25, 3)
    return _cache[name]


def gen(tier, seed):
    rnd = random.Random(seed * 7919 + 9)
    deep = tier == "thorough"
    yield from ({"k": "base", "sc": n, "plan": [], "caps": c} for n in SCEN if "only" not in SCEN[n]
                for c in range(3))
    for kw in ("QUERY", "CONNECTION", ""):
        for ident in UNKNOWN + ["dead", "near1", "near-1", "near65536", "near-65536", "near4294967296", "near100"]:
            for via in ("query", "api", "stmt"):
                yield {"k": "unknown", "id": ident, "kw": kw, "via": via}
    for kind in (Q, C):
        for caps in range(3):
            for prep in (False, True):
                for how in ("stmt", "multi", "twice", "both"):
                    yield {"k": "self", "how": how, "kind": kind, "caps": caps, "prep": prep, "reps": 2}
                for n in (0, 1, 4):
                    for sfx in ("", "a"):
                        yield {"k": "self", "how": "self", "kind": kind, "caps": caps, "n": n, "sfx": sfx, "prep": prep,
                               "reps": 2}
                    if n:
                        yield {"k": "self", "how": "rowself", "kind": kind, "caps": caps, "n": n, "prep": prep,
                               "reps": 2}
    for name in PRE:
        for step in range(0, 30):
            for kind in (Q, C):
                for how in ("direct", "back"):
                    yield {"k": "pre", "sc": name, "step": step, "kind": kind, "how": how}
                    yield {"k": "pre", "sc": name, "step": step, "step2": step + 1 + rnd.randrange(4), "kind": kind,
                           "how": how}
    for name in SCEN:
        if "only" in SCEN[name]:
            continue
        n, sends = steps_of(name)
        n = min(n, 120)
        pts = list(range(n + 2)) + [f"s{i}" for i in range(1, min(sends, 30) + 2)]
        for p in pts:
            for kind in (Q, C):
                for how in ("direct", "front", "back", "stmt"):
                    if isinstance(p, str) and how != "direct":
                        continue
                    c = {"k": "one", "sc": name, "plan": [[p, kind, how]], "caps": rnd.randrange(3), "r": rnd.randrange(1 << 30)}
                    yield c
        # pairs of kills
        for _ in range((60 if not name.startswith("long") else 20) if not deep else 1500):
            p = rnd.choice(pts)
            q = rnd.choice(pts + ([p] if isinstance(p, int) else []))
            if rnd.random() < 0.6 and isinstance(p, int):
                q = p + rnd.choice([0, 0, 1, 1, 2, 3])
            ks = rnd.choice([(Q, Q), (Q, Q), (Q, C), (C, Q), (C, C)])
            hows = [rnd.choice(["direct", "front", "back", "stmt"]) for _ in (0, 1)]
            plan = [[p, ks[0], hows[0]], [q, ks[1], hows[1]]]
            if rnd.random() < 0.2:
                plan.append([rnd.choice(pts), rnd.choice([Q, Q, C]), rnd.choice(["direct", "back", "stmt"])])
            yield {"k": "two", "sc": name, "plan": plan, "caps": rnd.randrange(3), "r": rnd.randrange(1 << 30)}
    # statements suspended in the application must be aborted
    for name in ("gate", "execgate", "slowclean", "convert", "timeout", "infstall", "inftimer", "infexec"):
        for how in ("direct", "front", "back", "stmt"):
            yield {"k": "must", "sc": name, "plan": [["g", Q, how]], "caps": rnd.randrange(3), "r": rnd.randrange(1 << 30)}
            yield {"k": "must", "sc": name, "plan": [["g", Q, how]] * 2, "caps": rnd.randrange(3), "r": rnd.randrange(1 << 30)}
    for i in range(400 if not deep else 6000):
        yield {"k": "hist", "s": seed * 100003 + i, "n": rnd.choice([20, 60, 120])}


def run_must(case, st):
    """The statement is suspended inside the application when the kill arrives."""
    c = dict(case)
    c["plan"] = []
    r = Run(c, st)
    s = r.sc
    with r.world() as w:
        r.others()
        r.ti = len(w.sessions)
        r.t = t = w.connect()
        t.login(client_caps=CAPS[case["caps"]])
        r.prep()
        r.released = r.switched = False
        r.sw_auth = False
        r.opened = 0
        r.start()
        for _ in range(case["r"] % 10 if case["sc"] == "inftimer" else 0):
            w.loop.advance(7)
            w.quiesce()
        while not w.loop.idle() and not w.gate.pending() and not (case["sc"] == "timeout" and
                                                                  w.sessions[r.ti].count("query")):
            w.loop.step()
        for _, kind, how in case["plan"]:
            r.kill_now(kind, how)
        for _ in range(30):
            if w.loop._ready or w.loop._sel.ready():
                w.loop.step()
        t.sock.window = None
        for _ in range(30):
            if w.loop._ready or w.loop._sel.ready():
                w.loop.step()
        if not t.pending_bytes():
            raise Violation(f"{case['sc']}: KILL QUERY did not end the statement suspended in the application")
        w.gate.release_all()
        w.quiesce()
        r.case = dict(case, must=True, plan=[])
        r.check(False)


def run(case, st):
    k = case["k"]
    if k in ("one", "two", "base"):
        Run(case, st).go()
    elif k == "must":
        run_must(case, st)
    elif k == "unknown":
        run_unknown(case, st)
    elif k == "self":
        run_self(case, st)
    elif k == "pre":
        run_preauth(case, st)
    elif k == "hist":
        run_history(case, st)
