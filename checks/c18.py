"""C18: connection ids are unique among live connections and address the right one."""
import asyncio
import random

from vlib import proto as P
from vlib.apps import FixedIdentity, Gate, RecControl, RecSession
from vlib.client import World
from vlib.runner import Violation

from mysql_mimic.constants import KillKind
from mysql_mimic.control import LocalControl, TooManyConnections

ID = "C18"
LEVEL = "exploration"
RULE = ("histories of arrivals and departures (registrations through the real Control.add/remove, and real connections of the real "
        "server); at every arrival the id is compared with the ids of everything live, its prefix with the configured server id; "
        "real connections also compare handshake id, CONNECTION_ID() and the effect of KILL; distinct = (history shape, "
        "server id, live-set size class at wrap, outcome)")
ASSUMPTIONS = ["a connection is live from the acceptance of its socket until the server has closed it and its session",
               "a KILL of an id no live connection has affects nobody"]
MIN = {"arrivals": 1500000, "wraps": 20, "refused": 100, "recovered": 100, "conn_id": 300, "kills": 200, "kill_nobody": 60, "real_conns": 60000}
DEADLINE = {"quick": 480, "thorough": 780}
CASE_CPU = 300

M = 65536
SIDS = [0, 1, 7, 255, 256, 32767, 32768, 65534, 65535, 65536, 65537, 65536 * 3 + 17, 2**31, 2**32 + 5, 2**40 + 65535, -1, -65536, None]


def gen(tier, seed):
    T = tier == "thorough"
    yield {"k": "churn", "n": 67000 if not T else 140000, "seed": f"{seed}/churn"}
    yield {"k": "realfull", "seed": f"{seed}/rf"}
    for i in range(20 if not T else 160):
        yield {"k": "ctl", "shape": ["random", "lifo", "fifo", "stride", "block", "edges", "half", "few"][i % 8], "seed": f"{seed}/c{i}"}
    for i in range(6 if not T else 50):
        yield {"k": "full", "seed": f"{seed}/f{i}"}
    for i in range(16 if not T else 200):
        yield {"k": "srv", "seed": f"{seed}/s{i}"}
    for i in range(12 if not T else 100):
        yield {"k": "srvfull", "seed": f"{seed}/sf{i}"}
    for i in range(60 if not T else 2500):
        yield {"k": "slow", "seed": f"{seed}/g{i}"}
    for i in range(150 if not T else 8000):
        yield {"k": "kill", "seed": f"{seed}/k{i}"}
    for i in range(12 if not T else 100):
        yield {"k": "stuck", "seed": f"{seed}/t{i}"}
    for i, s in enumerate(SIDS):
        yield {"k": "sid", "sid": s, "seed": f"{seed}/i{i}"}


def run(case, st):
    return globals()["run_" + case["k"]](case, st, random.Random(case["seed"]))


class Dummy:
    """Something registered with the control (the library only calls kill on it)."""

    def __init__(self):
        self.killed = []

    def kill(self, kind=KillKind.CONNECTION):
        self.killed.append(kind)


def drive(coro):
    """Run a coroutine that has nothing to wait for."""
    try:
        coro.send(None)
    except StopIteration as e:
        return e.value
    coro.close()
    raise RuntimeError("Control coroutine blocked")


class Reg:
    """Registrations through the Control API, with the monitor of uniqueness and prefix."""

    def __init__(self, st, control, sid):
        self.st, self.control, self.sid = st, control, sid
        self.live = {}
        self.real = {}
        self.prefix = None if sid is None else sid % M
        self.last = None

    def judge(self, cid):
        st = self.st
        st.count("arrivals")
        if type(cid) is not int or not 0 <= cid < 2**32:
            raise Violation(f"connection id {cid!r} is not a 32-bit number (server id {self.sid})")
        if self.prefix is None:
            self.prefix = cid >> 16
        if cid >> 16 != self.prefix:
            raise Violation(f"connection id {cid:#x}: upper half is {cid >> 16:#x}, server id {self.sid} -> {self.prefix:#x}")
        if cid in self.live or cid in self.real:
            raise Violation(f"id {cid:#x} was given to a new connection while a live one has it ({len(self.live) + len(self.real)} live)")
        if self.last is not None and cid < self.last:
            st.count("wraps")
        self.last = cid

    def add(self):
        d = Dummy()
        cid = drive(self.control.add(d))
        self.judge(cid)
        self.live[cid] = d
        d.cid = cid
        return cid

    def remove(self, cid):
        drive(self.control.remove(cid))
        del self.live[cid]

    def total(self):
        return len(self.live) + len(self.real)

    def churn(self, n, keep=lambda i: False):
        out = []
        for i in range(n):
            cid = self.add()
            if keep(i):
                out.append(cid)
            else:
                self.remove(cid)
        return out

    def kill(self, cid, kind=KillKind.CONNECTION):
        drive(self.control.kill(cid, kind))
        self.st.count("kills")
        for k, d in self.live.items():
            if d.killed and k != cid:
                raise Violation(f"KILL {cid:#x} hit the connection {k:#x}")
        d = self.live.get(cid)
        if d is not None:
            if len(d.killed) != 1 or d.killed[0] is not kind:
                raise Violation(f"KILL {kind} {cid:#x}: connection saw {d.killed!r}")
            d.killed.clear()
        else:
            self.st.count("kill_nobody")


def control(sid, rec=True):
    return RecControl(server_id=sid) if rec else LocalControl(server_id=sid)


def probe(reg, rng, n=3):
    ids = list(reg.live)
    for _ in range(n):
        if ids:
            reg.kill(rng.choice(ids), rng.choice([KillKind.CONNECTION, KillKind.QUERY]))
        x = rng.choice([0, rng.randrange(2**32), rng.randrange(M), (reg.prefix or 0) << 16 | rng.randrange(M), ((reg.prefix or 0) + 1) % M << 16 | rng.randrange(M),
                        2**32 + (ids[0] if ids else 0), -(ids[0] if ids else 1)])
        if x not in reg.real:
            reg.kill(x)


# ------------------------------------------------------------------ control level
def run_ctl(case, st, rng):
    shape = case["shape"]
    sid = rng.choice(SIDS)
    reg = Reg(st, control(sid, rec=False), sid)
    target = rng.choice([1, 2]) * M + rng.randint(100, 3000)
    arrived = 0
    live_order = []
    if shape == "half":
        for _ in range(M // 2):
            live_order.append(reg.add())
        arrived += M // 2
        for cid in live_order[::2]:
            reg.remove(cid)
        live_order = live_order[1::2]
    if shape == "block":
        n = rng.choice([1, 255, 256, 5000, 40000])
        reg.churn(rng.choice([0, 1, 60000, 65530]))
        live_order = [reg.add() for _ in range(n)]
        arrived += n
    if shape == "edges":
        ids = [reg.add() for _ in range(M)]
        keep = {cid for cid in ids if cid & 0xffff in (0, 1, 255, 256, 257, 32767, 32768, 65534, 65535)}
        if rng.random() < .5:
            keep = {cid for cid in keep if rng.random() < .6}
        for cid in ids:
            if cid not in keep:
                reg.remove(cid)
        live_order = sorted(keep)
        arrived += M
    stride = rng.choice([2, 3, 7, 256, 257, 4096])
    while arrived < target:
        burst = rng.choice([1, 5, 300, 4000])
        arrived += burst
        if shape in ("half", "block", "edges"):
            reg.churn(burst)
            if rng.random() < .1 and live_order:
                reg.remove(live_order.pop(rng.randrange(len(live_order))))
            if rng.random() < .1:
                live_order.append(reg.add())
        elif shape == "stride":
            live_order += reg.churn(burst, lambda i: i % stride == 0)
            while len(live_order) > 40000:
                reg.remove(live_order.pop(rng.randrange(len(live_order))))
        elif shape == "few":
            live_order += reg.churn(burst, lambda i: rng.random() < 3e-4)
        else:
            for _ in range(burst):
                if reg.total() < M:
                    live_order.append(reg.add())
            for _ in range(min(len(live_order), rng.randint(0, int(burst * 1.8)))):
                if shape == "lifo":
                    i = len(live_order) - 1
                elif shape == "fifo":
                    i = 0
                else:
                    i = rng.randrange(len(live_order))
                    live_order[i], live_order[-1] = live_order[-1], live_order[i]
                    i = len(live_order) - 1
                reg.remove(live_order.pop(i))
        if rng.random() < .02:
            probe(reg, rng, 1)
            drive(reg.control.remove(rng.choice([-1, 0 if 0 not in reg.live else -5, 2**33])))
    probe(reg, rng)
    st.seen("ctl", shape, sid, len(reg.live).bit_length(), arrived // M)
    st.peak("live", len(reg.live))


def must_refuse(reg, st):
    try:
        cid = drive(reg.control.add(Dummy()))
    except TooManyConnections:
        st.count("refused")
        return
    raise Violation(f"registry full with 65536 live connections, a new one got the id {cid:#x}")


def fill(reg, upto=M):
    try:
        while reg.total() < upto:
            reg.add()
    except TooManyConnections:
        raise Violation(f"refused although only {reg.total()} ids are in use") from None


def run_full(case, st, rng):
    sid = rng.choice(SIDS)
    reg = Reg(st, control(sid, rec=False), sid)
    reg.churn(rng.choice([0, 1, 1000, 65535, 65536, 70000]))
    fill(reg)
    for _ in range(3):
        must_refuse(reg, st)
    for j in range(25):
        k = rng.choice([1, 1, 1, 2, 5])
        for cid in rng.sample(list(reg.live), k):
            reg.remove(cid)
        if rng.random() < .3:
            reg.remove(reg.add())
        fill(reg)
        st.count("recovered")
        must_refuse(reg, st)
    probe(reg, rng)
    # everybody leaves
    for cid in list(reg.live):
        reg.remove(cid)
    reg.churn(100)
    st.seen("full", sid)


# ------------------------------------------------------------------ server level
class Srv:
    def __init__(self, st, rng, sid, handler=None, session=RecSession, control_=None, **kw):
        self.st, self.rng = st, rng
        self.control = control_ or control(sid)
        self.w = World(session=session, control=self.control, identity=FixedIdentity(allow_any=True), handler=handler, **kw)
        self.reg = Reg(st, self.control, sid)
        self.up = []

    def tidy(self):
        self.w.log.clear()
        self.control.log.clear()

    def greet(self):
        c = self.w.connect()
        hs = c.greet()
        if hs is None:
            return c, c.greet_err
        cid = hs.thread_id
        self.st.count("real_conns")
        self.reg.judge(cid)
        self.reg.real[cid] = c
        c.cid = cid
        c.mode = "greeted"
        self.up.append(c)
        return c, None

    def refused(self):
        c, err = self.greet()
        if err is None:
            raise Violation(f"all 65536 ids in use, but a client was greeted with id {c.cid:#x}")
        if err.code != 1040:
            raise Violation(f"all 65536 ids in use: refused with {err!r}, expected error 1040")
        if not c.closed():
            raise Violation("a refused connection stays open")
        self.w.conns.remove(c)
        self.st.count("refused")

    def login(self, c=None):
        if c is None:
            c, err = self.greet()
            if err:
                raise Violation(f"connection refused ({err!r}) with {self.reg.total()} live connections")
        r = c.login()
        if r.kind != "ok":
            raise Violation(f"login: {r!r}")
        c.mode = "idle"
        return c

    def gone(self, c):
        self.reg.real.pop(c.cid, None)
        if c in self.up:
            self.up.remove(c)
        if c in self.w.conns:
            self.w.conns.remove(c)

    def end(self, c, how):
        """End a connection (the client's side)."""
        if how == "quit" and c.mode == "idle":
            c.quit()
        elif how == "reset":
            c.reset()
            self.w.quiesce()
        elif how == "badauth" and c.mode == "greeted":
            # a handshake response that is garbage
            c.deliver(P.frame(b"\0\0\0", 1)[0])
            self.w.quiesce()
            if not c.closed():
                c.eof()
                self.w.quiesce()
        elif how == "protocol":
            c.deliver(P.frame(b"\x03SELECT 1", 9)[0])
            self.w.quiesce()
            if not c.closed():
                c.eof()
                self.w.quiesce()
        else:
            c.eof()
            self.w.quiesce()
        if not c.closed():
            raise Violation(f"connection {c.cid:#x} still open after {how}")
        self.gone(c)

    def ids(self, c):
        """handshake id == CONNECTION_ID()"""
        r = c.query(self.rng.choice(["SELECT CONNECTION_ID()", "select connection_id()", "SELECT CONNECTION_ID() AS x", "SELECT CONNECTION_ID( )"]))
        if r.kind != "rs" or len(r.rows) != 1 or r.rows[0][0] != str(c.cid).encode():
            raise Violation(f"handshake announced id {c.cid}, CONNECTION_ID() returns {getattr(r, 'rows', r)!r}")
        if self.rng.random() < .3:
            p = c.prepare("SELECT CONNECTION_ID()")
            r = c.execute(p.stmt_id)
            v = r.rows[0][0] if r.kind == "rs" and r.rows else None
            if v not in (c.cid, str(c.cid).encode()):
                raise Violation(f"handshake announced id {c.cid}, a prepared CONNECTION_ID() returns {v!r}")
        self.st.count("conn_id")

    def alive(self, skip=()):
        for c in self.up:
            if c in skip:
                continue
            if c.closed():
                raise Violation(f"connection {c.cid:#x} was closed by the server, nobody asked for that")
            if c.mode == "idle":
                if c.ping().kind != "ok":
                    raise Violation(f"connection {c.cid:#x} does not answer PING")

    def kill(self, issuer, cid, kind="", via="text"):
        """KILL issued by a connection; the monitor knows who may be affected."""
        sql = f"KILL {kind} {cid}".replace("  ", " ")
        target = self.reg.real.get(cid)
        for d in self.reg.live.values():
            d.killed.clear()
        if via == "prep":
            p = issuer.prepare(f"KILL {kind} ?".replace("  ", " "))
            issuer.send(P.com_stmt_execute(p.stmt_id, [("u64" if 0 <= cid else "i64", cid)], issuer.caps))
        else:
            issuer.send(P.com_query(sql, issuer.caps))
        self.w.quiesce()
        self_kill = target is issuer
        pl = issuer.take_payloads(issuer._expect)
        if not self_kill or kind == "QUERY":
            if issuer.closed():
                raise Violation(f"{sql} by {issuer.cid:#x}: the issuer was closed")
            r = P.parse_query(pl, issuer.caps)
            if r.kind == "err" and not self_kill:
                raise Violation(f"{sql} answered {r.err!r}")
        self.st.count("kills")
        for k, d in self.reg.live.items():
            if d.killed and k != cid:
                raise Violation(f"KILL {cid:#x} hit {k:#x}")
        d = self.reg.live.get(cid)
        if d is not None and len(d.killed) != 1:
            raise Violation(f"KILL {cid:#x} did not reach the connection registered with that id ({d.killed!r})")
        if d is not None:
            d.killed.clear()
        if target is None and d is None:
            self.st.count("kill_nobody")
        if target is not None and kind != "QUERY":
            if not target.closed():
                raise Violation(f"{sql}: the connection that was greeted with id {cid:#x} ({target.mode}) is still open")
            self.gone(target)
        self.alive()

    def close(self):
        self.w.close()


def run_sid(case, st, rng):
    sid = case["sid"]
    s = Srv(st, rng, sid)
    for _ in range(3):
        c = s.login()
        s.ids(c)
    c = s.login()
    s.kill(c, s.up[0].cid)
    s.kill(c, s.up[0].cid ^ 1 << 31)
    s.reg.churn(M + 50)
    s.ids(s.login())
    s.ids(c)
    s.kill(c, s.up[0].cid)
    st.seen("sid", sid)
    s.close()


def run_srv(case, st, rng):
    """Real long-lived connections across one or more wrap-arounds."""
    sid = rng.choice(SIDS)
    s = Srv(st, rng, sid)
    s.reg.churn(rng.choice([0, 3, 65533, 65535]))
    for _ in range(rng.randint(2, 6)):
        s.login()
        s.reg.churn(rng.choice([0, 0, 1, 2, 500]))
    s.reg.churn(rng.choice([0, 10]), lambda i: rng.random() < .3)
    half, err = s.greet()     # stays in the handshake
    for rnd in range(rng.randint(1, 2)):
        used = s.reg.total()
        # until just before the sequence comes around
        s.reg.churn(M - rng.choice([4, 8, 12, 30]) - used)
        s.tidy()
        for _ in range(rng.randint(5, 40)):
            r = rng.random()
            if r < .6:
                c, err = s.greet()
                if err:
                    raise Violation(f"refused: {err!r}")
                if rng.random() < .5:
                    s.login(c)
                    s.ids(c)
                if rng.random() < .6:
                    s.end(c, rng.choice(["quit", "eof", "reset", "badauth", "protocol"]))
            elif r < .8:
                s.reg.churn(rng.randint(1, 5), lambda i: rng.random() < .2)
            elif len(s.up) > 3:
                c = rng.choice([c for c in s.up if c is not half])
                s.end(c, rng.choice(["quit", "eof", "reset"]))
        for c in list(s.up):
            if c.mode == "idle":
                s.ids(c)
        idle = [c for c in s.up if c.mode == "idle"]
        if len(idle) >= 2:
            s.kill(idle[0], idle[1].cid)
        if half in s.up and idle and rng.random() < .5:
            s.kill(idle[0], half.cid)
        while len([c for c in s.up if c.mode == "idle"]) < 2:
            s.login()
    st.sample(f"server id {sid}: {len(s.up)} real and {len(s.reg.live)} other survivors after the wrap: {[hex(c.cid) for c in s.up][:6]}")
    st.seen("srv", sid, len(s.up), len(s.reg.live))
    s.close()


def run_srvfull(case, st, rng):
    """Completely full registry: ERR 1040; then any way of ending one connection lets one in."""
    sid = rng.choice(SIDS)
    gate = None

    def handler(se, sql, attrs, expression=None):
        return gate.wait()
    s = Srv(st, rng, sid, handler=handler)
    gate = Gate(s.w.loop)
    for _ in range(rng.randint(3, 8)):
        s.login() if rng.random() < .7 else s.greet()
    fill_at = rng.randint(0, 3)
    s.reg.churn(rng.choice([0, 100, 65000]))
    fill(s.reg, M - fill_at)
    for _ in range(fill_at):
        s.login()
    s.tidy()
    for _ in range(rng.randint(1, 3)):
        s.refused()
    s.alive()
    for _ in range(rng.randint(6, 12)):
        idle = [c for c in s.up if c.mode == "idle"]
        ways = ["dummy"]
        if s.up:
            ways += ["eof", "reset", "protocol"]
        if len(idle) > 1:
            ways += ["quit", "kill", "inflight", "selfkill"]
        how = rng.choice(ways)
        if how == "dummy":
            s.reg.remove(rng.choice(list(s.reg.live)))
        elif how == "kill":
            s.kill(idle[0], rng.choice(idle[1:]).cid)
        elif how == "selfkill":
            s.kill(idle[1], idle[1].cid)
        elif how == "inflight":
            c = idle[1]
            c.send(P.com_query("SELECT a FROM t", c.caps))
            s.w.quiesce()
            # it ends when the application returns (the server does not look at the socket before)
            c.eof() if rng.random() < .5 else c.reset()
            s.w.quiesce()
            gate.release_all()
            s.w.quiesce()
            if not c.closed():
                raise Violation(f"connection {c.cid:#x} still open: client gone, query over")
            s.gone(c)
        else:
            c = rng.choice(s.up if how != "quit" else idle)
            s.end(c, how)
        if s.reg.total() != M - 1:
            raise Violation(f"harness: {s.reg.total()} live")
        if rng.random() < .2:
            # come and go
            c, err = s.greet()
            if err:
                raise Violation(f"after a connection ended ({how}) a client is still refused: {err!r}")
            s.end(c, "eof")
        c, err = s.greet()
        if err:
            raise Violation(f"after a connection ended ({how}) a client is still refused: {err!r}")
        st.count("recovered")
        if rng.random() < .8:
            s.login(c)
            s.ids(c)
        s.refused()
        s.alive()
        st.seen("srvfull", how, len(s.up))
        s.tidy()
    s.close()


class SlowControl(RecControl):
    gate = None

    async def add(self, connection):
        await self.gate.wait()
        cid = await super().add(connection)
        connection.given = cid
        await self.gate.wait()
        return cid

    async def remove(self, connection_id):
        await self.gate.wait()
        return await super().remove(connection_id)


def run_slow(case, st, rng):
    """A control with asynchronous add/remove: arrivals overlap in every order."""
    sid = rng.choice(SIDS)
    ctl = SlowControl(server_id=sid)
    s = Srv(st, rng, sid, control_=ctl)
    ctl.gate = Gate(s.w.loop)
    conns = []
    waiting = []
    for _ in range(rng.randint(3, 30)):
        r = rng.random()
        if r < .35:
            conns.append(s.w.connect())
            waiting.append(conns[-1])
        elif r < .9:
            p = [f for f in ctl.gate.waiting if not f.done()]
            if p:
                rng.choice(p).set_result(None)
        else:
            open_ = [c for c in s.up if c.mode == "greeted"]
            if open_:
                c = rng.choice(open_)
                c.eof()
                s.gone(c)
        s.w.quiesce()
        for c in list(waiting):
            if c.pending_bytes():
                waiting.remove(c)
                c.greet()
                c.cid = c.hs.thread_id
                c.mode = "greeted"
                if c.cid in s.reg.real:
                    raise Violation(f"id {c.cid:#x} announced to two live connections")
                s.reg.judge(c.cid)
                s.reg.real[c.cid] = c
                s.up.append(c)
    for _ in range(500):
        p = [f for f in ctl.gate.waiting if not f.done()]
        if not p:
            break
        rng.choice(p).set_result(None)
        s.w.quiesce()
    for c in waiting:
        if not c.pending_bytes():
            raise Violation("a client was never greeted")
        c.greet()
        c.cid = c.hs.thread_id
        c.mode = "greeted"
        s.reg.judge(c.cid)
        s.reg.real[c.cid] = c
        s.up.append(c)
    for c in list(s.up):
        s.login(c)
        s.ids(c)
        st.count("slow_conns")
    # and each id addresses its own connection
    order = list(s.up)
    rng.shuffle(order)
    ctl.gate.wait = noop_wait
    while len(order) > 1:
        t = order.pop()
        s.kill(order[0], t.cid)
    st.seen("slow", sid, len(conns))
    s.close()


async def noop_wait():
    return None


def run_kill(case, st, rng):
    """Connections in all sorts of states; each KILL must end exactly the one greeted with that id."""
    sid = rng.choice(SIDS)
    gate = None

    def handler(se, sql, attrs, expression=None):
        return gate.wait()
    s = Srv(st, rng, sid, handler=handler)
    gate = Gate(s.w.loop)
    if rng.random() < .1:
        s.reg.churn(rng.choice([255, 256, 65530, 65536]))
    issuer = s.login()
    for _ in range(rng.randint(2, 7)):
        c, _e = s.greet()
        r = rng.random()
        if r < .2:
            continue
        if r < .3:
            # login as a user of a longer authentication: stop after half of the packet
            c.deliver(P.frame(P.handshake_response(P.BASE_CAPS), 1)[0][:20])
            s.w.quiesce()
            c.mode = "auth"
            continue
        s.login(c)
        if rng.random() < .4:
            c.send(P.com_query("SELECT a FROM t", c.caps))
            s.w.quiesce()
            c.mode = "busy"
        elif rng.random() < .3:
            r = c.resp(P.com_change_user(c.caps, b"other", b"", plugin=b"mysql_native_password"), lambda pl: P.parse_simple(pl, c.caps))
            s.ids(c)
        elif rng.random() < .2:
            c.resp(bytes([0x1f]), lambda pl: P.parse_simple(pl, c.caps))
            s.ids(c)
    for _ in range(rng.randint(2, 7)):
        kind = rng.choice(["", "CONNECTION", "QUERY", "connection"])
        via = rng.choice(["text", "text", "prep"])
        r = rng.random()
        others = [c for c in s.up if c is not issuer]
        if r < .6 and others:
            t = rng.choice(others)
            mode = t.mode
            s.kill(issuer, t.cid, kind, via)
            st.seen("kill", mode, kind, via)
            if kind == "QUERY" and mode == "busy":
                # its query is over now, the connection is not
                pl = t.take_payloads(t._expect)
                if not pl:
                    raise Violation(f"KILL QUERY {t.cid:#x} did not stop the query of that connection")
                t.mode = "idle"
                s.alive()
        else:
            x = rng.choice([0, 1, 5, issuer.cid ^ 0x10000, issuer.cid ^ 1 << 31, issuer.cid + 2**32, 2**32 - 1, 2**40, 2**63, issuer.cid & 0xffff, issuer.cid << 16])
            dead = [i for i in range(issuer.cid, issuer.cid + 12) if i not in s.reg.real and i >> 16 == s.reg.prefix]
            if rng.random() < .4 and dead:
                x = rng.choice(dead)
            if x in s.reg.real:
                continue
            busy = [c for c in s.up if c.mode == "busy"]
            s.kill(issuer, x, kind, via)
            for c in busy:
                if c.pending_bytes():
                    raise Violation(f"KILL {kind} {x:#x} (no such connection) interrupted {c.cid:#x}")
        if rng.random() < .3:
            s.login()
    if rng.random() < .3:
        s.kill(issuer, issuer.cid)
    s.close()


class Stuck(RecSession):
    """query(): does not go away when cancelled, until the gate opens."""
    hold = None

    async def query(self, expression, sql, attrs):
        while not self.hold.opened:
            try:
                await self.hold.wait()
            except asyncio.CancelledError:
                pass
        return [(1,)], ["a"]

    async def close(self):
        while not self.hold.opened:
            try:
                await self.hold.wait()
            except asyncio.CancelledError:
                pass
        await super().close()


def run_stuck(case, st, rng):
    """Connections that have been killed / have lost their client but are still being served keep their ids."""
    sid = rng.choice(SIDS)
    s = Srv(st, rng, sid, session=Stuck)
    gate = Gate(s.w.loop)
    gate.opened = False
    s.w.setup = lambda se: setattr(se, "hold", gate)
    issuer = s.login()
    stuck = []
    for _ in range(rng.randint(2, 5)):
        c = s.login()
        s.reg.churn(rng.choice([0, 0, 3]))
        how = rng.choice(["query", "query-kill", "query-eof", "close"])
        if how.startswith("query"):
            c.send(P.com_query("SELECT a FROM t", c.caps))
            s.w.quiesce()
            c.mode = "busy"
        if how == "query-kill":
            for _ in range(rng.randint(1, 2)):
                issuer.query(f"KILL {c.cid}")
        elif how == "query-eof":
            c.eof()
            s.w.quiesce()
        elif how == "close":
            c.deliver(P.frame(b"\x01", 0)[0])
            s.w.quiesce()
        stuck.append((c, how))
    n = len(s.w.tasks())
    s.reg.churn(M + 40)        # Reg.judge: ids of stuck connections are still taken
    for _ in range(3):
        s.ids(s.login())
    if len(s.w.tasks()) < n:
        raise Violation("harness: a stuck connection ended")
    if rng.random() < .5:
        # full: stuck connections count
        fill(s.reg)
        s.refused()
    gate.opened = True
    gate.release_all()
    s.w.quiesce()
    for c, how in stuck:
        if how == "query":
            c.take_payloads(c._expect)
            c.mode = "idle"
            s.ids(c)
        else:
            if not c.closed():
                raise Violation(f"connection {c.cid:#x} still open after its application returned ({how})")
            s.gone(c)
    c, err = s.greet()
    if err:
        raise Violation(f"refused ({err!r}) with {s.reg.total()} live connections")
    s.alive()
    st.seen("stuck", sid, tuple(h for _, h in stuck))
    s.close()


def run_churn(case, st, rng):
    """Nothing but real connections: more arrivals than there are ids, with survivors."""
    sid = rng.choice(SIDS)
    s = Srv(st, rng, sid)
    survivors = {0, 1, 255, 256, 30000, 65534, 65535, 65536} | {rng.randrange(M) for _ in range(8)}
    for i in range(case["n"]):
        c, err = s.greet()
        if err:
            raise Violation(f"refused: {err!r} with {s.reg.total()} live")
        if i in survivors:
            s.login(c)
        else:
            s.end(c, rng.choice(["eof", "eof", "eof", "reset", "badauth"]))
        if i % 50 == 0:
            s.tidy()
            s.w.sessions.clear()
    for c in s.up:
        s.ids(c)
    while len(s.up) > 1:
        s.kill(s.up[0], s.up[-1].cid)
    st.seen("churn", sid)
    s.close()


def run_realfull(case, st, rng):
    """65536 real connections at once."""
    sid = rng.choice(SIDS)
    s = Srv(st, rng, sid)
    conns = [s.w.connect() for _ in range(M)]
    s.w.quiesce(10**7)
    for c in conns:
        if c.greet_no_run() is None:
            raise Violation(f"refused: {c.greet_err!r} with {s.reg.total()} live")
        c.cid = c.hs.thread_id
        s.reg.judge(c.cid)
        s.reg.real[c.cid] = c
        c.mode = "greeted"
        s.up.append(c)
        st.count("real_conns")
    s.tidy()
    for _ in range(3):
        s.refused()
    for _ in range(4):
        c = rng.choice(s.up)
        s.end(c, rng.choice(["eof", "reset", "badauth"]))
        n = s.login()
        s.ids(n)
        s.refused()
        st.count("recovered")
    st.peak("live_real", len(s.up))
    # do not bother to shut 65536 tasks down one by one
    s.w.loop._on = False
