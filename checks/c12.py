"""C12: results stream lazily with back-pressure and without starving other clients."""
import asyncio
import random

from vlib import proto as P
from vlib.apps import RecBase, RecSession
from vlib.client import World
from vlib.proto import ProtoError
from vlib.runner import Violation

from mysql_mimic import ResultColumn, ResultSet
from mysql_mimic.types import ColumnType as CT

ID = "C12"
LEVEL = "exploration"
RULE = ("one execution = (row source, row shape, protocol, socket-window script | other connections' commands); the instrumented "
        "source reports every pull; distinct = (source, shape, protocol, script)")
# what may have been pulled without having been accepted by the client's socket
MAX_ROWS = 60_000
MAX_BYTES = 600_000
MAX_BYTES_TLS = 3_000_000
# rows a streaming connection may produce while another connection waits for one response
FAIR = 150_000
# row objects alive at the same time
MAX_LIVE = 80_000
ASSUMPTIONS = [f"'a fixed bound' = at most {MAX_ROWS} rows and {MAX_BYTES} bytes (+ 2 rows; TLS: {MAX_BYTES_TLS}) in flight, "
               f"'a bounded number of its rows' = {FAIR} rows per streaming connection and round trip, at most {MAX_LIVE} row "
               "objects alive"]
EXHAUSTIVE = []
MIN = {"pulls": 1000000, "stalls": 300, "answered": 40}
DEADLINE = {"quick": 480, "thorough": 800}
CASE_CPU = 60
CAPS = [P.BASE_CAPS | P.DEPRECATE_EOF | P.LENENC_AUTH, P.BASE_CAPS | P.LENENC_AUTH,
        P.BASE_CAPS | P.DEPRECATE_EOF | P.OPTIONAL_META | P.QUERY_ATTRIBUTES | P.LENENC_AUTH]


class Row(list):
    live = 0
    peak = 0

    def __init__(self, it):
        super().__init__(it)
        Row.live += 1
        if Row.live > Row.peak:
            Row.peak = Row.live

    def __del__(self):
        Row.live -= 1


def lenenc_len(n):
    return n + (1 if n < 251 else 3 if n < 65536 else 4 if n < 1 << 24 else 9)


class Source:
    """An endless, never suspending row source that tells the monitor about every pull."""

    def __init__(self, shape, ncols, hook, limit=None):
        self.ncols = ncols
        self.shape = shape
        self.hook = hook
        self.pulled = 0
        self.bytes = 0
        self.stop = False
        self.limit = limit
        self.closed = 0
        self.wide = "w" * 50_000
        self.huge = "h" * 1_000_000
        self.biggest = 0
        self.binary = False
        self.numeric = False

    def value(self, i, j):
        s = self.shape
        if s == "null":
            return None
        if s == "nullcol":
            return None if j == 0 else i
        if s == "latenull":      # the first column has a value only after a while
            return (None if i < 700 else "v") if j == 0 else "z"
        if s == "latenull2":
            return (None if i < 9000 else "v") if j == 0 else None
        if s == "tiny":
            return "x"
        if s == "empty":
            return ""
        if s == "int":
            return i % 100
        if s == "k":
            return "k" * 1000
        if s == "wide":
            return self.wide
        if s == "huge":
            return self.huge
        if s == "mix":
            return (None, "x", "k" * 300, self.wide)[(i * 7 + j) % 4 if i % 50 == 0 else (i + j) % 3]
        if s == "pow":
            return "p" * (1 << (i % 18))
        return "s" * 100

    def row(self):
        if self.stop or (self.limit is not None and self.pulled >= self.limit):
            return None
        i = self.pulled
        self.pulled += 1
        r = Row(self.value(i, j) for j in range(self.ncols))
        if self.binary:
            n = 5 + (self.ncols + 9) // 8
            for v in r:
                if v is not None:
                    n += 8 if self.numeric else lenenc_len(len(str(v)))
        else:
            n = 4
            for v in r:
                n += 1 if v is None else lenenc_len(len(str(v)))
        self.bytes += n
        if n > self.biggest:
            self.biggest = n
        self.hook(self)
        return r

    def __iter__(self):
        return self

    def __next__(self):
        r = self.row()
        if r is None:
            raise StopIteration
        return r


class Again:
    """Not an iterator, but it can be iterated"""

    def __init__(self, src):
        self.src = src

    def __iter__(self):
        while True:
            r = self.src.row()
            if r is None:
                return
            yield r


class ASource(Source):
    __iter__ = None

    def __aiter__(self):
        return self

    async def __anext__(self):
        r = self.row()
        if r is None:
            raise StopAsyncIteration
        return r


def as_kind(kind, src):
    if kind == "gen":
        def g():
            while True:
                r = src.row()
                if r is None:
                    return
                yield r
        return g()
    if kind == "again":
        return Again(src)
    if kind == "agen":
        async def ag():
            while True:
                r = src.row()
                if r is None:
                    return
                yield r
        return ag()
    if kind == "agensleep":
        async def ag2():
            while True:
                r = src.row()
                if r is None:
                    return
                if src.pulled % 1000 == 0:
                    await asyncio.sleep(0)
                yield r
        return ag2()
    return src


class App(RecSession):
    async def query(self, expression, sql, attrs):
        if "small" in sql:
            return [("one", 1)], ["a", "b"]
        if "await" in sql:
            await asyncio.sleep(0)
            await asyncio.sleep(0)
            return [("one", 1)], ["a", "b"]
        return self.world.result(self, sql)

    async def schema(self):
        return {"db1": {"tab": {"c1": "TEXT"}}}


class AppB(RecBase):
    async def handle_query(self, sql, attrs):
        if "small" in sql or "await" in sql or "SHOW" in sql or "@@" in sql:
            return [("one", 1)], ["a", "b"]
        return self.world.result(self, sql)


def columns(case, n):
    if case["cols"] == "inferred":
        return [f"c{i}" for i in range(n)]
    if case["cols"] == "mixed":
        return [f"c{i}" if i % 2 == 0 else ResultColumn(f"c{i}", CT.VARCHAR) for i in range(n)]
    return [ResultColumn(f"c{i}", CT.LONGLONG if case["shape"] in ("int",) else CT.VARCHAR) for i in range(n)]


def build(case, w, hook):
    src = (ASource if case["src"] in ("aiter",) else Source)(case["shape"], case["n"], hook, case.get("limit"))
    src.binary = case["proto"] != "text"
    src.numeric = case["shape"] == "int" and case["cols"] in ("typed", "inferred") or case["shape"] == "nullcol" and \
        case["cols"] == "inferred"
    rows = as_kind(case["src"], src)
    cols = columns(case, case["n"])
    if case["cols"] == "rs":
        return src, ResultSet(rows, [ResultColumn(f"c{i}", CT.VARCHAR) for i in range(case["n"])])
    return src, (rows, cols)


class Flow:
    """Online monitor of one streaming connection."""

    def __init__(self, case, conn, tls=False):
        self.case = case
        self.c = conn
        self.start = None
        self.problem = None
        self.max_rows = self.max_bytes = 0
        self.tls = tls
        self.cap = MAX_BYTES_TLS if tls else MAX_BYTES
        self.accepted_rows_at = []

    def begin(self):
        self.start = len(self.c.sock.out)

    def pull(self, src):
        acc = len(self.c.sock.out) - self.start
        ahead = src.bytes - acc
        # rows certainly not covered by what was accepted (rows are in order; the last `ahead` bytes are missing)
        lo = 4 + src.ncols if not src.binary else 5 + (src.ncols + 9) // 8
        rows = min(src.pulled, max(0, ahead) // lo + 1)
        if self.case["shape"] in ("null", "tiny", "empty", "int", "k", "s"):
            rows = int(max(0, ahead) // (src.bytes / src.pulled)) + 1
        if ahead > self.max_bytes:
            self.max_bytes = ahead
        if rows > self.max_rows and self.case["shape"] in ("null", "tiny", "empty", "int", "k", "s"):
            self.max_rows = rows
        if ahead > self.cap + 2 * src.biggest or (ahead > 100_000 and rows > MAX_ROWS and
                                                 self.case["shape"] in ("null", "tiny", "empty", "int")
                                                 and not self.tls):
            if not self.problem:
                self.problem = (f"{src.pulled} rows ({src.bytes} bytes) were pulled although the client's socket accepted only "
                                f"{acc} bytes")
            src.stop = True
        if Row.live > MAX_LIVE:
            if not self.problem:
                self.problem = f"{Row.live} rows are held in memory after {src.pulled} rows"
            src.stop = True


def run_stall(case, st):
    rnd = random.Random(case["s"])
    tls = case.get("tls")
    Row.live = Row.peak = 0
    with World(session=AppB if case.get("base") else App, tls=bool(tls)) as w:
        by = w.login(tls=bool(tls)) if tls else w.login()
        t = w.login(client_caps=CAPS[case["caps"]], tls=bool(tls))
        flow = Flow(case, t, tls)
        box = {}

        def result(session, sql):
            src, res = build(case, w, flow.pull)
            box["src"] = src
            return res
        w.result = result
        flow.begin()
        win = case["win"]
        sock = t.sock
        sock.window = win
        if case.get("max_send"):
            sock.max_send = case["max_send"]
        proto = case["proto"]
        sent = 0
        if proto == "text":
            t.deliver(P.frame(P.com_query("SELECT a FROM big", t.caps), 0)[0])
        else:
            sock.window = None
            sid = t.prepare("SELECT a FROM big").stmt_id
            if proto == "binary":
                flow.begin()
                sock.window = win
                t.deliver(P.frame(P.com_stmt_execute(sid, [], t.caps), 0)[0])
            else:
                r = t.execute(sid, cursor=True)
                if flow.problem:
                    raise Violation("executing with a cursor: " + flow.problem)
                if "src" in box and box["src"].pulled > 12_000:
                    raise Violation(f"{box['src'].pulled} rows were pulled before the first fetch")
                w.quiesce()
                before = box["src"].pulled
                flow.begin()
                box["src"].bytes = 0
                fcnt = case["fetch"]
                sock.window = win
                t.deliver(P.frame(P.com_stmt_fetch(sid, fcnt), 0)[0])
        stalled_at = None
        for i in range(case["rounds"]):
            w.quiesce()
            if flow.problem:
                raise Violation(f"{case['src']}/{case['shape']}/{proto}: {flow.problem}")
            src = box.get("src")
            if src is None:
                raise Violation("the application was not asked")
            if proto == "fetch" and src.pulled > case["fetch"] + 12_000:
                raise Violation(f"fetching {case['fetch']} rows pulled {src.pulled}")
            # while nothing is accepted, nothing is pulled any more
            p0 = src.pulled
            for _ in range(2):
                w.loop.advance(1)
                w.quiesce()
            if src.pulled != p0 and sock.window == 0:
                raise Violation(f"{src.pulled - p0} further rows were pulled while the client was not reading")
            st.count("stalls")
            if by.ping().kind != "ok":
                raise Violation("other connection not served")
            if i == case["rounds"] // 2 and case.get("kill"):
                break
            sock.window += rnd.choice(case["deltas"])
        src = box["src"]
        if proto == "text" and src.limit is None and sock.out.__len__() < 10 and win > 100:
            raise Violation("nothing was sent")
        st.count("pulls", src.pulled)
        st.peak("bytes_ahead", flow.max_bytes)
        st.peak("rows_ahead", flow.max_rows)
        st.peak("live_rows", Row.peak)
        if src.limit is not None:
            # a finite result: open the window; everything must arrive
            sock.window = None
            w.quiesce()
            if src.pulled != src.limit:
                raise Violation(f"only {src.pulled} of {src.limit} rows were streamed")
            st.count("completed")
        src.stop = case["s"] % 2 == 0
        t.reset()
        w.quiesce()
        w.loop.advance(130)
        w.quiesce()
        if by.query("SELECT a FROM small").kind != "rs":
            raise Violation("other connection not served")
        if len(w.control.live) != 1:
            raise Violation("connection of the stalled client was not released")
        st.seen("stall", case["src"], case["shape"], case["n"], case["cols"], proto, win, case["rounds"], case["caps"], tls)
        st.sample(f"stall {case['src']}/{case['shape']}x{case['n']} {proto} window={win}: pulled {src.pulled} rows, accepted "
                  f"{len(sock.out)} bytes, at most {flow.max_bytes} bytes / {flow.max_rows} rows ahead")


def run_fair(case, st):
    """Other connections are served while endless results are streamed to clients that read everything."""
    rnd = random.Random(case["s"])
    Row.live = Row.peak = 0
    with World(session=AppB if case.get("base") else App) as w:
        wit = w.login()
        wsid = wit.prepare("SELECT a FROM small").stmt_id
        streams = []
        state = {"waiting": False, "n": {}, "problem": None, "next": None}
        kinds = case["cmds"][:]
        log = []
        newconn = {}

        def send_next():
            k = state["k"] = kinds.pop(0)
            state["waiting"] = True
            state["n"] = {}
            if k == "ping":
                wit.send(bytes([P.COM_PING]))
            elif k == "query":
                wit.send(P.com_query("SELECT a FROM small", wit.caps))
            elif k == "await":
                wit.send(P.com_query("SELECT a FROM await", wit.caps))
            elif k == "static":
                wit.send(P.com_query("SELECT @@version", wit.caps))
            elif k == "show":
                wit.send(P.com_query("SHOW TABLES FROM db1", wit.caps))
            elif k == "exec":
                wit.send(P.com_stmt_execute(wsid, [], wit.caps))
            elif k == "initdb":
                wit.send(bytes([P.COM_INIT_DB]) + b"db1")
            elif k == "connect":
                newconn["c"] = c = w.connect()
                newconn["len"] = 0

        def on_pull(src):
            me = id(src)
            if state["waiting"]:
                n = state["n"][me] = state["n"].get(me, 0) + 1
                if n > FAIR:
                    if not state["problem"]:
                        state["problem"] = (f"another connection's {state['k']} was not answered within {n} rows of a "
                                            f"{case['src']}/{case['shape']} result")
                    for s in streams:
                        s.stop = True
            elif state["armed"] and kinds and src.pulled >= state["at"]:
                state["armed"] = False
                send_next()
            if src.pulled > 20_000_000:
                src.stop = True
            if Row.live > MAX_LIVE:
                state["problem"] = state["problem"] or f"{Row.live} rows are held in memory"
                src.stop = True

        def result(session, sql):
            src, res = build(case, w, on_pull)
            streams.append(src)
            return res
        w.result = result
        state["at"] = case["start"]
        state["armed"] = False
        targets = []
        for i in range(case["streams"]):
            t = w.login(client_caps=CAPS[case["caps"]])
            targets.append(t)
            if case["proto"] != "text":
                t.sid = t.prepare("SELECT a FROM big").stmt_id
            if case["proto"] == "fetch":
                t.execute(t.sid, cursor=True)
            # the client reads everything: forget it at once
            t.sock.send = discard(t.sock)
        if state["problem"]:
            raise Violation(state["problem"])
        state["armed"] = True
        for t in targets:
            if case["proto"] == "text":
                t.deliver(P.frame(P.com_query("SELECT a FROM big", t.caps), 0)[0])
            elif case["proto"] == "binary":
                t.deliver(P.frame(P.com_stmt_execute(t.sid, [], t.caps), 0)[0])
            else:
                t.deliver(P.frame(P.com_stmt_fetch(t.sid, 4_000_000_000), 0)[0])
        steps = 0
        total = len(kinds)
        while (kinds or state["waiting"]) and not state["problem"] and steps < 20000:
            w.loop.step()
            steps += 1
            if state["waiting"]:
                if state["k"] == "connect":
                    c = newconn["c"]
                    if c.pending_bytes() and not newconn.get("sent"):
                        newconn["sent"] = True
                        st.peak("rows_waited", max(state["n"].values(), default=0))
                        state["n"] = {}
                        c.hs = P.Handshake(c.take_payloads(0)[0])
                        c.caps = CAPS[0]
                        c.deliver(P.frame(P.handshake_response(c.caps, user=b"u", plugin=b"mysql_native_password"), 1)[0])
                        continue
                    ok = newconn.get("sent") and c.pending_bytes()
                    if ok:
                        c.take_payloads(2)
                        newconn.pop("sent")
                        c.eof()
                else:
                    ok = bool(wit.pending_bytes())
                    if ok:
                        pl = wit.take_payloads(1)
                        if P.is_err(pl[0]):
                            raise Violation(f"witness got an error: {pl[0][:60]!r}")
                if ok:
                    st.peak("rows_waited", max(state["n"].values(), default=0))
                    st.count("answered")
                    state["waiting"] = False
                    state["armed"] = True
                    state["at"] = 0
            elif not state["armed"] or (kinds and not streams):
                pass
        if state["problem"]:
            raise Violation(state["problem"])
        if kinds or state["waiting"]:
            if not streams or all(s.pulled < state["at"] for s in streams):
                raise Violation("the result was not streamed")
            raise Violation(f"witness starved: {state.get('k')} not answered in {steps} loop iterations")
        st.count("pulls", sum(s.pulled for s in streams))
        st.peak("live_rows", Row.peak)
        for s in streams:
            s.stop = True
        for t in targets:
            t.reset()
        w.quiesce()
        st.seen("fair", case["src"], case["shape"], case["n"], case["cols"], case["proto"], case["streams"], tuple(case["cmds"]))


def discard(sock):
    orig = sock.send

    def send(data):
        n = orig(data)
        if len(sock.out) > 1 << 20:
            sock.out.clear()
        return n
    return send


def run(case, st):
    if case["k"] == "stall":
        run_stall(case, st)
    else:
        run_fair(case, st)


SRC = ["gen", "agen", "iter", "aiter", "again", "agensleep"]
SHAPES = ["null", "nullcol", "latenull", "latenull2", "tiny", "empty", "int", "s", "k", "wide", "huge", "mix", "pow"]
CMDS = ["ping", "query", "await", "static", "show", "exec", "initdb", "connect"]


def gen(tier, seed):
    rnd = random.Random(seed * 131 + 12)
    deep = tier == "thorough"

    def base(src, shape):
        c = {"src": src, "shape": shape, "n": rnd.choice([1, 1, 2, 3, 20]),
             "cols": rnd.choice(["typed", "inferred", "mixed", "rs"]), "caps": rnd.randrange(3),
             "base": rnd.random() < 0.3, "s": rnd.randrange(1 << 30)}
        if shape in ("huge", "wide"):
            c["n"] = 1
        if shape in ("nullcol", "latenull", "latenull2"):
            c["n"] = max(2, min(3, c["n"]))
        return c
    reps = 1 if not deep else 7
    for r in range(reps):
        for shape in SHAPES:
            for src in SRC:
                for proto in ("text", "binary", "fetch"):
                    c = base(src, shape)
                    if shape == "null" and c["cols"] in ("inferred", "mixed") and rnd.random() < 0.5:
                        c["cols"] = "typed"
                    c.update(k="stall", proto=proto, win=rnd.choice([0, 0, 5, 100, 3000, 70_000, 1_000_000]),
                             rounds=rnd.choice([2, 5, 12]), deltas=rnd.choice([[1, 7], [100, 5000], [70_000], [300_000, 10]]),
                             fetch=rnd.choice([1, 50, 3000, 1 << 31]))
                    if not deep and shape in ("null", "tiny", "empty", "int", "nullcol", "latenull", "latenull2"):
                        c["win"] = min(c["win"], 30_000)
                        c["rounds"] = min(c["rounds"], 5)
                        if max(c["deltas"]) > 5000:
                            c["deltas"] = [40_000, 10]
                    if rnd.random() < 0.2:
                        c["max_send"] = rnd.choice([1000, 4096])
                    if rnd.random() < 0.25:
                        c["limit"] = rnd.choice([0, 1, 100, 2000, 11_000]) if shape not in ("huge", "wide", "pow", "mix", "k") else 5
                        if proto == "fetch":
                            c["fetch"] = 1 << 31
                    yield c
        for shape in ("tiny", "k", "wide", "null"):
            c = base(rnd.choice(SRC), shape)
            c.update(k="stall", proto=rnd.choice(["text", "binary"]), win=0, rounds=3, deltas=[100_000], fetch=100, tls=True)
            yield c
        # always-NULL columns whose type has to be inferred, all sources and protocols
        for src in SRC:
            for proto in ("text", "binary", "fetch"):
                c = base(src, rnd.choice(["null", "nullcol"]))
                c.update(k="stall", proto=proto, win=0, rounds=2, deltas=[50_000], fetch=1000, cols="inferred")
                yield c
        for shape in ("tiny", "null", "int", "k", "wide", "nullcol", "mix", "latenull2"):
            for src in SRC[:5]:
                for proto in ("text", "binary", "fetch"):
                    c = base(src, shape)
                    if shape in ("k", "mix"):
                        c["n"] = 1
                    if not deep and rnd.random() < 0.5:
                        continue
                    cmds = [rnd.choice(CMDS) for _ in range(2 if not deep else 4)]
                    c.update(k="fair", proto=proto, streams=rnd.choice([1, 1, 2, 3]), cmds=cmds,
                             start=rnd.choice([1, 50, 5000, 9999, 10_000, 10_001, 25_000]))
                    if shape == "wide":
                        c["start"] = min(c["start"], 50)
                        c["streams"] = 1
                        c["cmds"] = ["ping"]
                    if shape == "mix":
                        c["streams"] = 1
                        c["cmds"] = c["cmds"][:1]
                    yield c
