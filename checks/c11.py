"""C11: server-side cursors deliver every row exactly once, in order."""
import asyncio
import random
import re

from vlib import proto as P
from vlib.apps import AsyncRows, RecBase, RecSession, arows, rand_exc
from vlib.client import World
from vlib.runner import Violation

from mysql_mimic import ResultColumn, ResultSet
from mysql_mimic.types import ColumnType as CT

ID = "C11"
LEVEL = "exploration"
RULE = ("histories of prepare/execute(cursor or not)/fetch(n)/reset/close over 1-4 statements, checked against a "
        "per-statement cursor model; distinct = (result length, source kind, sequence of fetch sizes / operations)")
ASSUMPTIONS = ["a fetch that is filled exactly by the last row may or may not flag the end",
               "after the end was flagged a further fetch may answer with no rows (flagged again) or ERR",
               "after a fetch failed the cursor may be gone (ERR) or continue with the rows not yet sent"]
EXHAUSTIVE = ["all fetch-size sequences with sizes 1..N+1 for N <= 8 until exhaustion is flagged"]
MIN = {"fetches": 20000, "rows": 30000, "exhausted": 4000, "interleaved": 500, "discarded": 300, "unknown_err": 300, "failed_fetches": 200, "huge": 4}
DEADLINE = {"quick": 480, "thorough": 780}

CAPS = [P.BASE_CAPS | P.DEPRECATE_EOF | P.LENENC_AUTH, P.BASE_CAPS | P.LENENC_AUTH,
        P.BASE_CAPS | P.OPTIONAL_META, P.BASE_CAPS | P.DEPRECATE_EOF | P.QUERY_ATTRIBUTES | P.OPTIONAL_META]
SOURCES = ["list", "gen", "agen", "sleep", "asyncit", "inferred", "rs"]


async def sleepy(rows):
    for i, r in enumerate(rows):
        if i % 2:
            await asyncio.sleep(0)
        yield r


async def failing(rows, at, exc):
    for i, r in enumerate(rows):
        if i == at:
            raise exc
        yield r
    raise exc


def failing_gen(rows, at, exc):
    for i, r in enumerate(rows):
        if i == at:
            raise exc
        yield r
    raise exc


NAMES = ["tag", "i", "pad"]
COLS = [("tag", CT.VARCHAR), ("i", CT.LONG), ("pad", CT.VARCHAR)]


def make(rows, source, fail=None, exc=None):
    cols = [ResultColumn(n, t) for n, t in COLS]
    if fail is not None:
        return (failing_gen if source == "gen" else failing)(rows, fail, exc), cols
    if source == "list":
        return rows, cols
    if source == "gen":
        return (r for r in rows), cols
    if source == "agen":
        return arows(rows), cols
    if source == "sleep":
        return sleepy(rows), cols
    if source == "asyncit":
        return AsyncRows(rows), cols
    if source == "inferred":
        return arows(rows), list(NAMES)
    return ResultSet(rows, cols)


class Model:
    """One prepared statement."""

    def __init__(self, sid, name):
        self.sid, self.name = sid, name
        self.cur = None          # [rows, pos, ended?, fail_at, broken?]
        self.closed = False
        self.execs = 0


class Run:
    def __init__(self, st, rng, full=False):
        self.st, self.rng = st, rng
        self.plan = {}
        self.sqls = []
        # statements may have the same text
        self.same = rng.random() < .25
        self.w = World(session=RecSession if full else RecBase, handler=self.handler)
        self.c = self.w.login(client_caps=rng.choice(CAPS))
        self.stmts = []
        self.trace = []
        self.k = 0

    def handler(self, s, sql, attrs, *a):
        self.sqls.append(sql)
        r = self.plan[sql.split("t_")[-1].split()[0]]
        if isinstance(r, Exception):
            raise r
        return r

    def bad(self, msg):
        raise Violation(f"{msg}; history: {' '.join(self.trace[-25:])}")

    def prepare(self):
        name = f"s{len(self.stmts)}"
        nparams = self.rng.choice([0, 0, 0, 1, 2]) if not self.same else 0
        text = f"SELECT a FROM t_{'same' if self.same else name}" + " WHERE b = ? AND c = ?"[:nparams * 12]
        r = self.c.prepare(text)
        if r.kind != "prep":
            self.bad(f"prepare answered {r!r}")
        m = Model(r.stmt_id, name)
        m.nparams = nparams
        if any(o.sid == m.sid and not o.closed for o in self.stmts):
            self.bad(f"statement id {m.sid} given out twice")
        self.stmts.append(m)
        self.trace.append(f"prepare->{m.name}")
        return m

    def execute(self, m, n, source="list", cursor=True, fail=None, error=False, wide=0):
        self.k += 1
        pad = None if not wide else "p" * wide
        rows = [(f"{m.name}/{self.k}", i, pad) for i in range(n)]
        if source == "inferred" and n:
            rows = [(t, i, p or "x") for t, i, p in rows]
        self.plan["same" if self.same else m.name] = (
            rand_exc(self.rng, "app error") if error else make(list(rows), source, fail, rand_exc(self.rng, "row source failed")))
        params = [("i64", self.k)] * m.nparams
        self.sqls.clear()
        r = self.c.execute(m.sid, params, cursor=cursor)
        if not m.closed and (len(self.sqls) != 1 or len(re.findall(rf"(?<![\w.]){self.k}(?![\w.])", self.sqls[0])) != m.nparams):
            self.bad(f"execution {self.k} reached the application as {self.sqls}")
        self.trace.append(f"exec({m.name},n={n},{source},cursor={cursor},fail={fail},err={error})")
        if m.closed:
            if r.kind != "err":
                self.bad(f"execute of a closed statement answered {r!r}")
            self.st.count("unknown_err")
            return
        m.cur = None
        if error:
            if r.kind != "err":
                self.bad(f"failed execute answered {r!r}")
            return
        if cursor:
            if r.kind != "rs":
                self.bad(f"execute with cursor answered {r!r}")
            m.cur = [rows, 0, False, fail, False]
        elif fail is None:
            if r.kind != "rs" or [tuple(x) for x in r.rows] != self.wire(rows):
                self.bad(f"execute without cursor answered {r!r}")

    def wire(self, rows):
        return [(t.encode(), i, None if p is None else p.encode()) for t, i, p in rows]

    def fetch(self, m, n):
        r = self.c.fetch(m.sid, n)
        self.st.count("fetches")
        self.trace.append(f"fetch({m.name},{n})={'err' if r.kind == 'err' else len(r.rows)}")
        if m.closed or m.cur is None:
            if r.kind != "err":
                self.bad(f"fetch on {'a closed statement' if m.closed else 'a statement without cursor'} answered {r!r}")
            self.st.count("unknown_err" if m.closed else "discarded")
            return r
        rows, pos, ended, fail, broken = m.cur
        left = len(rows) - pos if fail is None else min(fail, len(rows)) - pos
        got = [tuple(x) for x in r.rows]
        want = self.wire(rows[pos:pos + min(n, left)])
        if fail is not None and (n > left or n == left and r.kind == "err") or broken:
            # the source raises before the fetch can be filled (or already did)
            if r.kind != "err" and broken and not got and fail >= len(rows):
                return r
            if r.kind != "err":
                self.bad(f"fetch({n}) over a failing source answered {r!r}")
            if got and got != want[:len(got)]:
                self.bad(f"wrong rows before the failure: {got[:3]}")
            m.cur[4] = True
            self.st.count("failed_fetches")
            return r
        if r.kind == "err":
            if ended and not want:
                return r
            self.bad(f"fetch({n}) answered {r.err!r} with {left} rows left")
        if got != want:
            first = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
            self.bad(f"fetch({n}) at row {pos} of {len(rows)}: {len(got)} rows instead of {len(want)}, "
                     f"first difference at {first}: {got[first:first + 1]} instead of {want[first:first + 1]}")
        m.cur[1] = pos = pos + len(got)
        self.st.count("rows", len(got))
        last = bool(r.status & P.LAST_ROW_SENT)
        remain = len(rows) - pos
        if last and (remain or fail is not None and not remain):
            self.bad(f"fetch({n}) flags the last row with {remain} rows remaining")
        if len(got) < n and not last:
            self.bad(f"fetch({n}) returned {len(got)} rows without flagging the end")
        if last:
            m.cur[2] = True
            self.st.count("exhausted")
        return r

    def reset(self, m):
        r = self.c.stmt_reset(m.sid)
        self.trace.append(f"reset({m.name})")
        if m.closed:
            if r.kind != "err":
                self.bad(f"reset of a closed statement answered {r!r}")
            self.st.count("unknown_err")
            return
        if r.kind != "ok":
            self.bad(f"reset answered {r!r}")
        m.cur = None

    def close(self, m):
        self.c.stmt_close(m.sid)
        self.trace.append(f"close({m.name})")
        m.closed = True

    def end(self):
        if self.c.ping().kind != "ok":
            self.bad("connection not usable afterwards")
        self.w.close()


def sequences(N):
    """All fetch-size sequences (sizes 1..N+1) until a fetch could not be filled."""
    def rec(left, seq):
        for n in range(1, N + 2):
            if n > left:
                yield seq + [n]
            else:
                yield from rec(left - n, seq + [n])
    yield from rec(N, [])


def gen(tier, seed):
    T = tier == "thorough"
    n = 0
    for N in range(0, 9):
        for part in range(8):
            for rep in range(1 if not T else 6):
                n += 1
                yield {"k": "exh", "N": N, "part": part, "seed": f"{seed}/{n}"}
    for i in range(10000 if not T else 80000):
        n += 1
        yield {"k": "hist", "seed": f"{seed}/{n}"}
    for i in range(240 if not T else 3000):
        n += 1
        yield {"k": "big", "seed": f"{seed}/{n}"}
    for i in range(3 if not T else 16):
        n += 1
        yield {"k": "huge", "i": i, "seed": f"{seed}/{n}"}
    for i in range(1 if not T else 4):
        n += 1
        yield {"k": "churn", "seed": f"{seed}/{n}"}
    for i in range(200 if not T else 4000):
        n += 1
        yield {"k": "fail", "seed": f"{seed}/{n}"}
    for i in range(200 if not T else 3000):
        n += 1
        yield {"k": "unknown", "seed": f"{seed}/{n}"}


def run(case, st):
    return globals()["run_" + case["k"]](case, st, random.Random(case["seed"]))


def run_exh(case, st, rng):
    N = case["N"]
    r = Run(st, rng, full=case["part"] == 0)
    try:
        m = r.prepare()
        m2 = r.prepare()
        for i, sizes in enumerate(sequences(N)):
            if i % 8 != case["part"]:
                continue
            source = rng.choice(SOURCES)
            other = i % 3 == 0
            r.trace.clear()
            r.execute(m, N, source)
            if other:
                r.execute(m2, N, rng.choice(SOURCES))
            for n in sizes:
                r.fetch(m, n)
                if other and rng.random() < .5:
                    r.fetch(m2, rng.randint(1, N + 1))
                    st.count("interleaved")
            if not m.cur[2]:
                r.bad("the end was never flagged")
            if i % 5 == 0:
                r.fetch(m, rng.randint(1, N + 1))
            st.seen(N, tuple(sizes), source)
    finally:
        pass
    r.end()


SIZES = [0, 1, 1, 2, 3, 5, 10, 100, 1000, 65535, 65536, 2**31 - 1, 2**31, 2**32 - 1]


def run_hist(case, st, rng):
    r = Run(st, rng, full=rng.random() < .2)
    for _ in range(rng.randint(1, 4)):
        r.prepare()
    if rng.random() < .8:
        for m in r.stmts:
            r.execute(m, rng.choice([0, 1, 2, 3, 7, 20, 60]), rng.choice(SOURCES), wide=rng.choice([0, 0, 10, 3000]))
    ops = []
    for _ in range(rng.randint(5, 30)):
        m = rng.choice(r.stmts)
        op = rng.choices(["exec", "fetch", "reset", "close", "prepare", "query", "ping", "execerr", "plain", "again"],
                         [5, 14, 1, .5, .7, .7, .5, .4, 1, 2])[0]
        ops.append((op, m.name))
        if op == "exec":
            r.execute(m, rng.choice([0, 1, 2, 3, 7, 20, 60]), rng.choice(SOURCES), wide=rng.choice([0, 0, 10, 3000]))
        elif op == "fetch":
            r.fetch(m, rng.choice(SIZES))
            st.count("interleaved")
        elif op == "again":
            r.execute(m, rng.choice([1, 5, 20]), rng.choice(SOURCES))
            r.fetch(m, rng.choice([1, 2]))
            r.execute(m, rng.choice([1, 5, 20]), rng.choice(SOURCES), cursor=rng.random() < .7)
            r.fetch(m, 3)
            r.fetch(m, 2**32 - 1)
        elif op == "reset":
            r.reset(m)
            r.fetch(m, rng.choice(SIZES))
        elif op == "close":
            r.close(m)
            r.fetch(m, rng.choice(SIZES))
        elif op == "prepare" and len(r.stmts) < 7:
            r.prepare()
        elif op == "query":
            r.plan["plain"] = ([(1,)], ["a"])
            q = r.c.query("SELECT a FROM t_plain")
            if q.kind != "rs" or q.rows != [[b"1"]]:
                r.bad(f"query between fetches answered {q!r}")
        elif op == "ping":
            if r.c.ping().kind != "ok":
                r.bad("ping failed")
        elif op == "execerr":
            r.execute(m, 0, error=True)
            r.fetch(m, 1)
        elif op == "plain":
            r.execute(m, rng.choice([0, 1, 5, 30]), rng.choice(SOURCES), cursor=False)
            r.fetch(m, rng.choice(SIZES))
    st.seen("hist", tuple(r.trace))
    st.sample(" ".join(r.trace[:12]))
    r.end()


def run_big(case, st, rng):
    r = Run(st, rng)
    stmts = [r.prepare() for _ in range(rng.choice([1, 1, 2, 3]))]
    for m in stmts:
        r.execute(m, rng.choice([99, 100, 101, 500, 999, 1000, 1001, 2500, 10001] + ([20003, 41000] if len(stmts) == 1 else [])), rng.choice(SOURCES), wide=rng.choice([0, 1, 40, 400]))
    live = list(stmts)
    style = rng.choice(["fixed", "random", "exact", "huge"])
    fixed = rng.choice([1, 7, 10, 64, 100, 256, 1000])
    for _ in range(400):
        if not live:
            break
        m = rng.choice(live)
        left = len(m.cur[0]) - m.cur[1]
        n = {"fixed": fixed, "random": rng.randint(1, 700), "exact": max(1, left - rng.choice([0, 0, 1])),
             "huge": 2**32 - 1}[style]
        if len(m.cur[0]) / n > 300:
            n = max(100, len(m.cur[0]) // 90)
        r.fetch(m, n)
        st.count("interleaved")
        if m.cur[2]:
            live.remove(m)
            r.fetch(m, 3)
    st.seen("big", tuple(r.trace))
    r.end()


def run_huge(case, st, rng):
    """One fetch asks for more rows than fit in 16 bits (and gets them)."""
    r = Run(st, rng)
    m = r.prepare()
    for n, sizes in [[(70000, [2**32 - 1])], [(65537, [65537]), (65536, [65536])],
                     [(140000, [1, 131073, 2**31])]][case["i"] % 3]:
        r.execute(m, n, rng.choice(["list", "gen", "agen", "rs"]))
        for k in sizes:
            r.fetch(m, k)
        st.seen("huge", n)
        st.count("huge")
    r.end()


def run_churn(case, st, rng):
    """Cursors stay what they are while tens of thousands of statements come and go."""
    r = Run(st, rng)
    ms = [r.prepare() for _ in range(3)]
    for m in ms:
        r.execute(m, 200, rng.choice(SOURCES))
    for _ in range(70):
        k = 1000
        r.c.deliver(b"".join(P.frame(P.com_stmt_prepare("SELECT a FROM t_other"), 0)[0] for _ in range(k)))
        r.w.quiesce(10**8)
        ids = [int.from_bytes(p[1:5], "little") for p in r.c.take_payloads(None) if p[:1] == b"\0" and len(p) >= 12]
        if len(ids) != k:
            r.bad(f"{k} statements prepared, {len(ids)} answers")
        if any(m.sid in ids for m in ms):
            r.bad("the id of a statement with an open cursor was handed out again")
        r.c.deliver(b"".join(P.frame(P.com_stmt_close(i), 0)[0] for i in ids))
        r.w.quiesce(10**8)
        for m in ms:
            r.fetch(m, 2)
        st.count("interleaved")
    for m in ms:
        r.fetch(m, 1000)
    r.end()


def run_fail(case, st, rng):
    r = Run(st, rng)
    a, b = r.prepare(), r.prepare()
    n = rng.randint(0, 12)
    r.execute(a, n, rng.choice(["gen", "agen"]), fail=rng.randint(0, n))
    r.execute(b, 10, rng.choice(SOURCES))
    for _ in range(12):
        r.fetch(a, rng.choice([1, 2, 3, 20]))
        if rng.random() < .5:
            r.fetch(b, 2)
    r.execute(a, 5, rng.choice(SOURCES))
    r.fetch(a, 3)
    r.fetch(a, 3)
    st.seen("fail", tuple(r.trace))
    r.end()


def run_unknown(case, st, rng):
    r = Run(st, rng)
    ms = [r.prepare() for _ in range(rng.randint(0, 3))]
    for m in ms:
        if rng.random() < .5:
            r.execute(m, 4)
            r.fetch(m, 2)
    known = {m.sid for m in ms}
    for _ in range(6):
        sid = rng.choice([0, 1, 2, 3, 5, 77, 2**31, 2**32 - 1, rng.randrange(2**32)])
        if sid in known:
            continue
        op = rng.choice(["fetch", "reset", "close", "execute", "cursor"])
        if op == "close":
            r.c.stmt_close(sid)
            continue
        q = {"fetch": lambda: r.c.fetch(sid, rng.choice(SIZES)), "reset": lambda: r.c.stmt_reset(sid),
             "execute": lambda: r.c.execute(sid), "cursor": lambda: r.c.execute(sid, cursor=True)}[op]()
        if q.kind != "err":
            r.bad(f"{op} of unknown statement {sid} answered {q!r}")
        st.count("unknown_err")
        st.seen("unknown", op, sid if sid < 100 else "big", len(ms))
    for m in ms:
        r.fetch(m, 2)
    if rng.random() < .3:
        r.c.stmt_close(12345)
    r.end()
