"""C17: query attributes reach the application exactly as sent."""
import itertools
import random
import struct

from vlib import proto as P
from vlib.apps import FixedIdentity, RecBase, RecSession
from vlib.client import World
from vlib.runner import Violation
from checks.c06 import INTK, STRK, f32, text, value
from checks.c15 import enc as cenc

from mysql_mimic.constants import DEFAULT_SERVER_CAPABILITIES
from mysql_mimic.types import Capabilities

ID = "C17"
LEVEL = "exploration"
RULE = ("(attribute list, SQL text, positional parameters, route, capability) combinations; the mapping, the SQL text and the parameters "
        "the application callback received are compared strictly (value and Python type, floats bit for bit) with what was "
        "put on the wire; distinct = (route, capability, attribute kinds and values' classes, number of parameters)")
ASSUMPTIONS = ["an attribute name that is sent twice in a list may keep either value", "unnamed attributes appear under the empty name"]
MIN = {"statements": 8000, "attrs": 15000, "null_attrs": 1500, "with_params": 2000, "noqa": 800, "noqa_prefix": 300}
DEADLINE = {"quick": 480, "thorough": 780}
EXHAUSTIVE = ["every NULL mask of (0..3 parameters, 0..4 attributes)", "every integer kind x its boundary values, both routes",
              "0..20 attributes x 0..10 parameters (all bitmap byte boundaries)",
              "first SQL bytes 0x00..0x7f x second byte {0,1,2,'A',end} without the capability"]

QA = P.QUERY_ATTRIBUTES
BASE = P.BASE_CAPS | P.LENENC_AUTH | P.DEPRECATE_EOF


def gen(tier, seed):
    T = tier == "thorough"
    for m in range(4):
        for n in range(5):
            yield {"k": "masks", "m": m, "n": n, "seed": f"{seed}/m{m}.{n}"}
    for kind in list(INTK) + ["f32", "f64"] + STRK:
        yield {"k": "kinds", "kind": kind, "seed": f"{seed}/k{kind}"}
    for n in range(21):
        yield {"k": "counts", "n": n, "seed": f"{seed}/n{n}"}
    for b in range(0, 128, 4):
        yield {"k": "prefix", "from": b, "seed": f"{seed}/p{b}"}
    for i in range(150 if not T else 4000):
        yield {"k": "noqa", "seed": f"{seed}/q{i}"}
    for i in range(4000 if not T else 60000):
        yield {"k": "rand", "seed": f"{seed}/r{i}"}
    for i in range(1200 if not T else 15000):
        yield {"k": "full", "seed": f"{seed}/f{i}"}
    for cs in CS:
        for j in range(1 if not T else 20):
            yield {"k": "charset", "cs": cs, "seed": f"{seed}/c{cs}.{j}"}
    for n in [127, 250, 251, 252, 255, 256, 257, 300, 512, 1000] + ([65534, 65535, 65536, 70000] if T else [65536]):
        yield {"k": "many", "n": n, "seed": f"{seed}/y{n}"}
    for n in [249, 250, 251, 252, 65534, 65535, 65536, 70000, 2**24 - 20, 2**24 - 1, 2**24, 2**24 + 9]:
        yield {"k": "long", "n": n, "seed": f"{seed}/l{n}"}
    for i in range(150 if not T else 4000):
        yield {"k": "stray", "seed": f"{seed}/s{i}"}
    for i in range(150 if not T else 4000):
        yield {"k": "unsup", "seed": f"{seed}/u{i}"}
    for i in range(150 if not T else 4000):
        yield {"k": "change", "seed": f"{seed}/h{i}"}


# client character sets: charset id -> independent name in C15's table
CS = {45: "utf8mb4", 33: "utf8", 8: "latin1", 28: "gbk", 13: "sjis", 1: "big5", 51: "cp1251", 7: "koi8r", 19: "euckr", 12: "ujis", 26: "cp1250", 11: "ascii",
      16: "hebrew", 95: "cp932", 248: "gb18030", 4: "cp850"}
PY = {"utf8mb4": "utf8", "utf8": "utf8", "gbk": "gbk", "sjis": "shift_jis", "big5": "big5", "cp1251": "cp1251", "koi8r": "koi8_r", "euckr": "euc_kr",
      "ujis": "euc_jp", "cp1250": "cp1250", "ascii": "ascii", "hebrew": "iso8859_8", "cp932": "cp932", "gb18030": "gb18030", "cp850": "cp850", "latin1": "latin1"}


def run(case, st):
    return globals()["run_" + case["k"]](case, st, random.Random(case["seed"]))


def same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, float):
        return struct.pack("<d", a) == struct.pack("<d", b) or (a != a and b != b)
    return a == b


def short(x):
    r = repr(x)
    return r if len(r) < 400 else r[:300] + f"...({len(r)})"


def expect(attrs):
    """name -> acceptable values"""
    out = {}
    for n, p in attrs:
        out.setdefault(n, []).append(value(p))
    return out


class S:
    def __init__(self, st, rng, qa=True, full=False, charset=45, server_qa=True, caps=None):
        self.st, self.rng = st, rng
        self.got = []
        self.mw = []
        self.mutate = None
        kw = {}
        if not server_qa:
            kw["capabilities"] = DEFAULT_SERVER_CAPABILITIES & ~Capabilities.CLIENT_QUERY_ATTRIBUTES
        self.w = World(session=RecSession if full else RecBase, handler=self.handler, identity=FixedIdentity(allow_any=True),
                       setup=self.setup if full else None, **kw)
        self.c = self.w.connect()
        base = caps if caps is not None else BASE
        r = self.c.login(client_caps=base | (QA if qa else 0), charset=charset)
        if r.kind != "ok":
            raise Violation(f"login: {r!r}")
        self.qa = bool(self.c.caps & QA)
        if self.qa != (qa and server_qa):
            raise Violation(f"the server announces QUERY_ATTRIBUTES={bool(self.c.hs.caps & QA)}, configured {server_qa}")
        self.c.codec = PY[CS[charset]]

    def setup(self, s):
        async def mw(q):
            self.mw.append((q.sql, dict(q.attrs)))
            return await q.next()
        s.middlewares.append(mw)

    def handler(self, s, sql, attrs, expression=None):
        self.got.append((sql, dict(attrs)))
        if self.mutate == "clear":
            attrs.clear()
        elif self.mutate == "add":
            attrs["leak"] = len(self.got)
        return ROWS

    def judge(self, what, sql, attrs, params=0, times=1):
        if len(self.got) != times:
            raise Violation(f"{what}: {times} call(s) of the application expected, {len(self.got)} happened")
        exp = expect(attrs) if self.qa else {}
        for gsql, ga in self.got + self.mw:
            if sql is not None and gsql != sql:
                raise Violation(f"{what} with attributes {short(attrs)}: SQL {short(sql)} arrived as {short(gsql)}")
            if set(ga) != set(exp) or any(not any(same(v, ga[k]) for v in vs) for k, vs in exp.items()):
                bad = {k: ga.get(k, "<missing>") for k in set(ga) | set(exp) if k not in ga or k not in exp or not any(same(v, ga[k]) for v in exp[k])}
                raise Violation(f"{what}: attributes {short(attrs)} arrived wrongly: {short(bad)}; all: {short(ga)}")
            if any(type(k) is not str for k in ga):
                raise Violation(f"{what}: attribute names {list(ga)!r} are not all strings")
        st = self.st
        st.count("statements")
        st.count("attrs", len(attrs))
        st.count("null_attrs", sum(value(p) is None for _, p in attrs))
        if params:
            st.count("with_params")
        if not self.qa:
            st.count("noqa")
        st.seen(what, self.qa, params, tuple((p[0], cls(value(p)), cls(n)) for n, p in attrs)[:12], len(attrs))

    def query(self, sql, attrs, times=1, arrives=None):
        self.got.clear()
        self.mw.clear()
        r = self.c.query(sql, attrs)
        if r.kind == "err":
            raise Violation(f"COM_QUERY {short(sql)} with attributes {short(attrs)} answered {r.err!r}")
        self.judge("COM_QUERY", sql if arrives is None else arrives, attrs, times=times)

    def prepare(self, sql):
        r = self.c.prepare(sql)
        if r.kind != "prep":
            raise Violation(f"prepare of {sql!r}: {r!r}")
        return r.stmt_id

    def execute(self, sid, tpl, params, attrs, cursor=False, long=None, **kw):
        """tpl: list of pieces around the placeholders."""
        self.got.clear()
        self.mw.clear()
        for i, chunks in (long or {}).items():
            for ch in chunks:
                self.c.long_data(sid, i, ch)
        if self.qa and not params and not attrs and not kw:
            kw["count_available"] = self.rng.random() < .5
        r = self.c.execute(sid, params, cursor, attrs if self.qa else (), long_idx=tuple(long or ()), **kw)
        if r.kind == "err":
            raise Violation(f"execution with parameters {short(params)} and attributes {short(attrs)} answered {r.err!r}")
        vals = [value(p) for p in params]
        for i, chunks in (long or {}).items():
            vals[i] = b"".join(chunks).decode(self.c.codec)
        self.judge("COM_STMT_EXECUTE", None, attrs if self.qa else [], params=len(params))
        for gsql, _ in self.got + self.mw:
            bound(tpl, vals, gsql, params, attrs)


ROWS = ([(1,)], ["a"])


def bound(tpl, vals, got, params, attrs):
    """the received SQL must be tpl with literals of vals at the placeholders."""
    pos = 0

    def bad(why):
        raise Violation(f"{why}: parameters {short(params)} with attributes {short(attrs)}: statement {short('?'.join(tpl))} arrived as {short(got)}")
    for i, piece in enumerate(tpl):
        if not got.startswith(piece, pos):
            bad(f"text around placeholder {i} changed")
        pos += len(piece)
        if i == len(tpl) - 1:
            break
        v = vals[i]
        if v is None:
            if got[pos:pos + 4].upper() != "NULL":
                bad(f"parameter {i} is not NULL")
            pos += 4
        elif isinstance(v, str):
            if got[pos:pos + 1] != "'":
                bad(f"parameter {i} is not a string literal")
            j = pos + 1
            out = []
            while True:
                if j >= len(got):
                    bad(f"parameter {i}: unterminated literal")
                ch = got[j]
                if ch == "\\":
                    nx = got[j + 1:j + 2]
                    out.append({"0": "\0", "b": "\b", "n": "\n", "r": "\r", "t": "\t", "Z": "\x1a"}.get(nx, nx))
                    j += 2
                elif ch == "'":
                    if got[j + 1:j + 2] == "'":
                        out.append("'")
                        j += 2
                    else:
                        break
                else:
                    # fast run
                    k = j
                    while k < len(got) and got[k] not in "\\'":
                        k += 1
                    out.append(got[j:k])
                    j = k
            if "".join(out) != v:
                bad(f"parameter {i} {short(v)} arrived as {short(''.join(out))}")
            pos = j + 1
        else:
            j = pos
            while j < len(got) and got[j] in "-+0123456789.eE":
                j += 1
            try:
                x = float(got[pos:j]) if isinstance(v, float) else int(got[pos:j])
            except ValueError:
                bad(f"parameter {i} {v!r} is not a number")
            if x != v:
                bad(f"parameter {i} {v!r} arrived as {x!r}")
            pos = j
    if pos != len(got):
        bad("text appended")


def cls(v):
    if v is None:
        return "N"
    if isinstance(v, str):
        return "s" + str(min(len(v), 3)) + ("m" if not v.isascii() else "")
    if isinstance(v, float):
        return "f"
    return v if abs(v) < 3 else v.bit_length() * (1 if v > 0 else -1)


# ------------------------------------------------------------------ generators
def attr_value(rng, codec="utf8"):
    k = rng.choices(["str", "int", "f64", "f32", "null", "tnull"], [8, 7, 2, 2, 2, 1])[0]
    if k == "str":
        return (rng.choice(STRK), text(rng, codec))
    if k == "int":
        kind = rng.choice(list(INTK))
        lo, hi = INTK[kind]
        return (kind, rng.choice([lo, hi, rng.randint(lo, hi), max(lo, min(hi, rng.choice([-1, 0, 1, 127, 128, 255, 256])))]))
    if k == "f64":
        return ("f64", rng.choice([0.0, -0.0, 1.5, 0.1, float("inf"), float("-inf"), float("nan"), 1.7976931348623157e308, 5e-324, rng.uniform(-1e9, 1e9)]))
    if k == "f32":
        return ("f32", f32(rng.choice([0.0, -0.0, 0.1, float("inf"), float("nan"), 3.4e38, 1e-45, rng.uniform(-1e5, 1e5)])))
    if k == "tnull":
        return ("typed_null", rng.choice([P.T_VARCHAR, P.T_LONG, P.T_DOUBLE, P.T_BLOB, P.T_NULL, P.T_TINY, P.T_LONGLONG]))
    return ("null", None)


def param_value(rng, codec="utf8"):
    while True:
        p = attr_value(rng, codec)
        v = value(p)
        if isinstance(v, float) and (v != v or v in (float("inf"), float("-inf"))):
            continue
        if p[0] == "bool":
            continue
        return p


NAMES = ["", "a", "traceparent", "é", "漢字", "a b", "?", "'", "\0", "x" * 60, "SELECT", "n\n", "A", "%s", "\\", "😀"]


def name(rng, codec="utf8", used=()):
    for _ in range(20):
        n = rng.choice(NAMES) if rng.random() < .6 else text(rng, codec)
        if rng.random() < .4:
            n += str(rng.randint(0, 99))
        try:
            if n.encode(codec).decode(codec) != n:
                continue
        except UnicodeError:
            continue
        if n in used and rng.random() < .9:
            continue
        return n
    return "n%d" % len(used)


def attr_list(rng, codec="utf8", n=None):
    n = rng.choice([0, 0, 1, 1, 2, 3, 4, 7, 8, 9, 16, 17, 30]) if n is None else n
    out = []
    used = set()
    for _ in range(n):
        k = name(rng, codec, used)
        used.add(k)
        out.append((k, attr_value(rng, codec)))
    return out


def uniq(n, rng):
    return [(f"k{i}", attr_value(rng)) for i in range(n)]


SQLS = ["SELECT 1 FROM t", "\0", "\1", "\2", "\0\1SELECT 1", "\1\1x", "", " ", "\0\1\0\1\xfe\0\1aSELECT", "é", "SELECT '?'", "?", "a" * 300]


def sqltext(rng, codec="utf8"):
    r = rng.random()
    if r < .4:
        s = rng.choice(SQLS)
        try:
            if s.encode(codec).decode(codec) == s:
                return s
        except UnicodeError:
            pass
        return "SELECT 1"
    if r < .6:
        return chr(rng.randint(0, 2)) + chr(rng.randint(0, 2)) + "SELECT x"
    return "SELECT " + text(rng, codec)


TEXTS = ["SELECT ", ", ", " ,a=", " + ", " AND x = ", " FROM t WHERE y IN (", ")", " ", "/*c*/ "]


def stmt(rng, m):
    tpl = ["SELECT "] + [rng.choice([", ", " ,", " , x = ", " AND é <> ", " IN ( "]) for _ in range(max(0, m - 1))]
    if m == 0:
        return ["SELECT a FROM t"]
    return tpl + [rng.choice([" FROM t", "", " )", " -- end"])]


# ------------------------------------------------------------------ cases
def run_masks(case, st, rng):
    m, n = case["m"], case["n"]
    s = S(st, rng)
    tpl = stmt(rng, m)
    sid = s.prepare("?".join(tpl))
    for mask in itertools.product([0, 1, 2], repeat=m + n):
        if sum(x == 2 for x in mask) > 2 and rng.random() < .8:
            continue

        def pick(x, gen):
            if x == 1:
                return ("null", None)
            if x == 2:
                return ("typed_null", rng.choice([P.T_LONG, P.T_VARCHAR, P.T_DOUBLE, P.T_LONGLONG]))
            while True:
                p = gen(rng)
                if value(p) is not None:
                    return p
        params = [pick(x, param_value) for x in mask[:m]]
        attrs = [(f"k{i}", pick(x, attr_value)) for i, x in enumerate(mask[m:])]
        s.execute(sid, tpl, params, attrs)
        if m == 0:
            s.query(sqltext(rng), attrs)
    s.w.close()


def run_kinds(case, st, rng):
    kind = case["kind"]
    if kind in INTK:
        lo, hi = INTK[kind]
        vals = {lo, hi, lo + 1, hi - 1, 0, 1}
        for b in range(0, 65):
            for d in (-1, 0, 1):
                vals |= {2**b + d, -(2**b) + d}
        vals = sorted(v for v in vals if lo <= v <= hi)
    elif kind == "f64":
        vals = [0.0, -0.0, 1.0, 0.1, -2.5, 1e308, -1e308, 5e-324, float("inf"), float("-inf"), float("nan"), 2.0**53, 1 / 3]
    elif kind == "f32":
        vals = [f32(x) for x in [0.0, -0.0, 1.0, 0.1, -2.5, 3.4e38, 1e-45, float("inf"), float("-inf"), float("nan"), 16777216.0, 1 / 3]]
    else:
        vals = ["", "a", "0", "NULL", "é漢😀", "a\0b", "'", "\\", " " * 5, "a" * 250, "a" * 251, "é" * 126] + [text(rng) for _ in range(20)]
    s = S(st, rng)
    sid = s.prepare("SELECT ?")
    sid0 = s.prepare("SELECT 1")
    for v in vals:
        p = (kind, v)
        around = [("before", attr_value(rng)), ("v", p), ("after", attr_value(rng))]
        rng.shuffle(around)
        s.query("SELECT 1", around)
        s.execute(sid0, ["SELECT 1"], [], around)
        s.execute(sid, ["SELECT ", ""], [param_value(rng)], around)
    s.w.close()


def run_counts(case, st, rng):
    n = case["n"]
    s = S(st, rng)
    for m in range(11):
        tpl = stmt(rng, m)
        sid = s.prepare("?".join(tpl))
        for _ in range(2):
            s.execute(sid, tpl, [param_value(rng) for _ in range(m)], uniq(n, rng))
    for _ in range(6):
        s.query(sqltext(rng), uniq(n, rng))
    # only NULLs, no NULL at all, only the last / the first one
    for f in (lambda i: True, lambda i: False, lambda i: i == n - 1, lambda i: i == 0, lambda i: i % 8 == 7, lambda i: i % 8 == 0):
        s.query("SELECT 1", [(f"k{i}", ("null", None) if f(i) else ("i16", i)) for i in range(n)])
    s.w.close()


def run_prefix(case, st, rng):
    for qa, sqa in ((False, True), (True, False), (True, True)):
        s = S(st, rng, qa=qa, server_qa=sqa)
        for b in range(case["from"], case["from"] + 4):
            for tail in ("", "\0", "\1", "\2", "\1\0\1\xfe\0\1aSELECT", "ASELECT 1", "\1\1\1x"):
                sql = chr(b) + tail
                s.query(sql, attr_list(rng) if s.qa and rng.random() < .6 else [])
                if not s.qa:
                    st.count("noqa_prefix")
                    if "?" not in sql:
                        sid = s.prepare(sql)
                        s.execute(sid, [sql], [], [])
        s.w.close()


def run_noqa(case, st, rng):
    """Conversations of clients without the capability (or of a server that does not offer it)."""
    server_qa = rng.random() < .7
    s = S(st, rng, qa=not server_qa and rng.random() < .7, server_qa=server_qa, caps=rng.choice([BASE, P.BASE_CAPS, P.BASE_CAPS | P.DEPRECATE_EOF]))
    for _ in range(rng.randint(3, 8)):
        if rng.random() < .6:
            s.query(sqltext(rng), [])
        else:
            m = rng.randint(0, 4)
            tpl = stmt(rng, m)
            sid = s.prepare("?".join(tpl))
            # PARAMETER_COUNT_AVAILABLE without the capability means nothing
            s.execute(sid, tpl, [param_value(rng) for _ in range(m)], [], flags=rng.choice([0, 0, 8]))
    s.w.close()


def run_rand(case, st, rng):
    cs = rng.choice(list(CS)) if rng.random() < .4 else 45
    s = S(st, rng, charset=cs, caps=rng.choice([BASE, P.BASE_CAPS, P.BASE_CAPS | P.DEPRECATE_EOF]))
    codec = s.c.codec
    s.mutate = rng.choice([None, None, "clear", "add"])
    stmts = []
    for _ in range(rng.randint(3, 10)):
        r = rng.random()
        if r < .45 or not stmts:
            s.query(sqltext(rng, codec), attr_list(rng, codec))
        if r > .8 or not stmts:
            m = rng.choice([0, 0, 1, 2, 3, 7, 8, 9])
            tpl = stmt(rng, m)
            if any(not fits(x, codec) for x in tpl):
                continue
            stmts.append((s.prepare("?".join(tpl)), tpl))
        elif stmts:
            sid, tpl = rng.choice(stmts)
            m = len(tpl) - 1
            params = [param_value(rng, codec) for _ in range(m)]
            long = {}
            for i in range(m):
                if rng.random() < .15:
                    data = text(rng, codec).encode(codec)
                    k = rng.randint(0, len(data))
                    params[i] = (rng.choice(STRK), "")
                    long[i] = [data[:k], data[k:]]
            s.execute(sid, tpl, params, attr_list(rng, codec), cursor=rng.random() < .25, long=long)
    st.sample(repr(s.c.caps))
    if s.c.ping().kind != "ok":
        raise Violation("connection not usable afterwards")
    s.w.close()


def fits(x, codec):
    try:
        return x.encode(codec).decode(codec) == x
    except UnicodeError:
        return False


FULL = ["SELECT a FROM t", "SELECT 1 + ?", "INSERT INTO t VALUES (?, ?)", "SELECT '?' FROM t WHERE a = ?", "UPDATE t SET a = 1", "SELECT /*+ SET_VAR(sql_mode='x') */ a FROM t",
        "BEGIN", "SELECT a FROM t; SELECT b FROM t", "SELECT * FROM (SELECT 1 AS a) AS q, t", "CREATE TABLE x (a INT)"]


def run_full(case, st, rng):
    """The library's own Session in front of the application; also through its middleware hook."""
    s = S(st, rng, full=True, qa=rng.random() < .85)
    for _ in range(rng.randint(2, 6)):
        sql = rng.choice(FULL)
        attrs = attr_list(rng)
        if "; " in sql:
            s.query(sql, attrs, times=2)
        elif "SET_VAR" in sql or "?" not in sql and rng.random() < .5:
            if "BEGIN" in sql or "1 + " in sql:
                continue
            s.query(sql, attrs)
        elif sql in ("SELECT 1 + ?", "BEGIN"):
            continue
        else:
            tpl = sql.split("?")
            if "'?'" in sql:
                tpl = ["SELECT '?' FROM t WHERE a = ", ""]
            sid = s.prepare(sql)
            params = []
            for _ in range(len(tpl) - 1):
                p = param_value(rng)
                v = value(p)
                params.append(("i32", 5) if isinstance(v, str) and ("\0" in v) else p)
            s.execute(sid, tpl, params, attrs)
    s.w.close()


def run_charset(case, st, rng):
    cs = CS[case["cs"]]
    s = S(st, rng, charset=case["cs"])
    codec = s.c.codec
    sid = s.prepare("SELECT ?")
    for _ in range(25):
        attrs = []
        for n, p in attr_list(rng, codec):
            v = value(p)
            if cs == "latin1" and (any(0x80 <= ord(ch) < 0xa0 for ch in n) or isinstance(v, str) and any(0x80 <= ord(ch) < 0xa0 for ch in v)):
                continue
            if p[0] in STRK and rng.random() < .3:
                assert cenc(cs, v) == v.encode(codec)
            attrs.append((n, p))
        s.query("SELECT 1", attrs)
        s.execute(sid, ["SELECT ", ""], [("i8", 1)], attrs)
    s.w.close()


def run_many(case, st, rng):
    n = case["n"]
    s = S(st, rng)
    s.query("SELECT 1", uniq(n, rng))
    tpl = stmt(rng, 3)
    sid = s.prepare("?".join(tpl))
    s.execute(sid, tpl, [param_value(rng) for _ in range(3)], uniq(n, rng))
    s.query("SELECT 2", [])
    s.w.close()


def run_long(case, st, rng):
    n = case["n"]
    s = S(st, rng)
    big = n > 10**6
    filler = "x" * (n - 3) + "é!"
    a = [("a", ("i8", 1)), ("big", (rng.choice(STRK), filler)), ("z", ("u64", 2**64 - 1))]
    s.query("SELECT 1", a)
    if not big or rng.random() < .5:
        s.query("SELECT 1", [("y" * (n - 1) + "z", ("i8", -1)), ("b", ("string", "q"))])
    sid = s.prepare("SELECT ?")
    s.execute(sid, ["SELECT ", ""], [("i8", 3)], a)
    s.query("SELECT 2", [("a", ("null", None))])
    s.w.close()


def run_stray(case, st, rng):
    """Long data announced for something that is no parameter (or for another statement) leaves attributes alone."""
    s = S(st, rng)
    m = rng.randint(0, 3)
    tpl = stmt(rng, m)
    sid = s.prepare("?".join(tpl))
    other = s.prepare("SELECT ?, ?")
    for _ in range(3):
        idx = m + rng.choice([0, 0, 1, 2, 40000])
        for _ in range(rng.randint(1, 2)):
            s.c.long_data(sid, idx, b"stray")
        if rng.random() < .5:
            s.c.long_data(other, 0, b"elsewhere")
        attrs = attr_list(rng, n=rng.randint(1, 4))
        s.got.clear()
        params = [param_value(rng) for _ in range(m)]
        r = s.c.execute(sid, params, False, attrs)
        if r.kind == "err":
            # refusing such an execution is fine, as long as it does not poison the statement
            if s.got:
                raise Violation("the application was called although the execution was refused")
            s.c.stmt_reset(sid)
            st.count("stray_refused")
        else:
            s.judge("COM_STMT_EXECUTE", None, attrs, params=m)
            bound(tpl, [value(p) for p in params], s.got[0][0], params, attrs)
            st.count("stray")
        params = [param_value(rng) for _ in range(m)]
        s.execute(sid, tpl, params, attr_list(rng))
    s.w.close()


UNSUP = [(P.T_DATETIME, b"\x04\xe8\x07\x01\x02"), (P.T_DATE, b"\x04\xe8\x07\x01\x02"), (P.T_TIMESTAMP, b"\x00"), (P.T_TIME, b"\x00"),
         (P.T_NEWDECIMAL, P.lstr(b"1.5")), (P.T_DECIMAL, P.lstr(b"1.5")), (P.T_BIT, P.lstr(b"\x01")), (P.T_JSON, P.lstr(b"{}"))]


def run_unsup(case, st, rng):
    """A type the library does not support: refused, or delivered; never a damaged statement."""
    s = S(st, rng)
    t, data = rng.choice(UNSUP)
    attrs = attr_list(rng, n=rng.randint(0, 4))
    n = len(attrs) + 1
    at = rng.randrange(n)
    bitmap = bytearray((n + 7) // 8)
    types = vals = b""
    rest = list(attrs)
    for i in range(n):
        if i == at:
            types += bytes([t, 0]) + P.lstr(b"odd")
            vals += data
            continue
        nm, p = rest.pop(0)
        pt, f, d = P.enc_param(p)
        types += bytes([pt, f]) + P.lstr(nm.encode())
        if d is None:
            bitmap[i // 8] |= 1 << i % 8
        else:
            vals += d
    s.got.clear()
    sql = sqltext(rng)
    r = s.c.resp(bytes([P.COM_QUERY]) + P.lenenc(n) + P.lenenc(1) + bytes(bitmap) + b"\x01" + types + vals + sql.encode(),
                 lambda pl: P.parse_query(pl, s.c.caps))
    if r.kind == "err":
        if s.got:
            raise Violation("the application was called although the statement was refused")
        st.count("unsup_refused")
    else:
        if len(s.got) != 1 or s.got[0][0] != sql:
            raise Violation(f"attribute of type {t:#x}: SQL {sql!r} arrived as {s.got!r}")
        ga = s.got[0][1]
        for k, vs in expect(attrs).items():
            if k == "odd":
                continue
            if k not in ga or not any(same(v, ga[k]) for v in vs):
                raise Violation(f"attribute of type {t:#x} damaged its neighbours: {attrs!r} arrived as {ga!r}")
        st.count("unsup_ok")
    s.query(sqltext(rng), attr_list(rng))
    s.w.close()


def run_change(case, st, rng):
    """The negotiated mode survives COM_CHANGE_USER, COM_RESET_CONNECTION and SET NAMES-like charset changes."""
    qa = rng.random() < .6
    s = S(st, rng, qa=qa)
    for _ in range(rng.randint(2, 4)):
        what = rng.choice(["change", "reset", "debug", "badcmd"])
        if what == "change":
            cs = rng.choice(list(CS))
            r = s.c.resp(P.com_change_user(s.c.caps, b"u2", b"", charset=cs, plugin=b"mysql_native_password"), lambda pl: P.parse_simple(pl, s.c.caps))
            if r.kind != "ok":
                raise Violation(f"COM_CHANGE_USER: {r!r}")
            s.c.codec = PY[CS[cs]]
            cur = CS[cs]
        elif what == "reset":
            s.c.resp(bytes([0x1f]), lambda pl: P.parse_simple(pl, s.c.caps))
        elif what == "debug":
            s.c.resp(bytes([0x0d]), lambda pl: P.parse_simple(pl, s.c.caps, allow_eof=True))
        else:
            s.c.resp(bytes([0x1d]), lambda pl: P.parse_simple(pl, s.c.caps))
        codec = s.c.codec
        for _ in range(3):
            attrs = [(n, p) for n, p in attr_list(rng, codec) if codec != "latin1" or
                     not any(0x80 <= ord(ch) < 0xa0 for ch in n + (value(p) if isinstance(value(p), str) else ""))]
            sql = sqltext(rng, codec)
            s.query(sql if codec != "latin1" or not any(0x80 <= ord(ch) < 0xa0 for ch in sql) else "SELECT 1", attrs if qa else [])
        sid = s.prepare("SELECT ?, ?")
        s.execute(sid, ["SELECT ", ", ", ""], [("i8", 1), ("i8", -1)], attrs if qa else [])
        st.count("change." + what)
    s.w.close()
