"""C05: what a client decodes (text, binary, cursor) is what the application returned."""
import asyncio
import itertools
import math
import random
import struct
from datetime import date, datetime, timedelta
from decimal import Decimal

from vlib import proto as P
from vlib.apps import AsyncRows, RecBase, RecSession, arows
from vlib.client import World
from vlib.runner import Violation

from mysql_mimic import ResultColumn, ResultSet
from mysql_mimic.charset import CharacterSet
from mysql_mimic.types import ColumnType as CT

ID = "C05"
LEVEL = "exploration"
RULE = ("results (type x value domain boundaries x NULL pattern x shape x declaration x row source) decoded over "
        "text, binary and cursor; distinct = (protocol, column types, NULL pattern, value classes, declaration, "
        "row source)")
ASSUMPTIONS = ["types without an encoder in the library (TIMESTAMP2, TYPED_ARRAY, ...) and NEWDATE are not used",
               "column values belong to the type's domain (e.g. date for DATE, no time zones)",
               "string columns use characters on which the MySQL and the independent codec agree"]
EXHAUSTIVE = ["all NULL patterns for rows*cols <= 9, all positions of one NULL / one non-NULL for 1..40 columns"]
MIN = {"cells.text": 20000, "cells.binary": 20000, "cells.cursor": 10000, "rows": 10000, "inferred_cols": 1000}
DEADLINE = {"quick": 480, "thorough": 780}

# independent table: MySQL character set -> python codec
CODEC = {"utf8mb4": "utf-8", "utf8": "utf-8", "latin1": "cp1252", "ascii": "ascii", "utf16": "utf-16-be",
         "utf32": "utf-32-be", "gbk": "gbk", "sjis": "shift_jis", "big5": "big5", "cp1251": "cp1251",
         "greek": "iso8859-7", "hebrew": "iso8859-8", "euckr": "euc_kr", "latin2": "iso8859-2",
         "latin5": "iso8859-9", "latin7": "iso8859-13", "cp866": "cp866", "gb18030": "gb18030", "ujis": "euc_jp",
         "cp850": "cp850", "cp1250": "cp1250", "tis620": "tis-620", "gb2312": "gb2312", "cp932": "cp932",
         "koi8r": "koi8-r", "koi8u": "koi8-u", "macroman": "mac_roman", "ucs2": "utf-16-be", "utf16le": "utf-16-le",
         "cp852": "cp852", "cp1256": "cp1256", "cp1257": "cp1257"}
REPERTOIRE = {"utf8mb4": "aZ09 '\"\\\0é☃漢😀\u200b\u0301\r\n\ufeff", "utf8": "aé☃漢\uffff", "latin1": "aé£ÿ¡\u00a0€Žœ",
              "ascii": "a~\0\x7f", "utf16": "aé☃😀\ufeff\ufffe", "utf32": "aé☃😀\U0010ffff", "gbk": "a漢字中文", "sjis": "aカタ漢",
              "big5": "a漢字", "cp1251": "aДжї", "greek": "aΩλ", "hebrew": "aאש", "euckr": "a한국", "latin2": "ač",
              "latin5": "ağ", "latin7": "až", "cp866": "aД", "gb18030": "a漢😀", "ujis": "a漢カ", "cp850": "aé",
              "cp1250": "ač", "tis620": "aกข", "gb2312": "a中文", "cp932": "aカ漢",
              "koi8r": "aДж", "koi8u": "aДжї", "macroman": "aéß", "ucs2": "aé☃漢", "utf16le": "aé☃😀", "cp852": "ač",
              "cp1256": "aسل", "cp1257": "aé"}

INTS = {CT.TINY: (-128, 127), CT.SHORT: (-2**15, 2**15 - 1), CT.INT24: (-2**23, 2**23 - 1),
        CT.LONG: (-2**31, 2**31 - 1), CT.LONGLONG: (-2**63, 2**63 - 1), CT.YEAR: (1901, 2155)}
STRS = [CT.VARCHAR, CT.VAR_STRING, CT.STRING, CT.ENUM, CT.SET, CT.JSON, CT.TINY_BLOB, CT.MEDIUM_BLOB, CT.LONG_BLOB,
        CT.BLOB, CT.GEOMETRY]
DTS = [CT.DATETIME, CT.TIMESTAMP]
ALL = list(INTS) + STRS + DTS + [CT.FLOAT, CT.DOUBLE, CT.DECIMAL, CT.NEWDECIMAL, CT.DATE, CT.TIME, CT.BOOL, CT.BIT]

US = timedelta(microseconds=1)
MAXT = timedelta(hours=838, minutes=59, seconds=59)


def f32(x):
    return struct.unpack("<f", struct.pack("<f", x))[0]


def micros(rng):
    """Every number of leading and trailing zeros in the fraction."""
    return rng.randrange(10 ** rng.randint(1, 6)) // (k := 10 ** rng.randint(0, 5)) * k


def values(t, cs, rng):
    """Boundary values of the type's domain, then random ones (an endless iterator)."""
    if t in INTS:
        lo, hi = INTS[t]
        base = [lo, hi, lo + 1, hi - 1]
        if t is not CT.YEAR:
            base += [0, 1, -1, 2, True, False, 7, -7]
            base += [v for k in (7, 8, 15, 16, 23, 24, 31, 32, 62) for v in (2**k, -2**k, 2**k - 1, -2**k - 1) if lo <= v <= hi]
        more = lambda: rng.choice([rng.randint(lo, hi), rng.randint(max(lo, -300 if lo < 0 else lo), min(hi, 300 if hi < 2000 or lo < 0 else hi))])
    elif t is CT.BOOL:
        base, more = [True, False, 1, 0], lambda: rng.random() < .5
    elif t is CT.FLOAT:
        base = [0.0, -0.0, 1.0, -1.5, f32(0.1), f32(3.4028234e38), f32(-3.4028234e38), f32(1.17549435e-38), 2.0**-149, math.inf, -math.inf, math.nan, 16777217 // 1 * 1.0 - 1, 3]
        more = lambda: f32(rng.choice([rng.uniform(-1e6, 1e6), rng.uniform(-1, 1) * 10.0 ** rng.randint(-40, 37)]))
    elif t is CT.DOUBLE:
        base = [0.0, -0.0, 1.0, 0.1, 1.7976931348623157e308, -1.7976931348623157e308, 5e-324, 2.2250738585072014e-308,
                math.inf, -math.inf, math.nan, 1e22, 1e23, 1e15, 1e17, 2.0**53, 2.0**63, -2.0**64, 100.0, 123456789.123456789, 1 / 3, 1e16, -1e-5, 1e-4, 7, True, -3]
        more = lambda: rng.choice([rng.uniform(-1e6, 1e6), rng.uniform(-1, 1) * 10.0 ** rng.randint(-307, 307),
                                   float(rng.randint(-2**53, 2**53))])
    elif t in (CT.DECIMAL, CT.NEWDECIMAL):
        base = [Decimal("0"), Decimal("-0.01"), Decimal("9" * 65), Decimal("0." + "0" * 29 + "1"), 5, -5, True,
                Decimal("1.10"), Decimal("-" + "9" * 35 + "." + "9" * 30)]
        more = lambda: Decimal(rng.randint(-10**20, 10**20)).scaleb(-rng.randint(0, 12))
    elif t is CT.DATE:
        base = [date(1, 1, 1), date(9999, 12, 31), date(2000, 2, 29), date(1970, 1, 1), date(999, 9, 9), date(1000, 1, 1)]
        more = lambda: date.fromordinal(rng.randint(1, date.max.toordinal()))
    elif t in DTS:
        d = datetime
        base = [d(1, 1, 1), d.max, d(2000, 2, 29, 23, 59, 59), d(2021, 1, 1, 0, 0, 0, 1), d(2021, 1, 1, 0, 0, 0, 999999),
                d(2021, 1, 1, 0, 0, 0, 1000), d(2021, 1, 1, 1, 0, 0, 5000), d(2021, 1, 1, 0, 1, 0, 99), d(2021, 3, 1, 0, 0, 7, 90000),
                d(2021, 1, 1, 0, 0, 1), d(2021, 1, 1, 0, 1), d(2021, 1, 1, 1), d(2021, 1, 1), d(2021, 12, 31, 12, 0, 0, 100000),
                d(2021, 12, 31, 12, 34, 56, 10), d(99, 1, 1, 1, 1, 1), d(2038, 1, 19, 3, 14, 8)]
        more = lambda: d.fromordinal(rng.randint(1, date.max.toordinal())) + timedelta(
            seconds=rng.choice([0, rng.randrange(86400)]), microseconds=rng.choice([0, micros(rng)]))
    elif t is CT.TIME:
        h = timedelta(hours=1)
        base = [timedelta(0), US, -US, timedelta(seconds=1), -timedelta(seconds=1), timedelta(seconds=60), 24 * h, -24 * h,
                24 * h - US, -(24 * h - US), 24 * h + US, -24 * h - US, 25 * h, -25 * h, 48 * h, -48 * h, MAXT, -MAXT,
                MAXT + timedelta(microseconds=999999), -MAXT - timedelta(microseconds=999999), timedelta(hours=-1, minutes=-30),
                timedelta(hours=100), timedelta(seconds=59, microseconds=999999), -timedelta(hours=23, minutes=59, seconds=59),
                timedelta(microseconds=100000), -timedelta(microseconds=10), timedelta(microseconds=1000), timedelta(microseconds=50),
                timedelta(microseconds=99000), -timedelta(hours=30, microseconds=5000), 839 * h, -840 * h, 999 * h, 1000 * h + US, 2000 * h,
                -timedelta(hours=9999, minutes=1), timedelta(days=1000, seconds=1), timedelta(days=65536, microseconds=3), 10 * h, -10 * h, timedelta(days=34, hours=22)]
        more = lambda: rng.choice([1, -1]) * timedelta(hours=rng.choice([rng.randint(0, 23), rng.randint(0, 837), rng.randint(0, 20000)]), minutes=rng.randint(0, 59),
                                                       seconds=rng.randint(0, 59), microseconds=rng.choice([0, micros(rng)]))
    elif t is CT.BIT:
        base, more = [b"\0", b"\x01", b"\xff" * 8, b"\x05", b""], lambda: rng.randbytes(rng.randint(1, 8))
    else:
        rep = REPERTOIRE[cs]
        base = [bytearray(b"\x00ba'\xff"), memoryview(b"view \xfe\x00"), memoryview(b"some view")[2:-2], memoryview(b"0123456789")[::3], bytearray(), "", "a", "".join(c for c in rep), rep[-1], rep[-1] * 300, "a" * 250, "a" * 251, "a" * 252, "0", "NULL", " ", b"", b"\0",
                b"\xff\xfe\x00\x80", bytes(range(256)), b"\xfb", b"\xfe" * 9, rep * 3 + " "]
        more = lambda: ("".join(rng.choice(rep) for _ in range(rng.choice([0, 1, 3, 10, 60, 125, 250, 251, 260])))
                        if rng.random() < .75 else rng.choice([bytes, bytes, bytearray, memoryview])(rng.randbytes(rng.choice([0, 1, 8, 250, 251]))))
    yield from base
    while True:
        yield more()


INFER = {bytearray: CT.BLOB, memoryview: CT.BLOB, bool: CT.TINY, int: CT.LONGLONG, float: CT.DOUBLE, str: CT.STRING, bytes: CT.BLOB, date: CT.DATE,
         datetime: CT.DATETIME, timedelta: CT.TIME}
PYTYPES = list(INFER)


# instances of subclasses of the types
SUB = {int: type("Int", (int,), {}), str: type("Str", (str,), {}), bytes: type("Bytes", (bytes,), {}), float: type("Float", (float,), {})}


def inferable(v, first):
    """May v follow `first` in a column whose type was inferred from `first`?"""
    if type(v) is type(first):
        return True
    if type(first) is bool:
        return type(v) is int and -128 <= v <= 127
    if type(first) is int:
        return type(v) is bool
    if type(first) is float:
        return type(v) in (int, bool) and abs(v) < 2**53
    return {type(v), type(first)} <= {str, bytes, bytearray, memoryview}


# ------------------------------------------------------------------ client-side decoding
def decode_text(col, raw):
    t = col.type
    if t in (P.T_TINY, P.T_SHORT, P.T_LONG, P.T_LONGLONG, P.T_INT24, P.T_YEAR, P.T_BOOL):
        s = raw.decode("ascii")
        if not s.removeprefix("-").isdigit():
            raise P.ProtoError(f"integer text {raw!r}")
        return int(s)
    if t in (P.T_FLOAT, P.T_DOUBLE):
        s = raw.decode("ascii")
        if s.strip("+-.0123456789eE") and s.lower().lstrip("+-") not in ("inf", "infinity", "nan"):
            raise P.ProtoError(f"number text {raw!r}")
        return f32(float(s)) if t == P.T_FLOAT else float(s)
    if t in (P.T_DECIMAL, P.T_NEWDECIMAL):
        return ("dec", raw)
    if t == P.T_TIME:
        return P.parse_text_time(raw)
    if t == P.T_DATE:
        r = P.parse_text_dt(raw)
        return ("date",) + r[1:4] if len(raw) == 10 else r
    if t in (P.T_DATETIME, P.T_TIMESTAMP):
        return P.parse_text_dt(raw)
    return raw


def expected(v, cs):
    """the normal form of an application value"""
    if isinstance(v, (bool, int)):
        return int(v)
    if isinstance(v, datetime):
        return ("dt", v.year, v.month, v.day, v.hour, v.minute, v.second, v.microsecond)
    if isinstance(v, date):
        return ("date", v.year, v.month, v.day)
    if isinstance(v, str):
        return v.encode(CODEC[cs])
    if isinstance(v, (bytearray, memoryview)):
        return bytes(v)
    return v


def same(v, got, col, cs):
    if v is None or got is None:
        return v is None and got is None
    if col.type in (P.T_DECIMAL, P.T_NEWDECIMAL):
        raw = got[1] if isinstance(got, tuple) else got
        s = raw.decode("ascii")
        return not s.strip("+-.0123456789E") and Decimal(s) == Decimal(int(v) if isinstance(v, bool) else v)
    e = expected(v, cs)
    if isinstance(e, tuple) != isinstance(got, tuple) or isinstance(e, bytes) != isinstance(got, bytes):
        return False
    if isinstance(e, timedelta) != isinstance(got, timedelta):
        return False
    if isinstance(e, float) and isinstance(got, float):
        # the sign of a zero included; not a number is only equal to itself
        return math.isnan(got) if math.isnan(e) else e == got and math.copysign(1, e) == math.copysign(1, got)
    return e == got


class Plan:
    """One result: names, per-column spec, rows, how rows and columns are handed over."""

    def __init__(self, names, specs, rows, source="list", wrap="tuple", rowtype=tuple):
        self.names, self.specs, self.rows, self.source, self.wrap, self.rowtype = names, specs, rows, source, wrap, rowtype
        self.result = None
        self.given = []

    def build(self):
        if self.wrap == "cached" and self.result is not None:
            return self.result
        cols = [n if s is None else ResultColumn(n, s[0], CharacterSet[s[1]]) for n, s in zip(self.names, self.specs)]
        if self.rowtype is tuple and self.source in ("list", "asyncit"):
            cols = tuple(cols)
        rows = [self.rowtype(r) for r in self.rows]
        if self.source == "tuple":
            rows = tuple(rows)
        elif self.source == "gen":
            rows = (r for r in rows)
        elif self.source == "iter":
            rows = iter(rows)
        elif self.source == "agen":
            rows = arows(rows)
        elif self.source == "agen_sleep":
            rows = sleepy(rows)
        elif self.source == "asyncit":
            rows = AsyncRows(rows)
        typed = all(s is not None for s in self.specs)
        r = ResultSet(rows, cols) if typed and self.wrap in ("rs", "cached") else (rows, cols)
        if self.source in ("list", "tuple"):
            self.given.append((rows, cols, list(cols)))
        self.result = r
        return r


async def sleepy(rows):
    for i, r in enumerate(rows):
        if i % 3 == 1:
            await asyncio.sleep(0)
        yield r


def check(plan, resp, st, how):
    if resp.kind == "err":
        raise Violation(f"{how}: {describe(plan)}: answered {resp.err!r}")
    if not plan.names:
        if resp.kind != "ok":
            raise Violation(f"{how}: a result without columns answered as {resp!r}")
        st.seen(how, "empty")
        return
    if resp.kind != "rs":
        raise Violation(f"{how}: {describe(plan)}: answered {resp!r}")
    if len(resp.cols) != len(plan.names):
        raise Violation(f"{how}: {len(resp.cols)} columns instead of {len(plan.names)}")
    names = [c.name.decode("utf8") for c in resp.cols]
    if names != list(plan.names):
        raise Violation(f"{how}: column names {names} instead of {plan.names}")
    if len(resp.rows) != len(plan.rows):
        raise Violation(f"{how}: {describe(plan)}: {len(resp.rows)} rows instead of {len(plan.rows)}")
    for c, s in zip(resp.cols, plan.specs):
        if s is not None and (c.type != s[0] or c.charset != int(CharacterSet[s[1]])):
            raise Violation(f"{how}: column declared {s}, client sees type {c.type} charset {c.charset}")
    for i, (row, got) in enumerate(zip(plan.rows, resp.rows)):
        for j, (v, g) in enumerate(zip(row, got)):
            col = resp.cols[j]
            cs = plan.specs[j][1] if plan.specs[j] else "utf8mb4"
            if g is not None and how == "text":
                try:
                    g = decode_text(col, g)
                except (ValueError, P.ProtoError) as e:
                    raise Violation(f"text: value {v!r} of column type {col.type} is not decodable: {e}")
            if not same(v, g, col, cs):
                raise Violation(f"{how}: row {i} column {j} ({'declared ' + str(plan.specs[j]) if plan.specs[j] else 'inferred'}, "
                                f"type {col.type}): application {short(v)}, client {short(g)}")
    n = len(plan.rows) * len(plan.names)
    st.count("cells." + how, n)
    st.count("rows", len(plan.rows))
    st.count("inferred_cols", sum(s is None for s in plan.specs))
    if n <= 60:
        st.seen(how, tuple(c.type for c in resp.cols), plan.source, plan.wrap,
                tuple(tuple(cls(v) for v in r) for r in plan.rows))
    else:
        st.seen(how, len(plan.rows), len(plan.names), plan.source)


def cls(v):
    if v is None:
        return None
    if isinstance(v, (str, bytes, bytearray, memoryview)):
        return (type(v).__name__, len(v))
    return v


def short(v):
    s = repr(v)
    return s if len(s) < 120 else s[:100] + f"...({len(s)})"


def describe(plan):
    return f"result {len(plan.names)} cols x {len(plan.rows)} rows, specs {plan.specs[:4]}, first row {short(plan.rows[:1])}"


CAPSETS = [P.BASE_CAPS | P.DEPRECATE_EOF | P.LENENC_AUTH, P.BASE_CAPS, P.BASE_CAPS | P.LENENC_AUTH | P.OPTIONAL_META,
           P.BASE_CAPS | P.DEPRECATE_EOF | P.OPTIONAL_META | P.LENENC_AUTH | P.QUERY_ATTRIBUTES]


def transport(plans, st, rng, full=None):
    """Every plan over text, binary and cursor."""
    full = rng.random() < .3 if full is None else full
    idx = {}

    def handler(s, sql, attrs, *a):
        return plans[int(sql.split("r")[-1].split("_")[0])].build()
    with World(session=RecSession if full else RecBase, handler=handler) as w:
        c = w.login(client_caps=rng.choice(CAPSETS))
        for n, plan in enumerate(plans):
            sql = f"SELECT x FROM r{n}_"
            check(plan, c.query(sql), st, "text")
            p = c.prepare(sql)
            if p.kind != "prep":
                raise Violation(f"prepare answered {p!r}")
            check(plan, c.execute(p.stmt_id), st, "binary")
            if plan.wrap == "cached":
                check(plan, c.query(sql), st, "text")
                check(plan, c.execute(p.stmt_id), st, "binary")
            r = c.execute(p.stmt_id, cursor=True)
            if r.kind == "rs":
                rows = []
                for k in range(len(plan.rows) + 3):
                    f = c.fetch(p.stmt_id, rng.choice([1, 2, 7, 100]) if len(plan.rows) < 50 else 1000)
                    if f.kind == "err":
                        r = f
                        break
                    if f.kind != "fetch":
                        raise Violation(f"fetch answered {f!r}")
                    rows += f.rows
                    if f.status & P.LAST_ROW_SENT:
                        break
                else:
                    raise Violation("cursor: end of the result was never flagged")
                r.rows = rows
            check(plan, r, st, "cursor")
            c.stmt_close(p.stmt_id)
            for rows, cols, orig in plan.given:
                # the application may return these objects again
                if len(cols) != len(orig) or any(a is not b for a, b in zip(cols, orig)) or len(rows) != len(plan.rows) or any(
                        a is not b for r, s in zip(rows, plan.rows) for a, b in zip(r, s)) or any(len(r) != len(s) for r, s in zip(rows, plan.rows)):
                    raise Violation(f"{describe(plan)}: the application's own rows or columns were changed: {short(rows[:3])}")
                st.count("kept", 1)
        if c.ping().kind != "ok":
            raise Violation("connection not usable afterwards")


SOURCES = ["list", "tuple", "gen", "iter", "agen", "agen_sleep", "asyncit"]


def gen(tier, seed):
    n = 0
    T = tier == "thorough"
    rng = random.Random(f"{seed}/gen")
    for t in ALL:
        for cs in (CODEC if t in STRS else ["utf8mb4"]):
            for rep in range(1 if not T else 20):
                n += 1
                yield {"k": "domain", "t": int(t), "cs": cs, "seed": f"{seed}/{n}"}
    for py in range(len(PYTYPES)):
        for rep in range(6 if not T else 60):
            n += 1
            yield {"k": "infer", "py": py, "seed": f"{seed}/{n}"}
    for rows in range(0, 10):
        for cols in range(0, 10):
            if rows * cols <= 9:
                for mode in range(4 if not T else 12):
                    n += 1
                    yield {"k": "nulls", "rows": rows, "cols": cols, "mode": mode % 4, "seed": f"{seed}/{n}"}
    for cols in list(range(1, 135)) + [190, 198, 206, 250, 251, 252, 300, 510]:
        for mode in range(2 if not T else 10):
            n += 1
            yield {"k": "width", "cols": cols, "mode": mode % 2, "seed": f"{seed}/{n}"}
    for ln in [249, 250, 251, 252, 255, 256, 1000, 65534, 65535, 65536, 65537, 70000, 200000, 2**20]:
        for py in ("str", "bytes", "multi"):
            n += 1
            yield {"k": "long", "len": ln, "py": py, "seed": f"{seed}/{n}"}
    for ln in ([2**24 - 6] if not T else [2**24 + d for d in range(-10, 6)]):
        for py in ("str", "bytes"):
            n += 1
            yield {"k": "long", "len": ln, "py": py, "seed": f"{seed}/{n}"}
    for nr in [10, 99, 100, 101, 500, 1000, 3000] + ([20000, 100000] if T else []):
        for source in SOURCES:
            n += 1
            yield {"k": "many", "rows": nr, "source": source, "seed": f"{seed}/{n}"}
    for i, nr in enumerate([10000, 10001, 10002, 12345, 20001, 25000, 33000, 70000]):
        n += 1
        yield {"k": "many", "rows": nr, "source": SOURCES[(i * 2 + i // 4) % 5], "seed": f"{seed}/{n}"}
    for i, lead in enumerate([100, 1000, 4999, 5000, 5001, 9998, 9999, 10000, 10001, 12000] + ([15000, 30000, 65536] if T else [])):
        n += 1
        yield {"k": "many", "rows": lead + rng.choice([1, 2, 500]), "lead": lead, "source": SOURCES[(i * 3 + seed) % 7], "seed": f"{seed}/{n}"}
    for i in range(6000 if not T else 60000):
        n += 1
        yield {"k": "random", "seed": f"{seed}/{n}"}
    for i in range(1000 if not T else 6000):
        n += 1
        yield {"k": "names", "seed": f"{seed}/{n}"}
    for i in range(1200 if not T else 12000):
        n += 1
        yield {"k": "peek", "seed": f"{seed}/{n}"}


def run(case, st):
    return globals()["run_" + case["k"]](case, st, random.Random(case["seed"]))


def take(it, n):
    return list(itertools.islice(it, n))


def run_domain(case, st, rng):
    t, cs = CT(case["t"]), case["cs"]
    vals = take(values(t, cs, rng), 60)
    one = Plan(["c"], [(t, cs)], [[v] for v in vals], rng.choice(SOURCES), rng.choice(["tuple", "rs"]))
    withnull = Plan(["c", "d"], [(t, cs), (t, cs)], [[v, None] if i % 2 else [None, v] for i, v in enumerate(vals)],
                    rng.choice(SOURCES), "rs")
    row = Plan([f"c{i}" for i in range(len(vals))], [(t, cs)] * len(vals), [vals, vals[::-1]], rng.choice(SOURCES))
    cached = Plan(["c"], [(t, cs)], [[v] for v in vals[:20]], "list", "cached")
    transport([one, withnull, row, cached], st, rng)


def pyvals(py, rng):
    t = INFER[py]
    for v in values(t, "utf8mb4", rng):
        if type(v) is py:
            yield v


def run_infer(case, st, rng):
    py = PYTYPES[case["py"]]
    vals = take(pyvals(py, rng), 2 if py is bool else 40)
    if py is bool:
        vals = vals * 10
    pool = []
    for other in PYTYPES:
        pool += take(pyvals(other, rng), 2 if other is bool else 8)
    rng.shuffle(pool)
    plans = []
    for lead in (0, 1, 5):
        plans.append(Plan(["c"], [None], [[None]] * lead + [[v] for v in vals], rng.choice(SOURCES), rowtype=rng.choice([tuple, list])))
    first = vals[0]
    mixed = [first] + [v for v in pool + [None, None] if v is None or inferable(v, first)]
    plans.append(Plan(["c", "c"], [None, None], [[a, b] for a, b in zip(mixed, [None, None] + mixed)], rng.choice(SOURCES)))
    if py in SUB:
        plans.append(Plan(["s", "m"], [None, None], [[SUB[py](v), None if i % 3 == 0 else SUB[py](v) if i % 2 else v] for i, v in enumerate(vals[:12])],
                          rng.choice(SOURCES)))
    transport(plans, st, rng)


_POOL = {}


def anyval(py, rng):
    if py not in _POOL:
        _POOL[py] = take(pyvals(py, random.Random(f"pool{py}")), 2 if py is bool else 120)
    return rng.choice(_POOL[py])


def run_nulls(case, st, rng):
    r, c = case["rows"], case["cols"]
    plans = []
    pats = range(1 << (r * c))
    if len(pats) > 64:
        pats = [p for i, p in enumerate(pats) if i % 2 == case["mode"] // 2]
    inferred = case["mode"] % 2
    types = [rng.choice(ALL) for _ in range(c)]
    pys = [rng.choice(PYTYPES) for _ in range(c)]
    vals = {}
    for j in range(c):
        for i in range(r):
            vals[i, j] = anyval(pys[j], rng) if inferred else rng.choice(take(values(types[j], "utf8mb4", rng), 12))
    for pat in pats:
        rows = [[None if pat >> (i * c + j) & 1 else vals[i, j] for j in range(c)] for i in range(r)]
        specs = [None if inferred else (types[j], "utf8mb4") for j in range(c)]
        plans.append(Plan([f"n{j}" for j in range(c)], specs, rows, rng.choice(SOURCES), rng.choice(["tuple", "rs"]),
                          rng.choice([tuple, list])))
    if plans:
        transport(plans, st, rng)


def run_width(case, st, rng):
    c = case["cols"]
    inferred = case["mode"]
    pys = [rng.choice(PYTYPES) for _ in range(c)]
    types = [rng.choice(ALL) for _ in range(c)]
    base = [anyval(pys[j], rng) if inferred else rng.choice(take(values(types[j], "utf8mb4", rng), 8)) for j in range(c)]
    specs = [None if inferred else (types[j], "utf8mb4") for j in range(c)]
    rows = [list(base), [None] * c]
    pos = range(c) if c <= 40 else rng.sample(range(c), 8 if 65 < c < 135 else 25)
    for j in pos:
        rows.append([None if k == j else base[k] for k in range(c)])
        rows.append([base[k] if k == j else None for k in range(c)])
    for _ in range(6):
        rows.append([None if rng.random() < .5 else base[k] for k in range(c)])
    head, rest = rows[0], rows[1:]
    rng.shuffle(rest)
    rows = [head] + rest if not inferred or rng.random() < .5 else rest + [head]
    transport([Plan([f"w{j}" for j in range(c)], specs, rows, rng.choice(SOURCES), rowtype=rng.choice([tuple, list]))], st, rng)


def run_long(case, st, rng):
    n = case["len"]
    if case["py"] == "str":
        v = ("abcdefghij" * (n // 10 + 1))[:n]
    elif case["py"] == "bytes":
        v = (rng.randbytes(min(n, 4096)) * (n // 4096 + 1))[:n]
    else:
        v = ("é☃😀" * (n // 9 + 1))
    t = (CT.BLOB, "utf8mb4") if case["py"] == "bytes" else (rng.choice([CT.VARCHAR, CT.STRING, CT.LONG_BLOB]), "utf8mb4")
    plans = [Plan(["a", "b", "c"], [None, t, None], [[1, v, "z"], [2, None, "y"], [3, "", "x"]], rng.choice(SOURCES))]
    if n < 2**21:
        plans.append(Plan(["a", "b"], [None, None], [[v, v], ["", v], [v, ""], [None, v]], rng.choice(SOURCES)))
        plans.append(Plan(["b"], [None], [[v]], rng.choice(SOURCES)))
        plans.append(Plan(["n" * min(n, 300), "n"], [None, None], [[v, 1]], rng.choice(SOURCES)))
    else:
        plans.append(Plan(["b"], [t], [[v], ["x"]], rng.choice(SOURCES)))
    transport(plans, st, rng)


def run_many(case, st, rng):
    n = case["rows"]
    rows = [[i, None if rng.random() < .2 else f"row{i}", i * 0.5, -i] for i in range(n)]
    specs = rng.choice([[None] * 4, [(CT.LONG, "utf8mb4"), None, None, (CT.LONGLONG, "utf8mb4")],
                        [(CT.LONG, "utf8mb4"), (CT.VARCHAR, "utf8mb4"), (CT.DOUBLE, "utf8mb4"), (CT.LONG, "utf8mb4")]])
    if case.get("lead"):
        # columns whose first value comes late: all rows up to there are looked at to infer the type
        for r in rows[:case["lead"]]:
            r[1] = None
            if rng.random() < .5:
                r[2] = None
        specs = [None] * 4
    transport([Plan(["i", "s", "f", "n"], specs, rows, case["source"])], st, rng)


def random_plan(rng):
    c = rng.choice([0, 1, 1, 2, 3, 5, 6, 7, 8, 13, 14, 15, 16, 22, 23])
    r = rng.choice([0, 1, 2, 3, 5, 8, 20])
    specs, cols = [], []
    for j in range(c):
        nulls = rng.choice([0, 0, .2, .5, .9, 1])
        if rng.random() < .5:
            t = rng.choice(ALL)
            cs = rng.choice(list(CODEC)) if t in STRS else "utf8mb4"
            specs.append((t, cs))
            skip = rng.randrange(30)
            vs = take(values(t, cs, rng), r + skip)[skip:]
        else:
            specs.append(None)
            py = rng.choice(PYTYPES)
            first = anyval(py, rng)
            vs = [first] + [v for v in (anyval(rng.choice(PYTYPES) if rng.random() < .2 else py, rng) for _ in range(r * 2))
                            if inferable(v, first)]
            vs = (vs * (r + 1))[:r]
        first_done = False
        col = []
        for v in vs:
            col.append(None if rng.random() < nulls else v)
        if specs[-1] is None:   # the first non-NULL must be the one that defines the type
            fn = next((i for i, v in enumerate(col) if v is not None), None)
            if fn is not None:
                col[fn] = first
        cols.append(col)
    rows = [[cols[j][i] for j in range(c)] for i in range(r)]
    names = [rng.choice([f"c{j}", "dup", "", "naïve ☃", "a`b", "x" * 260]) for j in range(c)]
    return Plan(names, specs, rows, rng.choice(SOURCES), rng.choice(["tuple", "rs"]), rng.choice([tuple, list]))


def run_random(case, st, rng):
    plans = [random_plan(rng) for _ in range(rng.randint(1, 5))]
    transport(plans, st, rng)
    st.sample(describe(plans[0]))


def run_names(case, st, rng):
    """Duplicate and odd column names, any mix of declared and bare columns."""
    plans = []
    for _ in range(4):
        c = rng.randint(1, 8)
        names = [rng.choice(["a", "a", "b", "A", "", "漢", "a.b", "'", "count(*)", "😀" * 70, " a ", "a\n", "\ta", " ", "a\0", "`a`", '"a"', "@@x", "A b  c"]) for _ in range(c)]
        pys = [rng.choice(PYTYPES) for _ in range(c)]
        specs = [None if rng.random() < .6 else (INFER[p], "utf8mb4") for p in pys]
        rows = [[None if rng.random() < .4 else anyval(p, rng) for p in pys] for _ in range(rng.randint(0, 5))]
        plans.append(Plan(names, specs, rows, rng.choice(SOURCES), rowtype=rng.choice([tuple, list])))
    transport(plans, st, rng)


def run_peek(case, st, rng):
    """Inference looks at a varying number of leading rows: none may be lost, repeated or moved."""
    c = rng.randint(1, 6)
    n = rng.choice([0, 1, 2, 5, 30, 150] * 8 + [1100, 2500])
    first = [rng.choice([0, 0, 1, rng.randrange(n + 1), n - 1, n, n + 5]) for _ in range(c)]
    rows = []
    for i in range(n):
        rows.append([f"{i}.{j}" if j % 2 else i * 100 + j for j in range(c)])
        for j in range(c):
            if i < first[j] or (i > first[j] and rng.random() < .3):
                rows[-1][j] = None
    specs = [None] * c
    if c > 1 and rng.random() < .3:
        specs[0] = (CT.LONGLONG, "utf8mb4")
    transport([Plan([f"p{j}" for j in range(c)], specs, rows, s) for s in SOURCES], st, rng)
