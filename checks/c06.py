"""C06: prepared-statement parameters are bound as data, never as SQL."""
import asyncio
import math
import random
import re
import struct
from collections import Counter
from decimal import Decimal

from sqlglot import expressions as exp

from vlib import proto as P
from vlib.apps import RecBase, RecSession, rand_exc
from vlib.client import World
from vlib.runner import Violation

ID = "C06"
LEVEL = "exploration"
RULE = ("templates (placeholders mixed with quoted ? in '', \"\" and ``, escapes, comments, glued operators) x parameter "
        "tuples; the received text is checked segment by segment and token by token with an independent MySQL lexer, "
        "and the AST handed to the application literal by literal; distinct = (template, parameter kinds, value class)")
ASSUMPTIONS = ["sql_mode is the default: backslash escapes on, double quotes are strings",
               "question marks inside comments are not exercised", "blanks or parentheses may be put around a literal"]
MIN = {"with_open_cursor": 500, "executions": 5000, "params": 20000, "long_data": 500, "ast": 800, "quoted_qm": 3000, "failed_executions": 300, "churned": 60000}
DEADLINE = {"quick": 480, "thorough": 780}

IDC = re.compile(r"[0-9A-Za-z_$\u0080-\U0010ffff]+")
NUM = re.compile(r"(?:\d+(?:\.\d*)?|\.\d+)(?:[eE][+-]?\d+)?")
ESC = {"0": "\0", "b": "\b", "n": "\n", "r": "\r", "t": "\t", "Z": "\x1a", "%": "\\%", "_": "\\_"}


def lex(sql):
    """MySQL's lexical rules -> [(kind, value, start, end)]; kinds: str id num word punct param comment open"""
    out, i, n = [], 0, len(sql)
    while i < n:
        c = sql[i]
        s = i
        if c in "'\"":
            i += 1
            buf = []
            while True:
                if i >= n:
                    out.append(("open", "".join(buf), s, n))
                    return out
                d = sql[i]
                if d == "\\" and i + 1 < n:
                    buf.append(ESC.get(sql[i + 1], sql[i + 1]))
                    i += 2
                elif d == c:
                    if sql[i + 1:i + 2] == c:
                        buf.append(c)
                        i += 2
                    else:
                        i += 1
                        break
                else:
                    buf.append(d)
                    i += 1
            out.append(("str", "".join(buf), s, i))
        elif c == "`":
            i += 1
            buf = []
            while True:
                if i >= n:
                    out.append(("open", "".join(buf), s, n))
                    return out
                if sql[i] == "`":
                    if sql[i + 1:i + 2] == "`":
                        buf.append("`")
                        i += 2
                        continue
                    i += 1
                    break
                buf.append(sql[i])
                i += 1
            out.append(("id", "".join(buf), s, i))
        elif c == "?":
            i += 1
            out.append(("param", "?", s, i))
        elif c == "#" or sql.startswith("--", i) and (i + 2 >= n or sql[i + 2] <= " "):
            e = sql.find("\n", i)
            i = n if e < 0 else e
            out.append(("comment", sql[s:i], s, i))
        elif sql.startswith("/*", i):
            e = sql.find("*/", i + 2)
            i = n if e < 0 else e + 2
            out.append(("comment", sql[s:i], s, i))
        elif c <= " ":
            i += 1
        elif c.isdigit() and c.isascii() or c == "." and sql[i + 1:i + 2].isdigit() and (
                not out or out[-1][3] != i or out[-1][0] not in ("word", "id")):
            m = NUM.match(sql, i)
            w = IDC.match(sql, m.end())
            if w and "." not in m.group():
                w = IDC.match(sql, i)
                i = max(w.end(), m.end())
                out.append(("word", sql[s:i], s, i))
            else:
                i = m.end()
                out.append(("num", m.group(), s, i))
        else:
            m = IDC.match(sql, i)
            if m:
                i = m.end()
                w = m.group()
                if sql[i:i + 1] in ("'", '"') and (w.lower() in ("x", "b", "n") or w[0] == "_"):
                    out.append(("prefix", w, s, i))
                else:
                    out.append(("word", w, s, i))
            else:
                i += 1
                out.append(("punct", c, s, i))
    return out


def lit_matches(kind, tok, value):
    """Does this literal token denote |value|?"""
    if value is None:
        return tok[0] == "word" and tok[1].upper() == "NULL"
    if isinstance(value, str):
        return tok[0] == "str" and tok[1] == value
    if tok[0] != "num":
        return False
    if isinstance(value, int):
        return Decimal(tok[1]) == abs(value)
    return float(tok[1]) == abs(value)


def verify(template, values, received):
    """-> None or a description of the difference"""
    tt = lex(template)
    rt = lex(received)
    segs, last = [], 0
    for t in tt:
        if t[0] == "param":
            segs.append(template[last:t[2]])
            last = t[3]
    segs.append(template[last:])
    j = 0

    def peek(k=0):
        return rt[j + k] if j + k < len(rt) else ("eof", "", len(received), len(received))
    vi = 0
    spans = []
    for t in tt:
        if t[0] != "param":
            if peek()[:2] != t[:2]:
                return f"token {t[:2]!r} of the statement arrived as {peek()[:2]!r}"
            j += 1
            continue
        v = values[vi]
        vi += 1
        start = j
        par = 0
        while peek()[:2] == ("punct", "("):
            par += 1
            j += 1
        neg = False
        if isinstance(v, (int, float)) and not isinstance(v, bool):
            while peek()[1] in ("-", "+") and peek()[0] == "punct":
                neg ^= peek()[1] == "-"
                j += 1
        if not lit_matches(None, peek(), v):
            return f"parameter {vi - 1} = {short(v)} arrived as {short(peek()[:2])}"
        if isinstance(v, (int, float)) and v and neg != (v < 0):
            return f"parameter {vi - 1} = {v!r} arrived with the wrong sign"
        j += 1
        for _ in range(par):
            if peek()[:2] != ("punct", ")"):
                return f"parameter {vi - 1}: unbalanced parentheses around the literal"
            j += 1
        spans.append((rt[start][2], rt[j - 1][3]))
    if j != len(rt):
        return f"extra token {peek()[:2]!r} at the end"
    # the text around the literals is unchanged (apart from blanks next to the literal)
    pos = 0
    for i, seg in enumerate(segs):
        end = spans[i][0] if i < len(spans) else len(received)
        got = received[pos:end]
        if got != seg and got.strip(" ") != seg.strip(" "):
            return f"text between literals changed: {seg!r} arrived as {got!r}"
        pos = spans[i][1] if i < len(spans) else end
    return None


def short(v):
    s = repr(v)
    return s if len(s) < 160 else s[:120] + f"...({len(s)})"


# ------------------------------------------------------------------ generation
ALPH = list("'\"\\?`%_;,()-#/* \n\r\t\0\x1a\x08abnrtZ01$:@=") + ["é", "漢", "😀", "\u2028", "\ufeff", "\u00a0", "ÿ", "İ",
        "''", "\\'", "\\\\", "\\1", "\\g<0>", "\\g<1>", "\\n", "--", "-- ", "/*", "*/", "*/ ?", "' OR '1'='1", "';DROP TABLE t;-- ",
        "?", "??", "'?'", "\"?\"", "`?`", "NULL", "%s", "{}", "${x}", "\\", "\\\n", "x" * 30, "\\x41", "\\u0041", "&", "$1", "{0}"]
CHARSETS = {45: ("utf8", None), 33: ("utf8", "bmp"), 8: ("latin1", "latin"), 28: ("gbk", "gbk"), 13: ("shift_jis", "sjis"),
            84: ("big5", "big5"), 255: ("utf8", None), 11: ("ascii", "ascii"), 95: ("cp932", "sjis")}
EXTRA = {"gbk": ["誠", "運", "乗", "縗"], "sjis": ["表", "ソ", "能", "予", "貼"], "big5": ["功", "許", "蓋", "擺"]}


def text(rng, codec="utf8", n=None):
    n = rng.choice([0, 1, 1, 2, 3, 6, 12, 30]) if n is None else n
    pool = ALPH + EXTRA.get({"shift_jis": "sjis", "cp932": "sjis"}.get(codec, codec), []) * 3
    out = []
    while len(out) < n:
        s = rng.choice(pool)
        try:
            if s.encode(codec).decode(codec) != s:
                continue
        except UnicodeError:
            continue
        out.append(s)
    s = "".join(out)
    if s.encode(codec).decode(codec) != s:
        return "'?\\"
    return s


INTK = {"i8": (-128, 127), "u8": (0, 255), "i16": (-2**15, 2**15 - 1), "u16": (0, 2**16 - 1), "i32": (-2**31, 2**31 - 1),
        "u32": (0, 2**32 - 1), "i64": (-2**63, 2**63 - 1), "u64": (0, 2**64 - 1), "i24": (-2**23, 2**23 - 1), "u24": (0, 2**24 - 1),
        "year": (-2**15, 2**15 - 1), "uyear": (0, 65535), "bool": (0, 1)}
STRK = ["varchar", "var_string", "string", "blob", "tiny_blob", "medium_blob", "long_blob"]


def f32(x):
    return struct.unpack("<f", struct.pack("<f", x))[0]


def param(rng, codec="utf8"):
    k = rng.choices(["str", "int", "f64", "f32", "null", "tnull"], [10, 5, 2, 1, 1, .5])[0]
    if k == "str":
        return (rng.choice(STRK), text(rng, codec))
    if k == "int":
        kind = rng.choice(list(INTK))
        lo, hi = INTK[kind]
        return (kind, rng.choice([lo, hi, rng.randint(lo, hi), max(lo, min(hi, rng.choice([-1, 0, 1, 7])))]))
    if k == "f64":
        return ("f64", rng.choice([0.0, 1.5, -1.5, 0.1, 1e16, 1e22, 1.7e308, -1.7976931348623157e308, 5e-324, -2.5e-10, 1e-5,
                                   rng.uniform(-1e9, 1e9), rng.uniform(-1, 1) * 10.0 ** rng.randint(-300, 300)]))
    if k == "f32":
        return ("f32", f32(rng.choice([0.0, 0.1, -1.5, 3.4e38, 1e-45, rng.uniform(-1e5, 1e5), 1e-10])))
    if k == "tnull":
        return ("typed_null", rng.choice([P.T_VARCHAR, P.T_LONG, P.T_DOUBLE, P.T_BLOB, P.T_NULL]))
    return ("null", None)


def value(p):
    return None if p[0] in ("null", "typed_null") else p[1]


STATIC = ["'?'", '"?"', "`?`", "'a?b'", "'it''s ?'", "'\\'?'", "'\\\\'", "'\\\\\\'?'", '"\\"?"', '"a""?"', "`a``?`", "`'`", "`\"`", "'\"?\"'",
          '"\'?\'"', "'`?'", "'?", "''", '""', "'\\\\?'", "'--?'", "'/*?'", "'#?'", "`?``?`", "'a\n?'", "'é?漢'", "`a\n?`", "`\r\n?\n?`", '"a\n?"', "`?\t\n`", "'\n\n?\n'", '"?\r"', "`漢?`", "'\\\n?'", "'?\0?'", "`-- ?\n`", "'-- \n?'", '"# ?\n?"', "'/*\n?*/'", '"?\\\\"', "`\\`", "'\\\\\\\\'",
          "'??'", "' ? '", "`--`", "`/*`", "1", "1.5", "x", "a.b", "NULL", "(", ")", "+", "=", "<=>", "AND", "LIKE", "@v", "a", "t1.`c`", "*", "/"]
COMMENTS = ["-- don't\n", "# it's\n", "/* ' */", "/* \" ` */", "-- \"\n", "/**/", "#\n", "--\n", "/* -- */", "/*+ x */", "--\t?\n", "--\r? '\n", "--\x0b?\n", "--\x0c? x\n", "--\x01?\n"]
SEP = [" ", " ", " ", "  ", ",", ", ", "\n", "\t", "="]
GLUE = ["", "", "-", "+", "(", "=", ",", "SELECT", "5-", "5 - ", "--", "a", "1", "*", "/", "!", "~", "@@x=", "LIMIT "]
GLUEAFTER = ["", "", ")", ",", "FROM", "-", "+1", "*2", "a", "=", ";", "AS", "-- x\n", "/*c*/", "#c\n"]


def template(rng, nmax=6, codec="utf8"):
    parts = ["SELECT "]
    k = rng.randint(0, nmax)
    marks = ["?"] * k
    stat = [rng.choice(STATIC) for _ in range(rng.randint(0, 6))]
    stat = [s for s in stat if s != "'?" and encodable(s, codec)]
    com = [rng.choice(COMMENTS) for _ in range(rng.choice([0, 0, 0, 1, 2]))]
    items = marks + stat + com
    rng.shuffle(items)
    for it in items:
        if it == "?" and rng.random() < .35:
            g = rng.choice(GLUE)
            a = rng.choice(GLUEAFTER)
            parts.append(g + "?" + a)
        else:
            parts.append(it)
        parts.append(rng.choice(SEP))
    if rng.random() < .1:
        parts.append(rng.choice(["'open ?", "\"open ?", "`open ?", "'", "/* open"]))
    s = "".join(parts)
    if rng.random() < .1:
        s = s.rstrip()
    return s


def encodable(s, codec):
    try:
        return s.encode(codec).decode(codec) == s
    except UnicodeError:
        return False


def gen(tier, seed):
    T = tier == "thorough"
    for i in range(5000 if not T else 150000):
        yield {"k": "rand", "seed": f"{seed}/r{i}"}
    for i in range(600 if not T else 12000):
        yield {"k": "long", "seed": f"{seed}/l{i}"}
    for i in range(1500 if not T else 40000):
        yield {"k": "ast", "seed": f"{seed}/a{i}"}
    for i in range(0, 0x3000, 64):
        yield {"k": "chars", "from": i, "seed": f"{seed}/c{i}"}
    for i in range(40 if not T else 400):
        yield {"k": "wide", "seed": f"{seed}/w{i}"}
    for i in range(150 if not T else 1500):
        yield {"k": "short", "seed": f"{seed}/s{i}"}
    for i in range(500 if not T else 15000):
        yield {"k": "fail", "seed": f"{seed}/f{i}"}
    yield {"k": "churn", "n": 70000 if not T else 200000, "seed": f"{seed}/u"}
    for kind in INTK:
        yield {"k": "ints", "kind": kind, "seed": f"{seed}/i"}
    for i in range(60 if not T else 1000):
        yield {"k": "big", "seed": f"{seed}/b{i}"}


def run(case, st):
    return globals()["run_" + case["k"]](case, st, random.Random(case["seed"]))


CAPS = [P.BASE_CAPS | P.DEPRECATE_EOF | P.LENENC_AUTH, P.BASE_CAPS | P.LENENC_AUTH,
        P.BASE_CAPS | P.QUERY_ATTRIBUTES | P.LENENC_AUTH, P.BASE_CAPS | P.DEPRECATE_EOF | P.QUERY_ATTRIBUTES | P.LENENC_AUTH]


class Sess:
    def __init__(self, st, rng, full=False, charset=45):
        self.st, self.rng = st, rng
        self.got = []
        self.fault = None
        self.nrows = 0
        self.w = World(session=RecSession if full else RecBase, handler=self.handler)
        self.c = self.w.connect()
        r = self.c.login(client_caps=rng.choice(CAPS), charset=charset)
        if r.kind != "ok":
            raise Violation(f"login with charset {charset}: {r!r}")
        self.c.codec = CHARSETS[charset][0]

    def handler(self, s, sql, attrs, expression=None):
        self.got.append((sql, expression, dict(attrs)))
        if self.fault:
            raise self.fault
        return ([(i,) for i in range(self.nrows)], ["a"]) if self.nrows else None

    def prepare(self, tpl):
        r = self.c.prepare(tpl)
        if r.kind != "prep":
            raise Violation(f"prepare of {tpl!r} answered {r!r}")
        toks = lex(tpl)
        n = sum(t[0] == "param" for t in toks)
        self.st.count("quoted_qm", sum(t[0] in ("str", "id", "open") and "?" in t[1] for t in toks))
        if r.nparams != n:
            raise Violation(f"{tpl!r} has {n} placeholders, prepare announces {r.nparams}")
        return r.stmt_id

    def execute(self, sid, tpl, params, chunks=None, order=None, attrs=(), note=""):
        """chunks: {param index: [bytes...]} sent as long data in `order`."""
        self.got.clear()
        params = list(params)
        long_idx = tuple(chunks or ())
        for i, ch in (order or []):
            self.c.long_data(sid, i, ch)
            self.st.count("long_data")
        qa = self.c.caps & P.QUERY_ATTRIBUTES
        # rows, a cursor that is left open, fetched from or exhausted: none of it concerns the parameters
        self.nrows = self.rng.choice([0, 0, 2])
        cursor = self.rng.random() < .4
        r = self.c.execute(sid, params, cursor=cursor, attrs=attrs if qa else (), long_idx=long_idx,
                           **({} if not qa or attrs or params else {"count_available": self.rng.random() < .5}))
        vals = [value(p) for p in params]
        for i, ch in (chunks or {}).items():
            vals[i] = b"".join(ch).decode(self.c.codec)
        if r.kind == "err":
            raise Violation(f"{note}execution of {tpl!r} with {short(vals)} answered {r.err!r}")
        if len(self.got) != 1:
            raise Violation(f"{note}one execution of {tpl!r} with {short(vals)} reached the application {len(self.got)} times")
        sql, ast, got_attrs = self.got[0]
        d = verify(tpl, vals, sql)
        if d:
            raise Violation(f"{note}{d}; template {tpl!r}, parameters {short(vals)}, application received {short(sql)}")
        if qa and got_attrs != dict((n, value(p)) for n, p in attrs):
            raise Violation(f"{note}query attributes {attrs!r} arrived as {got_attrs!r}")
        self.st.count("executions")
        if cursor and self.nrows:
            self.st.count("with_open_cursor")
            if self.rng.random() < .5 and self.c.fetch(sid, self.rng.choice([1, 5])).kind == "err":
                raise Violation(f"{note}fetch after execution of {tpl!r} failed")
        self.st.count("params", len(vals))
        self.st.seen(tpl if len(tpl) < 200 else hash(tpl), tuple(p[0] for p in params), tuple(short(v)[:12] for v in vals), bool(chunks))
        return sql, ast, vals

    def end(self):
        if self.c.ping().kind != "ok":
            raise Violation("connection not usable afterwards")
        self.w.close()


def attrs_for(rng):
    return [(rng.choice(["k", "é", "a'?"]) + str(i), ("varchar", text(rng, "ascii"))) for i in range(rng.choice([0, 0, 1, 2]))]


def run_rand(case, st, rng):
    cs = rng.choice(list(CHARSETS)) if rng.random() < .3 else 45
    s = Sess(st, rng, charset=cs)
    stmts = []
    for _ in range(rng.randint(1, 3)):
        tpl = template(rng, codec=s.c.codec)
        n = sum(t[0] == "param" for t in lex(tpl))
        stmts.append((s.prepare(tpl), tpl, n))
    for _ in range(rng.randint(2, 6)):
        sid, tpl, n = rng.choice(stmts)
        at = attrs_for(rng) if s.c.codec == "utf8" else []
        s.execute(sid, tpl, [param(rng, s.c.codec) for _ in range(n)], attrs=at)
    st.sample(stmts[0][1])
    s.end()


def chunked(rng, data):
    style = rng.choice(["one", "bytes", "some", "empty"])
    if style == "one":
        return [data]
    if style == "bytes" and len(data) <= 40:
        return [data[i:i + 1] for i in range(len(data))] or [b""]
    out = []
    i = 0
    while i < len(data):
        k = rng.randint(1, max(1, len(data) // 3))
        out.append(data[i:i + k])
        i += k
        if style == "empty" and rng.random() < .4:
            out.append(b"")
    return out or [b""]


def run_long(case, st, rng):
    """Long data: several parameters, several statements, chunks interleaved, repeated executions."""
    s = Sess(st, rng, charset=rng.choice([45, 45, 28, 8]))
    stmts = []
    for _ in range(rng.randint(1, 3)):
        n = rng.randint(1, 5)
        tpl = "INSERT INTO t VALUES (" + ", ".join(["?"] * n) + ", '?')"
        stmts.append([s.prepare(tpl), tpl, n])
    pend = {}
    for _ in range(rng.randint(2, 7)):
        sid, tpl, n = rng.choice(stmts)
        params = [param(rng, s.c.codec) for _ in range(n)]
        chunks, seqs = {}, []
        for i in rng.sample(range(n), rng.randint(0, n)):
            data = text(rng, s.c.codec, rng.choice([0, 1, 5, 20, 200])).encode(s.c.codec)
            params[i] = (rng.choice(["blob", "long_blob", "varchar"]), data)
            chunks[i] = chunked(rng, data)
            seqs.append([(i, c) for c in chunks[i]])
        order = []
        while seqs:
            q = rng.choice(seqs)
            order.append(q.pop(0))
            if not q:
                seqs.remove(q)
        r = rng.random()
        if order and r < .15:
            # announced, then discarded by a reset: the next execution must not see it
            for i, c in order:
                s.c.long_data(sid, i, c)
            if s.c.stmt_reset(sid).kind != "ok":
                raise Violation("reset failed")
            s.execute(sid, tpl, [param(rng, s.c.codec) for _ in range(n)], note="after long data + reset: ")
        elif order and r < .3 and len(stmts) > 1:
            # long data of one statement stays with it while another one executes
            for i, c in order:
                s.c.long_data(sid, i, c)
            osid, otpl, on = rng.choice([x for x in stmts if x[0] != sid])
            s.execute(osid, otpl, [param(rng, s.c.codec) for _ in range(on)], note="other statement: ")
            s.execute(sid, tpl, params, chunks, [], note="after other statement: ")
        else:
            s.execute(sid, tpl, params, chunks, order)
            if rng.random() < .5:
                s.execute(sid, tpl, [param(rng, s.c.codec) for _ in range(n)], note="second execution: ")
    s.end()


def run_fail(case, st, rng):
    """Executions that fail (in the application, or because the packet is damaged) between others:
    nothing of a failed one - values or long data - may turn up later."""
    s = Sess(st, rng, full=rng.random() < .5)
    stmts = []
    for _ in range(rng.randint(1, 3)):
        n = rng.randint(1, 4)
        tpl = "INSERT INTO t VALUES (" + ", ".join(["?"] * n) + ", '?')"
        stmts.append((s.prepare(tpl), tpl, n))
    for _ in range(rng.randint(2, 8)):
        sid, tpl, n = rng.choice(stmts)
        params = [param(rng, s.c.codec) for _ in range(n)]
        order, chunks = [], {}
        for i in rng.sample(range(n), rng.choice([0, 1, n])):
            data = text(rng, s.c.codec, rng.choice([1, 5, 20])).encode(s.c.codec)
            params[i] = ("blob", data)
            chunks[i] = chunked(rng, data)
            order += [(i, c) for c in chunks[i]]
        how = rng.choice(["app", "app", "ok", "attrs", "unknown", "kill", "nonfinite"])
        if how == "ok":
            s.execute(sid, tpl, params, chunks, order, note="in between: ")
            continue
        if how == "unknown":
            r = s.c.execute(sid + 1000, params)
            if r.kind != "err":
                raise Violation(f"execution of an unknown statement answered {r!r}")
        elif how == "nonfinite":
            # there is no literal for it, so the statement must not get through with anything else
            params[rng.randrange(n)] = (rng.choice(["f64", "f32"]), rng.choice([math.inf, -math.inf, math.nan]))
            s.got.clear()
            r = s.c.execute(sid, params)
            if r.kind != "err" or s.got:
                raise Violation(f"{short(params)}: answered {r!r}, application received {s.got[:1]}")
            st.count("nonfinite")
        elif how == "attrs":
            s.c.stmt_reset(sid)
            s.got.clear()
            r = s.c.query("SELECT broken FROM t")
        else:
            for i, c in order:
                s.c.long_data(sid, i, c)
            s.fault = rand_exc(rng, "app") if how == "app" else asyncio.TimeoutError()
            r = s.c.execute(sid, params, long_idx=tuple(chunks))
            s.fault = None
            if r.kind != "err":
                raise Violation(f"failing execution answered {r!r}")
            st.count("failed_executions")
        # the client repeats it with values in the packet
        s.execute(sid, tpl, [param(rng, s.c.codec) for _ in range(n)], note=f"after a failed execution ({how}): ")
    s.end()


def run_churn(case, st, rng):
    """Tens of thousands of statements over the lifetime of one connection, some of which stay open."""
    s = Sess(st, rng)
    keep = {}
    made = 0
    while made < case["n"]:
        tpl = f"SELECT {made}, ?, '?' FROM t WHERE k{made} = ?"
        sid = s.prepare(tpl)
        if sid in keep:
            raise Violation(f"statement id {sid} was handed out again while it is in use")
        keep[sid] = tpl
        k = rng.choice([1, 100, 1000, 3000])
        made += k + 1
        s.c.deliver(b"".join(P.frame(P.com_stmt_prepare("SELECT ?"), 0)[0] for _ in range(k)))
        s.w.quiesce(10**8)
        ids = [int.from_bytes(p[1:5], "little") for p in s.c.take_payloads(None) if p[:1] == b"\0" and len(p) >= 12]
        if len(ids) != k:
            raise Violation(f"{k} statements prepared, {len(ids)} answers")
        for i in ids:
            if i in keep:
                raise Violation(f"statement id {i} was handed out again while it is in use")
        close = [i for i in ids if rng.random() < .98]
        s.c.deliver(b"".join(P.frame(P.com_stmt_close(i), 0)[0] for i in close))
        s.w.quiesce(10**8)
        st.count("churned", k)
        for sid in rng.sample(sorted(keep), min(3, len(keep))):
            s.execute(sid, keep[sid], [param(rng), param(rng)], note=f"after {made} prepared statements: ")
    for sid in keep:
        s.execute(sid, keep[sid], [param(rng), param(rng)], note=f"after {made} prepared statements: ")
    s.end()


ITEMS = ["?", "?", "?", "(?)", "-?", "5-?", "5 - ?", "?-5", "?+1", "CONCAT(?, 'x?')", "a = ?", "a LIKE ?", "IF(?, 'a', \"?\")", "'?'",
         '"a?"', "'it''s ?'", "'\\\\'", "`?`", "`a?b`", "a IN (?, ?, '?')", "? AS x", "1.5", "NOT ?", "-(?)", "CASE WHEN ? THEN 'y' ELSE ? END",
         "COALESCE(NULL, ?)"]


def run_ast(case, st, rng):
    """The expression handed to the application contains exactly the bound values."""
    s = Sess(st, rng, full=True)
    for _ in range(3):
        tpl = "SELECT " + ", ".join(rng.choice(ITEMS) for _ in range(rng.randint(1, 5))) + " FROM t"
        if rng.random() < .6:
            tpl += " WHERE " + " AND ".join(rng.choice(["b = ?", "c > ?", "d = '?'", "e LIKE ?", "f BETWEEN ? AND ?"]) for _ in range(rng.randint(1, 3)))
        toks = lex(tpl)
        n = sum(t[0] == "param" for t in toks)
        sid = s.prepare(tpl)
        for _ in range(3):
            sql, ast, vals = s.execute(sid, tpl, [param(rng) for _ in range(n)])
            want = Counter()
            it = iter(vals)
            for t in toks:
                if t[0] == "param":
                    v = next(it)
                    want[("null",) if v is None else ("s", v) if isinstance(v, str) else ("n", float(v).__abs__() if isinstance(v, float) else abs(v))] += 1
                elif t[0] == "str":
                    want["s", t[1]] += 1
                elif t[0] == "num":
                    want["n", num(t[1])] += 1
                elif t[0] == "word" and t[1] == "NULL":
                    want[("null",)] += 1
            have = Counter()
            for node in ast.walk():
                node = node[0] if isinstance(node, tuple) else node
                if isinstance(node, exp.Literal):
                    have[("s", node.this) if node.is_string else ("n", num(node.this))] += 1
                elif isinstance(node, exp.Null):
                    have[("null",)] += 1
            if want != have:
                raise Violation(f"AST literals differ for template {tpl!r}, parameters {short(vals)}: missing {short(dict(want - have))}, "
                                f"extra {short(dict(have - want))}")
            st.count("ast")
    s.end()


def num(t):
    return int(t) if t.isdigit() else float(t)


def run_chars(case, st, rng):
    """Every character, alone, doubled, after a backslash / quote, before them."""
    s = Sess(st, rng)
    tpl = "SELECT ?, '?', ?, ?, ?, ? FROM t WHERE a=?"
    sid = s.prepare(tpl)
    for cp in range(case["from"], case["from"] + 64):
        c = chr(cp)
        s.execute(sid, tpl, [("varchar", x) for x in (c, c + c, "\\" + c, c + "\\", "'" + c, c + "'?\"")])
    s.end()


def run_wide(case, st, rng):
    s = Sess(st, rng)
    n = rng.choice([1, 7, 8, 9, 15, 16, 17, 63, 64, 65, 255, 256, 300, 1000])
    tpl = "SELECT " + ", ".join("?" if rng.random() < .9 else "?, '?'" for _ in range(n)) + " FROM t"
    sid = s.prepare(tpl)
    for _ in range(2):
        s.execute(sid, tpl, [param(rng) for _ in range(n)])
        s.execute(sid, tpl, [("null", None) if rng.random() < .5 else param(rng) for _ in range(n)])
    s.end()


def run_short(case, st, rng):
    """Fewer values than placeholders: an error, and nothing reaches the application."""
    s = Sess(st, rng)
    if not s.c.caps & P.QUERY_ATTRIBUTES:
        s.w.close()
        return
    n = rng.randint(1, 6)
    tpl = "SELECT " + ", ".join(["?"] * n) + " FROM t WHERE a = '?'"
    sid = s.prepare(tpl)
    m = rng.randrange(n)
    r = s.c.execute(sid, [param(rng) for _ in range(m)])
    if r.kind != "err" or s.got:
        raise Violation(f"{m} values for {n} placeholders: answered {r!r}, application received {s.got[:1]}")
    st.count("short")
    s.execute(sid, tpl, [param(rng) for _ in range(n)])
    s.end()


def run_ints(case, st, rng):
    s = Sess(st, rng)
    lo, hi = INTK[case["kind"]]
    vals = {lo, hi, lo + 1, hi - 1, (lo + hi) // 2} | {v for k in range(0, 65) for v in (2**k, 2**k - 1, -2**k, -2**k - 1, 2**k + 1) if lo <= v <= hi}
    tpl = "SELECT ? FROM t WHERE a-? AND b=?"
    sid = s.prepare(tpl)
    for v in sorted(vals):
        s.execute(sid, tpl, [(case["kind"], v)] * 3)
    s.end()


def run_big(case, st, rng):
    s = Sess(st, rng)
    tpl = "SELECT ?, '?' FROM t WHERE a = ?"
    sid = s.prepare(tpl)
    for n in (250, 251, 65535, 65536, 70000, 200000):
        data = text(rng, "utf8", 50) * (n // 50)
        # what the value ends and starts with matters as much as its length
        data = rng.choice(["", "\0", " ", "\n", "\0" * 9, "'", "\\"]) + data + rng.choice(["", "\0", " ", "\n", "\0" * 70000, "'", "\\", "é"])
        s.execute(sid, tpl, [(rng.choice(STRK), data), ("varchar", "x")])
        b = data.encode()
        cuts = sorted(rng.randrange(len(b) + 1) for _ in range(rng.choice([1, 1, 2, 5])))
        order = [(0, b[x:y]) for x, y in zip([0] + cuts, cuts + [len(b)])]
        s.execute(sid, tpl, [("blob", b), param(rng)], {0: [ch for _, ch in order]}, order)
    s.end()
