"""C15: text crosses the wire in the negotiated character sets without corruption."""
import random

from sqlglot import expressions as exp

from mysql_mimic import ResultColumn, ResultSet
from mysql_mimic.charset import CharacterSet
from mysql_mimic.types import ColumnType as CT

from checks.c06 import lex
from vlib import proto as P
from vlib.apps import AppError, FixedIdentity, RecBase, RecSession
from vlib.client import World
from vlib.runner import Violation

ID = "C15"
LEVEL = "exploration"
RULE = ("strings of the full repertoire of every character set with a codec, through every text channel (SQL, parameters, long "
        "data, attributes, COM_INIT_DB, COM_FIELD_LIST, COM_CHANGE_USER, handshake; cells, names, errors), in histories of "
        "character-set switches; every collation id in the handshake and in COM_CHANGE_USER; distinct = (channel, sets, hazard)")
ASSUMPTIONS = [
    "the codecs are Python's under an independent name table (latin1 = cp1252 with C1 controls); charsets without a codec in "
    "Python (dec8, swe7, armscii8, keybcs2, geostd8, eucjpms, binary) are not used",
    "NUL-terminated strings are not sent when their encoding contains NUL (utf16, utf32, ucs2)",
    "strings of COM_CHANGE_USER after its character set (plugin, attributes) are ASCII, and long data is used in the character "
    "set it was sent in",
]
EXHAUSTIVE = ["all collation ids below 256 with a codec in the handshake and in COM_CHANGE_USER",
              "every character of the repertoire of every legacy set and the BMP of the Unicode sets as SQL text, parameter, "
              "attribute, cell and column name"]
MIN = {"up": 10000, "down": 10000, "switch": 800, "hs": 150, "chars": 200000, "errors": 500}
DEADLINE = {"quick": 480, "thorough": 780}

COLL_TEXT = (
    "big5: 1 84; latin2: 2 9 21 27 77; dec8: 3 69; cp850: 4 80; latin1: 5 8 15 31 47-49 94; hp8: 6 72; koi8r: 7 74; "
    "swe7: 10 82; ascii: 11 65; ujis: 12 91; sjis: 13 88; cp1251: 14 23 50-52; hebrew: 16 71; tis620: 18 89; "
    "euckr: 19 85; latin7: 20 41-42 79; koi8u: 22 75; gb2312: 24 86; greek: 25 70; cp1250: 26 34 44 66 99; "
    "gbk: 28 87; cp1257: 29 58-59; latin5: 30 78; armscii8: 32 64; utf8: 33 83 192-215 223; ucs2: 35 90 128-151 159; "
    "cp866: 36 68; keybcs2: 37 73; macce: 38 43; macroman: 39 53; cp852: 40 81; utf8mb4: 45-46 224-247 255; "
    "utf16: 54-55 101-124; utf16le: 56 62; cp1256: 57 67; utf32: 60-61 160-183; binary: 63; geostd8: 92-93; "
    "cp932: 95-96; eucjpms: 97-98; gb18030: 248-250; "
)
COLL = {}
for _part in COLL_TEXT.split(";"):
    if _part.strip():
        _cs, _, _ids = _part.strip().partition(": ")
        for _i in _ids.split():
            _a, _, _b = _i.partition("-")
            for _x in range(int(_a), int(_b or _a) + 1):
                COLL[_x] = _cs

CODEC = {"utf8mb4": "utf-8", "utf8": "utf-8", "ascii": "ascii", "utf16": "utf-16-be", "utf32": "utf-32-be", "gbk": "gbk",
         "sjis": "shift_jis", "big5": "big5", "cp1251": "cp1251", "greek": "iso8859-7", "hebrew": "iso8859-8", "euckr": "euc_kr",
         "latin2": "iso8859-2", "latin5": "iso8859-9", "latin7": "iso8859-13", "cp866": "cp866", "gb18030": "gb18030",
         "ujis": "euc_jp", "cp850": "cp850", "cp1250": "cp1250", "tis620": "tis-620", "gb2312": "gb2312", "cp932": "cp932",
         "koi8r": "koi8-r", "koi8u": "koi8-u", "macroman": "mac_roman", "macce": "mac_latin2", "ucs2": "utf-16-be",
         "utf16le": "utf-16-le", "cp852": "cp852", "cp1256": "cp1256", "cp1257": "cp1257", "hp8": "hp-roman8", "latin1": None}
LATIN1 = "".join(chr(i) if i in (0x81, 0x8d, 0x8f, 0x90, 0x9d) else bytes([i]).decode("cp1252") for i in range(256))
WIDE = ("utf16", "utf32", "ucs2", "utf16le")
BMPONLY = ("utf8", "ucs2")
UNICODE = ("utf8mb4", "utf16", "utf32", "utf16le", "gb18030")
TYPES = [CT.VARCHAR, CT.VAR_STRING, CT.STRING, CT.ENUM, CT.SET, CT.JSON, CT.BLOB, CT.TINY_BLOB, CT.MEDIUM_BLOB, CT.LONG_BLOB]
PTYPES = ["varchar", "var_string", "string", "blob", "tiny_blob", "medium_blob", "long_blob"]


def enc(cs, s):
    if cs == "latin1":
        try:
            return bytes(LATIN1.index(c) for c in s)
        except ValueError:
            raise UnicodeEncodeError("latin1", s, 0, 1, "not in latin1")
    return s.encode(CODEC[cs])


def dec(cs, b):
    if cs == "latin1":
        return "".join(LATIN1[x] for x in b)
    return b.decode(CODEC[cs])


_rep = {}


def repertoire(cs):
    """-> (all characters, those whose bytes are special in SQL or in the protocol)"""
    if cs not in _rep:
        chars, hazard = [], []
        if cs in UNICODE:
            rnd = random.Random(cs)
            points = [i for i in range(0x10000) if not 0xd800 <= i < 0xe000] + [rnd.randrange(0x10000, 0x110000) for _ in range(1500)] + [
                0x10000, 0x10ffff, 0x1f600, 0x20000]
        else:
            points = [i for i in range(0x10000) if not 0xd800 <= i < 0xe000]
        for i in points:
            c = chr(i)
            try:
                b = enc(cs, c)
                if dec(cs, b) != c:
                    continue
            except UnicodeError:
                continue
            chars.append(c)
            if i > 127 and (set(b) & set(b"'\"\\`?%_*/;-#\n\0@") or b[0] in (0xfb, 0xfe, 0xff)):
                hazard.append(c)
        _rep[cs] = chars, hazard or chars[-20:]
    return _rep[cs]


def fits(cs, s):
    try:
        return dec(cs, enc(cs, s)) == s
    except UnicodeError:
        return False


def quote(s):
    return "'" + s.replace("\\", "\\\\").replace("'", "''") + "'"


class Text:
    """Random strings that are representable in all the given character sets"""

    def __init__(self, rnd):
        self.rnd = rnd

    def __call__(self, *sets, avoid="", n=None, lo=0):
        r = self.rnd
        main = r.choice(sets)
        chars, hazard = repertoire(main)
        if n is None:
            n = r.choice([1, 2, 3, 5, 8, 20, 60, 130, 260])
        out = []
        for _ in range(n * 3):
            k = r.random()
            c = r.choice(hazard) if k < 0.35 else r.choice(chars) if k < 0.85 else chr(r.randrange(32, 127))
            if c in avoid or c < " " and lo or any(not fits(x, c) for x in sets):
                continue
            out.append(c)
            if len(out) >= n:
                break
        return "".join(out) or "x"

    def ident(self, *sets, n=None):
        """Usable between backticks and in NUL-terminated strings"""
        s = self(*sets, avoid="`\\\0\x7f%_", n=n or self.rnd.choice([1, 2, 5, 12]), lo=1)
        return s.strip() or "x"


class Base:
    def __init__(self, case, st):
        self.st = st
        self.case = case
        self.rnd = random.Random(case["s"])
        self.text = Text(self.rnd)
        self.trace = []

    def fail(self, msg):
        raise Violation(f"{msg}; client {self.cs}, results {self.rs}; after {self.trace[-4:]!r}")

    def same(self, what, got, want):
        self.st.count("up")
        self.st.count("chars", len(want))
        if got != want:
            i = next((k for k, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want))) if isinstance(got, str) else 0
            self.fail(f"{what} arrived as {got[max(0, i - 5):i + 20] if isinstance(got, str) else got!r} instead of "
                      f"{want[max(0, i - 5):i + 20]!r} (character {i} of {len(want)})")
        self.st.seen("up", what.split(" ")[0], self.cs, len(want) > 100)

    def bytes(self, what, got, want, cs):
        self.st.count("down")
        self.st.count("chars", len(want))
        b = enc(cs, want)
        if got != b:
            self.fail(f"{what} was sent as {got[:60]!r} instead of {b[:60]!r} ({want[:40]!r} in {cs})")
        self.st.seen("down", what.split(" ")[0], cs, len(want) > 100)


# ------------------------------------------------------------------------------------------------ repertoire sweeps
class Sweep(Base):
    """BaseSession: the raw text reaches the application; slices of one character set's repertoire through all channels"""

    def run(self):
        cs = self.case["cs"]
        self.cs = self.rs = cs
        rnd = self.rnd
        chars = repertoire(cs)[0]
        part = chars[self.case["a"]:self.case["b"]]
        rnd.shuffle(part)

        def setup(s):
            s.variables.set("character_set_client", cs)
            s.variables.set("character_set_results", cs)

        got = []
        cell = {}

        def handler(session, sql, attrs):
            got.append((sql, dict(attrs)))
            return ResultSet(rows=[(cell["v"], cell["v"], None)],
                             columns=[ResultColumn(name=cell["n"], type=cell["t"], character_set=CharacterSet[cs]),
                                      ResultColumn(name="p", type=cell["t"], character_set=CharacterSet[cs]),
                                      ResultColumn(name="q", type=CT.LONG)])
        caps = P.BASE_CAPS | P.LENENC_AUTH | P.QUERY_ATTRIBUTES | rnd.choice([0, P.DEPRECATE_EOF])
        with World(session=RecBase, handler=handler) as w:
            c = w.login(client_caps=caps)
            setup(w.sessions[-1])
            codec = CODEC[cs] or "latin1"
            size = self.case["size"]

            def E(s):
                return enc(cs, s)

            for i in range(0, len(part), size):
                s = "".join(part[i:i + size])
                t = s[::-1]
                cell.update(v=t, n=s, t=rnd.choice(TYPES))
                # text
                got.clear()
                r = c.query(E(s), attrs=[(E(t), ("string", E(s))), (E("k" + s), (rnd.choice(PTYPES), E(t)))], codec=codec)
                if not got:
                    self.fail(f"the query did not arrive: {r}")
                sql, attrs = got[0]
                self.same("SQL", sql, s)
                if sorted(attrs) != sorted({t, "k" + s}):
                    self.fail(f"attribute names {list(attrs)!r} instead of {[t, 'k' + s]!r}")
                self.same("attribute", attrs[t], s)
                self.same("attribute", attrs["k" + s], t)
                self.result(r, s, t)
                # prepared statement
                q = s.replace("\\", "").replace("'", "").replace("\0", "")
                got.clear()
                p = c.prepare(E(f"SELECT '{q}', ?, ?"))
                if p.kind != "prep" or p.nparams != 2:
                    self.fail(f"prepare failed or saw other placeholders: {p} for {q!r}")
                c.long_data(p.stmt_id, 1, E(t))
                r = c.execute(p.stmt_id, [(rnd.choice(PTYPES), E(s)), ("blob", b"")], long_idx=(1,), cursor=rnd.random() < .5,
                              attrs=[(E(s), ("varchar", E(t)))])
                if not got:
                    self.fail(f"the statement did not arrive: {r}")
                lits = [v for k, v, _, _ in lex(got[0][0]) if k == "str"]
                if len(lits) != 3:
                    self.fail(f"the statement arrived as {got[0][0][:100]!r}")
                self.same("statement", lits[0], q)
                self.same("parameter", lits[1], s)
                self.same("long data", lits[2], t)
                self.same("attribute", got[0][1].get(s, ""), t)
                self.result(r, s, t, c, p.stmt_id)
                c.stmt_close(p.stmt_id)
                # COM_INIT_DB
                if c.resp(bytes([P.COM_INIT_DB]) + E(s), lambda pl: P.parse_simple(pl, c.caps)).kind != "ok":
                    self.fail("COM_INIT_DB failed")
                self.same("COM_INIT_DB", w.sessions[-1].database, s)

    def result(self, r, name, value, c=None, sid=None):
        if r.kind != "rs":
            self.fail(f"no result: {r}")
        if r.cursor:
            r2 = c.fetch(sid, 10)
            if r2.kind == "err":
                self.fail(f"fetch failed: {r2}")
            rows = r2.rows
        else:
            rows = r.rows
        self.bytes("name", r.cols[0].name, name, self.cs)
        self.bytes("cell", rows[0][0], value, self.cs)
        self.bytes("cell", rows[0][1], value, self.cs)
        if COLL.get(r.cols[0].charset) != self.cs:
            self.fail(f"the column declares collation {r.cols[0].charset}")


# ------------------------------------------------------------------------------------------------ histories
class App(RecSession):
    async def query(self, expression, sql, attrs):
        w = self.world
        w.expr = expression
        w.sql = sql
        w.attrs = dict(attrs)
        f = w.answer
        if f is None:
            return None
        return f()

    async def schema(self):
        return self.world.mapping

    async def use(self, database):
        self.world.used = database
        if self.world.use_error:
            raise AppError(self.world.use_error)
        await super().use(database)


class History(Base):
    def query(self, sql, attrs=()):
        self.trace.append(sql[:60])
        return self.c.query(enc(self.cs, sql), [(enc(self.cs, n), (k, enc(self.cs, v))) for n, (k, v) in attrs], codec="ascii")

    def name_safe(self, b):
        return b"\0" not in b

    def pick_cs(self):
        return self.rnd.choice(list(CODEC))

    # ---- switches
    def op_switch(self):
        r = self.rnd
        k = r.random()
        cs = self.pick_cs()
        lit = r.choice(["'{}'", "{}", "{}"]).format(cs)
        self.st.count("switch")
        if k < 0.4:
            ids = [i for i, x in COLL.items() if x == cs]
            sql, new = f"SET NAMES {lit}", (cs, cs)
            if r.random() < 0.2:
                sql = "SET NAMES DEFAULT"
                new = ("utf8mb4", "utf8mb4")
        elif k < 0.6:
            sql, new = f"SET {r.choice(['CHARACTER SET', 'CHARSET'])} {lit}", (cs, cs)
        elif k < 0.72:
            sql, new = f"SET {r.choice(['', '@@', 'SESSION ', '@@session.'])}character_set_results = '{cs}'", (self.cs, cs)
        elif k < 0.8:
            sql, new = f"SET character_set_client = '{cs}'", (cs, self.rs)
        elif k < 0.86:
            sql, new = f"SET NAMES {r.choice(['nosuch', 'utf9'])}", (self.cs, self.rs)
        else:
            return self.op_change_user()
        if k < 0.8 and r.random() < 0.25:
            # as a prepared statement
            p = self.c.prepare(enc(self.cs, sql))
            if p.kind != "prep":
                self.fail(f"{sql}: {p}")
            self.trace.append(sql + " (prepared)")
            res = self.c.execute(p.stmt_id)
        else:
            res = self.query(sql)
        if res.kind != ("err" if 0.8 <= k < 0.86 else "ok"):
            self.fail(f"{sql}: {res}")
        self.cs, self.rs = new
        self.st.seen("switch", sql[:14], new)

    def switched(self, c, r):
        if r.kind == "switch":
            # the client can't name a plugin
            data, seq = P.frame(b"", r.seq)
            c.deliver(data)
            self.w.quiesce()
            r = c.auth_result(seq)
        return r

    def change_user(self, user, db, coll, tail):
        c = self.c
        seq = c.send(P.com_change_user(c.caps, user, b"", db, coll, plugin=b"mysql_native_password", tail=tail))
        self.w.quiesce()
        return self.switched(c, c.auth_result(seq))

    def op_change_user(self):
        r = self.rnd
        c = self.c
        user = self.text.ident(self.cs)
        db = self.text.ident(self.cs) if r.random() < 0.7 else ""
        eu, ed = enc(self.cs, user), enc(self.cs, db)
        if not self.name_safe(eu):
            user, eu = "", b""
        if not self.name_safe(ed):
            db, ed = "", b""
        i = r.choice([i for i, x in COLL.items() if x in CODEC])
        tail = r.random() < 0.8
        wide = COLL[i] in WIDE if tail else self.cs in WIDE
        caps = c.caps
        if wide and tail and caps & P.PLUGIN_AUTH:
            return      # the plugin name can't be represented
        self.trace.append(f"COM_CHANGE_USER {user!r} {db!r} {COLL[i] if tail else None}")
        self.ident.log.clear()
        res = self.change_user(eu, ed, i, tail)
        if res.kind != "ok":
            self.fail(f"COM_CHANGE_USER failed: {res}")
        self.same("COM_CHANGE_USER user", self.ident.log[0], user)
        self.same("COM_CHANGE_USER user (session)", self.s.username, user)
        if db or self.s.database:
            self.same("COM_CHANGE_USER database", self.s.database or "", db)
        self.st.count("change_user")
        if tail:
            self.cs = COLL[i]
        self.rs = self.s.variables.get("character_set_results")
        self.st.seen("switch", "change_user", self.cs)

    # ---- client to server
    def op_query(self):
        r = self.rnd
        w = self.w
        s = self.text(self.cs)
        n = self.text.ident(self.cs)
        attrs = []
        if self.c.caps & P.QUERY_ATTRIBUTES:
            names = {self.text(self.cs, n=r.choice([1, 3, 30])) for _ in range(r.choice([0, 1, 3]))}
            attrs = [(x, (r.choice(PTYPES), self.text(self.cs))) for x in names]
        w.expr = w.sql = None
        w.answer = None
        sql = f"SELECT {quote(s)} FROM `{n}`"
        res = self.query(sql, attrs)
        if w.expr is None:
            self.fail(f"{sql[:80]!r} did not arrive: {res}")
        self.same("SQL", w.sql, sql)
        self.same("literal", next(w.expr.find_all(exp.Literal)).name, s)
        self.same("identifier", next(w.expr.find_all(exp.Table)).name, n)
        if set(w.attrs) != {x for x, _ in attrs}:
            self.fail(f"attributes {list(w.attrs)} instead of {[x for x, _ in attrs]}")
        for x, (k, v) in attrs:
            self.same(f"attribute {k}", w.attrs[x], v)

    def op_stmt(self):
        r = self.rnd
        w = self.w
        c = self.c
        s, t, u = self.text(self.cs), self.text(self.cs), self.text(self.cs)
        p = c.prepare(enc(self.cs, f"SELECT {quote(s)}, ?, ? FROM t"))
        self.trace.append("prepare")
        if p.kind != "prep":
            self.fail(f"prepare failed: {p}")
        if r.random() < 0.5:
            # parameters are decoded with the character set that is current at the execution
            self.op_switch()
            t, u = self.text(self.cs), self.text(self.cs)
        attrs = []
        if c.caps & P.QUERY_ATTRIBUTES:
            attrs = [(self.text(self.cs), self.text(self.cs))]
        w.expr = None
        w.answer = None
        long = ()
        if r.random() < 0.5:
            b = enc(self.cs, u)
            k = r.randrange(len(b) + 1)
            c.long_data(p.stmt_id, 1, b[:k])
            c.long_data(p.stmt_id, 1, b[k:])
            long = (1,)
        res = c.execute(p.stmt_id, [(r.choice(PTYPES), enc(self.cs, t)), ("blob", enc(self.cs, u))], long_idx=long,
                        attrs=[(enc(self.cs, x), ("string", enc(self.cs, y))) for x, y in attrs])
        if w.expr is None:
            self.fail(f"the statement did not arrive: {res}")
        lits = [x.name for x in w.expr.expressions]
        for what, a, b in zip(("prepared literal", "parameter", "long data" if long else "parameter"), lits, (s, t, u)):
            self.same(what, a, b)
        for x, y in attrs:
            self.same("attribute (execute)", w.attrs.get(x, ""), y)
        c.stmt_close(p.stmt_id)

    def op_initdb(self):
        s = self.text(self.cs, avoid="\0")
        self.trace.append("COM_INIT_DB")
        self.w.used = None
        self.w.use_error = None
        res = self.c.resp(bytes([P.COM_INIT_DB]) + enc(self.cs, s), lambda pl: P.parse_simple(pl, self.c.caps))
        if res.kind != "ok":
            self.fail(f"COM_INIT_DB failed: {res}")
        self.same("COM_INIT_DB", self.w.used or "", s)
        i = self.text.ident(self.cs)
        if self.query(f"USE `{i}`").kind != "ok":
            self.fail("USE failed")
        self.same("USE", self.w.used, i)

    def op_fieldlist(self):
        r = self.rnd
        w = self.w
        t = self.text.ident(self.cs, self.rs)
        if not self.name_safe(enc(self.cs, t)):
            return
        cols = [self.text.ident(self.cs, self.rs) for _ in range(3)]
        if any(not fits(x, y.lower()) for y in cols for x in (self.cs, self.rs)):
            return      # column names are lower-cased, but the letter is missing
        w.mapping = {"db": {t: {x.lower(): "TEXT" for x in cols}, t + "x": {"z": "INT"}}}
        if len(w.mapping["db"]) != 2 or t.lower() == (t + "x").lower():
            return
        self.s.database = "db"
        self.trace.append(f"COM_FIELD_LIST {t!r}")
        low = cols[0].lower()
        wild = r.choice(["", "", "%", low if fits(self.cs, low) else ""])
        res = self.c.resp(P.com_field_list(enc(self.cs, t), enc(self.cs, wild)), lambda pl: P.parse_field_list(pl, self.c.caps))
        if res.kind != "fields":
            self.fail(f"COM_FIELD_LIST failed: {res}")
        got = sorted(x.name for x in res.cols)
        want = {x.lower() for x in cols} if wild in ("", "%") else {wild}
        self.st.count("up")
        self.st.count("down")
        if got != sorted(enc(self.rs, x) for x in want):
            self.fail(f"COM_FIELD_LIST of {t!r} like {wild!r} returned {got} instead of {sorted(want)}")
        for x in res.cols:
            self.bytes("field list table", x.table, t, self.rs)

    # ---- round trips through the library
    def op_roundtrip(self):
        r = self.rnd
        s = self.text(self.cs, avoid="\0")     # the SQL executor can't handle NUL
        n = self.text.ident(self.cs, self.rs)
        k = r.random()
        if k < 0.4:
            res = self.query(f"SELECT {quote(s)} AS `{n}`")
            name = n
        elif k < 0.7:
            if self.query(f"SET init_connect = {quote(s)}").kind != "ok":
                self.fail("SET failed")
            res = self.query("SELECT @@init_connect")
            name = None
        else:
            t = self.text.ident(self.cs)
            if t != t.lower() or len(t.lower().upper()) != len(t):
                t = "t"
            self.w.mapping = {"db": {t: {"a": "INT"}}}
            self.s.database = "db"
            res = self.query(r.choice(["SHOW TABLES FROM db", "SELECT table_name FROM information_schema.tables WHERE "
                                       f"table_name = {quote(t)}"]))
            s, name = t, None
        if res.kind != "rs" or len(res.rows) != 1:
            self.fail(f"no row for {s!r}: {res.rows if res.kind == 'rs' else res}")
        if name is not None:
            self.bytes("static name", res.cols[0].name, name, self.rs)
        declared = COLL.get(res.cols[0].charset)
        if declared not in CODEC:
            self.fail(f"the column declares collation {res.cols[0].charset}")
        self.bytes("static cell", res.rows[0][0], s, declared)
        self.st.count("up")

    # ---- server to client
    def op_cells(self):
        r = self.rnd
        c = self.c
        n = r.choice([1, 2, 5, 12])
        sets = [r.choice([self.pick_cs(), self.rs, self.cs]) for _ in range(n)]
        names = [self.text(self.rs, n=r.choice([1, 3, 20, 130])) for _ in range(n)]
        rows = [tuple(None if r.random() < .1 else self.text(x) for x in sets) for _ in range(r.choice([1, 3]))]
        cols = [ResultColumn(name=nm, type=r.choice(TYPES), character_set=CharacterSet[x]) for nm, x in zip(names, sets)]
        infer = r.random() < 0.2
        if infer:
            cols = names
        if r.random() < .5 and not infer:
            self.w.answer = lambda: ResultSet(rows=rows, columns=cols)
        else:
            self.w.answer = lambda: (iter(rows), cols)
        k = r.choice(["text", "binary", "cursor"])
        if k == "text":
            res = self.query("SELECT a FROM t")
        else:
            p = c.prepare(enc(self.cs, "SELECT a FROM t"))
            if r.random() < 0.3:
                self.op_switch_only()
                if any(not fits(self.rs, x) for x in names):
                    c.stmt_close(p.stmt_id)
                    return
            res = c.execute(p.stmt_id, cursor=k == "cursor")
        if res.kind != "rs":
            self.fail(f"no result: {res}")
        got = list(res.rows)
        if k == "cursor":
            if r.random() < 0.5:
                # the cells depend on the columns, not on the session
                save = self.w.answer
                self.op_switch_only()
                self.w.answer = save
            f = c.fetch(p.stmt_id, 10)
            if f.kind == "err":
                self.fail(f"fetch failed: {f}")
            got = f.rows
        if len(got) != len(rows):
            self.fail(f"{len(got)} rows instead of {len(rows)}")
        rs = self.exec_rs if k == "cursor" and hasattr(self, "exec_rs") else self.rs
        for i, (col, nm) in enumerate(zip(res.cols, names)):
            if not (k == "cursor"):
                self.bytes("name " + k, col.name, nm, rs)
            declared = COLL.get(col.charset)
            if infer and declared not in CODEC:
                self.fail(f"the column declares collation {col.charset}")
            if not infer and declared != sets[i]:
                self.fail(f"column {i} in {sets[i]} declares collation {col.charset} ({declared})")
            for g, row in zip(got, rows):
                if row[i] is None:
                    if g[i] is not None:
                        self.fail(f"NULL arrived as {g[i]!r}")
                    continue
                if g[i] is None:
                    self.fail(f"{row[i]!r} arrived as NULL")
                if infer and not fits(declared, row[i]):
                    continue
                self.bytes("cell " + k, g[i], row[i], declared)
        if k != "text":
            c.stmt_close(p.stmt_id)

    def op_switch_only(self):
        """A switch that does not use a prepared statement"""
        cs = self.pick_cs()
        if self.query(f"SET NAMES {cs}").kind != "ok":
            self.fail("SET NAMES failed")
        self.cs = self.rs = cs
        self.st.count("switch")

    def op_error(self):
        r = self.rnd
        c = self.c
        w = self.w
        m = self.text(self.rs, n=r.choice([1, 5, 60, 200]))
        self.st.count("errors")
        k = r.choice(["query", "query", "late", "use", "execute", "fetch", "unknown", "schema", "mysqlerror"])

        def boom():
            raise AppError(m)

        def late():
            def rows():
                yield ("a",)
                raise AppError(m)
            return rows(), [ResultColumn(name="a", type=CT.VARCHAR)]

        def mysqlerror():
            from mysql_mimic.errors import ErrorCode, MysqlError
            raise MysqlError(m, ErrorCode.PARSE_ERROR)
        w.answer = boom
        exact = True
        if k == "query":
            res = self.query("SELECT a FROM t")
        elif k == "mysqlerror":
            w.answer = mysqlerror
            res = self.query("SELECT a FROM t")
        elif k == "late":
            w.answer = late
            res = self.query("SELECT a FROM t")
        elif k == "use":
            w.use_error = m
            res = c.resp(bytes([P.COM_INIT_DB]) + enc(self.cs, "x"), lambda pl: P.parse_simple(pl, c.caps))
            w.use_error = None
        elif k in ("execute", "fetch"):
            if k == "fetch":
                w.answer = late
            p = c.prepare(enc(self.cs, "SELECT a FROM t"))
            res = c.execute(p.stmt_id, cursor=k == "fetch")
            if k == "fetch":
                if res.kind != "rs":
                    self.fail(f"{res}")
                res = c.fetch(p.stmt_id, 10)
        elif k == "unknown":
            m = self.text.ident(self.cs, self.rs)
            res = self.query(f"SET `{m}` = 1")
            m = m.lower()
            exact = False
        else:
            m = self.text.ident(self.cs, self.rs)
            res = self.query(f"SHOW COLUMNS FROM `{m}x`")
            if res.kind != "err":
                return
            exact = False
        if res.kind != "err":
            self.fail(f"no error: {res}")
        self.st.count("down")
        if exact:
            if enc(self.rs, m) not in res.err.msg:
                self.fail(f"the error message ({k}) {m[:40]!r} was sent as {res.err.msg[:80]!r} instead of {enc(self.rs, m)[:80]!r}")
        else:
            try:
                text = dec(self.rs, res.err.msg)
            except UnicodeError:
                self.fail(f"the error message {res.err.msg[:80]!r} is not valid in {self.rs}")
            if k == "unknown" and fits(self.rs, m) and m not in text.lower():
                self.fail(f"the error message does not mention {m!r}: {text[:120]!r}")
        if res.err.state is not None and not res.err.state.isalnum():
            self.fail(f"SQL state {res.err.state!r}")
        self.st.seen("error", k, self.rs)

    def login(self, i, ops):
        """Connect with collation `i`"""
        rnd = self.rnd
        self.cs, self.rs = COLL[i], "utf8mb4"
        caps = P.BASE_CAPS | P.LENENC_AUTH | rnd.choice([0, P.DEPRECATE_EOF]) | rnd.choice([0, P.QUERY_ATTRIBUTES])
        user = self.text.ident(self.cs)
        db = self.text.ident(self.cs) if rnd.random() < 0.6 else None
        if self.cs in WIDE:
            caps &= ~P.PLUGIN_AUTH
        if not self.name_safe(enc(self.cs, user)):
            user = ""
        if db and not self.name_safe(enc(self.cs, db)):
            db = None
        self.trace.append(f"login in {i} ({self.cs}) as {user!r} to {db!r}")
        c = self.w.connect()
        self.ident.log.clear()
        r = c.login(user=enc(self.cs, user), db=None if db is None else enc(self.cs, db), client_caps=caps, charset=i)
        r = self.switched(c, r)
        if r.kind != "ok":
            self.fail(f"login failed: {r}")
        self.c, self.s = c, self.w.sessions[-1]
        self.same("handshake user", self.ident.log[0], user)
        self.same("handshake user (session)", self.s.username, user)
        if db:
            self.same("handshake database", self.s.database or "", db)
        res = self.query("SELECT @@external_user")
        if res.kind != "rs":
            self.fail(f"{res}")
        self.bytes("external_user", res.rows[0][0], user, COLL.get(res.cols[0].charset))
        self.st.count("hs")
        self.st.seen("hs", i)
        for f in ops:
            f()

    def run(self):
        rnd = self.rnd
        self.ident = FixedIdentity(allow_any=True)
        self.cs = self.rs = "utf8mb4"
        with World(session=App, identity=self.ident) as w:
            self.w = w
            w.mapping = {"db": {"t": {"a": "INT"}}}
            w.answer = w.expr = w.used = w.use_error = None
            up = [self.op_query, self.op_stmt, self.op_initdb, self.op_fieldlist, self.op_roundtrip]
            down = [self.op_cells, self.op_error]
            if self.case["k"] == "ids":
                for i in self.case["ids"]:
                    self.login(i, up[:2] + [rnd.choice(up), rnd.choice(down)])
                    # the same id in COM_CHANGE_USER
                    if self.c.caps & P.PLUGIN_AUTH or COLL[i] in WIDE:
                        self.login(45, [])
                        c = self.c
                        caps = c.caps
                        if COLL[i] in WIDE:
                            continue
                        r = self.change_user("ü☃".encode(), "dß漢".encode(), i, True)
                        if r.kind != "ok":
                            self.fail(f"COM_CHANGE_USER with collation {i} failed: {r}")
                        self.cs = COLL[i]
                        self.rs = self.s.variables.get("character_set_results")
                        self.same("COM_CHANGE_USER user", self.s.username, "ü☃")
                        self.same("COM_CHANGE_USER database", self.s.database, "dß漢")
                        for f in (self.op_query, self.op_stmt, self.op_error):
                            f()
                return
            self.login(rnd.choice([i for i, x in COLL.items() if x in CODEC]), [])
            ops = up * 2 + down * 3 + [self.op_switch] * 6
            for _ in range(self.case["n"]):
                rnd.choice(ops)()


def run(case, st):
    (Sweep if case["k"] == "sweep" else History)(case, st).run()


def gen(tier, seed):
    rnd = random.Random(seed * 7919 + 15)
    quick = tier == "quick"
    ids = [i for i, x in COLL.items() if x in CODEC]
    for a in range(0, len(ids), 6):
        yield {"k": "ids", "s": rnd.randrange(1 << 40), "ids": ids[a:a + 6]}
    n = 700 if quick else 15000
    done = 0
    for rep in range(1 if quick else 6):
        for cs in CODEC:
            total = len(repertoire(cs)[0])
            step = 8192
            for a in range(0, total, step):
                yield {"k": "sweep", "s": rnd.randrange(1 << 40), "cs": cs, "a": a, "b": a + step,
                       "size": rnd.choice([40, 90, 257]) if total < 300 else rnd.choice([120, 251, 700])}
        for _ in range(n // (1 if quick else 6)):
            yield {"k": "hist", "s": rnd.randrange(1 << 40), "n": rnd.choice([8, 20, 40])}
