"""C14: system variables form a typed, scoped store that clients cannot corrupt."""
import random
import re
from datetime import datetime, timedelta, timezone

from sqlglot import expressions as exp

from mysql_mimic.constants import KillKind

from vlib import proto as P
from vlib.apps import FixedIdentity, Gate, RecSession, rand_exc
from vlib.client import World
from vlib.runner import Violation

ID = "C14"
LEVEL = "exploration"
RULE = ("histories of 10..60 statements (SET in all forms, SET NAMES / CHARACTER SET / TRANSACTION, SET_VAR hints on static, "
        "application and catalog statements that succeed, fail or are killed, reads) against a reference store; all variables "
        "are compared after every statement by SHOW VARIABLES and SELECT @@; distinct = (operation, variable, form, value class)")
ASSUMPTIONS = [
    "defaults are what a fresh session reports; a value outside the obvious domain of a type may be rejected, or coerced to "
    "some value of that type",
    "if a statement assigning several variables fails, each of them has its old or its new value",
    "of several SET_VAR hints for one variable, any may win; a SET_VAR whose assignment is rejected may fail the statement",
    "NOW() and friends are compared with the machine's clock with 2 s of tolerance",
]
MIN = {"statements": 8000, "reads": 30000, "set_ok": 800, "set_err": 500, "hints": 800, "hint_errors": 200, "killed": 20,
       "now": 300, "readonly": 200, "battery": 300}
DEADLINE = {"quick": 480, "thorough": 780}
CAPS = [P.BASE_CAPS | P.DEPRECATE_EOF | P.LENENC_AUTH, P.BASE_CAPS | P.LENENC_AUTH,
        P.BASE_CAPS | P.DEPRECATE_EOF | P.QUERY_ATTRIBUTES | P.LENENC_AUTH]

INT, BOOL, STR, CS, COLL, TZ, RO = "int bool str cs coll tz ro".split()
VARS = {
    "auto_increment_increment": INT, "autocommit": BOOL, "character_set_client": CS, "character_set_connection": CS,
    "character_set_database": CS, "character_set_results": CS, "character_set_server": CS, "collation_connection": COLL,
    "collation_database": COLL, "collation_server": COLL, "external_user": RO, "init_connect": STR,
    "interactive_timeout": INT, "license": RO, "lower_case_table_names": INT, "max_allowed_packet": INT,
    "max_execution_time": INT, "net_buffer_length": INT, "net_write_timeout": INT, "performance_schema": RO,
    "sql_auto_is_null": BOOL, "sql_mode": STR, "sql_select_limit": INT, "system_time_zone": RO, "time_zone": TZ,
    "transaction_read_only": BOOL, "transaction_isolation": STR, "version": RO, "version_comment": RO, "wait_timeout": INT,
    "event_scheduler": STR, "default_storage_engine": STR, "default_tmp_storage_engine": STR,
}
BY = {t: [v for v, u in VARS.items() if u == t] for t in (INT, BOOL, STR, CS, COLL, TZ, RO)}
CODEC = {"utf8mb4": "utf-8", "utf8": "utf-8", "latin1": "cp1252", "ascii": "ascii", "gbk": "gbk", "sjis": "shift_jis",
         "big5": "big5", "cp1251": "cp1251", "greek": "iso8859-7", "latin2": "iso8859-2", "cp850": "cp850",
         "utf16": "utf-16-be", "utf32": "utf-32-be", "koi8r": "koi8-r", "ucs2": "utf-16-be"}
COLLS = ["utf8mb4_general_ci", "utf8mb4_bin", "latin1_swedish_ci", "latin1_bin", "utf8_general_ci", "cp1251_general_ci",
         "gbk_chinese_ci", "utf8mb4_0900_ai_ci", "ascii_bin", "latin2_general_ci"]
# accepted by MySQL too
TZS = {"UTC": 0, "utc": 0, "+00:00": 0, "-00:00": 0, "+05:30": 330, "-08:00": -480, "+12:45": 765, "-12:59": -779,
       "+13:00": 780, "-03:30": -210, "+01:00": 60, "Utc": 0}
ANY = object()
TRUE = {"1", "on", "true"}
FALSE = {"0", "off", "false"}


class Bad(Exception):
    pass


def norm(name, text):
    """Wire text of a variable -> comparable value"""
    t = VARS.get(name)
    if text is None:
        return None
    if t == INT:
        try:
            return int(text)
        except ValueError:
            raise Bad(f"{name} is {text!r}, not an integer")
    if t == BOOL or name == "performance_schema":
        low = text.lower()
        if low in TRUE:
            return True
        if low in FALSE:
            return False
        raise Bad(f"{name} is {text!r}, not a boolean")
    if t in (CS, COLL):
        return text.lower()
    return text


def txt(v):
    return None if v is None else v.decode("utf8") if isinstance(v, bytes) else str(v)


def q(s):
    return "'" + s.replace("\\", "\\\\").replace("'", "''") + "'"


class App(RecSession):
    mapping = {"db1": {"t": {"a": "INT"}}}

    async def query(self, expression, sql, attrs):
        w = self.world
        w.seen = {k: self.variables.get(k) for k in VARS}
        w.exprs = expression
        w.ncalls += 1
        if "gated" in sql:
            await w.gate.wait()
        if "boom" in sql:
            raise rand_exc(w.rnd, "boom")
        if "lazyfail" in sql:
            return failing(rand_exc(w.rnd, "lazy failure")), ["a"]
        if "lazy" in sql:
            return rows(), ["a"]
        if "none" in sql:
            return None
        return [("row", 1), (None, 2)], ["a", "b"]


def rows():
    for i in range(3):
        yield (i,)


def failing(exc):
    yield (1,)
    raise exc


class Driver:
    def __init__(self, case, st):
        self.rnd = random.Random(case["s"])
        self.st = st
        self.case = case
        self.trace = []
        self.extra = {}      # codecs of other character sets

    # ------------------------------------------------------------------------------------ client
    def query(self, sql, via=None):
        self.st.count("statements")
        self.trace.append(sql)
        c = self.c
        c.codec = self.codec()
        if via == "stmt":
            p = c.prepare(sql)
            if p.kind != "prep":
                return p
            return c.execute(p.stmt_id)
        return c.query(sql)

    def codec(self):
        cs = self.m["character_set_client"]
        return CODEC.get(cs) or self.extra[cs]

    def fail(self, msg):
        raise Violation(f"{msg}; after {self.trace[-6:]!r}")

    def read_all(self):
        r = self.query("SHOW VARIABLES")
        if r.kind != "rs":
            self.fail(f"SHOW VARIABLES failed: {r}")
        got = {}
        for k, v in r.rows:
            k = k.decode()
            if k in got:
                self.fail(f"SHOW VARIABLES lists {k} twice")
            try:
                got[k] = norm(k, txt(v))
            except Bad as e:
                self.fail(f"SHOW VARIABLES: {e}")
        self.st.count("reads", len(got))
        return got

    def select(self, names):
        form = self.rnd.choice(["@@{}", "@@session.{}", "@@SESSION.{}", "@@local.{}"])
        cased = [n.upper() if self.rnd.random() < 0.2 else n for n in names]
        r = self.query("SELECT " + ", ".join(form.format(n) for n in cased))
        if r.kind != "rs" or len(r.rows) != 1 or len(r.rows[0]) != len(names):
            self.fail(f"reading {names} failed: {r}")
        out = []
        for n, v in zip(names, r.rows[0]):
            try:
                out.append(norm(n, txt(v)))
            except Bad as e:
                self.fail(f"SELECT @@: {e}")
        self.st.count("reads", len(names))
        return out

    def verify(self, allow=None):
        """Everything equals the model; `allow`: {name: set of other values}, which the model then follows."""
        got = self.read_all()
        for n, want in self.m.items():
            if n not in got:
                self.fail(f"SHOW VARIABLES does not list {n}")
            if got[n] == want and type(got[n]) is type(want):
                continue
            if allow and n in allow and (allow[n] is ANY or got[n] in allow[n]):
                self.m[n] = got[n]
                continue
            self.fail(f"SHOW VARIABLES: {n} is {got[n]!r} instead of {want!r}")
        names = self.rnd.sample(list(self.m), 3)
        if allow:
            names += list(allow)[:3]
        for n, v in zip(names, self.select(names)):
            if v != self.m[n]:
                self.fail(f"@@{n} is {v!r} instead of {self.m[n]!r}")

    # ------------------------------------------------------------------------------------ values
    def value(self, name):
        s, e = self.value1(name)
        try:
            s.encode(self.codec())
        except UnicodeError:
            return "DEFAULT", ("ro",) if VARS[name] == RO else ("is", self.default[name])
        return s, e

    def value1(self, name):
        """-> (sql, expectation): ('is', v) must be accepted and read back as v; ('may', v): or refused; ('amb',); ('err',)"""
        r = self.rnd
        t = VARS[name]
        k = r.random()
        if t == RO:
            return r.choice(["'evil'", "1", "0", "TRUE", "''", "'8.0.29'", "DEFAULT", "NULL"]), ("ro",)
        if k < 0.13:
            return r.choice(["DEFAULT", "default", "NULL", "null", "Default"]), ("is", self.default[name])
        if t == INT:
            if k < 0.6:
                v = r.choice([0, 1, 2, 7, 100, 65535, 2**31 - 1, 2**32, 2**63 - 1, r.randrange(1 << 40)])
                return r.choice([str(v), f"'{v}'", str(v)]), ("is", v)
            if k < 0.68:
                s, v = r.choice([("TRUE", 1), ("FALSE", 0), ("' 5 '", 5), ("007", 7), ("'0012'", 12), ("12.0", 12), ("18446744073709551615", 2**64 - 1),
                                 ("'9223372036854775808'", 2**63)])
                return s, ("may", v)
            return r.choice(["-5", "1.5", "TRUE", "FALSE", "ON", "OFF", "18446744073709551616", "1e400", "'abc'", "''", "'1e5'",
                             "'12abc'", "1" * 60, "0x10", "'\u0661'", "'nan'", "'-7'", "1e3", "- 1", "1 + 1", "'inf'", "nope",
                             "'1_0'", "' 5 '", "999999999999999999999999", "(SELECT 1)", "b'1'", f"'{'9' * 5000}'"]), ("amb",)
        if t == BOOL:
            if k < 0.6:
                s, v = r.choice([("1", True), ("0", False), ("ON", True), ("OFF", False), ("TRUE", True), ("FALSE", False),
                                 ("'ON'", True), ("'OFF'", False), ("true", True), ("false", False), ("on", True), ("off", False),
                                 ("'on'", True), ("'off'", False)])
                return s, ("is", v)
            if k < 0.8:
                # may be refused
                s, v = r.choice([("2", True), ("77", True), ("1.0", True), ("0.5", True), ("'true'", True), ("'False'", False), ("'1'", True),
                                 ("'0'", False), ("00", False), ("01", True)])
                return s, ("may", v)
            return r.choice(["-1", "'yes'", "''", "'abc'", "1.5", "0.0", "nope", "1e400"]), ("amb",)
        if t == CS:
            if k < 0.6:
                v = r.choice(list(CODEC))
                return r.choice([q(v), q(v.upper())]), ("is", v)
            return r.choice(["'nocharset'", "5", "''", "'utf-8'", "'binary'", "'dec8'", "'UTF8'", "TRUE", "'latin1 '", "'geostd8'",
                             "1.5", "'swe7'", "'hp8'", "latin1", "'__class__'", "'utf8mb3'", "'mro'", "'name'", "ON"]), ("amb",)
        if t == COLL:
            if k < 0.6:
                v = r.choice(COLLS)
                return r.choice([q(v), q(v.upper())]), ("is", v)
            return r.choice(["'nocollation'", "5", "''", "'latin1'", "TRUE", "'utf8mb4_foo_ci'", "'binary'", "45", "'mro'"]), ("amb",)
        if t == TZ:
            if k < 0.65:
                v = r.choice(list(TZS))
                return q(v), ("is", v)
            return r.choice(["'abc'", "''", "'+25:00'", "'Europe/Berlin'", "'SYSTEM'", "5", "TRUE", "'+5:00'", "'05:00'", "'+05:61'",
                             "'+05:00 '", "'+24:00'", "'+05:00x'", "'+99:99'", "'GMT'", "'\u0661'", "'+\u0661\u0661:00'",
                             "SYSTEM", "'+23:59'", "'-23:59'", "'+05:0'", "1.5", "ON", "'UTC '"]), ("amb",)
        if k < 0.7:
            v = r.choice(["", "a", "ANSI", "it's", "back\\slash", "\"dq\"", "semi;colon", "é☃", "x" * 3000, "-- c", "/* */", "@@version",
                          "NULL", "DEFAULT", "ON", "%s {}", "a,b", "READ-COMMITTED", " lead", "😀", "?", "\n", "1", "true",
                          "utf8", "' OR 1"])
            codec = self.codec()
            try:
                v.encode(codec)
            except UnicodeError:
                v = "a"
            if self.m["character_set_client"] in ("sjis", "gbk", "big5", "cp1251", "greek", "koi8r"):
                v = "plain"
            return q(v), ("is", v)
        if k < 0.8:
            v = r.choice([5, 0, 123456])
            return str(v), ("is", str(v))
        return r.choice(["TRUE", "OFF", "1.5", "nope", "-5", "1e400", "0x41", "CONCAT('a', 'b')"]), ("amb",)

    def target(self, name):
        r = self.rnd
        n = name if r.random() < 0.8 else r.choice([name.upper(), name.title()])
        return r.choice(["{}", "{}", "SESSION {}", "LOCAL {}", "@@{}", "@@session.{}", "@@SESSION.{}", "@@local.{}", "session {}",
                         "`{}`"]).format(n)

    def right_type(self, name, v):
        t = VARS[name]
        if v is None:
            return self.default[name] is None
        return {INT: lambda: type(v) is int and -2**63 <= v < 2**64, BOOL: lambda: type(v) is bool}.get(t, lambda: type(v) is str)()

    # ------------------------------------------------------------------------------------ operations
    def op_set(self):
        r = self.rnd
        n = r.choice([1, 1, 1, 1, 2, 3, 5])
        names = [self.pick() for _ in range(n)]
        items = [(x, *self.value(x)) for x in names]
        sql = r.choice(["SET ", "set ", "SET  "]) + r.choice([", ", ","]).join(
            f"{self.target(x)} {'='} {s}" if r.random() < .5 else f"{self.target(x)}={s}" for x, s, _ in items)
        res = self.query(sql, r.choice([None, None, "stmt"]))
        if res.kind == "closed":
            self.fail("the connection was closed")
        if any(e[0] == "ro" or VARS[x] == RO for x, _, e in items):
            self.st.count("readonly")
        self.account_set(items, res)

    def account_set(self, items, res):
        m = self.m
        possible = {}
        for x, s, e in items:
            if VARS[x] == RO:
                continue
            p = possible.setdefault(x, {m[x]})
            if p is ANY:
                continue
            if e[0] in ("is", "may"):
                p.add(e[1])
            else:
                possible[x] = ANY
        clear = all(e[0] == "is" and VARS[x] != RO for x, s, e in items)
        self.st.count("set_ok" if res.kind == "ok" else "set_err")
        if clear and res.kind != "ok":
            self.fail(f"the assignment was not accepted: {res}")
        if res.kind == "ok":
            # the last assignment of each variable counts
            allow = {}
            for x, s, e in items:
                if VARS[x] == RO:
                    continue
                if e[0] in ("is", "may"):
                    m[x] = e[1]
                    allow.pop(x, None)
                else:
                    allow[x] = ANY
            self.follow_client_charset(allow)
            self.verify(allow)
            for x in allow:
                v = m[x]
                if any(y == x and VARS[x] == INT and s in ("-5", "'-7'", "- 1") for y, s, _ in items) and \
                        (v in (5, 7, 1) and v != self.default[x]):
                    self.fail(f"{x} is {v!r} although that value was never assigned")
                if not self.right_type(x, m[x]):
                    self.fail(f"the value {m[x]!r} of {x} is not of its type")
            for x, s, e in items:
                self.st.seen("set", x, e[0], s[:12])
        else:
            self.follow_client_charset(possible if len(items) > 1 else {})
            self.verify(possible if len(items) > 1 else None)

    def follow_client_charset(self, allow):
        """Needed to be able to talk: which character set the client must use now (read from the server's session)"""
        if "character_set_client" in allow:
            v = self.s.variables.get("character_set_client")
            if allow["character_set_client"] is not ANY and v not in allow["character_set_client"]:
                self.fail(f"character_set_client is {v!r}")
            if v not in CODEC and v not in self.extra:
                # restore a character set we can use; the statement must work nevertheless
                self.unknown_charset(v)
            self.m["character_set_client"] = v

    def unknown_charset(self, v):
        for codec in ("ascii", "utf-16-be", "utf-32-be", "utf-16-le"):
            c = self.c
            c.codec = codec
            r = c.query("SELECT 1")
            if r.kind == "rs":
                self.extra[v] = codec
                return
        self.fail(f"no statement works with the accepted character_set_client {v!r}")

    def pick(self):
        r = self.rnd
        t = r.choice([INT, BOOL, STR, STR, CS, COLL, TZ, TZ, RO])
        return r.choice(BY[t])

    def op_unknown(self):
        n = self.rnd.choice(["nosuch", "sql_mod", "sql_mode_", "versio", "foo.bar", "values", "__init__", "schema", "get"])
        f = self.rnd.choice([f"SET {n} = 1", f"SET @@{n} = DEFAULT", f"SET SESSION {n} = 'x'", f"SELECT @@{n}", f"SET {n} = NULL"])
        r = self.query(f)
        if r.kind != "err":
            self.fail(f"an unknown variable is not an error: {r}")
        self.st.count("set_err")
        self.verify()

    def op_scope(self):
        n = self.pick()
        s, e = self.value(n)
        f = self.rnd.choice(["SET GLOBAL {} = {}", "SET @@global.{} = {}", "SET PERSIST {} = {}", "SET @@persist.{} = {}",
                             "SET PERSIST_ONLY {} = {}", "set global {} = {}"])
        self.query(f.format(n, s))
        self.verify()

    def op_misc_reject(self):
        r = self.query(self.rnd.choice([
            "SET @u = 5", "SET GLOBAL TRANSACTION READ ONLY", "SET sql_mode", "SET sql_mode =", "SET = 5", "SET NAMES",
            "SET NAMES nocharset", "SET NAMES utf8mb4 COLLATE nocollation", "SET CHARACTER SET nocharset", "SET NAMES 5",
            "SET NAMES binary COLLATE x", "SET NAMES geostd8", "SET CHARACTER SET dec8", "SET NAMES ''", "SET sql_mode := 'x'",
            "SET PASSWORD = 'x'", "SET version_comment := 'x'", "SELECT @@version := 5", "SET NAMES latin1 COLLATE nocollation",
            "SET GLOBAL TRANSACTION ISOLATION LEVEL SERIALIZABLE", "SET TRANSACTION ISOLATION LEVEL NONSENSE"]))
        if r.kind == "closed":
            self.fail("connection closed")
        if r.kind == "ok":
            self.follow_client_charset({v: ANY for v in BY[CS]})
            self.verify({v: ANY for v in BY[CS] + BY[COLL]})
        else:
            self.verify()

    def op_names(self):
        r = self.rnd
        cs = r.choice(list(CODEC) + ["DEFAULT", "default"])
        m = self.m
        quote = r.choice([lambda x: x, q, lambda x: x.upper()]) if cs.upper() != "DEFAULT" else (lambda x: x)
        k = r.random()
        if k < 0.6:
            coll = None
            if cs.upper() != "DEFAULT" and r.random() < 0.3:
                opts = [x for x in COLLS if x.split("_")[0] == cs]
                coll = r.choice(opts) if opts else None
            res = self.query(f"SET NAMES {quote(cs)}" + (f" COLLATE {r.choice([coll, q(coll)])}" if coll else ""))
            if cs.upper() == "DEFAULT":
                new = {n: self.default[n] for n in ("character_set_client", "character_set_connection", "character_set_results",
                                                    "collation_connection")}
                allow = {}
            else:
                new = dict.fromkeys(["character_set_client", "character_set_connection", "character_set_results"], cs)
                if coll:
                    new["collation_connection"] = coll
                allow = {} if coll else {"collation_connection": ANY}
        else:
            res = self.query(f"SET {r.choice(['CHARACTER SET', 'CHARSET', 'character set'])} {quote(cs)}")
            if cs.upper() == "DEFAULT":
                new = {n: self.default[n] for n in ("character_set_client", "character_set_results")}
                allow = {"character_set_connection": {self.default["character_set_connection"], m["character_set_database"]}}
            else:
                new = {"character_set_client": cs, "character_set_results": cs,
                       "character_set_connection": m["character_set_database"]}
                allow = {}
            allow["collation_connection"] = ANY
        if res.kind != "ok":
            self.fail(f"the character set was not accepted: {res}")
        m.update(new)
        self.verify(allow)
        if "collation_connection" in allow and k < 0.6 and not m["collation_connection"].startswith(cs.lower()):
            self.fail(f"SET NAMES {cs} selected the collation {m['collation_connection']}")
        self.st.count("set_ok")
        self.st.seen("names", cs, k < 0.6)

    def op_transaction(self):
        r = self.rnd
        lv = r.choice(["READ COMMITTED", "READ UNCOMMITTED", "REPEATABLE READ", "SERIALIZABLE"])
        acc = r.choice(["READ ONLY", "READ WRITE"])
        parts = r.choice([[0], [1], [0, 1], [1, 0]])
        sql = f"SET {r.choice(['', 'SESSION '])}TRANSACTION " + ", ".join(
            [f"ISOLATION LEVEL {lv}", acc][p] for p in parts)
        res = self.query(sql)
        if res.kind == "err" and "READ UNCOMMITTED" in sql:
            return self.verify()        # the SQL parser does not know it
        if res.kind != "ok":
            self.fail(f"{sql} failed: {res}")
        if 0 in parts:
            self.m["transaction_isolation"] = lv.replace(" ", "-")
        if 1 in parts:
            self.m["transaction_read_only"] = acc == "READ ONLY"
        self.verify()
        self.st.count("set_ok")

    def op_copy(self):
        a, b = self.pick(), self.pick()
        res = self.query(f"SET {a} = @@{b}")
        if VARS[a] == RO:
            self.verify()
        elif res.kind == "ok":
            same = VARS[a] == VARS[b] and self.m[b] is not None
            allow = {a: ANY}
            want = self.m[b]
            self.follow_client_charset(allow)
            self.verify(allow)
            if same and self.m[a] != want:
                self.fail(f"{a} was assigned {want!r}, but is {self.m[a]!r}")
            if not self.right_type(a, self.m[a]):
                self.fail(f"the value {self.m[a]!r} of {a} is not of its type")
        else:
            self.verify()

    def op_hint(self):
        r = self.rnd
        n = r.choice([1, 1, 1, 2, 3])
        items = []
        for _ in range(n):
            x = self.pick()
            s, e = self.value(x)
            if s.lower() in ("on", "off", "null", "true", "false", "nope", "system") or "SELECT" in s or len(s) > 200 or "*/" in s:
                s, e = (str(1), ("is", 1)) if VARS[x] == INT else ("DEFAULT", ("is", self.default[x]))
                if VARS[x] == RO:
                    e = ("ro",)
            items.append((x, s, e))
        if r.random() < 0.06:
            items.append(("nosuch_variable", "1", ("err",)))
        r.shuffle(items)
        sv = r.choice(["SET_VAR", "SET_VAR", "SET_VAR", "set_var", "Set_Var"])
        hint = "/*+ " + r.choice([" ", ", "]).join(f"{sv}({x}{r.choice(['=', ' = '])}{s})" for x, s, _ in items)
        if r.random() < 0.2:
            hint += " BKA(t)"
        hint += " */"
        read = [x for x, _, _ in items if x in VARS]
        cols = ", ".join("@@" + x for x in read) or "1"
        kind = r.choice(["static", "static", "app", "app", "boom", "lazy", "lazyfail", "none", "catalog", "catalogerr", "insert",
                         "sub", "staticerr", "multi", "killed", "now", "appnow", "union"])
        sql = {
            "static": f"SELECT {hint} {cols}", "app": f"SELECT {hint} a, {cols} FROM db1.t", "boom": f"SELECT {hint} boom FROM db1.t",
            "lazy": f"SELECT {hint} lazy FROM db1.t", "lazyfail": f"SELECT {hint} lazyfail FROM db1.t",
            "none": f"SELECT {hint} none FROM db1.t",
            "catalog": f"SELECT {hint} table_name FROM information_schema.tables LIMIT 1",
            "catalogerr": f"SELECT {hint} nope FROM information_schema.tables",
            "insert": f"INSERT {hint} INTO db1.t VALUES (1)",
            "sub": f"SELECT * FROM (SELECT {hint} a FROM db1.t) AS x",
            "staticerr": f"SELECT {hint} nope", "multi": f"SELECT 1; SELECT {hint} a FROM db1.t; SELECT {cols}",
            "killed": f"SELECT {hint} gated FROM db1.t", "now": f"SELECT {hint} NOW()",
            "appnow": f"SELECT {hint} NOW() FROM db1.t", "union": f"SELECT {hint} a FROM db1.t UNION SELECT 2",
        }[kind]
        w = self.w
        w.seen = None
        before = dict(self.m)
        if kind == "killed":
            return self.killed(sql, items)
        t0 = datetime.now(timezone.utc)
        res = self.query(sql, r.choice([None, None, "stmt"]))
        t1 = datetime.now(timezone.utc)
        self.st.count("hints")
        clear = all(e[0] == "is" for _, _, e in items)
        if res.kind == "err":
            self.st.count("hint_errors")
        if res.kind == "closed":
            self.fail("connection closed")
        if clear and kind in ("static", "app", "lazy", "catalog", "insert", "sub", "multi", "now", "appnow", "union", "none") and \
                res.kind not in ("rs", "ok"):
            self.fail(f"the statement failed: {res}")
        inside = {}     # name -> allowed values while the statement runs
        for x, s, e in items:
            if x in VARS and VARS[x] != RO:
                inside.setdefault(x, set()).add(e[1] if e[0] in ("is", "may") else ANY)
        # values during the statement
        if w.seen is not None and res.kind != "closed":
            for x, v in w.seen.items():
                v = norm(x, None if v is None else v if isinstance(v, str) else str(v))
                if x in inside:
                    if ANY not in inside[x] and v not in inside[x]:
                        self.fail(f"during the statement {x} is {v!r} instead of {inside[x]}")
                elif v != before[x]:
                    self.fail(f"during the statement {x} is {v!r} although only {sorted(inside)} are changed")
            self.st.count("hint_seen")
        if kind == "static" and res.kind == "rs" and read:
            for x, v in zip(read, res.rows[0]):
                v = norm(x, txt(v))
                if VARS[x] == RO:
                    if v != before[x]:
                        self.fail(f"a SET_VAR hint changed the read-only {x} to {v!r}")
                elif ANY not in inside[x] and v not in inside[x]:
                    self.fail(f"@@{x} is {v!r} during the statement, instead of {inside[x]}")
        if kind == "multi" and res.kind == "rs" and read:
            # the last statement has no hint
            for x, v in zip(read, res.rows[0]):
                v = norm(x, txt(v))
                if v != before[x]:
                    self.fail(f"@@{x} is {v!r} in the statement after the one with the hint, instead of {before[x]!r}")
        if kind in ("now", "appnow") and res.kind == "rs":
            tz = inside.get("time_zone", {self.m["time_zone"]})
            if ANY not in tz:
                if kind == "now":
                    v = txt(res.rows[0][0])
                else:
                    v = next(iter(w.exprs.find_all(exp.Literal))).name
                self.check_now(v, "NOW", tz, t0, t1)
        self.verify()
        for x, s, e in items:
            self.st.seen("hint", kind, x, e[0])

    def killed(self, sql, items):
        w = self.w
        w.gate = Gate(w.loop)
        c = self.c
        c.codec = self.codec()
        self.trace.append(sql + " -- killed")
        seq = c.send(P.com_query(sql, c.caps, (), c.codec))
        w.quiesce()
        if w.gate.pending():
            if self.rnd.random() < 0.7:
                w.loop.run(w.control.kill(c.hs.thread_id, KillKind.QUERY))
                self.st.count("killed")
            else:
                w.gate.release(exc=rand_exc(self.rnd, "failed late"))
            w.quiesce()
            w.gate.release_all()
            w.quiesce()
        c.take_payloads(seq)
        self.verify()

    def check_now(self, text, fn, tzs, t0, t1):
        self.st.count("now")
        for tz in tzs:
            off = TZS.get(tz)
            if off is None:
                m = re.fullmatch(r"([+-])(\d\d):(\d\d)", tz)
                if not m:
                    return
                off = (int(m.group(2)) * 60 + int(m.group(3))) * (-1 if m.group(1) == "-" else 1)
            lo = t0 + timedelta(minutes=off, seconds=-2)
            hi = t1 + timedelta(minutes=off, seconds=2)
            t = lo
            fmt = {"NOW": "%Y-%m-%d %H:%M:%S", "CURDATE": "%Y-%m-%d", "CURTIME": "%H:%M:%S"}[fn]
            while t <= hi + timedelta(seconds=1):
                if t.strftime(fmt) == text:
                    return
                t += timedelta(seconds=1)
        self.fail(f"{fn} is {text!r} at {t0} in time zone {tzs}")

    def op_now(self):
        r = self.rnd
        f, fn = r.choice([("NOW()", "NOW"), ("CURDATE()", "CURDATE"), ("CURTIME()", "CURTIME"), ("CURRENT_TIMESTAMP()", "NOW"),
                          ("CURRENT_DATE", "CURDATE"), ("CURRENT_TIME", "CURTIME"), ("CURRENT_TIMESTAMP", "NOW"),
                          ("LOCALTIME()", "NOW"), ("CURRENT_DATE()", "CURDATE"), ("now()", "NOW"), ("LOCALTIMESTAMP()", "NOW")])
        app = r.random() < 0.3
        t0 = datetime.now(timezone.utc)
        pre = ""
        if r.random() < 0.3:
            tz = r.choice(list(TZS))
            if r.random() < 0.7:
                pre = f"SET time_zone = {q(tz)}; "
                self.m["time_zone"] = tz
        res = self.query(pre + f"SELECT {f}" + (" FROM db1.t" if app else ""))
        t1 = datetime.now(timezone.utc)
        if res.kind != "rs":
            self.fail(f"{f} failed: {res}")
        if app:
            lit = list(self.w.exprs.find_all(exp.Literal))
            if not lit:
                self.fail(f"{f} was not replaced for the application: {self.w.exprs!r}")
            v = lit[0].name
        else:
            v = txt(res.rows[0][0])
        self.check_now(v, fn, [self.m["time_zone"]], t0, t1)

    def op_version(self):
        r = self.query("SELECT VERSION(), @@version")
        if r.kind != "rs" or {x.decode() for x in r.rows[0]} != {self.c.hs.version.decode()}:
            self.fail(f"version: {r.rows if r.kind == 'rs' else r}, handshake {self.c.hs.version!r}")
        if self.m["version"] != self.c.hs.version.decode():
            self.fail("version is not what the handshake announced")

    def op_appread(self):
        n = self.rnd.sample(list(VARS), 3)
        sel = "SELECT " + ", ".join(f"@@{x} AS v{i}" for i, x in enumerate(n))
        q, find = self.rnd.choice([
            (sel + " FROM db1.t", None),
            ("WITH c AS (" + sel + " FROM db1.t) SELECT * FROM c", exp.CTE),
            ("SELECT * FROM (" + sel + " FROM db1.t) AS d", exp.Subquery),
            ("SELECT * FROM (" + sel + ") AS d, db1.t", exp.Subquery),
            ("SELECT a FROM db1.t WHERE a IN (" + sel + ")", exp.In),
            ("SELECT a FROM db1.t UNION " + sel, exp.Union),
            ("INSERT INTO db1.t " + sel, exp.Insert),
            ("SELECT a FROM db1.t JOIN (" + sel + ") AS d ON 1 = 1", exp.Join)])
        res = self.query(q)
        if res.kind not in ("rs", "ok"):
            self.fail(f"{q}: {res}")
        e = self.w.exprs
        if find is not None:
            e = e if isinstance(e, find) else e.find(find)
            e = next(x for x in ([e.expression] if isinstance(e, exp.Union) else e.find_all(exp.Select)) if len(x.expressions) == 3)
        for x, p in zip(n, e.expressions):
            p = p.unalias()
            if isinstance(p, exp.Null):
                v = None
            elif isinstance(p, exp.Boolean):
                v = bool(p.this)
            elif isinstance(p, exp.Neg):
                v = -int(p.this.name)
            else:
                v = norm(x, p.name)
            if v != self.m[x]:
                self.fail(f"the application received {p!r} for @@{x} = {self.m[x]!r}")
        self.st.count("reads", 3)

    def battery(self):
        """The session works, whatever was assigned"""
        c = self.c
        self.st.count("battery")
        rset = CODEC.get(self.m["character_set_results"])
        for sql in ("SELECT 1", "SELECT NOW(), CURDATE(), CURTIME()", "SELECT a FROM db1.t", "SHOW TABLES FROM db1",
                    "SELECT table_name FROM information_schema.tables WHERE table_schema = 'db1'", "SHOW VARIABLES LIKE 'sql%'",
                    "SHOW COLUMNS FROM db1.t", "SELECT @@time_zone, @@sql_mode, @@sql_select_limit", "BEGIN", "COMMIT", "USE db1",
                    "SELECT DATABASE(), USER(), CONNECTION_ID()"):
            r = self.query(sql)
            if r.kind == "err" or r.kind == "closed":
                self.fail(f"{sql} no longer works: {r}")
            if sql == "SELECT a FROM db1.t":
                if [x[0] for x in r.rows] != [b"row", None]:
                    self.fail(f"wrong rows {r.rows}")
                if rset and [x.name for x in r.cols] != ["a".encode(rset), "b".encode(rset)]:
                    self.fail(f"wrong column names {[x.name for x in r.cols]} in {self.m['character_set_results']}")
        c.codec = self.codec()
        p = c.prepare("SELECT a FROM db1.t WHERE a = ?")
        if p.kind != "prep":
            self.fail(f"prepare no longer works: {p}")
        r = c.execute(p.stmt_id, [("varchar", "x")])
        if r.kind != "rs":
            self.fail(f"execute no longer works: {r}")
        r = self.query("SELECT boom FROM db1.t")
        if r.kind != "err":
            self.fail(f"{r}")
        if c.ping().kind != "ok":
            self.fail("ping")
        r = c.init_db("db1")
        if r.kind != "ok":
            self.fail(f"COM_INIT_DB no longer works: {r}")
        if c.codec.startswith("utf-"):
            return          # names of COM_FIELD_LIST are NUL-terminated
        r = c.field_list("t")
        if r.kind == "err":
            self.fail(f"COM_FIELD_LIST no longer works: {r}")

    def run(self):
        rnd = self.rnd
        version = rnd.choice([None, None, "5.7.1-foo", "9.9.9", "8.0.29-log é"])

        def setup(s):
            if version:
                s.variables.set("version", version, force=True)
        ident = FixedIdentity(allow_any=True)
        with World(session=App, identity=ident, setup=setup) as w:
            self.w = w
            w.ncalls = 0
            w.rnd = rnd
            w.seen = None
            w.exprs = None
            fresh = w.login(user="joe")
            self.c = fresh
            self.s = w.sessions[-1]
            self.m = {"character_set_client": "utf8mb4"}
            self.default = self.read_all()
            for n in VARS:
                if n not in self.default:
                    raise Violation(f"SHOW VARIABLES does not list {n}")
            # each connection's charset is declared in the handshake
            self.c = w.login(user="joe", client_caps=CAPS[self.case["caps"]], charset=rnd.choice([45, 45, 8, 33, 255]))
            self.s = w.sessions[-1]
            hs_cs = self.s.variables.get("character_set_client")
            self.m = dict(self.default)
            self.m["character_set_client"] = hs_cs
            if self.m["external_user"] != "joe":
                raise Violation(f"external_user is {self.m['external_user']!r}")
            if version and self.c.hs.version != version.encode("utf8"):
                raise Violation(f"the handshake announces {self.c.hs.version!r} instead of {version!r}")
            self.op_version()
            self.verify()
            ops = [self.op_set] * 9 + [self.op_hint] * 8 + [self.op_names] * 2 + [self.op_now] * 2 + [
                self.op_transaction, self.op_unknown, self.op_scope, self.op_misc_reject, self.op_copy, self.op_appread,
                self.op_version]
            for i in range(self.case["n"]):
                rnd.choice(ops)()
                if rnd.random() < 0.12:
                    self.battery()
            self.battery()
            # and the first session never noticed
            self.c, self.s = fresh, w.sessions[0]
            self.m = dict(self.default)
            self.trace.append("-- other session")
            self.verify()


def run(case, st):
    Driver(case, st).run()


def gen(tier, seed):
    rnd = random.Random(seed * 104729 + 14)
    n = 320 if tier == "quick" else 14000
    for i in range(n):
        yield {"k": "vars", "s": rnd.randrange(1 << 40), "n": rnd.choice([10, 25, 60]), "caps": rnd.randrange(3)}
