"""C13: the application sees exactly the statements it must handle, once, in order."""
import functools
import random
import re

import sqlglot

from vlib import proto as P
from mysql_mimic import ResultColumn, ResultSet
from mysql_mimic.types import ColumnType
from vlib.apps import arows, FixedIdentity, RecControl, RecSession, rand_exc
from vlib.client import World
from vlib.runner import Violation

ID = "C13"
LEVEL = "exploration"
RULE = ("texts of 1..12 statements drawn from a grammar with a known owner (library / application), glued with comments, empty "
        "statements and quoted semicolons, sent by COM_QUERY or prepare+execute under varying default databases; the recorded "
        "application calls (statement marker, SQL, attributes, default database, variables at call time), USE and KILL events "
        "are compared with the model as one sequence; distinct = (statement kinds, entry point, default database class)")
ASSUMPTIONS = [
    "after a statement that failed, the statements following it in the same text are not executed (MySQL's semantics)",
    "a text that does not parse is rejected as a whole",
    "unions or parenthesised forms of FROM-less SELECTs, SELECT ... FROM DUAL, and EXPLAIN <table> may have either owner",
    "a COM_CHANGE_USER without a database selects none ('' or NULL)",
]
MIN = {"texts": 2000, "app_calls": 1500, "lib_statements": 2000, "db_observed": 1500, "with_attrs": 300, "results_ok": 500, "held": 1000}
DEADLINE = {"quick": 480, "thorough": 780}
CASE_CPU = 30
QA = P.BASE_CAPS | P.DEPRECATE_EOF | P.QUERY_ATTRIBUTES | P.LENENC_AUTH
NOQA = P.BASE_CAPS | P.DEPRECATE_EOF | P.LENENC_AUTH
NOEOF = P.BASE_CAPS | P.QUERY_ATTRIBUTES | P.LENENC_AUTH
CATALOG = ("information_schema", "mysql")
DBS = ["db1", "db2", "Db Three", "d'b", "étage", "mysql_x", "information_schema_", "select", "a;b", "x-y", " lead", "trail "]
MAPPING = {"db1": {"t": {"a": "INT", "b": "TEXT"}, "odd t": {"z": "INT"}}, "db2": {"u": {"c": "INT"}}}


async def middleware(q):
    return await q.next()


class App(RecSession):
    mapping = MAPPING

    async def init(self, connection):
        await super().init(connection)
        # an application may add middlewares of its own
        for _ in range(self.world.nmid):
            self.middlewares.insert(self.world.midat(len(self.middlewares) + 1), middleware)

    async def query(self, expression, sql, attrs):
        ev = self.world.ev
        try:
            text = expression.sql(dialect="mysql")
        except Exception as e:  # noqa: B902
            text = f"<{type(expression).__name__}: {e}>"
        n = self.world.ncalls = self.world.ncalls + 1
        ev.append(("app", id(self), tuple(re.findall(r"mk\d+", text)), sql, dict(attrs), self.database,
                   self.variables.get("init_connect"), text))
        if "boom" in text:
            raise self.world.exc("boom")
        # results of every shape, also none at all
        shape = self.world.shapes[n] = self.world.rnd_shape()
        if shape == "none":
            return None
        if shape == "empty":
            return [], []
        if shape == "emptyrs":
            return ResultSet([], [])
        if shape == "norows":
            return [], [f"tag{n}"]
        if shape == "gen":
            return (r for r in [(f"call-{n}",)]), ["tag"]
        if shape == "agen":
            return arows([(f"call-{n}",)]), ["tag"]
        if shape == "rs":
            return ResultSet([(f"call-{n}",)], [ResultColumn("tag", ColumnType.VARCHAR)])
        return [(f"call-{n}",)], ["tag"]

    async def use(self, database):
        if self.world.use_fails:
            raise self.world.exc("no such database")
        self.world.ev.append(("use", id(self), database))
        await super().use(database)


class Control(RecControl):
    world = None

    async def kill(self, connection_id, kind=None):
        self.world.ev.append(("kill", connection_id, getattr(kind, "name", kind)))


# ------------------------------------------------------------------------------------------ grammar
class G:
    """Generates statements: (text, owner, effect). owner: lib / app / any; effect: dict."""

    def __init__(self, rnd):
        self.r = rnd
        self.n = rnd.randrange(1000)

    def mk(self):
        self.n += 1
        return f"mk{self.n}"

    def kw(self, s):
        """Random case and blanks of the keywords"""
        if self.r.random() < 0.5:
            return s
        return "".join(c.lower() if self.r.random() < 0.5 else c for c in s) if self.r.random() < 0.5 else s.lower()

    def qid(self, name):
        if re.fullmatch(r"[A-Za-z_]\w*", name) and name not in ("select",) and self.r.random() < 0.5:
            return name
        return f"`{name}`"

    def catalog_table(self, small=False):
        if small:
            return self.r.choice(["INFORMATION_SCHEMA.SCHEMATA", "information_schema.views", "mysql.user", "mysql.procs_priv",
                                  "`Information_Schema`.`schemata`"])
        c = self.r.choice(["information_schema.tables", "information_schema.columns", "INFORMATION_SCHEMA.SCHEMATA",
                           "`information_schema`.`tables`", "information_schema.views", "mysql.user", "mysql.procs_priv",
                           "Information_Schema.Columns"])
        return c

    def user_table(self, cur):
        r = self.r
        opts = ["db1.t", "db2.u", "`db1`.t", "informationschema.tables", "mysql2.user", "`information_schema `.tables",
                "db1.tables", "db1.information_schema", "`db1`.`odd t`", "db1.`information_schema.tables`"]
        if (cur or "").lower() not in CATALOG:
            opts += ["t", "`t`", "tables", "columns", "user", "information_schema", "mysql", "`information_schema.tables`"] * 2
        return r.choice(opts)

    def stmt(self, cur):
        r = self.r
        return r.choice([self.app, self.app, self.app, self.lib_plain, self.lib_plain, self.static, self.static, self.catalog,
                         self.use, self.setv, self.setv, self.kill, self.show, self.mixed, self.cte])(cur)

    def app(self, cur):
        m = self.mk()
        t = self.user_table(cur)
        c = self.catalog_table()
        d = r"db1.w" if (cur or "").lower() in CATALOG else "w"
        s = self.r.choice([
            f"SELECT {m} FROM {t}",
            f"SELECT * FROM {t} WHERE {m} = 1",
            f"SELECT '{m}', a FROM {t} AS information_schema WHERE b = ';'",
            f"SELECT COUNT(*) AS {m} FROM {t}, {self.user_table(cur)} AS y",
            f"SELECT x.{m} FROM {t} AS x JOIN {self.user_table(cur)} AS y ON x.a = y.a LIMIT 3",
            f"SELECT (SELECT {m} FROM {t} AS q LIMIT 1)",
            f"SELECT EXISTS(SELECT {m} FROM {t} AS q)",
            f"SELECT 1 WHERE 1 IN (SELECT {m} FROM {t} AS q)",
            f"SELECT * FROM (SELECT {m} FROM {t} AS q) AS tables",
            f"SELECT /*+ SET_VAR(sql_mode='{m}') */ '{m}' FROM {t}",
            f"SELECT /*+ SET_VAR(sql_mode='{m}') MAX_EXECUTION_TIME(5) */ DISTINCT '{m}' FROM {t} ORDER BY 1",
            f"SELECT /*+ BKA(x) SET_VAR(sql_mode='{m}') SET_VAR(autocommit=1) NO_BKA(x) */ '{m}' FROM {t} LIMIT 1 OFFSET 2",
            f"SELECT /*+ NO_BKA(x) */ {m} FROM {t} FOR SHARE",
            f"SELECT {m} FROM {t} AS s1 UNION ALL SELECT 2",
            f"SELECT 1 UNION SELECT {m} FROM {t} AS s2 ORDER BY 1",
            f"SELECT {m}, @@version, NOW(), DATABASE() FROM {t}",
            f"SELECT {m} FROM {t} FOR UPDATE",
            f"SELECT DISTINCT {m} FROM {t} GROUP BY 1 HAVING COUNT(*) > 1 ORDER BY 2",
            f"INSERT INTO {d} ({m}) VALUES (1, ';')",
            f"INSERT INTO {d} SELECT {m} FROM information_schema.tables",
            f"INSERT INTO {d} (a) VALUES ('{m}'), ('it''s; ok')",
            f"UPDATE {d} SET {m} = 'x;y' WHERE a = 1",
            f"UPDATE {d} SET a = (SELECT 1) WHERE b = '{m}'",
            f"DELETE FROM {d} WHERE {m} = 3",
            f"REPLACE INTO {d} VALUES ('{m}')",
            f"CREATE TABLE {m} (a INT)",
            f"CREATE TABLE db1.{m} AS SELECT * FROM information_schema.tables",
            f"CREATE VIEW {m} AS SELECT 1",
            f"CREATE DATABASE {m}",
            f"DROP TABLE {m}",
            f"DROP DATABASE IF EXISTS {m}",
            f"ALTER TABLE {d} ADD COLUMN {m} INT",
            f"TRUNCATE TABLE {m}",
            f"CALL {m}()",
            f"EXPLAIN SELECT {m} FROM {t}",
            f"EXPLAIN SELECT {m}",
            f"EXPLAIN SELECT {m} FROM information_schema.tables",
            f"DESCRIBE SELECT {m} FROM {t}",
            f"DESCRIBE SELECT '{m}'",
            f"DESCRIBE SELECT '{m}' UNION SELECT 2",
            f"GRANT SELECT ON {m} TO 'u'",
            f"LOCK TABLES {m} READ",
            f"PREPARE {m} FROM 'x'",
            # not queries, wherever they write to
            f"INSERT INTO {c} ({m}) VALUES (1)",
            f"INSERT INTO {c} SELECT {m} FROM {self.catalog_table(True)}",
            f"INSERT INTO tables (a) VALUES ('{m}')",
            f"REPLACE INTO {c} VALUES ('{m}')",
            f"UPDATE {c} SET {m} = 1",
            f"DELETE FROM {c} WHERE a = '{m}'",
            f"CREATE TABLE mysql.{m} (a INT)",
            f"CREATE TABLE information_schema.{m} AS SELECT 1 FROM {c}",
            f"CREATE VIEW {c} AS SELECT {m}",
            f"CREATE VIEW {m} AS SELECT * FROM {c}",
            f"DROP TABLE mysql.{m}",
            f"TRUNCATE TABLE information_schema.{m}",
            f"ALTER TABLE {c} ADD COLUMN {m} INT",
            f"CREATE INDEX {m} ON {c} (a)",
            f"UPDATE {d} SET a = (SELECT {m} FROM {c} AS c)",
            f"DELETE FROM {d} WHERE a IN (SELECT {m} FROM {c} AS c)",
            f"ANALYZE TABLE {m}",
        ] + ([f"SELECT '{m}', 'a  b\n\tc', '{'x  y ' * 14000}' FROM {t}"] * 3 if self.r.random() < .01 else []))
        return s, "app", {"m": m}

    def mixed(self, cur):
        """Catalog and application tables together belong to the application."""
        m = self.mk()
        c, t = self.catalog_table(), self.user_table(cur)
        s = self.r.choice([
            f"SELECT {m} FROM {c} AS c, {t} AS t",
            f"SELECT {m} FROM {t} AS t JOIN {c} AS c ON 1 = 1",
            f"SELECT {m} FROM {t} AS t LEFT JOIN {c} AS c ON t.a = c.table_name",
            f"SELECT table_name FROM {c} AS c WHERE '{m}' IN (SELECT a FROM {t} AS t)",
            f"SELECT {m} FROM {t} AS t WHERE a IN (SELECT table_name FROM {c} AS c)",
            f"SELECT (SELECT {m} FROM {t} AS t LIMIT 1) FROM {c} AS c",
            f"SELECT table_name FROM {c} AS c UNION SELECT {m} FROM {t} AS t",
            f"SELECT {m} FROM {t} AS t UNION ALL SELECT table_name FROM {c} AS c",
            f"SELECT * FROM {c} AS a, (SELECT {m} FROM {t} AS t) AS b",
            f"WITH q AS (SELECT {m} FROM {t} AS t) SELECT * FROM q, {c} AS c",
            f"WITH q AS (SELECT table_name FROM {c} AS c) SELECT {m} FROM q, {t} AS t",
            f"SELECT {m} FROM {c} AS c WHERE EXISTS(SELECT 1 FROM (SELECT 1 FROM {t} AS t) AS z)",
            f"SELECT COUNT(*) AS {m} FROM {c} AS c ORDER BY (SELECT MAX(a) FROM {t} AS t)",
            f"SELECT {m} FROM {c} AS c GROUP BY 1 HAVING COUNT(*) > (SELECT MAX(a) FROM {t} AS t)",
            f"SELECT CASE WHEN 1 IN (SELECT a FROM {t} AS t) THEN {m} END FROM {c} AS c",
            f"SELECT {m} FROM {c} AS c, {t} AS t, {self.catalog_table()} AS d",
            f"SELECT {m} FROM {c} AS c JOIN {t} AS t ON 1 = 1 JOIN {self.catalog_table()} AS d ON 1 = 1",
            f"SELECT {m} FROM {c} AS c UNION SELECT a FROM {t} AS t UNION SELECT 1 FROM {self.catalog_table()} AS d",
            f"SELECT {m} FROM {c} AS c WHERE a IN (SELECT a FROM {t} AS t) AND b IN (SELECT 1 FROM {self.catalog_table()} AS d)",
        ])
        return s, "app", {"m": m}

    def cte(self, cur):
        m = self.mk()
        t = self.user_table(cur)
        if self.r.random() < 0.6:
            s = self.r.choice([
                f"WITH q AS (SELECT {m} FROM {t} AS t) SELECT * FROM q",
                f"WITH tables AS (SELECT {m} FROM db1.t) SELECT * FROM tables",
                f"WITH q AS (SELECT 1), p AS (SELECT {m} FROM {t} AS t) SELECT * FROM q JOIN p ON 1 = 1",
                f"WITH RECURSIVE q AS (SELECT {m} FROM {t} AS t UNION ALL SELECT 1 FROM q) SELECT * FROM q",
            ])
            return s, "app", {"m": m}
        c = self.catalog_table()
        return self.r.choice([
            f"WITH q AS (SELECT * FROM {c} AS c) SELECT * FROM q",
            f"WITH t AS (SELECT * FROM {c} AS c) SELECT * FROM t WHERE 1 = 1",
            f"WITH q AS (SELECT * FROM {c} AS c), p AS (SELECT * FROM q) SELECT * FROM p, {self.catalog_table(True)} AS d",
            f"WITH RECURSIVE q AS (SELECT table_name FROM {c} AS c UNION ALL SELECT table_name FROM q WHERE 1 = 0) SELECT * FROM q",
            f"WITH RECURSIVE q AS (SELECT 1 FROM {c} AS c UNION SELECT 1 FROM Q) SELECT * FROM q, {self.catalog_table(True)} AS d",
        ]), "lib", {"res": "any"}

    def lib_plain(self, cur):
        s = self.r.choice(["BEGIN", "COMMIT", "ROLLBACK", "START TRANSACTION", "BEGIN WORK", "COMMIT WORK", "ROLLBACK WORK",
                           "START TRANSACTION READ ONLY", "ROLLBACK TO SAVEPOINT x", "COMMIT AND CHAIN"])
        return self.kw(s), "lib", {"res": "ok"}

    def static(self, cur):
        m = self.mk()
        r = self.r
        k = r.randrange(12)
        if k < 4:
            s = r.choice([f"SELECT '{m}'", f"SELECT '{m}' AS x", f"SELECT '{m}' LIMIT 1", f"select '{m}' as `from`",
                          f"SELECT '{m}' AS information_schema", f"SELECT DISTINCT '{m}'", f"SELECT '{m}' WHERE 1 = 1",
                          f"SELECT '{m}' ORDER BY 1", f"SELECT /*+ SET_VAR(sql_mode='x') */ '{m}'", f"SELECT ALL '{m}'",
                          f"SELECT '{m}' FOR UPDATE"])
            return s, "lib", {"res": ("cell", m)}
        if k < 5:
            return "SELECT DATABASE()", "lib", {"res": "db"}
        if k < 6:
            return "SELECT @@init_connect", "lib", {"res": "var"}
        if k < 8:
            s = r.choice(["SELECT 1", "SELECT 1 + 1, 'FROM t'", "SELECT NOW()", "SELECT CONNECTION_ID()", "SELECT VERSION()",
                          "SELECT @@version_comment LIMIT 1", "SELECT USER(), CURRENT_USER()", "SELECT ';', \"';\"",
                          "SELECT CURDATE(), CURTIME()", "SELECT @@session.auto_increment_increment AS a, 2 AS b", "SELECT NULL",
                          "SELECT 'it''s; a \\' test'", "SELECT CONCAT('a', 'b')", "SELECT -1.5e3"])
            return s, "lib", {"res": "rs"}
        if k < 11:
            # FROM-less, even if the library's executor can't answer it
            s = r.choice(["SELECT COUNT(*)", "SELECT (SELECT 1)", "SELECT EXISTS(SELECT 1)", "SELECT 1 GROUP BY 1",
                          "SELECT 1 HAVING 1", "SELECT foo(1)", "SELECT nope", "SELECT *", "SELECT 1 LIMIT 1 OFFSET 3",
                          "SELECT 1 WHERE EXISTS(SELECT 1)", "SELECT SLEEP(0)", "WITH q AS (SELECT 1) SELECT 2",
                          "SELECT 1 WHERE 0", "SELECT t.a", "SELECT GET_LOCK('x', 1)"])
            return s, "lib", {"res": "any"}
        return r.choice(["SELECT 1 UNION SELECT 2", "(SELECT 1)", "SELECT 1 FROM DUAL", "((SELECT 'x'))"]), "any", {"res": "any"}

    def catalog(self, cur):
        r = self.r
        tabs = ["information_schema.tables"]
        if (cur or "").lower() == "information_schema":
            tabs += ["tables", "TABLES"]
        if r.random() < 0.4:
            s = r.choice([
                f"SELECT table_name FROM {r.choice(tabs)} WHERE table_name = 'odd t'",
                "SELECT table_name FROM information_schema.columns WHERE table_name = 'odd t'",
                "SELECT x.table_name FROM information_schema.tables AS x WHERE x.table_name = 'odd t'",
                "SELECT table_name FROM (SELECT table_name FROM information_schema.tables) AS t WHERE table_name = 'odd t'",
                "SELECT 'odd t' FROM information_schema.tables LIMIT 1",
            ])
            return s, "lib", {"res": ("cell", "odd t")}
        c = self.catalog_table()
        d = self.catalog_table(True)
        unq = r.choice(["tables", "user", "nosuch", "columns"]) if (cur or "").lower() in CATALOG else c
        s = r.choice([
            f"SELECT * FROM {c} AS c", f"SELECT * FROM {c} AS c, {d} AS d", f"SELECT COUNT(*) FROM {c}",
            f"SELECT * FROM {c} AS c WHERE 1 IN (SELECT 1 FROM {d} AS d)", f"SELECT * FROM {unq}",
            f"SELECT 1 FROM {c} AS c UNION SELECT 1 FROM {d} AS d", f"SELECT * FROM {unq} AS t, {d} AS c",
            f"SELECT * FROM (SELECT * FROM {c} AS c) AS t", f"SELECT (SELECT COUNT(*) FROM {c} AS c)",
            f"(SELECT * FROM {c} AS c)", f"SELECT * FROM {c} AS db1", f"SELECT nope FROM {c}",
            "SELECT * FROM information_schema.nosuch", f"SELECT 1 WHERE EXISTS(SELECT 1 FROM {c} AS c)",
        ])
        return s, "lib", {"res": "any"}

    def use(self, cur):
        db = self.r.choice(DBS + list(CATALOG) + ["INFORMATION_SCHEMA"])
        return f"{self.kw('USE')} {self.qid(db)}", "lib", {"res": "ok", "use": db}

    def setv(self, cur):
        m = self.mk()
        r = self.r
        if r.random() < 0.6:
            s = r.choice([f"SET init_connect = '{m}'", f"SET @@init_connect = '{m}'", f"SET SESSION init_connect = '{m}'",
                          f"SET @@session.init_connect = '{m}'", f"SET LOCAL init_connect='{m}'",
                          f"SET sql_mode = ';', init_connect = '{m}'", f"set Init_Connect = \"{m}\""])
            return s, "lib", {"res": "ok", "var": m}
        s = r.choice(["SET NAMES utf8mb4", "SET CHARACTER SET utf8mb4", "SET autocommit = 1", "SET autocommit=0",
                      "SET TRANSACTION ISOLATION LEVEL READ COMMITTED", "SET SESSION TRANSACTION READ ONLY",
                      "SET time_zone = '+00:00'", "SET sql_select_limit = DEFAULT", "SET NAMES DEFAULT",
                      "SET sql_mode = 'a;b'"])
        return s, "lib", {"res": "ok"}

    def kill(self, cur):
        i = self.r.randrange(1, 1 << 31)
        k = self.r.choice(["", "QUERY ", "CONNECTION "])
        return f"{self.kw('KILL ' + k)}{i}", "lib", {"res": "ok", "kill": (i, k.strip() or "CONNECTION")}

    def show(self, cur):
        r = self.r
        s = r.choice(["SHOW DATABASES", "SHOW TABLES FROM db1", "SHOW FULL TABLES FROM `db1` LIKE 'o%'", "SHOW COLUMNS FROM db1.t",
                      "SHOW COLUMNS FROM t FROM db1", "SHOW VARIABLES LIKE 'version'", "SHOW VARIABLES", "SHOW STATUS",
                      "SHOW WARNINGS", "SHOW ERRORS", "SHOW INDEX FROM t FROM db1", "SHOW SESSION VARIABLES LIKE 'a;b'",
                      "DESCRIBE db1.t", "DESC db1.t", "DESCRIBE t", "describe `db1`.`odd t`", "DESCRIBE nosuch",
                      "SHOW GLOBAL VARIABLES LIKE '%x%'", "SHOW FULL COLUMNS FROM db1.t LIKE 'a'", "SHOW SCHEMAS"])
        if r.random() < 0.15:
            s = r.choice(["SHOW CREATE TABLE db1.t", "SHOW ENGINES", "SHOW PROCESSLIST", "SHOW GRANTS", "SHOW COLLATION",
                             "SHOW FUNCTION STATUS", "SHOW FIELDS FROM t", "SHOW KEYS FROM t", "SHOW NONSENSE", "SET x := 5",
                             "SHOW EXTENDED COLUMNS FROM t", "SET GLOBAL init_connect = 'q'", "SET @u = 1", "SHOW TABLE STATUS",
                             "SET nosuchvariable = 1", "SET version = 'x'", "SET PASSWORD FOR u = 'x'",
                             "SET ROLE admin"])
            a, _, b = s.partition(" ")
            return self.kw(a) + " " + b, "lib", {"res": "any"}
        if r.random() < 0.2:
            a, _, b = s.partition(" ")
            s = self.kw(a) + " " + b
        return s, "lib", {"res": "rs" if "INDEX" not in s else "any"}


@functools.lru_cache(maxsize=4096)
def without_hints(sql):
    """The statement, as sqlglot writes it, but without optimizer hints"""
    e = sqlglot.parse_one(sql, dialect="mysql")
    if isinstance(e, sqlglot.exp.Command):
        # the rest of the text, with comments and blanks
        return re.sub(r"/\*.*?\*/|\s+", " ", e.sql(dialect="mysql")).strip()
    for h in list(e.find_all(sqlglot.exp.Hint)):
        h.pop()
    return e.sql(dialect="mysql", comments=False)


GLUE = [";", "; ", " ;\n", ";\n-- a comment; with ' quote\n", "; /* c;c */ ", ";;", "; ; ", ";\t\n"]
PRE = ["", "", "", "", " ", "\n", "/* x */ ", "-- c\n", "/* ; */ "]
POST = ["", "", "", ";", ";;", " ; ", "; -- end", " /* x */", "\n"]


def text_of(rnd, parts):
    s = rnd.choice(PRE)
    for i, p in enumerate(parts):
        if i:
            s += rnd.choice(GLUE)
        s += p
    return s + rnd.choice(POST)


ATTRS = [(), (), ((b"traceparent", ("varchar", "00-ab")),), ((b"a", ("i8", -5)), (b"b", ("varchar", "; SELECT 1"))),
         ((b"mk99999", ("varchar", "mk88888")), (b"", ("f64", 1.5)))]


def attrs_of(attrs):
    return {k.decode(): v[1] for k, v in attrs}


class Model:
    def __init__(self, db):
        self.db = db
        self.var = ""

    def same_db(self, got):
        if self.db in (None, ""):
            return got in (None, "")
        return got == self.db


def run(case, st):
    rnd = random.Random(case["s"])
    g = G(rnd)
    names = []

    def ctl():
        c = Control()
        return c
    ident = FixedIdentity(allow_any=True)
    with World(session=App, identity=ident, control=ctl()) as w:
        w.ev = []
        w.ncalls = 0
        w.shapes = {}
        w.rnd_shape = lambda: rnd.choice(["list", "list", "list", "gen", "agen", "rs", "none", "none", "empty", "emptyrs", "norows"])
        w.exc = lambda msg: rand_exc(rnd, msg)
        w.nmid = rnd.choice([0, 0, 1, 3])
        w.midat = lambda n: rnd.randrange(n)
        w.use_fails = False
        w.control.world = w
        db = rnd.choice([None, None] + DBS + list(CATALOG))
        caps = {"qa": QA, "plain": NOQA, "noeof": NOEOF}[case["caps"]]
        c = w.login(db=db, client_caps=caps)
        m = Model(db)
        kinds_all = []
        qa = case["caps"] != "plain"
        held = []
        for step in range(case["steps"]):
            k = rnd.random()
            if k < 0.10:
                d = rnd.choice(DBS + list(CATALOG))
                r = c.init_db(d)
                if r.kind != "ok":
                    raise Violation(f"COM_INIT_DB {d!r} failed: {r}")
                w.ev.clear()
                m.db = d
                kinds_all.append("initdb")
            elif k < 0.14:
                w.use_fails = True
                d = rnd.choice(DBS)
                r = c.init_db(d) if rnd.random() < 0.5 else c.query(f"USE `{d}`")
                w.use_fails = False
                if r.kind != "err":
                    raise Violation(f"the application refused the database, but the client received {r}")
                w.ev.clear()
                kinds_all.append("usefail")
            elif k < 0.20:
                d = rnd.choice(DBS + ["", "", "mysql"])
                data = P.com_change_user(c.caps, b"other", b"", db=d.encode(), plugin=b"mysql_native_password")
                r = c.resp(data, lambda pl: change_user_result(c, pl))
                if r.kind != "ok":
                    raise Violation(f"COM_CHANGE_USER failed: {r}")
                m.db = d
                w.ev.clear()
                kinds_all.append("changeuser")
            elif k < 0.23:
                r = c.resp(bytes([P.COM_RESET_CONNECTION]), lambda pl: P.parse_simple(pl, c.caps))
                if r.kind != "ok":
                    raise Violation(f"COM_RESET_CONNECTION failed: {r}")
                kinds_all.append("reset")
            if rnd.random() < .25 and len(held) < 6:
                hold(rnd, g, c, w, held)
            if held and rnd.random() < .4:
                h = rnd.choice(held)
                if text(case, st, rnd, g, w, c, m, qa, kinds_all, h) is not False:
                    st.count("held")
                if rnd.random() < .2:
                    c.stmt_close(h[0])
                    held.remove(h)
            text(case, st, rnd, g, w, c, m, qa, kinds_all)
        st.seen(tuple(sorted(set(kinds_all))), case["caps"], m.db in CATALOG)


def change_user_result(c, pl):
    if len(pl) == 1 and pl[0][:1] in (b"\xfe", b"\x01"):
        # auth switch: answer with an empty password
        data, nseq = P.frame(b"", c.next_seq)
        c.deliver(data)
        c.w.quiesce()
        return c.auth_result(nseq)
    return P.parse_simple(pl, c.caps)


def hold(rnd, g, c, w, held):
    """Prepare statements to be executed later: what happens then depends on the state at that time"""
    stmts = []
    for _ in range(rnd.choice([1, 1, 2, 3])):
        k = g.mk()
        stmts.append(rnd.choice([
            (f"SELECT {k} FROM db1.t", "app", {"m": k}),
            (f"INSERT INTO w VALUES ('{k}')", "app", {"m": k}),
            (f"EXPLAIN SELECT {k}", "app", {"m": k}),
            (f"SELECT {k} FROM nosuch", "cur", {"m": k}),
            (f"SELECT {k} FROM db1.t, user AS u", "app", {"m": k}),
            ("SELECT DATABASE()", "lib", {"res": "db"}),
            ("SELECT @@init_connect", "lib", {"res": "var"}),
            (f"SELECT '{k}'", "lib", {"res": ("cell", k)}),
            g.use(None), ("BEGIN", "lib", {"res": "ok"}),
            (f"SET init_connect = '{k}'", "lib", {"res": "ok", "var": k}),
            g.kill(None)]))
    sql = text_of(rnd, [x[0] for x in stmts])
    w.ev.clear()
    p = c.prepare(sql)
    if p.kind != "prep" or w.ev:
        raise Violation(f"preparing {sql!r}: {p}, {w.ev}")
    held.append((p.stmt_id, sql, stmts))


def text(case, st, rnd, g, w, c, m, qa, kinds_all, held=None):
    n = rnd.choice([1, 1, 1, 2, 2, 3, 4, 6, 12])
    if held:
        n = len(held[2])
    w.ev.clear()
    parts, want = [], []        # want: expected events
    last = None
    either = False
    fail_at = rnd.randrange(n) if rnd.random() < 0.12 and not held else None
    db, var = m.db, m.var
    failed = False
    loose = []                  # statements of unknown outcome (they may fail, then the text ends there)
    for i in range(n):
        if i == fail_at:
            mk = g.mk()
            s, owner, eff = f"SELECT boom, {mk} FROM db1.t", "app", {"m": mk, "res": "err"}
        elif held:
            s, owner, eff = held[2][i]
            if owner == "cur":
                owner = "app"
                if (db or "").lower() in CATALOG:
                    if i < n - 1:
                        return False
                    owner, eff = "lib", {"res": "any"}
        else:
            s, owner, eff = g.stmt(db)
        if not held and eff.get("res") == "any" and i < n - 1 and rnd.random() < 0.8:
            # rather keep those for the end, where they can't hide the statements after them
            s, owner, eff = g.app(db)
        parts.append(s)
        kinds_all.append(owner + ":" + s.split()[0].lower())
        if failed:
            continue
        want.append((owner, s, eff, db, var))
        if owner != "app":
            st.count("lib_statements")
        if eff.get("use"):
            db = eff["use"]
        if "var" in eff:
            var = eff["var"]
        if i == fail_at:
            failed = True
    sql = held[1] if held else text_of(rnd, parts)
    attrs = rnd.choice(ATTRS) if qa else ()
    via = rnd.choice(["query", "query", "query", "stmt", "cursor"] if not held else ["stmt", "stmt", "cursor"])
    c0 = w.ncalls
    if via == "query":
        r = c.query(sql, attrs=attrs)
    else:
        sid = held[0] if held else None
        if not held:
            p = c.prepare(sql)
            if p.kind != "prep":
                raise Violation(f"prepare failed: {p} for {sql!r}")
            if w.ev:
                raise Violation(f"preparing {sql!r} executed something: {w.ev[0]}")
            sid = p.stmt_id
        r = c.execute(sid, attrs=attrs, cursor=via == "cursor")
        if r.kind == "cursor" or via == "cursor" and r.kind == "rs" and getattr(r, "cursor", False):
            pass
        if via == "cursor" and r.kind != "err" and r.kind != "ok":
            f = c.fetch(sid, 1000)
            if f.kind == "err":
                raise Violation(f"fetch failed: {f}")
            r.rows = f.rows
    st.count("texts")
    if attrs:
        st.count("with_attrs")
    # ---- compare
    ev = list(w.ev)
    got_i = 0
    n_app = 0
    stopped = None
    wanted_attrs = attrs_of(attrs)

    def bad(msg):
        raise Violation(f"{msg}; text {sql!r}, default database {m.db!r}, via {via}; recorded {ev!r:.600}; response {r!r:.200}")
    final = None
    for j, (owner, s, eff, d, v) in enumerate(want):
        is_last = j == len(want) - 1
        e = ev[got_i] if got_i < len(ev) else None
        if owner == "app" or owner == "any" and e and e[0] == "app" and (e[2] == () or not is_last and e[2] == ()):
            if e is None or e[0] != "app":
                if r.kind == "err" and stopped is not None:
                    return
                bad(f"{s!r} did not reach the application")
            got_i += 1
            n_app += 1
            st.count("app_calls")
            if owner == "app":
                if not e[2] or set(e[2]) - {"mk99999", "mk88888"} != {eff["m"]}:
                    bad(f"the application received the statement with {e[2]} instead of {s!r}")
                if not re.search(r"@@|\w\(\)", s):
                    st.count("asts")
                    if without_hints(e[7]) != without_hints(s):
                        bad(f"the application received the expression {e[7]!r} for {s!r}")
                    if any(h not in e[7] for h in re.findall(r"MAX_EXECUTION_TIME\(5\)|(?:NO_)?BKA\(x\)", s)):
                        bad(f"the application received the expression {e[7]!r} without the hints of {s!r}")
            if e[3] != sql:
                bad(f"the application received the SQL {e[3]!r}")
            if e[4] != wanted_attrs:
                bad(f"the application received the attributes {e[4]!r} instead of {wanted_attrs!r}")
            mm = Model(d)
            if not mm.same_db(e[5]):
                bad(f"the application observed the default database {e[5]!r} instead of {d!r}")
            st.count("db_observed")
            if e[6] != v:
                bad(f"the application observed init_connect={e[6]!r} instead of {v!r}")
            final = ("call", c0 + n_app)
        else:
            if eff.get("use"):
                if e is None or e[0] != "use" or e[2] != eff["use"]:
                    if stopped is not None and r.kind == "err":
                        return resync(w, c, m)
                    bad(f"USE {eff['use']!r} was not performed")
                got_i += 1
                m.db = eff["use"]
            elif eff.get("kill"):
                if e is None or e[0] != "kill" or e[1:] != eff["kill"]:
                    if stopped is not None and r.kind == "err":
                        return resync(w, c, m)
                    bad(f"{s!r} was not performed")
                got_i += 1
            if "var" in eff:
                m.var = eff["var"]
            final = ("lib", eff.get("res"), d, v)
            if eff.get("res") == "any":
                stopped = j
                if r.kind == "err" and got_i == len(ev):
                    # this statement may have failed
                    return resync(w, c, m)
        if eff.get("res") == "err":
            final = ("err",)
            break
    if got_i != len(ev):
        bad(f"unexpected {ev[got_i]!r:.200}")
    if final is None:
        if r.kind != "ok":
            bad("an empty text was not answered with OK")
        return
    if final[0] == "err":
        if r.kind != "err":
            bad("the application's error was not reported")
        return
    if final[0] == "call":
        shape = w.shapes[final[1]]
        if shape in ("none", "empty", "emptyrs"):
            if r.kind != "ok":
                bad(f"the last statement (call {final[1]}) has no result set")
            st.count("results_ok")
            return
        if shape == "norows":
            if r.kind != "rs" or r.rows or [x.name for x in r.cols] != [f"tag{final[1]}".encode()]:
                bad(f"the client did not receive the empty result of the last statement (call {final[1]})")
            return
        if r.kind != "rs" or len(r.rows) != 1 or r.rows[0][0] != f"call-{final[1]}".encode():
            bad(f"the client did not receive the result of the last statement (call {final[1]})")
        st.count("results")
        return
    res = final[1]
    if res == "ok" and r.kind != "ok":
        bad("the last statement has no result set")
    elif res == "rs" and r.kind != "rs":
        bad("the last statement's result set is missing")
    elif isinstance(res, tuple):
        if r.kind != "rs" or len(r.rows) != 1 or r.rows[0][0] != res[1].encode():
            bad(f"the client did not receive the result of the last statement ({res[1]})")
        st.count("results")
    elif res == "db":
        cell = r.rows[0][0] if r.kind == "rs" and len(r.rows) == 1 else b"?"
        if not Model(final[2]).same_db(None if cell is None else cell.decode()):
            bad(f"DATABASE() is {cell!r} instead of {final[2]!r}")
        st.count("db_observed")
    elif res == "var":
        if r.kind != "rs" or len(r.rows) != 1 or r.rows[0][0] != final[3].encode():
            bad(f"@@init_connect is not {final[3]!r}")


def resync(w, c, m):
    """A statement whose outcome is unknown failed: read the state back."""
    s = list(w.sessions)[-1] if isinstance(w.sessions, (list, tuple)) else None
    if s is not None:
        m.var = s.variables.get("init_connect")
        m.db = s.database if s.database else m.db if m.db in (None, "") else s.database


def gen(tier, seed):
    rnd = random.Random(seed * 7919 + 13)
    n = 3000 if tier == "quick" else 30000
    for i in range(n):
        yield {"k": "text", "s": rnd.randrange(1 << 40), "steps": rnd.choice([3, 8, 15]),
               "caps": rnd.choice(["qa", "qa", "plain", "noeof"])}
