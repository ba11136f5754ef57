"""C16: catalog commands list exactly what the application declared."""
import copy
import itertools
import random
import re
from collections import Counter

from mysql_mimic.schema import Column, InfoSchema, info_schema_tables

from vlib import proto as P
from vlib.apps import FixedIdentity, RecSession
from vlib.client import World
from vlib.runner import Violation

ID = "C16"
LEVEL = "exploration"
RULE = ("random schema mappings of depth 2, 3 and 4 (empty levels, shared names, keywords, quotes, Unicode; also InfoSchema objects), "
        "listed by every catalog command under every current-database setting, with LIKE patterns derived from the declared "
        "names, compared with the mapping; distinct = (command, depth, current database, pattern class)")
ASSUMPTIONS = [
    "names that differ only in case, backslashes and backticks in names, a database declared in two catalogs, and mappings that "
    "consist of empty databases only are not used; LIKE patterns whose result depends on case sensitivity are not used",
    "with depth 2 there is an unnamed database: it may or may not be listed, and unqualified tables are only looked up "
    "while no database is selected",
    "an unqualified table without a current database may be an error at depth 3 and 4; SHOW ... WHERE is not used",
]
EXHAUSTIVE = ["all LIKE patterns of up to 3 of a b % _ \\_ \\% against all names of up to 3 of a b _"]
MIN = {"commands": 5000, "rows": 20000, "like": 600, "like_hits": 200, "fieldlist": 200, "describe": 200, "isquery": 400,
       "variables": 150, "schemas": 150}
DEADLINE = {"quick": 480, "thorough": 780}

WORDS = ["t", "a", "b", "id", "users", "orders", "order", "select", "from", "group", "key", "table", "tables", "columns", "column",
         "database", "schema", "null", "true", "default", "user", "t1", "t2", "t10", "t_1", "t__1", "tx1", "a_b", "axb", "ab", "a$b",
         "$x", "_", "__", "_x", "x_", "123", "1e5", "1a", "0x1", "über", "таблица", "漢字", "é", "İx", "straße", "like", "where",
         "in", "show", "full", "dual", "count", "date", "time", "x" * 64, "Mixed", "CamelCase", "UPPER", "name", "type", "name1",
         "information", "schemata", "abc", "abcabc", "aab", "aa", "aaa", "db", "db1", "db2", "test", "prod", "z", "extra", "engine"]
WEIRD = ["it's", 'a"b', "a b", "a.b", "a-b", "a%b", "%", "a%", "x;y", "a,b", "(x)", "a/*b", "--x", "#x", "?", "a?b", "{x}", "@v", "a=b",
         " lead", "''", "100%_", "[x]", "a:b", "\u00a0", "😀", "a|b", "a!b", "^x$", ".*", "x+", "\t"]
TYPES = ["INT", "int", "TEXT", "VARCHAR(255)", "DECIMAL(10,2)", "enum('a','b''c')", "BIGINT UNSIGNED", "datetime", "TIMESTAMP",
         "DOUBLE", "tinyint(1)", "JSON", "blob", "STRING", "array<int>", "é", " INT", "text ", "double  precision", "x" * 300]
BUILTIN = {"information_schema": {"schemata", "tables", "columns"}}


def like1(tokens, s):
    """tokens: None = %, True = _, or a character"""
    cur = {0}
    for t in tokens:
        if t is None:
            if cur:
                cur = set(range(min(cur), len(s) + 1))
        else:
            cur = {i + 1 for i in cur if i < len(s) and (t is True or s[i] == t)}
    return len(s) in cur


def like(pattern, s):
    """SQL LIKE (MySQL): whole string, % and _, backslash escapes; None if it depends on case sensitivity"""
    tokens, i = [], 0
    while i < len(pattern):
        c = pattern[i]
        if c == "\\" and i + 1 < len(pattern):
            i += 1
            tokens.append(pattern[i])
        else:
            tokens.append(None if c == "%" else True if c == "_" else c)
        i += 1
    cs = like1(tokens, s)
    ci = like1([t.casefold() if isinstance(t, str) else t for t in tokens], [c.casefold() for c in s])
    return cs if cs == ci else None


def bq(s):
    return "`" + s + "`"


def q(s):
    return "'" + s.replace("'", "''") + "'"


class App(RecSession):
    async def schema(self):
        self.world.schema_calls += 1
        return self.world.schema()


class Driver:
    def __init__(self, case, st):
        self.case = case
        self.st = st
        self.rnd = random.Random(case["s"])
        self.trace = []

    def fail(self, msg, key=None):
        raise Violation(f"{msg}; mapping {str(self.mapping)[:300]}; current database {self.cur!r}; after {self.trace[-3:]}", key)

    # ------------------------------------------------------------------------------------ schemas
    def names(self, n):
        r = self.rnd
        out, seen = [], set()
        for _ in range(n * 3):
            k = r.random()
            x = r.choice(WORDS) if k < 0.8 else r.choice(WEIRD) if k < 0.9 else "".join(
                r.choice("abcxyz_019$é") for _ in range(r.choice([1, 2, 3, 8])))
            if x.lower() not in seen and x.casefold() not in seen:
                seen |= {x.lower(), x.casefold()}
                out.append(x)
            if len(out) == n:
                break
        return out

    def columns(self):
        r = self.rnd
        n = r.choice([0, 1, 1, 2, 3, 3, 5, 9, 20]) if r.random() < 0.97 else 120
        if n == 120:
            return {f"c{i}": r.choice(TYPES) for i in r.sample(range(200), 120)}
        return {x: r.choice(TYPES) for x in self.names(n)}

    def tables(self):
        r = self.rnd
        n = r.choice([0, 1, 1, 2, 3, 5, 8]) if r.random() < 0.97 else 60
        if n == 60:
            return {f"t{i}": {"a": "INT"} for i in range(60)}
        return {x: self.columns() for x in self.names(n)}

    def build(self):
        """-> [(catalog, db, table, {column: type})], self.dbs, mapping"""
        r = self.rnd
        depth = self.depth = r.choice([2, 3, 3, 3, 4])
        for _ in range(100):
            if depth == 2:
                m = self.tables()
                flat = [("def", "", t, c) for t, c in m.items()]
                dbs = []
                ok = not m or True
            elif depth == 3:
                m = {d: self.tables() for d in self.names(r.choice([1, 1, 2, 3, 5]))}
                flat = [("def", d, t, c) for d, ts in m.items() for t, c in ts.items()]
                dbs = list(m)
                ok = any(ts for ts in m.values())
            else:
                pool = self.names(r.choice([1, 2, 4, 6]))
                cats = self.names(r.choice([1, 2, 3]))
                m = {c: {} for c in cats}
                for d in pool:
                    m[r.choice(cats)][d] = self.tables()
                flat = [(c, d, t, cc) for c, ds in m.items() for d, ts in ds.items() for t, cc in ts.items()]
                dbs = pool
                ok = bool(flat)
            if ok and not any(d.lower() in self.base_dbs for d in dbs):
                break
        else:
            m, flat, dbs = {}, [], []
        self.mapping, self.flat, self.dbs = m, flat, dbs
        self.st.count("schemas")
        self.details = None
        if r.random() < 0.15 and flat and all(c for *_, c in flat):
            # the application provides an InfoSchema with more details
            cols = []
            self.details = {}
            for cat, d, t, cc in flat:
                for name, ty in cc.items():
                    x = Column(name=name, type=ty, table=t, schema=d, catalog=cat, is_nullable=r.random() < 0.5,
                               default=r.choice([None, None, "0", "x'y", ""]), comment=r.choice([None, "a comment"]))
                    cols.append(x)
                    self.details[d, t, name] = x
            self.dbs = [d for d in self.dbs if any(f[1] == d for f in flat)]
            info = InfoSchema(info_schema_tables(cols))
            self.w.schema = lambda: info
        else:
            # the application always hands over the same object, which the oracle never sees
            app = copy.deepcopy(m)
            self.w.schema = lambda: app

    # ------------------------------------------------------------------------------------ commands
    def query(self, sql, params=None):
        self.trace.append(sql)
        self.st.count("commands")
        if params is not None or self.rnd.random() < 0.08:
            p = self.c.prepare(sql)
            if p.kind != "prep":
                return p
            r = self.c.execute(p.stmt_id, [("varchar", x) for x in params or ()])
            self.c.stmt_close(p.stmt_id)
        else:
            r = self.c.query(sql)
        if r.kind == "rs":
            self.st.count("rows", len(r.rows))
        return r

    def first(self, r, what):
        if r.kind != "rs":
            self.fail(f"{what} failed: {r}")
        return [txt(x[0]) for x in r.rows]

    def pattern(self, names):
        """-> pattern text (as the server must see it) or None"""
        r = self.rnd
        k = r.random()
        if k < 0.35 or not names:
            return None
        if k < 0.4:
            return r.choice(["%", "", "_", "%%", "_%", "%_", "%\\_%", "%\\%%", "__", "a%", "%a%", "t_"])
        s = r.choice(names)
        k = r.random()
        if k < 0.12:
            out = s                     # its _ and % are wildcards
        elif k < 0.25:
            out = esc(s)
        else:
            out, i = "", 0
            while i < len(s):
                j = r.random()
                if j < 0.2:
                    out += "_"
                elif j < 0.35:
                    out += "%"
                    i += r.choice([-1, 0, 1, 2])
                else:
                    out += esc(s[i])
                i += 1
            j = r.random()
            if j < 0.15:
                out += "%"
            elif j < 0.3:
                out = out[1:] if out[:1] != "\\" else out
            elif j < 0.4:
                out = "%" + out
            elif j < 0.45:
                out += "_"
            elif j < 0.5:
                out = r.choice([" " + out, out + " ", "% " + out, out + " %"])
        if out.endswith("\\"):
            return None
        return out

    def likes(self, pat, names):
        """The matching names, or None if that depends on case"""
        res = []
        for n in names:
            m = like(pat, n)
            if m is None:
                return None
            if m:
                res.append(n)
        self.st.count("like")
        self.st.count("like_hits", bool(res))
        return res

    def expect(self, what, got, want, ordered=False, optional=()):
        extra = Counter(got) - Counter(want)
        for o in optional:
            if extra[o] == 1:
                del extra[o]
        missing = Counter(want) - Counter(got)
        if missing:
            self.fail(f"{what} does not list {list(missing.elements())[:5]!r} (it lists {got[:10]!r})")
        if +extra:
            self.fail(f"{what} lists {list((+extra).elements())[:5]!r}, which should not be there")
        if ordered and [x for x in got if x not in optional] != list(want):
            self.fail(f"{what} lists {got[:20]!r} instead of {list(want)[:20]!r}: wrong order")

    def op_databases(self):
        r = self.rnd
        names = self.dbs + list(self.base_dbs)
        pat = self.pattern(names)
        sql = r.choice(["SHOW DATABASES", "SHOW SCHEMAS", "show databases"])
        if pat is not None:
            names = self.likes(pat, names)
            if names is None:
                return
            sql += f" LIKE {q(pat)}"
        self.expect(sql, self.first(self.query(sql), sql), names, optional=[""] if self.depth == 2 else ())
        self.st.seen("databases", self.depth, pclass(pat), bool(names))

    def tables_of(self, db):
        if db in self.base_dbs:
            return self.base_dbs[db]
        return {t: c for _, d, t, c in self.flat if d == db}

    def op_tables(self):
        r = self.rnd
        sql = r.choice(["SHOW TABLES", "SHOW TABLES", "SHOW FULL TABLES", "show tables"])
        k = r.random()
        db = self.cur
        if k < 0.7 or not self.cur:
            db = r.choice(self.dbs + list(self.base_dbs) + ["nosuchdb"])
            sql += f" FROM {bq(db) if r.random() < 0.8 or not simple(db) else db}"
        if self.depth == 2 and not db:
            return
        names = list(self.tables_of(db))
        pat = self.pattern(names or ["abc"])
        if pat is not None:
            names = self.likes(pat, names)
            if names is None:
                return
            sql += f" LIKE {q(pat)}"
        if k > 0.7 and not self.cur:
            x = self.query("SHOW TABLES")
            if x.kind == "rs" and x.rows:
                self.expect("SHOW TABLES", [txt(y[0]) for y in x.rows], list(self.tables_of("")))
        self.expect(sql, self.first(self.query(sql), sql), names)
        self.st.seen("tables", self.depth, pclass(pat), bool(names), k < .7)

    def pick_table(self):
        """-> (db, table, columns)"""
        r = self.rnd
        if r.random() < 0.1:
            d = r.choice(list(self.base_dbs))
            t = r.choice(list(self.base_dbs[d]))
            return d, t, self.base_dbs[d][t]
        if not self.flat:
            return None
        _, d, t, c = r.choice(self.flat)
        return d, t, c

    def show_rows(self, what, rows, db, table, cols, names, full):
        """Field, Type, Null, Key, Default, Extra"""
        got = [txt(x[0]) for x in rows]
        self.expect(what, got, names, ordered=True)
        for x in rows:
            name = txt(x[0])
            if txt(x[1]) != cols[name]:
                self.fail(f"{what}: the type of {name!r} is {x[1]!r} instead of {cols[name]!r}")
            if self.details and (db, table, name) in self.details:
                d = self.details[db, table, name]
                if txt(x[2]) != ("YES" if d.is_nullable else "NO"):
                    self.fail(f"{what}: Null of {name!r} is {x[2]!r}")
                if txt(x[4]) != d.default:
                    self.fail(f"{what}: the default of {name!r} is {x[4]!r} instead of {d.default!r}")
                if full and txt(x[8]) != d.comment:
                    self.fail(f"{what}: the comment of {name!r} is {x[8]!r} instead of {d.comment!r}")

    def unqualified(self, d, t):
        """May the table be used without its database?  -> 'yes', 'no' (another table or none), 'maybe'"""
        if self.cur:
            if d == self.cur:
                return "yes"
            return "maybe"
        n = sum(1 for _, _, x, _ in self.flat if x == t) + sum(1 for ts in self.base_dbs.values() if t in ts)
        return "yes" if self.depth == 2 and n == 1 else "one" if n == 1 else "maybe"

    def op_columns(self):
        r = self.rnd
        x = self.pick_table()
        if x is None:
            return
        d, t, cols = x
        full = r.random() < 0.3
        head = f"SHOW {'FULL ' if full else ''}COLUMNS FROM "
        un = self.unqualified(d, t)
        names = list(cols)
        pat = self.pattern(names)
        if d == "" or un == "yes" and r.random() < 0.5 or un == "one" and r.random() < 0.2:
            if un == "maybe":
                return
            sql = head + bq(t)
        else:
            un = "yes"
            sql = head + r.choice([f"{bq(t)} FROM {bq(d)}", f"{bq(d)}.{bq(t)}"])
        if pat is not None:
            names = self.likes(pat, names)
            if names is None:
                return
            sql += f" LIKE {q(pat)}"
        res = self.query(sql)
        if un == "one" and res.kind == "err":
            return
        if res.kind != "rs":
            self.fail(f"{sql} failed: {res}")
        self.show_rows(sql, res.rows, d, t, cols, names, full)
        self.st.seen("columns", self.depth, pclass(pat), bool(names), bool(self.cur), full)

    def op_describe(self):
        r = self.rnd
        x = self.pick_table()
        if x is None:
            return
        d, t, cols = x
        self.st.count("describe")
        un = self.unqualified(d, t)
        verb = r.choice(["DESCRIBE", "DESC", "describe"])
        if d == "" or un == "yes" and r.random() < 0.5:
            if un == "maybe":
                return
            sql = f"{verb} {bq(t) if r.random() < .7 or not simple(t) else t}"
        else:
            un = "yes"
            sql = f"{verb} {bq(d)}.{bq(t)}"
        res = self.query(sql)
        if un == "one" and res.kind == "err":
            return
        if res.kind != "rs":
            self.fail(f"{sql} failed: {res}")
        self.show_rows(sql, res.rows, d, t, cols, list(cols), False)
        self.st.seen("describe", self.depth, un, bool(self.cur))

    def op_fieldlist(self):
        r = self.rnd
        x = self.pick_table()
        if x is None:
            return
        d, t, cols = x
        un = self.unqualified(d, t)
        if un == "maybe":
            if d == "" or not self.dbs and d not in self.base_dbs:
                return
            self.op_current(d)
            if self.unqualified(d, t) != "yes":
                self.fail(f"the database {d!r} can't be selected")
            un = "yes"
        names = list(cols)
        pat = self.pattern(names)
        wild = ""
        if pat:
            names = self.likes(pat, names)
            if names is None:
                return
            wild = pat
        self.trace.append(f"COM_FIELD_LIST {t!r} {wild!r}")
        self.st.count("commands")
        res = self.c.field_list(t, wild)
        if un == "one" and res.kind == "err":
            return
        if res.kind != "fields":
            self.fail(f"COM_FIELD_LIST {t!r} {wild!r} failed: {res}")
        self.expect(f"COM_FIELD_LIST {t!r} {wild!r}", [x.name.decode() for x in res.cols], names, ordered=True)
        for x in res.cols:
            if x.table.decode() != t:
                self.fail(f"COM_FIELD_LIST names the table {x.table!r}")
            if self.details and (d, t, x.name.decode()) in self.details:
                want = self.details[d, t, x.name.decode()].default
                if (x.default or b"").decode() != (want or ""):
                    self.fail(f"COM_FIELD_LIST: default {x.default!r} instead of {want!r}")
        self.st.count("fieldlist")
        self.st.count("rows", len(res.cols))
        self.st.seen("fieldlist", self.depth, pclass(pat), bool(names), bool(self.cur))

    def op_is(self):
        """Queries on INFORMATION_SCHEMA"""
        r = self.rnd
        kind = r.choice(["schemata", "tables", "columns", "columns"])
        self.st.count("isquery")
        pre = r.choice(["information_schema.", "information_schema.", "INFORMATION_SCHEMA.", "`information_schema`."])
        if self.cur == "information_schema" and r.random() < 0.6:
            pre = ""
        tab = pre + r.choice([kind, kind.upper()])
        opt = ()
        params = None
        if kind == "schemata":
            sql = f"SELECT schema_name, catalog_name FROM {tab}"
            rows = [(d, self.catalog(d)) for d in self.dbs] + self.base["schemata"]
            opt = [("", "def")] if self.depth == 2 else ()
            keys = ["schema_name", "catalog_name"]
        elif kind == "tables":
            sql = f"SELECT table_schema, table_name, table_catalog FROM {tab}"
            rows = [(d, t, c) for c, d, t, _ in self.flat] + self.base["tables"]
            keys = ["table_schema", "table_name", "table_catalog"]
        else:
            sql = f"SELECT table_schema, table_name, column_name, data_type, column_type FROM {tab}"
            rows = [(d, t, n, ty, ty) for c, d, t, cc in self.flat for n, ty in cc.items()] + self.base["columns"]
            keys = ["table_schema", "table_name", "column_name", "data_type", "column_type"]
        conds = []
        for _ in range(r.choice([0, 1, 1, 2])):
            i = r.randrange(min(3, len(keys)))
            if not rows:
                break
            k = r.random()
            v = r.choice(rows)[i] if r.random() < 0.9 else "nosuch"
            if k < 0.5:
                if r.random() < 0.2:
                    params = (params or []) + [v]
                    conds.append(f"{keys[i]} = ?")
                else:
                    conds.append(f"{r.choice([keys[i], keys[i].upper()])} = {q(v)}")
                rows = [x for x in rows if x[i] == v]
            elif k < 0.65:
                vs = [v, r.choice(rows)[i], "zz"]
                conds.append(f"{keys[i]} IN ({', '.join(map(q, vs))})")
                rows = [x for x in rows if x[i] in vs]
            elif k < 0.75:
                conds.append(f"{keys[i]} <> {q(v)}")
                rows = [x for x in rows if x[i] != v]
            else:
                pat = self.pattern([x[i] for x in rows][:200])
                if not pat:
                    continue
                new = []
                for x in rows:
                    m = like(pat, x[i])
                    if m is None:
                        break
                    if m:
                        new.append(x)
                else:
                    self.st.count("like")
                    self.st.count("like_hits", bool(new))
                    conds.append(f"{keys[i]} LIKE {q(pat)}")
                    rows = new
        if conds:
            sql += " WHERE " + " AND ".join(conds)
        order = kind == "columns" and r.random() < 0.4
        if order:
            sql += " ORDER BY table_schema, table_name, ordinal_position"
        elif r.random() < 0.1 and not params:
            sql2 = f"SELECT COUNT(*) FROM {tab}" + (" WHERE " + " AND ".join(conds) if conds else "")
            res = self.query(sql2)
            n = int(txt(res.rows[0][0])) if res.kind == "rs" and res.rows else 0 if res.kind == "rs" else None
            if n is None or not len(rows) <= n <= len(rows) + len(opt):
                self.fail(f"{sql2}: {res.rows if res.kind == 'rs' else res} instead of {len(rows)}")
        numbered = kind == "columns" and r.random() < 0.6
        if numbered:
            sql = sql.replace(" FROM ", ", ordinal_position FROM ", 1)
        res = self.query(sql, params)
        if res.kind != "rs":
            self.fail(f"{sql} failed: {res}")
        got = [tuple(txt(y) for y in x) for x in res.rows]
        if numbered:
            # the position of a column is its place in the declaration (counted from 0 or from 1, consistently)
            bases = set()
            own = {(d, t): list(cc) for _, d, t, cc in self.flat}
            for x in got:
                if x[:2] in own and x[2] in own[x[:2]]:
                    b = int(x[5]) - own[x[:2]].index(x[2])
                    bases.add(b)
                    if b not in (0, 1) or len(bases) > 1:
                        self.fail(f"{sql}: column {x[2]!r} of {x[:2]} has the position {x[5]}, its table is declared as {own[x[:2]][:8]}")
                    self.st.count("positions")
            got = [x[:5] for x in got]
        self.expect(sql, got, rows, optional=opt if not conds else got if self.depth == 2 and kind == "schemata" else ())
        if order:
            # every table's columns in declaration order
            groups = {}
            for x in got:
                groups.setdefault(x[:2], []).append(x[2])
            for (d, t), seq in groups.items():
                want = [n for n in self.tables_of(d)[t] if n in seq]
                if seq != want:
                    self.fail(f"{sql}: the columns of {t!r} are listed as {seq[:10]} instead of {want[:10]}")
        self.st.seen("is", kind, self.depth, len(conds), bool(rows), pre == "")

    def catalog(self, d):
        if self.depth < 4:
            return "def"
        return next(c for c, ds in self.mapping.items() if d in ds)

    def op_variables(self):
        r = self.rnd
        self.st.count("variables")
        names = self.variables
        pat = self.pattern(names) or r.choice(names)
        m = self.likes(pat, names)
        if m is None:
            return
        sql = f"SHOW {r.choice(['', '', 'SESSION ', 'GLOBAL '])}VARIABLES LIKE {q(pat)}"
        self.expect(sql, self.first(self.query(sql), sql), m)
        self.st.seen("variables", pclass(pat), bool(m))

    def op_current(self, db=None):
        r = self.rnd
        c = self.c
        if db is None:
            db = r.choice(self.dbs * 2 + ["information_schema", "nosuchdb"])
        how = r.choice(["use", "init", "init", "change"])
        self.trace.append(f"{how} {db!r}")
        if how == "use" and db.lower() not in ("database", "schema", "values"):
            res = c.query(f"USE {bq(db)}")
        elif how == "change":
            res = c.resp(P.com_change_user(c.caps, b"u", b"", db.encode(), 45, plugin=b"mysql_native_password"),
                         lambda pl: P.parse_simple(pl, c.caps))
        else:
            res = c.init_db(db)
        if res.kind != "ok":
            self.fail(f"the database {db!r} can't be selected: {res}")
        self.cur = db
        if r.random() < 0.1:
            got = self.first(self.query("SELECT DATABASE()"), "DATABASE()")
            if got != [db]:
                self.fail(f"DATABASE() is {got} instead of {db!r}")

    def op_missing(self):
        """Nothing is listed for things that do not exist"""
        r = self.rnd
        d = r.choice(self.dbs + ["nosuchdb", "information_schema"])
        for sql in (f"SHOW COLUMNS FROM nosuchtable FROM {bq(d)}", f"DESCRIBE {bq(d)}.nosuchtable", "SHOW COLUMNS FROM nosuchtable"):
            res = self.query(sql)
            if res.kind == "rs" and res.rows:
                self.fail(f"{sql} lists {res.rows[:5]}")
        res = self.c.field_list("nosuchtable")
        if res.kind == "fields" and res.cols:
            self.fail(f"COM_FIELD_LIST nosuchtable lists {res.cols[0].name}")
        # a table of another database
        for _, d, t, _ in self.flat[:20]:
            other = [x for x in self.dbs if x != d and t not in self.tables_of(x)]
            if other:
                sql = f"SHOW COLUMNS FROM {bq(t)} FROM {bq(r.choice(other))}"
                res = self.query(sql)
                if res.kind == "rs" and res.rows:
                    self.fail(f"{sql} lists {res.rows[:5]}")
                break

    def baseline(self):
        """The built-in entries: what is listed for an application without tables"""
        self.w.schema = lambda: {}
        self.mapping, self.cur, self.depth = {}, None, 3
        dbs = self.first(self.query("SHOW DATABASES"), "SHOW DATABASES")
        if len(set(dbs)) != len(dbs):
            self.fail(f"SHOW DATABASES lists {dbs}")
        self.base_dbs = {}
        for d in dbs:
            ts = self.first(self.query(f"SHOW TABLES FROM {bq(d)}"), "SHOW TABLES")
            if len(set(ts)) != len(ts):
                self.fail(f"SHOW TABLES FROM {d} lists {ts}")
            self.base_dbs[d] = {}
            for t in ts:
                res = self.query(f"SHOW COLUMNS FROM {bq(t)} FROM {bq(d)}")
                self.first(res, "SHOW COLUMNS")
                cols = {txt(x[0]): txt(x[1]) for x in res.rows}
                if len(cols) != len(res.rows) or not cols:
                    self.fail(f"SHOW COLUMNS FROM {d}.{t} lists {[x[0] for x in res.rows]}")
                self.base_dbs[d][t] = cols
        for d, ts in BUILTIN.items():
            if not ts <= set(self.base_dbs.get(d, ())):
                self.fail(f"the built-in {d} has the tables {list(self.base_dbs.get(d, ()))}")
        self.base = {"schemata": [(d, "def") for d in dbs],
                     "tables": [(d, t, "def") for d in dbs for t in self.base_dbs[d]],
                     "columns": [(d, t, n, ty, ty) for d in dbs for t, cc in self.base_dbs[d].items() for n, ty in cc.items()]}
        self.variables = self.first(self.query("SHOW VARIABLES"), "SHOW VARIABLES")

    def run(self):
        r = self.rnd
        caps = P.BASE_CAPS | P.LENENC_AUTH | r.choice([0, P.DEPRECATE_EOF])
        with World(session=App, identity=FixedIdentity(allow_any=True)) as w:
            self.w = w
            w.schema_calls = 0
            self.c = w.login()
            self.baseline()
            if self.case["k"] == "keywords":
                return self.keywords()
            if self.case["k"] == "likes":
                return self.likes_all()
            for _ in range(self.case["schemas"]):
                self.build()
                # how the connection begins
                db = r.choice([None, None] + self.dbs[:3] + ["nosuchdb"])
                self.c = w.login(client_caps=caps, db=db)
                self.cur = db
                ops = [self.op_databases, self.op_tables, self.op_tables, self.op_columns, self.op_columns, self.op_describe,
                       self.op_fieldlist, self.op_fieldlist, self.op_is, self.op_is, self.op_variables, self.op_current, self.op_missing]
                for _ in range(self.case["n"]):
                    r.choice(ops)()
                    if r.random() < 0.04:
                        # the declared schema may change at any time
                        self.build()
                        self.trace.append("-- new schema")
            self.w.st = None

    def likes_all(self):
        """All short patterns against all short names"""
        names = ["".join(x) for n in (1, 2, 3) for x in itertools.product("ab_", repeat=n)]
        pats = ["".join(x) for n in (0, 1, 2, 3) for x in itertools.product(["a", "b", "%", "_", "\\_", "\\%"], repeat=n)]
        self.depth, self.cur = 3, None
        self.mapping = {"d": {x: {"b": "INT"} for x in names}, "e": {"t": {x: "INT" for x in names}}}
        self.details = None
        self.w.schema = lambda: self.mapping
        for pat in pats[self.case["i"]::6]:
            want = [x for x in names if like(pat, x)]
            sql = f"SHOW TABLES FROM d LIKE {q(pat)}"
            self.expect(sql, self.first(self.query(sql), sql), want)
            sql = f"SHOW COLUMNS FROM t FROM e LIKE {q(pat)}"
            self.expect(sql, self.first(self.query(sql), sql), want, ordered=True)
            self.st.count("like", 2)
            self.st.seen("likes", pat)

    def keywords(self):
        """Fixed cases, among them those that the SQL parser is known not to support"""
        k = self.case["i"]
        self.depth, self.cur = 3, None
        self.mapping = {"d": {"values": {"a": "INT"}, "extended": {"b": "TEXT"}, "t": {"c": "INT"}}}
        self.flat = [("def", "d", t, c) for t, c in self.mapping["d"].items()]
        self.dbs = ["d"]
        self.details = None
        self.w.schema = lambda: self.mapping
        self.op_current("d")
        cases = [("describe-values", "DESCRIBE `values`", ["a"]), ("describe-values", "DESCRIBE d.`values`", ["a"]),
                 ("describe-extended", "DESCRIBE `extended`", ["b"]), (None, "DESCRIBE d.`extended`", ["b"]),
                 ("show-in", "SHOW TABLES IN d", ["values", "extended", "t"]), ("show-in", "SHOW COLUMNS FROM t IN d", ["c"]),
                 ("show-in", "SHOW COLUMNS IN t", ["c"]), (None, "SHOW COLUMNS FROM `values`", ["a"]),
                 (None, "SHOW COLUMNS FROM `extended` FROM d", ["b"]), (None, "SHOW TABLES FROM d", ["values", "extended", "t"])]
        key, sql, want = cases[k]
        res = self.query(sql)
        if res.kind != "rs":
            self.fail(f"{sql} failed: {res}", key)
        self.expect(sql, [txt(x[0]) for x in res.rows], want)
        self.st.seen("keyword", sql)


def txt(v):
    return None if v is None else v.decode("utf8") if isinstance(v, bytes) else str(v)


def esc(s):
    return s.replace("%", "\\%").replace("_", "\\_")


def simple(s):
    return re.fullmatch(r"(?:users|orders|t|t1|t2|t_1|abc|db1|db2|a_b|prod)", s) is not None


def pclass(pat):
    if pat is None:
        return "none"
    return ("%" in pat, "_" in pat, "\\" in pat, pat == "")


def run(case, st):
    Driver(case, st).run()


def gen(tier, seed):
    rnd = random.Random(seed * 15485863 + 16)
    for i in range(10):
        yield {"k": "keywords", "s": rnd.randrange(1 << 40), "i": i}
    for i in range(6):
        yield {"k": "likes", "s": rnd.randrange(1 << 40), "i": i}
    n = 130 if tier == "quick" else 3500
    for _ in range(n):
        yield {"k": "schema", "s": rnd.randrange(1 << 40), "schemas": rnd.choice([1, 2, 4]), "n": rnd.choice([15, 30])}
