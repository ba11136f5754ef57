"""C03: every command gets exactly one complete, well-formed response (lockstep)."""
import itertools
import random

from vlib import proto as P
from vlib.apps import EXC_KINDS, AsyncRows, FixedIdentity, RecBase, RecSession, app_exc, arows
from vlib.client import World, native_scramble
from vlib.runner import Violation

from mysql_mimic import ColumnType, ResultColumn, ResultSet, User
from mysql_mimic.constants import DEFAULT_SERVER_CAPABILITIES
from mysql_mimic.types import Capabilities

ID = "C03"
LEVEL = "exploration"
RULE = ("random command programs (all supported commands, unsupported codes, known and unknown "
        "statement ids, pipelined or lockstep, socket accepting everything or in small pieces) x all 32 "
        "capability subsets x unsupported flags x application outcomes; a case is non-trivial per "
        "distinct (negotiated caps, command, application outcome, response kind) observed")
ASSUMPTIONS = ["client announces PROTOCOL_41, SECURE_CONNECTION and PLUGIN_AUTH",
               "the server's capability set is the default one, or a random variation of it that keeps "
               "PROTOCOL_41 and SECURE_CONNECTION"]
MIN = {"responses": 3000, "resp.rs": 300, "resp.err": 300, "resp.fetch": 50, "resp.fields": 50,
       "resp.prep": 100, "wrapped": 5, "mid_stream_errors": 30}
DEADLINE = {"quick": 480, "thorough": 780}

OPT = [P.DEPRECATE_EOF, P.QUERY_ATTRIBUTES, P.CONNECT_WITH_DB, P.CONNECT_ATTRS, P.LENENC_AUTH]
UNSUP = [P.FOUND_ROWS, P.LONG_FLAG, P.NO_SCHEMA, P.LOCAL_FILES, P.TRANSACTIONS, P.MULTI_STATEMENTS,
         P.MULTI_RESULTS, P.PS_MULTI_RESULTS, P.EXPIRED_PW, P.SESSION_TRACK, P.OPTIONAL_META, P.ZSTD,
         P.COMPRESS, P.IGNORE_SIGPIPE, P.RESERVED, 1 << 28, 1 << 29, 1 << 30, 1 << 31]
# capabilities an application can take away from / add to the server's default set
SRV_REMOVE = [P.DEPRECATE_EOF, P.QUERY_ATTRIBUTES, P.CONNECT_WITH_DB, P.CONNECT_ATTRS, P.LENENC_AUTH, P.PLUGIN_AUTH]
SRV_ADD = [P.OPTIONAL_META, P.FOUND_ROWS, P.TRANSACTIONS, P.LONG_FLAG, P.MULTI_STATEMENTS]
SUPPORTED = {1, 2, 3, 4, 0x0D, 0x0E, 0x11, 0x16, 0x17, 0x18, 0x19, 0x1A, 0x1C, 0x1F}
MSGS = ["boom", "", "naïve ünïcode", "漢字 😀", "lone \ud800 surrogate", "x" * 70000, "nul\0inside",
        "percent %s %d {}", "quote ' \" `"]


KINDS = sorted(EXC_KINDS)


# ------------------------------------------------------------------ application outcomes
def gen_spec(rng):
    r = rng.random()
    if r < 0.07:
        return {"o": "none"}
    if r < 0.12:
        return {"o": "zero", "n": rng.choice([0, 1, 3])}
    if r < 0.22:
        return {"o": "raise", "e": rng.choice(KINDS),
                "m": rng.randrange(len(MSGS)), "susp": rng.random() < 0.3}
    if r < 0.26:
        return {"o": "bad", "b": rng.choice(["tuple3", "str", "int"])}
    n = rng.choice([0, 0, 1, 1, 2, 3, 5, 17, 60]) if rng.random() < 0.93 else rng.choice(
        [247, 248, 249, 250, 251, 252, 253, 254, 255, 256, 257, 300, 511, 512, 530])
    spec = {"o": "rows", "n": n, "c": rng.choice([1, 1, 2, 3, 7, 8]),
            "src": rng.choice(["list", "gen", "agen", "aiter", "tuple", "iter"]),
            "decl": rng.choice(["names", "typed", "mixed", "rs"]),
            "w": rng.choice([0, 1, 10, 10, 300]) if n < 100 else 3,
            "nulls": rng.random() < 0.3, "susp": rng.random() < 0.2}
    q = rng.random()
    if q < 0.25:
        spec["fail"] = rng.randrange(0, n + 1)
        spec["fk"] = rng.choice(["raise", "unencodable", "raise"])
        if spec["fk"] == "raise":
            spec["src"] = rng.choice(["gen", "agen"])
            spec["e"] = rng.choice(KINDS)
        spec["m"] = rng.randrange(len(MSGS))
    return spec


def make_exc(spec):
    return app_exc(spec.get("e", "app"), MSGS[spec["m"]])


def build(spec):
    o = spec["o"]
    if o == "none":
        return None
    if o == "zero":
        return [()] * spec["n"], []
    if o == "raise":
        raise make_exc(spec)
    if o == "bad":
        return {"tuple3": ([], [], []), "str": "nope", "int": 7}[spec["b"]]
    n, c = spec["n"], spec["c"]
    fail = spec.get("fail")
    fk = spec.get("fk")

    def rows():
        for i in range(n):
            if fail == i:
                if fk == "raise":
                    raise app_exc(spec.get("e", "app"), MSGS[spec["m"]])
            row = [f"{i}:{j}:" + "v" * spec["w"] for j in range(c)]
            if spec["nulls"]:
                for j in range(c):
                    if (i + j) % 3 == 0:
                        row[j] = None
            if fail == i and fk == "unencodable":
                row = ["bad\ud800"] * c
            yield row
        if fail == n:
            if fk == "raise":
                raise app_exc(spec.get("e", "app"), MSGS[spec["m"]])

    src = spec["src"]
    if src == "list":
        r = list(rows())
    elif src == "tuple":
        r = tuple(tuple(x) for x in rows())
    elif src == "gen":
        r = rows()
    elif src == "iter":
        r = iter(list(rows()))
    elif src == "agen":
        async def ag():
            import asyncio
            for x in rows():
                if spec["susp"]:
                    await asyncio.sleep(0)
                yield x
        r = ag()
    else:
        r = AsyncRows(list(rows()))
    names = [f"c{j}" for j in range(c)]
    decl = spec["decl"]
    if decl == "names":
        return r, names
    typed = [ResultColumn(x, ColumnType.VARCHAR) for x in names]
    if decl == "typed":
        return r, typed
    if decl == "mixed":
        return r, [t if j % 2 else x for j, (x, t) in enumerate(zip(names, typed))]
    return ResultSet(r, typed)


def expect(spec):
    """-> (kinds allowed, max rows before error or exact rows)"""
    o = spec["o"]
    if o in ("none", "zero"):
        return "ok", 0
    if o in ("raise", "bad"):
        return "err", 0
    if "fail" in spec and not (spec["fk"] == "unencodable" and spec["fail"] >= spec["n"]):
        return "err", spec["fail"]
    return "rs", spec["n"]


async def handler(sess, sql, attrs, expression=None):
    import asyncio
    w = sess.world
    if sql.startswith("SHOW"):
        spec = w.fl_spec
        if spec["o"] == "raise":
            raise make_exc(spec)
        rows = [(f"col{i}", "TEXT", "YES", None, spec["d"], None) for i in range(spec["n"])]
        return (arows(rows) if spec["a"] else rows), ["Field", "Type", "Null", "Key", "Default", "Extra"]
    spec = w.specs[int(sql.split()[0][1:])]
    if spec.get("susp"):
        await asyncio.sleep(0)
    return build(spec)


# ------------------------------------------------------------------ programs
def gen_program(rng, length):
    """List of abstract commands; statement references are indices of prepares."""
    prog = []
    nstmt = 0
    for _ in range(length):
        r = rng.random()
        if r < 0.24:
            prog.append(["query", gen_spec(rng), rng.choice([0, 0, 0, 1, 3])])
        elif r < 0.36:
            prog.append(["prepare", gen_spec(rng), rng.choice([0, 0, 1, 2, 3, 20]) if rng.random() < .9 else 300])
            nstmt += 1
        elif r < 0.52 and nstmt:
            prog.append(["execute", rng.randrange(nstmt), rng.random() < 0.5, rng.choice([0, 0, 2])])
        elif r < 0.66 and nstmt:
            prog.append(["fetch", rng.randrange(nstmt), rng.choice([0, 1, 2, 5, 100, 1000, 2**32 - 1])])
        elif r < 0.70 and nstmt:
            prog.append(["reset", rng.randrange(nstmt)])
        elif r < 0.72 and nstmt:
            prog.append(["close", rng.randrange(nstmt)])
        elif r < 0.76 and nstmt:
            prog.append(["long", rng.randrange(nstmt), rng.randrange(3), rng.choice([0, 1, 300])])
        elif r < 0.80:
            prog.append(["ping"])
        elif r < 0.83:
            prog.append(["unknown", rng.choice(["fetch", "execute", "reset", "close", "long"])])
        elif r < 0.86:
            prog.append(["initdb", rng.choice(["db", "", "naïve"]), rng.random() < 0.15])
        elif r < 0.91:
            prog.append(["fields", {"o": "raise" if rng.random() < 0.15 else "rows", "e": "app", "m": rng.randrange(len(MSGS)),
                                    "n": rng.choice([0, 1, 2, 5, 260]), "a": rng.random() < 0.3,
                                    "d": rng.choice([None, None, "dflt", "", "x" * 300])},
                         rng.choice(["", "a%"])])
        elif r < 0.93:
            prog.append(["resetconn"])
        elif r < 0.95:
            prog.append(["debug"])
        elif r < 0.97:
            code = rng.choice([c for c in range(256) if c not in SUPPORTED])
            prog.append(["badcom", code, rng.choice([0, 1, 50])])
        elif r < 0.985:
            prog.append(["chuser", rng.choice(["alice", "nopw"]), rng.choice(["native", "other", None]),
                         rng.random() < 0.15])
        else:
            prog.append(["names", rng.choice(["latin1", "utf8mb4", "cp1251"])])
    return prog


def gen(tier, seed):
    subsets = []
    for bits in range(32):
        subsets.append(sum(c for i, c in enumerate(OPT) if bits >> i & 1))
    n = 0
    per = 24 if tier == "quick" else 1500
    for i in range(per):
        for caps in subsets:
            n += 1
            yield {"k": "prog", "seed": f"{seed}/{n}", "caps": caps,
                   "mode": ["lock", "lock", "pipe", "small"][(i + n) % 4], "srv": i % 3 == 1,
                   "len": 25 if i % 3 else 60}
            if i % 2:
                yield {"k": "sess", "seed": f"{seed}/s{n}", "caps": caps, "srv": i % 4 == 1}
        if i % 3 == 0:
            # every response length around the 256-packet wrap, text / binary / fetch
            for caps in (0, P.DEPRECATE_EOF):
                for base in ((240, 262) if tier == "quick" else (240, 262, 500, 520, 760, 775)):
                    yield {"k": "wrap", "caps": caps, "from": base, "seed": f"{seed}/{i}"}


    for caps in (0, P.DEPRECATE_EOF, P.OPTIONAL_META, P.DEPRECATE_EOF | P.QUERY_ATTRIBUTES):
        for size in (((251, 65535) if caps in (0, P.DEPRECATE_EOF) else (251,)) if tier == "quick" else (250, 251, 252, 65534, 65535, 65536, 70000)):
            yield {"k": "wide", "caps": caps, "size": size, "seed": f"{seed}/wide{size}"}


def nontrivial_key(caps, cmd, spec, r):
    return (caps & sum(OPT), cmd, (spec or {}).get("o"), (spec or {}).get("src"), (spec or {}).get("fk"),
            r.kind, r.err_after_rows, min(len(r.rows), 300))


class Driver:
    def __init__(self, case, st):
        self.st = st
        rng = self.rng = random.Random(case["seed"])
        ext = [P.BASE_CAPS | case["caps"]]
        extra = sum(c for c in UNSUP if rng.random() < 0.3)
        ident = FixedIdentity({
            "alice": User("alice", auth_string=_hash("pw"), auth_plugin="mysql_native_password"),
            "nopw": User("nopw", auth_plugin="mysql_native_password")})
        kw = {}
        if case.get("srv"):
            scaps = int(DEFAULT_SERVER_CAPABILITIES)
            for flag in SRV_REMOVE:
                if rng.random() < 0.25:
                    scaps &= ~flag
            for flag in SRV_ADD:
                if rng.random() < 0.4:
                    scaps |= flag
            kw["capabilities"] = Capabilities(scaps)
        self.w = World(session=RecBase, identity=ident, handler=handler, **kw)
        self.w.specs = []
        self.w.fl_spec = None
        caps = ext[0] | extra
        self.c = self.w.connect()
        r = self.c.login(user="nopw", client_caps=caps,
                         db="d" if caps & P.CONNECT_WITH_DB else None,
                         attrs={b"k": b"v"} if caps & P.CONNECT_ATTRS else None)
        if r.kind != "ok":
            raise Violation(f"login answered {r}")
        self.caps = self.c.caps
        self.stmts = []           # dicts
        self.closed = False
        self.expected_end = None

    # returns (payload, parser, checker)
    def encode(self, cmd):
        P_, c, caps = P, self.c, self.caps
        op = cmd[0]
        simple = lambda pl: P.parse_simple(pl, caps)
        if op == "query":
            spec = cmd[1]
            self.w.specs.append(spec)
            attrs = [(f"a{i}", ("u8", i)) for i in range(cmd[2])] if caps & P.QUERY_ATTRIBUTES else []
            return (P.com_query(f"q{len(self.w.specs) - 1} select", caps, attrs),
                    lambda pl: P.parse_query(pl, caps), lambda r: self.chk_result(r, spec, cmd), spec)
        if op == "prepare":
            spec = cmd[1]
            self.w.specs.append(spec)
            sql = f"q{len(self.w.specs) - 1} select " + ", ".join("?" * cmd[2])
            n = cmd[2]

            def done(r):
                if n > 65535:
                    # can't be announced
                    return self.want(r, "err", cmd)
                self.want(r, "prep", cmd)
                if r.nparams != n:
                    raise Violation(f"prepare announced {r.nparams} parameters, {n} sent")
                self.stmts.append({"id": r.stmt_id, "n": n, "spec": spec, "open": False, "pos": 0,
                                   "closed": False, "cols": None})
            return P.com_stmt_prepare(sql), lambda pl: P.parse_prepare(pl, caps), done, spec
        if op in ("execute", "fetch", "reset", "close", "long") and cmd[1] >= len(self.stmts):
            return self.encode(["ping"])
        if op == "execute":
            s = self.stmts[cmd[1]]
            cur = cmd[2]
            if s["closed"]:
                return (P.com_stmt_execute(s["id"], [], caps, cur), simple,
                        lambda r: self.want(r, "err", cmd), None)
            attrs = [(f"a{i}", ("u8", i)) for i in range(cmd[3])] if caps & P.QUERY_ATTRIBUTES else []
            pay = P.com_stmt_execute(s["id"], [("i64", 5)] * s["n"], caps, cur, attrs)
            s["open"] = False

            def done(r):
                self.chk_result(r, s["spec"], cmd, cursor=cur)
                if r.kind == "rs":
                    s["cols"] = r.cols
                    if cur:
                        s["open"] = True
                        s["pos"] = 0
            return (pay, lambda pl: P.parse_query(pl, caps, binary=True, cursor=cur), done, s["spec"])
        if op == "fetch":
            s = self.stmts[cmd[1]]
            spec = s["spec"]

            def done(r):
                if s["closed"]:
                    return self.want(r, "err", cmd)
                if not s["open"]:
                    return          # what a fetch without a cursor yields is C11's business
                kind, total = expect(spec)
                left = total - s["pos"]
                if kind == "err" and cmd[2] > left:
                    self.want(r, "err", cmd)
                    s["open"] = False
                    return
                if r.kind == "err" and kind == "err":
                    # the application failed while this fetch was streaming
                    s["open"] = False
                    return
                self.want(r, "fetch", cmd)
                s["pos"] += len(r.rows)
            return (P.com_stmt_fetch(s["id"], cmd[2]),
                    lambda pl: P.parse_fetch(pl, caps, s["cols"] or ()), done, spec)
        if op == "reset":
            s = self.stmts[cmd[1]]
            s["open"] = False
            return (P.com_stmt_reset(s["id"]), simple,
                    lambda r, bad=s["closed"]: self.want(r, "err" if bad else "ok", cmd), None)
        if op == "close":
            s = self.stmts[cmd[1]]
            s["closed"] = True
            s["open"] = False
            return P.com_stmt_close(s["id"]), None, None, None
        if op == "long":
            s = self.stmts[cmd[1]]
            if s["n"] <= cmd[2] or s["closed"]:
                return self.encode(["ping"])
            # the value would be used by the next execute: reset right away in the model by
            # sending text data for a parameter encoded as integer is not legal, so send to a
            # statement and reset it
            self.followups.append(["reset", cmd[1]])
            return P.com_stmt_long(s["id"], cmd[2], b"z" * cmd[3]), None, None, None
        if op == "unknown":
            bad = 77777
            if cmd[1] == "close":
                return P.com_stmt_close(bad), None, None, None
            if cmd[1] == "long":
                return P.com_stmt_long(bad, 0, b"zz"), None, None, None
            pay = {"fetch": P.com_stmt_fetch(bad, 1), "reset": P.com_stmt_reset(bad),
                   "execute": P.com_stmt_execute(bad, [], caps)}[cmd[1]]
            return pay, simple, lambda r: self.want(r, "err", cmd), None
        if op == "ping":
            return bytes([P.COM_PING]), simple, lambda r: self.want(r, "ok", cmd), None
        if op == "initdb":
            s = self.w.sessions[-1]
            s.faults = {("use", None): "no such db"} if cmd[2] else None
            return (bytes([P.COM_INIT_DB]) + cmd[1].encode(), simple,
                    lambda r: self.want(r, "err" if cmd[2] else "ok", cmd), None)
        if op == "fields":
            self.w.fl_spec = cmd[1]

            def done(r):
                if cmd[1]["o"] == "raise":
                    return self.want(r, "err", cmd)
                self.want(r, "fields", cmd)
                if len(r.cols) != cmd[1]["n"]:
                    raise Violation(f"COM_FIELD_LIST: {len(r.cols)} column definitions for {cmd[1]['n']} columns")
            return (P.com_field_list(b"tbl", cmd[2].encode()), lambda pl: P.parse_field_list(pl, caps),
                    done, cmd[1])
        if op == "resetconn":
            return bytes([P.COM_RESET_CONNECTION]), simple, lambda r: self.want(r, "ok", cmd), None
        if op == "debug":
            return (bytes([P.COM_DEBUG]), lambda pl: P.parse_simple(pl, caps, allow_eof=True),
                    lambda r: self.want(r, "ok", cmd), None)
        if op == "badcom":
            return (bytes([cmd[1]]) + b"x" * cmd[2], simple, lambda r: self.want(r, "err", cmd), None)
        if op == "names":
            # changes only the results character set used for names/messages
            self.w.sessions[-1].variables.set("character_set_results", cmd[1])
            return self.encode(["ping"])
        raise AssertionError(op)

    def want(self, r, kind, cmd):
        if r.kind != kind:
            raise Violation(f"{cmd[0]}: response {r!r}, expected kind {kind}")

    def chk_result(self, r, spec, cmd, cursor=False):
        kind, n = expect(spec)
        if cursor and spec["o"] == "rows":
            if kind == "err" and r.kind == "err":
                return          # inference or materialisation hit the error early
            return self.want(r, "rs", cmd)
        self.want(r, kind, cmd)
        if kind == "rs" and len(r.rows) != n:
            raise Violation(f"{cmd[0]}: {len(r.rows)} rows received, {n} returned by the application")
        if kind == "rs" and spec["o"] == "rows" and len(r.cols) != spec["c"]:
            raise Violation(f"{cmd[0]}: {len(r.cols)} columns received, {spec['c']} returned by the application")
        if kind == "err" and r.err_after_rows:
            self.st.count("mid_stream_errors")
            if len(r.rows) > n:
                raise Violation("more rows than produced before the error")

    def observed(self, cmd, spec, r):
        self.st.count("responses")
        self.st.count("resp." + r.kind)
        self.st.count("cmd." + cmd[0])
        self.st.seen(*nontrivial_key(self.caps, cmd[0], spec, r))

    # ---------------------------------------------------------------- modes
    def change_user(self, cmd):
        c, caps = self.c, self.caps
        user, plug, wrong = cmd[1], cmd[2], cmd[3]
        pw = "pw" if user == "alice" else ""
        if wrong and user == "alice":
            pw = "wrong"
        plugin = {"native": b"mysql_native_password", "other": b"some_other_plugin", None: b""}[plug]
        pay = P.com_change_user(caps, user.encode(), native_scramble(pw, c.hs.nonce), b"db2", plugin=plugin,
                                attrs={b"a": b"b"})
        seq = c.send(pay)
        self.w.quiesce()
        r = c.auth_result(seq)
        if r.kind == "switch":
            if r.plugin != b"mysql_native_password":
                raise Violation(f"auth switch to {r.plugin!r}")
            data, seq = P.frame(native_scramble(pw, r.data[:20]), r.seq)
            c.deliver(data)
            self.w.quiesce()
            r = c.auth_result(seq)
        self.observed(cmd, None, r)
        if wrong and user == "alice":
            self.want(r, "err", cmd)
            self.closed = True      # whether it closes is C01's business; stop here
        else:
            self.want(r, "ok", cmd)

    def lock(self, prog):
        for cmd in prog:
            self.followups = []
            self.one(cmd)
            for f in self.followups:
                self.one(f)
            if self.closed:
                return

    def one(self, cmd):
        c = self.c
        if cmd[0] == "chuser":
            return self.change_user(cmd)
        pay, parse, chk, spec = self.encode(cmd)
        pl = c.cmd(pay)
        if c.next_seq is not None and len(pl) > 256:
            self.st.count("wrapped")
        if parse is None:
            if pl:
                raise Violation(f"no-reply command {cmd} was answered with {pl[0][:40]!r}")
            self.st.count("noreply")
        else:
            if not pl:
                raise Violation(f"{cmd}: no response" + (" (connection closed)" if c.closed() else ""))
            r = parse(pl)
            chk(r)
            self.observed(cmd, spec, r)
        if c.closed():
            raise Violation(f"connection closed after {cmd}")

    def pipe(self, prog):
        """Batches of commands delivered in one network read."""
        rng = self.rng
        i = 0
        while i < len(prog) and not self.closed:
            k = rng.randrange(1, 6)
            batch = []
            for cmd in prog[i:i + k]:
                if cmd[0] in ("chuser", "initdb", "fields", "long", "prepare", "execute", "fetch") or (
                        cmd[0] == "query" and cmd[1].get("n", 0) > 100):
                    break
                batch.append(cmd)
            if not batch:
                self.followups = []
                self.one(prog[i])
                for f in self.followups:
                    self.one(f)
                i += 1
                continue
            i += len(batch)
            enc = [(cmd,) + self.encode(cmd) for cmd in batch]
            wire = b"".join(P.frame(e[1], 0)[0] for e in enc)
            self.c.deliver(wire)
            self.w.quiesce()
            buf, pos = self.c._stream()
            pk, used = P.deframe_packets(bytes(buf[pos:]))
            if used != len(buf) - pos:
                raise Violation("incomplete packet at the end of a pipelined batch")
            self.c._advance(used)
            groups = []
            for seq, chunk in pk:
                if seq == 1:
                    groups.append([])
                elif not groups or seq != len(groups[-1]) + 1:
                    raise Violation(f"sequence id {seq} in pipelined responses")
                groups[-1].append(chunk)
            expecting = [e for e in enc if e[2] is not None]
            if len(groups) != len(expecting):
                raise Violation(f"{len(groups)} responses for {len(expecting)} pipelined commands")
            for (cmd, pay, parse, chk, spec), g in zip(expecting, groups):
                r = parse(g)
                chk(r)
                self.observed(cmd, spec, r)
            self.st.count("pipelined", len(batch))


def _hash(pw):
    import hashlib
    return hashlib.sha1(hashlib.sha1(pw.encode()).digest()).hexdigest()


def run(case, st):
    if case["k"] == "wide":
        return run_wide(case, st)
    if case["k"] == "wrap":
        return run_wrap(case, st)
    if case["k"] == "sess":
        return run_sess(case, st)
    d = Driver(case, st)
    with d.w:
        prog = gen_program(d.rng, case["len"])
        st.sample({"caps": hex(d.caps), "mode": case["mode"], "program": prog[:6]})
        if case["mode"] == "small":
            d.c.sock.max_send = d.rng.choice([1, 3, 7, 50, 1000])
        if case["mode"] == "pipe":
            d.pipe(prog)
        else:
            d.lock(prog)
        if not d.closed:
            d.followups = []
            d.one(["ping"])
            pl = d.c.cmd(bytes([P.COM_QUIT]))
            if pl:
                raise Violation(f"COM_QUIT was answered with {pl[0][:40]!r}")
            if not d.c.closed():
                raise Violation("connection still open after COM_QUIT")
        d.w.quiesce()
        if d.c.pending_bytes():
            raise Violation("unsolicited bytes after the conversation")


def run_wrap(case, st):
    d = Driver(case, st)
    with d.w:
        for n in range(case["from"], case["from"] + 12):
            spec = {"o": "rows", "n": n, "c": 1, "src": "gen", "decl": "typed", "w": 1, "nulls": False, "susp": False}
            d.followups = []
            for cmd in (["query", spec, 0], ["prepare", spec, 0], ["execute", len(d.stmts), False, 0],
                        ["execute", len(d.stmts), True, 0], ["fetch", len(d.stmts), n + 1],
                        ["fields", {"o": "rows", "n": n, "a": False, "d": None}, ""], ["ping"]):
                d.one(cmd)
                st.count("wrapped")


def run_wide(case, st):
    """As many parameters and columns as the protocol can count"""
    d = Driver(case, st)
    size = case["size"]
    with d.w:
        d.followups = []
        for decl in ("names", "typed"):
            spec = {"o": "rows", "n": 2, "c": size, "src": "gen", "decl": decl, "w": 0, "nulls": decl == "names", "susp": False}
            small = dict(spec, c=1)
            for cmd in (["query", spec, 0], ["prepare", small, size], ["ping"], ["prepare", spec, 1],
                        ["execute", len(d.stmts) + (size <= 65535), False, 0], ["ping"]):
                d.one(cmd)
                st.count("wide")
        st.seen("wide", case["caps"], size)


# ------------------------------------------------------------------ the library's own statements
TEXTS = [
    "", " ", ";", ";;", " ; ", "-- nothing", "/* nothing */", "# nothing", "\0", "SELECT 1", "SELECT 1;", "select 1; select 2",
    "SELECT", "SELECT FROM", "SELEC 1", "(", "'", "`", "SELECT 1 +", "SELECT * FROM", "SELECT 1 FROM t WHERE", "🎉",
    "SELECT 1/0", "SELECT 1 % 0", "SELECT CAST('x' AS SIGNED)", "SELECT nofunc(1)", "SELECT NOW(), CURDATE(), CURTIME()",
    "SELECT @@version", "SELECT @@nope", "SELECT @user_var", "SELECT @@global.version", "SELECT @@session.autocommit",
    "SELECT USER(), CURRENT_USER, DATABASE(), CONNECTION_ID()", "SELECT NULL", "SELECT NULL, 1", "SELECT 'a' AS a, 2 AS a",
    "SELECT 1 UNION SELECT 2", "SELECT 1 LIMIT 0", "SELECT 1 WHERE 1 = 0", "SELECT 1 ORDER BY 1", "SELECT DISTINCT 1",
    "SELECT 1 GROUP BY 1", "SELECT COUNT(*)", "SELECT 1 INTO OUTFILE 'x'", "SELECT 1 FOR UPDATE", "SELECT x", "SELECT *",
    "SELECT SLEEP(0)", "SELECT 9999999999999999999999", "SELECT -9223372036854775808", "SELECT 1e400", "SELECT 1.5, -0.0",
    "SELECT TRUE, FALSE", "SELECT '\u00e9\u4e2d'", "SELECT X'ff'", "SELECT b'1'", "SELECT INTERVAL 1 DAY", "SELECT (SELECT 1)",
    "SHOW VARIABLES", "SHOW VARIABLES LIKE 'ver%'", "SHOW VARIABLES LIKE ''", "SHOW STATUS", "SHOW WARNINGS", "SHOW ERRORS",
    "SHOW DATABASES", "SHOW TABLES", "SHOW FULL TABLES", "SHOW TABLES FROM db1", "SHOW TABLES FROM nope", "SHOW COLUMNS FROM t1",
    "SHOW FULL COLUMNS FROM t1 FROM db1", "SHOW COLUMNS FROM nope", "SHOW INDEX FROM t1", "SHOW NOPE", "SHOW", "SHOW ENGINES",
    "SHOW CREATE TABLE t1", "SHOW PROCESSLIST", "SHOW GRANTS", "SHOW COLLATION", "SHOW CHARACTER SET", "DESCRIBE t1", "DESC db1.t1",
    "DESCRIBE nope", "DESCRIBE SELECT 1", "EXPLAIN SELECT 1 FROM t1", "EXPLAIN t1", "DESCRIBE",
    "SET autocommit = 1", "SET autocommit = 'maybe'", "SET nope = 1", "SET version = '1'", "SET @x = 1", "SET GLOBAL autocommit = 1",
    "SET NAMES utf8mb4", "SET NAMES nope", "SET NAMES utf8mb4 COLLATE nope", "SET CHARACTER SET utf8mb4", "SET CHARACTER SET nope",
    "SET TRANSACTION READ ONLY", "SET SESSION TRANSACTION ISOLATION LEVEL SERIALIZABLE", "SET GLOBAL TRANSACTION READ ONLY",
    "SET time_zone = '+01:00'", "SET time_zone = 'nope'", "SET time_zone = DEFAULT", "SET", "SET x", "SET autocommit = (SELECT 1)",
    "SET autocommit = 1, nope = 2", "SET PASSWORD = 'x'", "SET wait_timeout = 99999999999999999999", "SET sql_mode = NULL",
    "USE db1", "USE nope", "USE", "USE `we ird`", "KILL 1", "KILL QUERY 1", "KILL CONNECTION 99999999999", "KILL nope", "KILL",
    "KILL QUERY 'x'", "BEGIN", "START TRANSACTION", "COMMIT", "ROLLBACK", "ROLLBACK TO SAVEPOINT s", "SAVEPOINT s", "COMMIT AND CHAIN",
    "SELECT * FROM information_schema.tables", "SELECT * FROM information_schema.nope", "SELECT nope FROM information_schema.tables",
    "SELECT COUNT(*) FROM information_schema.columns WHERE table_schema = 'db1'", "SELECT table_name FROM information_schema.tables "
    "ORDER BY 1 LIMIT 2", "SELECT * FROM information_schema.tables t JOIN information_schema.columns c ON t.table_name = c.table_name "
    "WHERE t.table_schema = 'db1'", "SELECT * FROM mysql.user", "SELECT * FROM information_schema.schemata WHERE nofunc(1)",
    "SELECT /*+ SET_VAR(autocommit = 0) */ 1", "SELECT /*+ SET_VAR(nope = 0) */ 1", "SELECT /*+ SET_VAR(version = 'x') */ 1 FROM t1",
    "SELECT /*+ NOPE */ 1", "SELECT /*+ SET_VAR(time_zone = 'bad') */ a FROM t1", "INSERT INTO t1 VALUES (1)", "DELETE FROM t1",
    "UPDATE t1 SET a = 1", "CREATE TABLE x (a INT)", "DROP TABLE x", "CALL p()", "LOAD DATA INFILE 'x' INTO TABLE t", "TRUNCATE t1",
    "GRANT ALL ON x TO y", "LOCK TABLES t1 READ", "UNLOCK TABLES", "ANALYZE TABLE t1", "SELECT a FROM t1", "WITH c AS (SELECT 1) SELECT * FROM c",
    "SELECT a FROM t1; SELECT 1; SHOW NOPE", "SELECT 1; INSERT INTO t1 VALUES (1)", "SHOW NOPE; SELECT 1", "BEGIN; SELECT a FROM t1; COMMIT",
    "VALUES ROW(1)", "TABLE t1", "DO 1", "HANDLER t OPEN", "PREPARE s FROM 'SELECT 1'", "EXECUTE s", "XA START 'x'", "DELIMITER //",
    "SELECT ?", "SELECT * FROM t1 WHERE a = ?", "SET autocommit = ?", "SHOW TABLES LIKE ?", "USE ?", "LIMIT ?", "?", "? ?", "'?'", "KILL ?",
]


async def sess_handler(sess, sql, attrs, expression=None):
    w = sess.world
    rng = w.rng
    r = rng.random()
    if r < 0.25:
        raise app_exc(rng.choice(KINDS), rng.choice(MSGS))
    if r < 0.35:
        return None
    if r < 0.4:
        return [], []
    n = rng.choice([0, 1, 3])
    return [[i, None, "x"] for i in range(n)], ["a", "b", "c"]


def run_sess(case, st):
    """Statements that the library handles or refuses, in the text protocol, prepared, and with cursors."""
    rng = random.Random(case["seed"])
    kw = {}
    if case.get("srv"):
        kw["capabilities"] = Capabilities(int(DEFAULT_SERVER_CAPABILITIES) | P.OPTIONAL_META)
        case = dict(case, caps=case["caps"] | P.OPTIONAL_META)
    w = World(session=RecSession, identity=FixedIdentity(allow_any=True), handler=sess_handler, **kw)
    w.rng = rng
    with w:
        c = w.connect()
        r = c.login(user="u", client_caps=P.BASE_CAPS | case["caps"], db="db1" if case["caps"] & P.CONNECT_WITH_DB else None)
        if r.kind != "ok":
            raise Violation(f"login answered {r}")
        w.sessions[-1].mapping = rng.choice([{}, {"db1": {"t1": {"a": "INT", "b": "TEXT"}}}, {"t1": {"a": "INT"}},
                                             {"c": {"db1": {"t1": {"a": "INT"}, "t2": {}}}}])
        caps = c.caps

        def call(what, pay, parse):
            pl = c.cmd(pay)
            if not pl:
                raise Violation(f"{what}: no response" + (" (connection closed)" if c.closed() else ""))
            try:
                r = parse(pl)
            except P.ProtoError as e:
                raise Violation(f"{what}: {e}")
            st.count("responses")
            st.count("resp." + r.kind)
            st.seen("sess", caps & (sum(OPT) | P.OPTIONAL_META), what[:60], r.kind)
            if c.closed():
                raise Violation(f"connection closed after {what}")
            return r

        for sql in rng.sample(TEXTS, 45):
            how = rng.choice(["query", "query", "prep", "cursor", "fields", "initdb"])
            if how == "query":
                call(f"COM_QUERY {sql!r}", P.com_query(sql, caps), lambda pl: P.parse_query(pl, caps))
            elif how == "fields":
                call(f"COM_FIELD_LIST {sql!r}", P.com_field_list(sql.replace("\0", "").encode(), b"a%" * rng.randrange(2)),
                     lambda pl: P.parse_field_list(pl, caps))
            elif how == "initdb":
                call(f"COM_INIT_DB {sql!r}", bytes([P.COM_INIT_DB]) + sql.encode(), lambda pl: P.parse_simple(pl, caps))
            else:
                p = call(f"COM_STMT_PREPARE {sql!r}", P.com_stmt_prepare(sql), lambda pl: P.parse_prepare(pl, caps))
                if p.kind == "prep":
                    cur = how == "cursor"
                    for _ in range(rng.choice([1, 2])):
                        r = call(f"COM_STMT_EXECUTE {sql!r} cursor={cur}",
                                 P.com_stmt_execute(p.stmt_id, [("i64", rng.choice([0, 1, 5]))] * p.nparams, caps, cur),
                                 lambda pl: P.parse_query(pl, caps, binary=True, cursor=cur))
                        if r.kind == "rs" and cur:
                            for n in (1, 1000):
                                call(f"COM_STMT_FETCH {sql!r}", P.com_stmt_fetch(p.stmt_id, n),
                                     lambda pl: P.parse_fetch(pl, caps, r.cols))
            if rng.random() < 0.3:
                call("COM_PING after " + repr(sql), bytes([P.COM_PING]), lambda pl: P.parse_simple(pl, caps))
        w.quiesce()
        if c.pending_bytes():
            raise Violation("unsolicited bytes after the conversation")
        st.count("session_statements", 45)
