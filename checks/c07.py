"""C07: malformed or hostile packets cannot hang, crash or wedge the server."""
import random
import struct
import resource
import time
import tracemalloc

from vlib import proto as P
from vlib.apps import FixedIdentity, RecBase, RecSession
from vlib.client import World, native_scramble
from vlib.proto import ProtoError
from vlib.runner import CpuBudget, Violation

from mysql_mimic import NativePasswordAuthPlugin, User
from mysql_mimic.auth import AbstractClearPasswordAuthPlugin

ID = "C07"
LEVEL = "exploration"
RULE = ("hostile byte strings (truncation at every offset, field mutations, bit flips, random bytes, wrong sequence "
        "numbers, hostile SQL) sent at every stage of a connection; monitors: response is one ERR or close, the "
        "connection is in step, witness and new connections are served, CPU per packet, registry release; "
        "distinct = (stage, packet kind, mutation, outcome)")
ASSUMPTIONS = ["a malformed packet of a command that has no reply may be answered by ERR, by nothing or by close",
               "packets that only deviate in ways a lenient parser may accept are required to be answered completely "
               "and in step, not to be rejected",
               "work per packet: CPU seconds < 2 + bytes * 20e-6 for protocol packets, < 3 + bytes * 400e-6 for SQL"]
EXHAUSTIVE = ["truncation of every template packet at every offset, for 6 capability sets",
              "every command byte 0..255 with an empty and a short body", "every wrong sequence number 0..255"]
MIN = {"hostile": 8000, "must_reject": 3000, "witness": 2000, "fresh_conn": 500, "released": 1000, "timed": 100, "memory_measured": 3000}
DEADLINE = {"quick": 480, "thorough": 780}
CASE_CPU = 40

CAPS = [P.BASE_CAPS | P.DEPRECATE_EOF | P.LENENC_AUTH,
        P.BASE_CAPS | P.DEPRECATE_EOF | P.LENENC_AUTH | P.QUERY_ATTRIBUTES | P.CONNECT_ATTRS,
        P.BASE_CAPS | P.CONNECT_ATTRS | P.CONNECT_WITH_DB,
        P.BASE_CAPS | P.QUERY_ATTRIBUTES | P.OPTIONAL_META | P.LENENC_AUTH | P.CONNECT_WITH_DB | P.CONNECT_ATTRS,
        P.PROTOCOL_41 | P.SECURE_CONNECTION,
        P.BASE_CAPS | P.DEPRECATE_EOF | P.QUERY_ATTRIBUTES]
INTS = [0, 1, 7, 8, 250, 251, 252, 253, 254, 255, 256, 2**16 - 1, 2**16, 2**24 - 1, 2**24, 2**31, 2**32 - 1, 2**63,
        2**64 - 1]
NPARAMS = {"SELECT ? FROM x": 1, "SELECT a FROM x": 0, "SELECT ?, ?, ? FROM x": 3}
NOREPLY = {P.COM_STMT_CLOSE, P.COM_STMT_SEND_LONG_DATA, P.COM_QUIT}
KNOWN_TYPES = set(range(0, 17)) | set(range(242, 256)) | {17, 18, 19, 20, 244, 245}
READABLE = {0x0f, 0xfd, 0xfe, 0xfc, 0xf9, 0xfa, 0xfb, 1, 244, 2, 13, 3, 9, 8, 4, 5, 6}


class Clear(AbstractClearPasswordAuthPlugin):
    name = "clear_app"

    async def check(self, username, password):
        return username if password == "pw" else None


def identity():
    clear = Clear()
    nat = NativePasswordAuthPlugin()
    users = {"u": User(name="u", auth_plugin=nat.name),
             "n": User(name="n", auth_plugin=nat.name, auth_string=NativePasswordAuthPlugin.create_auth_string("pw")),
             "c": User(name="c", auth_plugin=clear.name)}
    return FixedIdentity(users, [nat, clear])


def handler(s, sql, attrs, *a):
    if "boom" in sql:
        raise RuntimeError("application error")
    return [("r0", 0), ("r1", 1), ("r2", 2)], ["tag", "i"]


class Env:
    """One world with a witness connection, used for a batch of hostile connections."""

    def __init__(self, st, tls=False, full=False):
        self.st = st
        self.w = World(session=RecSession if full else RecBase, handler=handler, identity=identity(), tls=tls)
        self.wit = self.w.login()
        self.wit_prep = self.wit.prepare("SELECT ? FROM x").stmt_id

    def witness(self, what):
        r = self.wit.ping()
        if r.kind != "ok":
            raise Violation(f"another connection is not served after {what}: PING answered {r!r}")
        self.st.count("witness")

    def fresh(self, what):
        before = set(self.w.control.live)
        c = self.w.connect()
        r = c.login(client_caps=CAPS[0])
        if r.kind != "ok":
            raise Violation(f"a new connection is not accepted after {what}: {r!r}")
        r = c.query("SELECT a FROM x")
        if r.kind != "rs" or len(r.rows) != 3:
            raise Violation(f"a new connection is not served after {what}: {r!r}")
        s = c.prepare("SELECT ? FROM x")
        r = c.execute(s.stmt_id, [("string", "v")])
        if r.kind != "rs":
            raise Violation(f"a new connection's prepared statement is not served after {what}: {r!r}")
        c.quit()
        if not c.closed() or set(self.w.control.live) != before:
            raise Violation(f"a new connection was not released after {what}")
        self.st.count("fresh_conn")

    def gone(self, c, what, cid):
        """The client closes (or has been closed): everything of this connection must be released."""
        if not c.closed():
            c.eof()
            self.w.quiesce()
        if not c.closed():
            self.w.loop.advance(120)   # time-outs of the event loop's own TLS machinery
            self.w.quiesce()
        if not c.closed():
            raise Violation(f"socket still open after {what} and end of stream")
        live = dict(self.w.control.live)
        if cid is not None and cid in live:
            raise Violation(f"connection {cid} is still registered after {what} and its end")
        if len(live) != 1 or getattr(self.w.control, "_connections", live).keys() != live.keys():
            raise Violation(f"{len(live)} connections registered after {what}, only the witness is alive")
        self.w.conns.remove(c)
        self.st.count("released")

    def end(self):
        self.wit.quit()
        if not self.wit.closed() or self.w.control.live:
            raise Violation("witness connection not released")
        if self.w.tasks():
            raise Violation(f"tasks still running after all connections ended: {self.w.tasks()[:2]}")
        self.w.close()


class Timed:
    def __init__(self, st, n, what, sql=False):
        self.st, self.n, self.what, self.sql = st, n, what, sql

    def __enter__(self):
        self.t = time.process_time()
        if tracemalloc.is_tracing():
            tracemalloc.reset_peak()
            self.base = tracemalloc.get_traced_memory()[0]

    def __exit__(self, t, e, tb):
        if t is not None:
            return
        dt = time.process_time() - self.t
        if tracemalloc.is_tracing():
            used = tracemalloc.get_traced_memory()[1] - self.base
            self.st.count("memory_measured")
            self.st.peak("bytes_allocated_per_packet", used)
            if used > 4 * 2**20 + 300 * self.n:
                raise Violation(f"{self.what}: {self.n} bytes made the server allocate {used} bytes", key="memory")
        limit = 3 + self.n * 400e-6 if self.sql else 2 + self.n * 20e-6
        self.st.count("timed")
        self.st.peak("cpu_per_packet_s", round(dt, 3))
        if dt > limit:
            raise Violation(f"{self.what}: {self.n} bytes cost {dt:.1f} s of CPU, more than {limit:.1f} s", key="work")


# ----------------------------------------------------------------- strict classification
def lenenc(b):
    """-> (value, odd?)"""
    f = b.u(1)
    if f < 251:
        return f, False
    if f in (0xFB, 0xFF):
        return f, True
    v = b.u({0xFC: 2, 0xFD: 3, 0xFE: 8}[f])
    return v, False


def params(b, n, named, long_idx=()):
    """Returns 'bad' when this parameter block cannot be what its own counts say, else 'ok'/'odd'."""
    odd = False
    if n > 4 * b.left() + 64:
        return "bad"
    bitmap = b.take((n + 7) // 8)
    if b.u(1) != 1:
        return "odd"          # re-use of earlier types: servers differ
    ts = []
    for i in range(n):
        t = b.u(1)
        b.u(1)
        ts.append(t)
        if named:
            ln, o = lenenc(b)
            odd |= o
            b.take(ln)
    for i, t in enumerate(ts):
        if bitmap[i // 8] >> (i % 8) & 1 or i in long_idx:
            continue
        if t not in READABLE:
            odd = True
            return "odd"
        if t in (0x0f, 0xfd, 0xfe, 0xfc, 0xf9, 0xfa, 0xfb):
            ln, o = lenenc(b)
            odd |= o
            if o:
                return "odd"
            b.take(ln)
        else:
            b.take({1: 1, 244: 1, 2: 2, 13: 2, 3: 4, 9: 4, 8: 8, 4: 4, 5: 8, 6: 0}[t])
    return "odd" if odd else "ok"


def classify(payload, caps, stmts, long_idx=()):
    """bad = certainly malformed or unknown: ERR/close required; odd = anything complete; ok = well-formed."""
    if not payload:
        return "bad"
    cmd = payload[0]
    b = P.Buf(payload[1:])
    try:
        if cmd == P.COM_QUERY:
            if caps & P.QUERY_ATTRIBUTES:
                n, o = lenenc(b)
                _, o2 = lenenc(b)
                if o or o2:
                    return "odd"
                if n:
                    return params(b, n, True)
            return "ok"
        if cmd == P.COM_STMT_EXECUTE:
            sid = b.u(4)
            if sid not in stmts:
                return "bad"
            f = b.u(1)
            b.u(4)
            if f & ~9:
                return "odd"
            np = stmts[sid]
            if caps & P.QUERY_ATTRIBUTES and (f & 8 or np):
                n, o = lenenc(b)
                if o:
                    return "odd"
                if n < np:
                    return "odd" if not n else "bad"
                return params(b, n, True, long_idx) if n else "ok"
            if np:
                return params(b, np, False, long_idx)
            return "ok"
        if cmd == P.COM_STMT_FETCH:
            sid = b.u(4)
            b.u(4)
            return "bad" if sid not in stmts else "odd"
        if cmd == P.COM_STMT_RESET:
            return "bad" if b.u(4) not in stmts else "ok"
        if cmd == P.COM_STMT_CLOSE:
            b.u(4)
            return "ok"
        if cmd == P.COM_STMT_SEND_LONG_DATA:
            b.u(6)
            return "ok"
        if cmd == P.COM_FIELD_LIST:
            b.nul()
            return "odd"
        if cmd == P.COM_CHANGE_USER:
            user = b.nul()
            if caps & P.SECURE_CONNECTION:
                b.take(b.u(1))
            else:
                b.nul()
            b.nul()
            if not b.left():
                return "odd"
            b.u(2)
            if caps & P.PLUGIN_AUTH:
                b.nul()
            if caps & P.CONNECT_ATTRS:
                attrs(b)
            return "odd"
        if cmd in (P.COM_PING, P.COM_INIT_DB, P.COM_STMT_PREPARE, P.COM_QUIT, 0x1F, 0x0D):
            return "ok"
        if cmd in (0x02, 0x0E, 0x03):
            return "ok"
        return "unknown"
    except ProtoError:
        return "bad"


def attrs(b):
    """Only a block that is longer than the packet is certainly malformed; its inside may be read leniently."""
    total, odd = lenenc(b)
    if odd:
        b.rest()
        return
    b.take(total)


def classify_hs(payload, server_caps):
    b = P.Buf(payload)
    try:
        caps = b.u(4) & server_caps
        b.take(28)
        if not b.left():
            return "bad" if not server_caps & P.SSL else "ssl"
        if not caps & P.PROTOCOL_41:
            return "odd"
        b.nul()
        if caps & P.LENENC_AUTH:
            n, o = lenenc(b)
            if o:
                return "odd"
            b.take(n)
        else:
            b.take(b.u(1))
        if caps & P.CONNECT_WITH_DB:
            b.nul()
        if caps & P.PLUGIN_AUTH:
            b.nul()
        if caps & P.CONNECT_ATTRS:
            attrs(b)
        return "odd"
    except ProtoError:
        return "bad"


# ----------------------------------------------------------------- templates and mutations
def templates(caps, sids):
    s0, s1, s3 = sids
    at = [("attr", ("string", "value")), ("n", ("i32", -5)), ("z", ("null", None))]
    out = [
        ("query", P.com_query("SELECT a FROM x", caps)),
        ("query_attrs", P.com_query("SELECT a FROM x", caps, at if caps & P.QUERY_ATTRIBUTES else ())),
        ("prepare", P.com_stmt_prepare("SELECT ?, a FROM x")),
        ("execute1", P.com_stmt_execute(s1, [("string", "abc")], caps)),
        ("execute0", P.com_stmt_execute(s0, [], caps, cursor=True)),
        ("execute3", P.com_stmt_execute(s3, [("i64", -1), ("varchar", "x" * 20), ("f64", 1.5)], caps,
                                        attrs=at if caps & P.QUERY_ATTRIBUTES else ())),
        ("fetch", P.com_stmt_fetch(s0, 2)),
        ("reset", P.com_stmt_reset(s1)),
        ("close", P.com_stmt_close(s1)),
        ("long", P.com_stmt_long(s1, 0, b"chunk")),
        ("field_list", P.com_field_list(b"x", b"%")),
        ("init_db", bytes([P.COM_INIT_DB]) + b"db1"),
        ("ping", bytes([P.COM_PING])),
        ("change_user", P.com_change_user(caps, b"u", b"", b"db", plugin=b"mysql_native_password",
                                          attrs={b"k": b"v", b"k2": b"w" * 30})),
    ]
    return out


def parse_for(cmd, caps, c, sid=None):
    if cmd == P.COM_QUERY:
        return lambda pl: P.parse_query(pl, caps)
    if cmd == P.COM_STMT_PREPARE:
        return lambda pl: P.parse_prepare(pl, caps)
    if cmd == P.COM_FIELD_LIST:
        return lambda pl: P.parse_field_list(pl, caps)
    return lambda pl: P.parse_simple(pl, caps)


class Hostile:
    """A hostile connection in the command phase."""

    def __init__(self, env, caps, user="u"):
        self.env, self.st = env, env.st
        self.c = env.w.connect()
        r = self.c.login(user=user, client_caps=caps)
        if r.kind == "switch":
            data, nseq = P.frame(b"", r.seq)
            self.c.deliver(data)
            env.w.quiesce()
            r = self.c.auth_result(nseq)
        if r.kind != "ok":
            raise ProtoError(f"login: {r!r}")
        self.caps = self.c.caps
        self.cid = self.c.hs.thread_id
        self.stmts = {}
        for sql in ("SELECT a FROM x", "SELECT ? FROM x", "SELECT ?, ?, ? FROM x"):
            p = self.c.prepare(sql)
            self.stmts[p.stmt_id] = NPARAMS[sql]
        self.sids = list(self.stmts)
        self.open_cursor = self.c.execute(self.sids[0], cursor=True)
        self.long_idx = {}

    def hit(self, payload, label, timed=False, sql=False):
        """Send one hostile command packet; returns False when the server closed the connection."""
        c, st = self.c, self.st
        sid = int.from_bytes(payload[1:5], "little") if len(payload) >= 5 else None
        verdict = classify(payload, self.caps, self.stmts, self.long_idx.get(sid, ()))
        if verdict == "bad" and payload[:1] == bytes([P.COM_STMT_EXECUTE]) and self.long_idx.get(sid):
            verdict = "odd"     # values may come from long data sent before
        what = f"{label}: payload {payload[:60].hex()}{'...' if len(payload) > 60 else ''} ({len(payload)} bytes)"
        st.count("hostile")
        cmd = payload[0] if payload else None
        seq = c.send(payload)
        # the witness's command arrives in the same instant
        ws = self.env.wit.send(bytes([P.COM_PING]))
        with Timed(st, len(payload), what, sql):
            self.env.w.quiesce()
        wr = P.parse_simple(self.env.wit.take_payloads(ws), self.env.wit.caps)
        if wr.kind != "ok":
            raise Violation(f"witness PING answered {wr!r} while {what}")
        st.count("witness")
        pl = c.take_payloads(seq)
        closed = c.closed()
        outcome = "closed" if closed else "none"
        if cmd == P.COM_QUIT:
            if pl or not closed:
                raise Violation(f"COM_QUIT answered/ignored; {what}")
            return False
        if pl:
            if verdict in ("bad", "unknown"):
                r = P.parse_simple(pl, self.caps)
                if r.kind != "err":
                    raise Violation(f"malformed packet answered with {r!r} instead of ERR; {what}")
                st.count("must_reject")
                outcome = "err"
            elif cmd in NOREPLY:
                if verdict == "ok":
                    raise Violation(f"no-reply command was answered ({pl[0][:30]!r}); {what}")
                r = P.parse_simple(pl, self.caps)
                if r.kind != "err":
                    raise Violation(f"no-reply command was answered with {r!r}; {what}")
                outcome = "err"
            elif cmd == P.COM_CHANGE_USER:
                if len(pl) == 1 and pl[0][:1] in (b"\xfe", b"\x01"):
                    return self.after_switch(what)
                r = P.parse_simple(pl, self.caps)
                outcome = r.kind
            elif cmd == P.COM_STMT_EXECUTE:
                cursor = bool(payload[5] & 1) if len(payload) > 5 else False
                r = P.parse_query(pl, self.caps, binary=True, cursor=cursor)
                outcome = r.kind
                if r.kind == "rs":
                    c.stmt_cols[sid] = r.cols
            elif cmd == P.COM_STMT_FETCH:
                r = P.parse_fetch(pl, self.caps, c.stmt_cols.get(sid, ()))
                outcome = r.kind
            else:
                r = parse_for(cmd, self.caps, c)(pl)
                outcome = r.kind
            if cmd == P.COM_STMT_PREPARE and r.kind == "prep":
                self.stmts[r.stmt_id] = r.nparams
            if verdict == "ok" and r.kind == "err" and cmd in (P.COM_PING, P.COM_STMT_RESET):
                raise Violation(f"well-formed packet rejected: {r!r}; {what}")
        else:
            if not closed and (cmd not in NOREPLY or not payload):
                raise Violation(f"no response and not closed (client is wedged); {what}")
            if verdict in ("bad", "unknown"):
                st.count("must_reject")
        if cmd == P.COM_STMT_CLOSE and verdict == "ok":
            self.stmts.pop(sid, None)
        if cmd == P.COM_STMT_SEND_LONG_DATA and verdict == "ok":
            self.long_idx.setdefault(sid, set()).add(int.from_bytes(payload[5:7], "little"))
        st.seen(label.split("@")[0], cmd, verdict, outcome, len(payload) % 64)
        if closed:
            return False
        p = c.ping()
        if p.kind != "ok":
            if p.kind == "closed":
                return False
            raise Violation(f"connection out of step: PING answered {p!r} after {what}")
        return True

    def after_switch(self, what):
        c = self.c
        data, _ = P.frame(b"\x01garbage", c.next_seq)
        c.deliver(data)
        self.env.w.quiesce()
        pl = c.take_payloads(c.next_seq + 1)
        if pl:
            r = P.parse_simple(pl, self.caps)
            if r.kind == "ok":
                raise Violation(f"garbage proof accepted after {what}")
        if not c.closed():
            raise Violation(f"failed COM_CHANGE_USER left the connection open after {what}")
        return False

    def finish(self, what):
        self.env.gone(self.c, what, self.cid)


# ----------------------------------------------------------------- cases
def gen(tier, seed):
    thorough = tier == "thorough"
    yield {"k": "known"}
    for i in range(len(HOSTILE_SQL)):
        yield {"k": "sql", "i": i}
    for i in range(len(BIG)):
        yield {"k": "big", "i": i}
    for ci in range(len(CAPS)):
        for ti in range(14):
            yield {"k": "trunc", "caps": ci, "t": ti}
        yield {"k": "hstrunc", "caps": ci, "tls": False, "user": "u"}
        yield {"k": "hstrunc", "caps": ci, "tls": True, "user": "n"}
        yield {"k": "cmds", "caps": ci}
    for base in range(0, 256, 16):
        yield {"k": "seq", "base": base}
    for ci in (range(6) if thorough else (1, 3, 4)):
        for ti in range(15):
            yield {"k": "mem", "caps": ci, "t": ti}
    for i in range(30):
        yield {"k": "tls", "seed": f"{seed}/{i}", "i": i}
    for i in range(24 if not thorough else 200):
        yield {"k": "auth", "seed": f"{seed}/{i}"}
    n = 1600 if not thorough else 40000
    for i in range(n):
        yield {"k": "mut", "seed": f"{seed}/{i}"}
        if i % 2 == 0:
            yield {"k": "hsmut", "seed": f"{seed}/{i}"}
        if i % 4 == 0:
            yield {"k": "rand", "seed": f"{seed}/{i}"}
        if i % 4 == 1:
            yield {"k": "sqlmut", "seed": f"{seed}/{i}"}
        if i % 4 == 2:
            yield {"k": "frames", "seed": f"{seed}/{i}"}


def run(case, st):
    globals()["run_" + case["k"]](case, st, random.Random(f"{case['k']}/{case.get('seed')}"))


def run_trunc(case, st, rng):
    env = Env(st)
    h = None
    n = 0
    for off in range(0, 400):
        if h is None:
            h = Hostile(env, CAPS[case["caps"]])
        name, p = templates(h.caps, h.sids)[case["t"]]
        if off > len(p):
            break
        ok = h.hit(p[:off], f"trunc/{name}@{off}")
        if ok and name in ("close", "change_user", "prepare"):
            ok = False if h.sids[1] not in h.stmts or len(h.stmts) > 40 else ok
        n += 1
        if not ok or off % 7 == 6:
            h.finish(f"truncated {name}")
            h = None
    if h:
        h.finish("truncated packets")
    env.fresh("truncated packets")
    env.end()


def run_mem(case, st, rng):
    """Absurd lengths and counts at every offset: memory must not be allocated on their word."""
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, resource.getrlimit(resource.RLIMIT_AS)[1]))
    env = Env(st)
    tracemalloc.start(1)
    try:
        if case["t"] == 14:
            for off in range(4, 120):
                for v in (2**27 + 1, 2**33):
                    hs_hit(env, lambda hs: (lambda p: p[:off] + P.lenenc(v) + p[off + 1:])(
                        hs_templates(CAPS[case["caps"]] & hs.caps, "u", hs.nonce, False)[0]), False, f"memhs@{off}", st)
            env.end()
            return
        h = None
        for off in range(1, 400):
            h = h or Hostile(env, CAPS[case["caps"]])
            name, p = templates(h.caps, h.sids)[case["t"]]
            if off > len(p):
                break
            for v in (2**27 + 1, 2**33):
                for m in (p[:off] + P.lenenc(v) + p[off + 1:], p[:off] + P.lenenc(v) + p[off:],
                          p[:off] + (v % 2**32).to_bytes(4, "little") + p[off + 4:]):
                    h = h or Hostile(env, CAPS[case["caps"]])
                    if not h.hit(m, f"mem/{name}@{off}") or h.sids[1] not in h.stmts or len(h.stmts) > 40:
                        h.finish(f"absurd count in {name}")
                        h = None
        if h:
            h.finish("absurd counts")
    finally:
        tracemalloc.stop()
    env.end()


def run_cmds(case, st, rng):
    env = Env(st, full=case["caps"] % 2 == 0)
    for cmd in range(256):
        h = Hostile(env, CAPS[case["caps"]])
        alive = h.hit(bytes([cmd]), "cmd/empty@%d" % cmd)
        if alive:
            alive = h.hit(bytes([cmd]) + b"\x01\x02\x03", "cmd/short@%d" % cmd)
        if alive:
            h.hit(bytes([cmd]) + bytes(40), "cmd/zeros@%d" % cmd)
        h.finish(f"command {cmd}")
    h = Hostile(env, CAPS[case["caps"]])
    h.hit(b"", "cmd/nothing")
    h.finish("empty payload")
    env.fresh("all commands")
    env.end()


def run_seq(case, st, rng):
    """Wrong sequence numbers in the handshake and in the command phase."""
    env = Env(st)
    for seq in range(case["base"], case["base"] + 16):
        if seq != 1:
            c = env.w.connect()
            hs = c.greet()
            pay = P.handshake_response(CAPS[0], user=b"u", plugin=b"mysql_native_password")
            c.deliver(P.frame(pay, seq)[0])
            env.w.quiesce()
            pl = c.take_payloads()
            if pl and not P.is_err(pl[0]):
                raise Violation(f"handshake response with sequence number {seq} was answered {pl[0][:20]!r}")
            if len(pl) > 1:
                raise Violation(f"{len(pl)} packets after a handshake response with sequence number {seq}")
            if not c.closed():
                raise Violation(f"handshake response with sequence number {seq}: connection not closed")
            st.count("must_reject")
            st.count("hostile")
            env.gone(c, "wrong sequence number in the handshake", hs.thread_id)
        if seq != 0:
            h = Hostile(env, CAPS[seq % len(CAPS)])
            c = h.c
            c.deliver(P.frame(P.com_query("SELECT boom FROM x", h.caps), seq)[0])
            env.w.quiesce()
            pl = c.take_payloads()
            st.count("hostile")
            st.count("must_reject")
            if len(pl) > 1 or (pl and not P.is_err(pl[0])):
                raise Violation(f"command with sequence number {seq} was answered {pl[0][:20]!r}")
            if ("query", "SELECT boom FROM x", {}) in [x[1:] for x in env.w.log]:
                raise Violation(f"command with sequence number {seq} was executed")
            if not c.closed():
                if not pl:
                    raise Violation(f"command with sequence number {seq}: no answer and not closed")
                if c.ping().kind != "ok":
                    raise Violation(f"out of step after sequence number {seq}")
            st.seen("seq", seq, bool(pl))
            h.finish("wrong sequence number")
        env.witness(f"sequence number {seq}")
    env.fresh("wrong sequence numbers")
    env.end()


def hs_templates(caps, user, nonce, tls):
    auth = native_scramble("pw", nonce) if user == "n" else b""
    out = [P.handshake_response(caps, user=user.encode(), auth=auth, db=b"dbx", plugin=b"mysql_native_password",
                                attrs={b"_client_name": b"x", b"long": b"y" * 60})]
    return out


def hs_hit(env, data_after_ssl, tls, label, st, seq=1):
    """Send a handshake response payload on a fresh connection and judge the outcome."""
    c = env.w.connect()
    hs = c.greet()
    if tls:
        data, _ = P.frame(P.ssl_request(CAPS[0] | P.SSL), 1)
        c.deliver(data + c.start_tls())
        c.finish_tls()
        seq = 2
    payload = data_after_ssl(hs)
    verdict = classify_hs(payload, hs.caps)
    if tls and verdict == "ssl":
        verdict = "bad"
    what = f"{label}: handshake response {payload[:60].hex()} ({len(payload)} bytes)"
    c.deliver(P.frame(payload, seq)[0])
    ws = env.wit.send(bytes([P.COM_PING]))
    with Timed(st, len(payload), what):
        env.w.quiesce()
    if P.parse_simple(env.wit.take_payloads(ws), env.wit.caps).kind != "ok":
        raise Violation(f"witness not served during {what}")
    st.count("witness")
    st.count("hostile")
    if verdict == "ssl":
        # now expects TLS; give garbage
        c.deliver(b"\x16\x03\x01\x00\x05garbage-not-tls" * 3)
        env.w.quiesce()
        env.gone(c, what, hs.thread_id)
        return "ssl"
    pl = c.take_payloads()
    if len(pl) > 1:
        raise Violation(f"{len(pl)} packets in response to {what}")
    if not pl and not c.closed():
        raise Violation(f"no answer and not closed: {what}")
    out = "closed"
    if pl:
        out = {0xFF: "err", 0xFE: "switch", 1: "more", 0: "ok"}.get(pl[0][0], "other")
        if out == "err" and not c.closed() and not tls:   # (TLS closes after the client's close_notify)
            raise Violation(f"connection still open after its handshake was rejected: {what}")
        if out == "other":
            raise Violation(f"response {pl[0][:30]!r} to {what}")
        if verdict == "bad" and out != "err":
            raise Violation(f"malformed handshake response was answered {pl[0][:30]!r}: {what}")
        if out in ("switch", "more"):
            c.deliver(P.frame(b"garbage\0x", seq + 2)[0])
            env.w.quiesce()
            pl = c.take_payloads()
            if pl and pl[0][0] != 0xFF or not (c.closed() or tls and pl):
                raise Violation(f"garbage accepted as proof after {what}")
    if verdict == "bad":
        st.count("must_reject")
    st.seen("hs", label.split("@")[0], verdict, out, tls)
    env.gone(c, what, hs.thread_id)
    return out


def run_hstrunc(case, st, rng):
    env = Env(st, tls=case["tls"])
    caps = CAPS[case["caps"]]
    length = [1]
    off = 0
    while off <= length[0]:
        def make(hs, off=off):
            p = hs_templates(caps & hs.caps | (caps & P.QUERY_ATTRIBUTES), case["user"], hs.nonce, False)[0]
            length[0] = len(p)
            return p[:off]
        hs_hit(env, make, case["tls"] and off % 3 == 0, f"hstrunc@{off}", st)
        off += 1
    env.fresh("truncated handshakes")
    env.end()


def mutate(rng, p):
    """-> (label, bytes)"""
    p = bytearray(p)
    kind = rng.randrange(9)
    if kind == 0:      # flip bits
        for _ in range(rng.randint(1, 4)):
            if p:
                p[rng.randrange(len(p))] ^= 1 << rng.randrange(8)
    elif kind == 1:    # overwrite a byte with an interesting one
        for _ in range(rng.randint(1, 3)):
            if p:
                p[rng.randrange(len(p))] = rng.choice([0, 1, 7, 8, 250, 251, 252, 253, 254, 255])
    elif kind == 2:    # insert an absurd length/count
        i = rng.randrange(len(p) + 1)
        v = rng.choice(INTS)
        p[i:i] = P.lenenc(v)
    elif kind == 3:    # replace bytes by an absurd length/count
        i = rng.randrange(len(p) + 1)
        p[i:i + 1] = P.lenenc(rng.choice(INTS))
    elif kind == 4:    # overwrite an integer field
        n = rng.choice([1, 2, 4, 8])
        i = rng.randrange(len(p) + 1)
        p[i:i + n] = (rng.choice(INTS) % 2 ** (8 * n)).to_bytes(n, "little")
    elif kind == 5:    # remove NULs / terminators
        z = [i for i, x in enumerate(p) if x == 0 and i]
        if z:
            i = rng.choice(z)
            p[i:i + 1] = rng.choice([b"", b"x", b"\xff"])
    elif kind == 6:    # delete a slice
        i = rng.randrange(len(p) + 1)
        del p[i:i + rng.randint(1, 6)]
    elif kind == 7:    # duplicate / extend
        i = rng.randrange(len(p) + 1)
        p[i:i] = bytes(rng.randrange(256) for _ in range(rng.randint(1, 12)))
    else:              # truncate and append noise
        del p[rng.randrange(len(p) + 1):]
        p += bytes(rng.choice([0, 255, 254, 65]) for _ in range(rng.randint(0, 5)))
    return f"m{kind}", bytes(p)


def run_mut(case, st, rng):
    env = Env(st, full=rng.random() < .3)
    for _ in range(3):
        h = Hostile(env, rng.choice(CAPS))
        names = []
        for _ in range(12):
            ts = templates(h.caps, h.sids)
            name, p = rng.choice(ts)
            label, m = mutate(rng, p)
            if rng.random() < .2:
                l2, m = mutate(rng, m)
                label += l2
            if m[:1] == bytes([P.COM_QUIT]):
                continue
            names.append(name)
            if not h.hit(m, f"mut/{name}/{label}"):
                break
            if h.sids[1] not in h.stmts:
                break
        h.finish(f"mutated packets {names[-3:]}")
    env.fresh("mutated packets")
    env.end()


def run_hsmut(case, st, rng):
    tls = rng.random() < .3
    env = Env(st, tls=tls)
    for _ in range(8):
        caps = rng.choice(CAPS)
        user = rng.choice(["u", "n", "c", "nobody"])
        lab = []

        def make(hs):
            p = hs_templates(caps & hs.caps, user, hs.nonce, tls)[0]
            l1, m = mutate(rng, p)
            lab.append(l1)
            if rng.random() < .3:
                _, m = mutate(rng, m)
            return m
        hs_hit(env, make, tls and rng.random() < .4, "hsmut", st)
    env.fresh("mutated handshakes")
    env.end()


def run_auth(case, st, rng):
    """Garbage in the middle of an authentication exchange."""
    env = Env(st)
    for _ in range(12):
        c = env.w.connect()
        hs = c.greet()
        user = rng.choice(["n", "c"])
        plugin = b"mysql_clear_password" if user == "n" else b"mysql_native_password"
        pay = P.handshake_response(CAPS[0], user=user.encode(), auth=b"", plugin=plugin)
        c.deliver(P.frame(pay, 1)[0])
        env.w.quiesce()
        pl = c.take_payloads(2)
        if not pl or pl[0][0] not in (0xFE, 1):
            raise ProtoError(f"expected an auth switch, got {pl}")
        junk = rng.choice([b"", b"\0", b"x" * 19, b"x" * 21, bytes(20), bytes(rng.randrange(256) for _ in range(20)),
                           b"pw", b"\xff\xfe\0", b"a" * 100000])
        seq = 3 if rng.random() < .8 else rng.randrange(256)
        if user == "c" and junk == b"pw":
            junk = b"pwx"
        c.deliver(P.frame(junk, seq)[0])
        with Timed(st, len(junk), "auth reply"):
            env.w.quiesce()
        pl = c.take_payloads()
        if len(pl) > 1 or (pl and not P.is_err(pl[0])):
            raise Violation(f"garbage auth reply {junk[:30]!r} (seq {seq}) answered {pl[0][:20]!r}")
        if not c.closed():
            raise Violation(f"garbage auth reply {junk[:30]!r} (seq {seq}) did not end the connection")
        st.count("hostile")
        st.count("must_reject")
        st.seen("auth", user, junk[:4], seq == 3, bool(pl))
        env.gone(c, "garbage auth reply", hs.thread_id)
        env.witness("garbage auth reply")
    env.fresh("garbage auth replies")
    env.end()


def run_tls(case, st, rng):
    tls = case["i"] % 5 != 0
    env = Env(st, tls=tls)
    for _ in range(6):
        c = env.w.connect()
        hs = c.greet()
        req = P.frame(P.ssl_request(CAPS[0] | P.SSL), 1)[0]
        hello = c.start_tls()
        style = rng.choice(["garbage", "trunc", "http", "nothing", "flip", "plain", "eof", "record"])
        if style == "garbage":
            data = bytes(rng.randrange(256) for _ in range(rng.choice([1, 5, 50, 5000])))
        elif style == "trunc":
            data = hello[:rng.randrange(len(hello))]
        elif style == "http":
            data = b"GET / HTTP/1.0\r\n\r\n"
        elif style == "flip":
            d = bytearray(hello)
            for _ in range(3):
                d[rng.randrange(len(d))] ^= 1 << rng.randrange(8)
            data = bytes(d)
        elif style == "plain":
            data = P.frame(P.handshake_response(CAPS[0], user=b"u", plugin=b"mysql_native_password"), 2)[0]
        elif style == "record":
            data = b"\x16\x03\x01\xff\xff" + bytes(rng.choice([10, 70000]))
        else:
            data = b""
        if rng.random() < .5:
            c.deliver(req + data)
        else:
            c.deliver(req)
            env.w.quiesce()
            if data:
                c.deliver(data)
        env.w.quiesce()
        env.witness(f"TLS {style}")
        st.count("hostile")
        if not tls:
            pl = c.take_payloads()
            if len(pl) > 1 or (pl and not P.is_err(pl[0])):
                raise Violation(f"SSL request without TLS answered {pl[0][:20]!r}")
            if not c.closed():
                raise Violation("SSL request on a server without TLS left the connection open")
            st.count("must_reject")
        if env.w.sessions[-1].count("init") or env.w.sessions[-1].count("query"):
            raise Violation("session initialised by a broken TLS handshake")
        st.seen("tls", style, tls, c.closed())
        if rng.random() < .3 and not c.closed():
            c.reset()
            env.w.quiesce()
        env.gone(c, f"TLS {style}", hs.thread_id)
    env.fresh("broken TLS handshakes")
    env.end()


def run_rand(case, st, rng):
    """Random bytes, as raw stream or in valid frames, before and after authentication."""
    env = Env(st)
    for _ in range(8):
        pre = rng.random() < .5
        n = rng.choice([1, 3, 4, 5, 20, 200, 3000])
        body = bytes(rng.randrange(256) for _ in range(n))
        raw = rng.random() < .5
        if pre:
            c = env.w.connect()
            cid = c.greet().thread_id
        else:
            h = Hostile(env, rng.choice(CAPS))
            if not raw:
                if body[0] != P.COM_QUIT:
                    h.hit(body, "rand/framed")
                h.finish("random packet")
                continue
            c, cid = h.c, h.cid
        if not raw:
            body = P.frame(body, 1)[0]
        k = rng.randint(1, 3)
        cuts = sorted(rng.randrange(len(body) + 1) for _ in range(k))
        for a, b in zip([0] + cuts, cuts + [len(body)]):
            if b > a:
                c.deliver(body[a:b])
                env.w.quiesce()
        env.witness("random bytes")
        st.count("hostile")
        pl = c.take_payloads()
        if pre and pl and not P.is_err(pl[0]) and pl[0][0] not in (0xFE, 1):
            raise Violation(f"random bytes before authentication answered {pl[0][:20]!r}")
        st.seen("rand", pre, raw, n, len(pl), c.closed())
        env.gone(c, "random bytes", cid)
    env.fresh("random bytes")
    env.end()


def run_frames(case, st, rng):
    """Absurd frame lengths, incomplete frames, empty frames, many frames at once."""
    env = Env(st)
    for _ in range(6):
        pre = rng.random() < .3
        if pre:
            c = env.w.connect()
            cid = c.greet().thread_id
        else:
            h = Hostile(env, rng.choice(CAPS))
            c, cid = h.c, h.cid
        style = rng.choice(["absurd", "partial", "header", "empty", "many", "maxfirst", "noise_after"])
        seq = 1 if pre else 0
        if style == "absurd":
            c.deliver(b"\xff\xff\xff" + bytes([seq]) + b"\x03SELECT a FROM x")
        elif style == "partial":
            n = rng.choice([10, 300, 70000])
            c.deliver(n.to_bytes(3, "little") + bytes([seq]) + b"\x03" * rng.randrange(n))
        elif style == "header":
            c.deliver(b"\x05\0\0\0"[:rng.randint(1, 3)])
        elif style == "empty":
            c.deliver(b"\0\0\0" + bytes([seq]))
        elif style == "many":
            c.deliver((b"\x01\0\0\0\x0e") * 500)
        elif style == "maxfirst":
            c.deliver(b"\xff\xff\xff" + bytes([seq]) + bytes([P.COM_QUERY]) + b"x" * 100000)
        else:
            c.deliver(b"\x01\0\0\0\x0e" + b"\xff" * 7)
        with Timed(st, 100000, f"frames {style}"):
            env.w.quiesce()
        env.witness(f"frames {style}")
        st.count("hostile")
        pl = c.take_payloads()
        if style == "many" and not pre:
            if len(pl) != 500 or any(p[0] != 0 for p in pl):
                raise Violation(f"500 pipelined PINGs: {len(pl)} answers")
        elif style == "empty":
            if len(pl) > 1 or (pl and not P.is_err(pl[0])) or (not pl and not c.closed()):
                raise Violation(f"empty packet answered {pl!r} closed={c.closed()}")
            if pl and not pre and not c.closed() and c.ping().kind != "ok":
                raise Violation("out of step after an empty packet")
        elif style in ("absurd", "partial", "header", "maxfirst") and pl:
            raise Violation(f"incomplete packet was answered {pl[0][:20]!r}")
        st.seen("frames", style, pre, c.closed())
        if rng.random() < .4 and not c.closed():
            c.reset()
            env.w.quiesce()
        env.gone(c, f"frames {style}", cid)
    env.fresh("absurd frames")
    env.end()


N = 20000
BIG = [
    ("many attrs, tiny", lambda caps: b"\x03" + P.lenenc(N) + P.lenenc(1) + bytes((N + 7) // 8) + b"\x01"
     + b"\x01\x00\x01a" * N + b"\x05" * N + b"SELECT a FROM x", 1),
    ("many attrs, truncated", lambda caps: b"\x03" + P.lenenc(N) + P.lenenc(1) + bytes((N + 7) // 8) + b"\x01"
     + b"\x01\x00\x01a" * N + b"\x05" * (N // 2), 1),
    ("attr count 2^64-1", lambda caps: b"\x03" + P.lenenc(2**64 - 1) + P.lenenc(1) + bytes(200000), 1),
    ("attr count 2^62", lambda caps: b"\x03" + P.lenenc(2**62) + P.lenenc(1) + bytes(200000), 1),
    ("attr count 2^40", lambda caps: b"\x03" + P.lenenc(2**40) + P.lenenc(1) + b"\x01" * 200000, 1),
    ("attr count 2^24", lambda caps: b"\x03" + P.lenenc(2**24) + P.lenenc(1) + b"\x01" * 300000, 1),
    ("unterminated change user", lambda caps: bytes([P.COM_CHANGE_USER]) + b"u" * 1000000, 0),
    ("change user, junk attrs", lambda caps: bytes([P.COM_CHANGE_USER]) + b"u\0\0db\0\x2d\0mysql_native_password\0"
     + P.lenenc(2**63) + b"\x01a\x01b" * 50000, 1),
    ("change user, zero-length attrs", lambda caps: bytes([P.COM_CHANGE_USER])
     + b"u\0\0db\0\x2d\0mysql_native_password\0" + P.lenenc(2**63) + b"\0\0" * 100000, 1),
    ("field list unterminated", lambda caps: bytes([P.COM_FIELD_LIST]) + b"t" * 1000000, 0),
    ("quote marks", lambda caps: bytes([P.COM_STMT_PREPARE]) + b"'\"`\\" * 100000, 0),
    ("question marks", lambda caps: bytes([P.COM_STMT_PREPARE]) + b"? " * 65535, 0),
    ("too many question marks", lambda caps: bytes([P.COM_STMT_PREPARE]) + b"?," * 70000, 0),
    ("comment openers", lambda caps: bytes([P.COM_STMT_PREPARE]) + b"/* ' ? -- " * 30000, 0),
    ("spaces", lambda caps: bytes([P.COM_STMT_PREPARE]) + b" " * 500000 + b"?", 0),
    ("unclosed quotes", lambda caps: bytes([P.COM_STMT_PREPARE]) + b"'a\\'" * 100000, 0),
    ("big query", lambda caps: b"\x03" + (b"\0\x01" if caps & P.QUERY_ATTRIBUTES else b"") + b"x" * 2000000, 0),
    ("invalid utf8", lambda caps: b"\x03" + (b"\0\x01" if caps & P.QUERY_ATTRIBUTES else b"") + b"\xff" * 1000000, 0),
    ("nul bytes", lambda caps: b"\x03" + (b"\0\x01" if caps & P.QUERY_ATTRIBUTES else b"") + bytes(1000000), 0),
    ("garbage of unknown command", lambda caps: b"\x77" + b"g" * 2000000, 0),
    ("long data for nothing", lambda caps: bytes([P.COM_STMT_SEND_LONG_DATA]) + b"\xff" * 2000000, 0),
    ("init db", lambda caps: bytes([P.COM_INIT_DB]) + b"`" * 1000000, 0),
    ("execute huge string length", lambda caps: P.com_stmt_execute(1, [("string", "x")], caps)[:-2]
     + b"\xfe" + b"\xff" * 8 + b"y" * 500000, 0),
]


def run_big(case, st, rng):
    name, make, need_qa = BIG[case["i"]]
    env = Env(st)
    for caps in (CAPS[0], CAPS[1], CAPS[4]):
        if need_qa and not caps & P.QUERY_ATTRIBUTES:
            continue
        h = Hostile(env, caps)
        h.hit(make(h.caps), f"big/{name}", timed=True)
        h.finish(name)
    # the handshake too
    for attrs_blob in (P.lenenc(2**63) + b"\0\0" * 100000, P.lenenc(2**63) + b"\x01a\x01b" * 50000,
                       P.lenenc(400000) + b"\x01a\x01b" * 100000, b"\xfe" + b"\xff" * 8):
        hs_hit(env, lambda hs: P.handshake_response(CAPS[0], user=b"u", plugin=b"mysql_native_password")[0:2]
               + bytes([(CAPS[1] >> 16) & 255, (CAPS[1] >> 24) & 255])
               + P.handshake_response(CAPS[0], user=b"u", plugin=b"mysql_native_password")[4:] + attrs_blob,
               False, f"big/attrs", st)
    hs_hit(env, lambda hs: P.handshake_response(CAPS[0])[:32] + b"u" * 1000000, False, "big/user", st)
    env.fresh(name)
    env.end()


def nest(a, n, b="", mid="1"):
    return a * n + mid + b * n


C = "information_schema.columns"
HOSTILE_SQL = [
    "SELECT " + nest("(", 500, ")"), "SELECT " + nest("f(", 200, ")"), "SELECT " + "(" * 3000, nest("(", 300, ")", "SELECT 1"),
    "SELECT * FROM " + nest("(", 60, ")", "x"), "SELECT " + "CASE WHEN " * 200, "SELECT " + nest("CASE WHEN 1 THEN ", 100, " END"),
    "SELECT " + "NOT " * 2000 + "1", "SELECT " + "- " * 2000 + "1", "SELECT " + "1+" * 3000 + "1", "SELECT " + "INTERVAL " * 200 + "1",
    "SELECT " + "CAST(" * 100 + "1", "SELECT " + "EXISTS(" * 60 + "1", "SELECT x IN " + nest("(", 60, ")") + " FROM t",
    "SELECT 1 << 10000000000", "SELECT -1 >> 10000000000", "SELECT 1 << 64, 1 << 63, 3 << 99999999999999999999",
    "SELECT POW(9,POW(9,9))", "SELECT POW(9, 9999999999)", "SELECT POWER(2, 100000000000)", "SELECT 9e999999999",
    "SELECT REPEAT('a',10000000000)", "SELECT 'a' * 10000000000", "SELECT '%1000000000d' % 5", "SELECT SPACE(10000000000)",
    "SELECT ROUND(5, -10000000000)", "SELECT ROUND(5, 10000000000)", "SELECT LPAD('a', 10000000000, 'b')",
    "SELECT 'aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa' REGEXP '(a+)+b'",
    "SELECT '" + "a" * 60 + "' LIKE '" + "%a" * 20 + "b'", "SELECT '" + "a" * 3000 + "' LIKE '" + "%a_" * 300 + "b'",
    "SHOW VARIABLES LIKE '" + "%e" * 14 + "%'", "SHOW VARIABLES LIKE '" + "%_" * 20 + "z'",
    "SHOW TABLES FROM information_schema LIKE '" + "%a" * 20 + "'", "SHOW DATABASES LIKE '" + "%_" * 30 + "z'",
    "SHOW VARIABLES LIKE '" + "(a+)+" * 20 + "'", "SHOW VARIABLES LIKE '[['",
    f"SELECT table_name FROM {C} WHERE column_name LIKE '" + "%a" * 20 + "b'",
    "SET @a=" + "(" * 300, "USE " + "`" * 100001, "KILL " + "9" * 5000, "KILL -1", "KILL " + "9" * 30, "SELECT " + "9" * 5000,
    "SET autocommit=" + "1," * 1000, "SELECT /*+ " + "SET_VAR(" * 500 + " */ 1", "SELECT " + "@@" * 500, "SELECT " + "x." * 1000,
    "WITH " + "a AS (SELECT 1)," * 300 + "b AS (SELECT 2) SELECT 1", ";" * 20000, "SELECT 1;" * 1500, "BEGIN " * 100, "{" * 200,
    "[" * 200, "SELECT " + "[" * 100, "SELECT " + "{" * 100, "SELECT " + "x->" * 100, "SELECT a " + "COLLATE b " * 300,
    "CREATE TABLE " + "(" * 200, "EXPLAIN " * 50 + "SELECT 1", "DESCRIBE " * 50, "SHOW " * 50, "SELECT " + "a BETWEEN " * 100,
    "SELECT " + "DATE_ADD(" * 60, "SELECT " + "(SELECT " * 60, "SELECT " + nest("(SELECT ", 40, ")"), "SELECT " + nest("x(", 60, ")"),
    "INSERT INTO x VALUES " + "(" * 200, "SELECT " + nest("IF(1,1,", 100, ")"), "SELECT CAST(a AS " + "ARRAY<" * 100,
    "SELECT " + "STRUCT<" * 100, "/*" * 20000, "/*!" * 5000, "--" * 20000, "'" * 50001, "\\" * 20000, "\0" * 20000,
    "SELECT '" + "\\" * 20001, "SELECT `" + "`" * 20001, "SELECT ARRAY_ANY(ARRAY(1,2), x -> " + nest("ARRAY_ANY(ARRAY(1,2), x -> ", 25, ")") + ")",
    "SELECT CONCAT(" + nest("CONCAT('a',", 100, ")", "'b'") + ")", "SELECT STRFTIME('%1000000000d', '2020-01-01')",
    "SET time_zone='" + "+" * 1000 + "'", "SET NAMES " + "x" * 10000, "SET " + "a=1," * 2000 + "b=1", "SHOW COLUMNS FROM `" + "x" * 10000 + "`",
    f"SELECT 1 FROM {C} WHERE " + " OR ".join(f"(table_name='{i}' AND column_name='{i}')" for i in range(10)),
    f"SELECT 1 FROM {C} WHERE " + " AND ".join(f"(table_name='{i}' OR column_name='{i}')" for i in range(40)),
    f"SELECT 1 FROM {C} WHERE " + nest("NOT (", 200, ")", "table_name='a'"),
    "SELECT * FROM (" * 15 + f"SELECT * FROM {C}" + "".join(f") a{i}" for i in range(15)),
    f"SELECT * FROM {C} ORDER BY " + "table_name," * 50 + "table_name",
    "SELECT 1 LIMIT 99999999999999999999", "SELECT 1 LIMIT -1", "SELECT CURRENT_USER, " * 300 + "1",
    "SELECT CAST('" + "9" * 5000 + "' AS SIGNED)", "SELECT 0x" + "ff" * 20000, "SELECT b'" + "1" * 20000 + "'",
]


def run_sql(case, st, rng):
    """Hostile SQL text against the library's own statement handling."""
    sql = HOSTILE_SQL[case["i"]]
    env = Env(st, full=True)
    for how in ("query", "prepare"):
        h = Hostile(env, CAPS[0])
        if how == "query":
            h.hit(P.com_query(sql, h.caps), f"sql/{sql[:30]}", sql=True)
        else:
            alive = h.hit(P.com_stmt_prepare(sql), f"sqlp/{sql[:30]}", sql=True)
            sid = max(h.stmts)
            if alive and len(h.stmts) > 3 and h.stmts[sid] == 0:
                h.hit(P.com_stmt_execute(sid, [], h.caps), f"sqlx/{sql[:30]}", sql=True)
        if not h.c.closed():
            r = h.c.query("SELECT 1 + 1")
            if r.kind != "rs" or r.rows != [[b"2"]]:
                raise Violation(f"session is broken after {sql[:80]!r}: SELECT 1 + 1 answered {r!r}")
        h.finish(f"SQL {sql[:60]!r}")
    env.fresh(f"SQL {sql[:60]!r}")
    env.end()


WORDS = ["SELECT", "FROM", "x", "a", "1", "'s'", "(", ")", ",", "*", "SET", "SHOW", "TABLES", "VARIABLES", "LIKE", "'%'",
         "USE", "KILL", "QUERY", "DESCRIBE", "EXPLAIN", "=", "@@version", "@@", "@x", "NAMES", "utf8", "autocommit", ";",
         "BEGIN", "COMMIT", "information_schema.tables", "WHERE", "AND", "OR", "NOT", "/*+", "SET_VAR(sql_mode='x')",
         "*/", "--", "/*", "`", "\"", "'", "\\", "COLUMNS", "FULL", "DATABASES", "INDEX", "UNION", "WITH", "JOIN", "ON",
         "IN", "CASE", "WHEN", "END", "NOW()", "DATABASE()", "INTERVAL", "CAST(", "AS", "TRANSACTION", "READ", "ONLY",
         "time_zone", "character_set_results", "DEFAULT", "NULL", "-", "+", "<<", "%", "\0", "é", "\U0001f600", "CONNECTION"]


def run_sqlmut(case, st, rng):
    env = Env(st, full=True)
    h = Hostile(env, CAPS[0])
    own = h.cid
    for _ in range(15):
        words = [rng.choice(WORDS) for _ in range(rng.randint(1, 14))]
        if rng.random() < .6:
            words.insert(0, rng.choice(["SELECT", "SET", "SHOW", "USE", "KILL", "DESCRIBE", "WITH", "INSERT INTO"]))
        sql = rng.choice([" ", " ", ""]).join(words)
        if not h.hit(P.com_query(sql, h.caps), "sqlmut/" + words[0], sql=True):
            break
    h.finish("random SQL")
    env.fresh("random SQL")
    env.end()


def run_known(case, st, rng):
    """A catalog query with a cartesian product (recorded finding)."""
    import signal
    env = Env(st, full=True)
    c = env.w.login()
    sql = f"SELECT COUNT(*) FROM {C} a, {C} b, {C} d"
    # The watchdog of the case is re-armed with a short budget: the outcome is known after that.
    signal.setitimer(signal.ITIMER_VIRTUAL, 4)
    try:
        c.query(sql)
    except CpuBudget:
        pass
    else:
        if not c.closed():
            return
    raise Violation(f"a catalog query blocks the event loop for a time exponential in its length: {sql!r}",
                    key="catalog-product")
