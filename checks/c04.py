"""C04: packet framing is lossless for every payload size and every stream segmentation."""
import asyncio
import hashlib
import itertools
import random
import ssl

from vlib import proto as P
from vlib.apps import FixedIdentity, RecBase
from vlib.client import World
from vlib.detloop import DetLoop
from vlib.runner import Violation

from mysql_mimic import ColumnType, ResultColumn, User
from mysql_mimic.stream import MysqlStream

ID = "C04"
LEVEL = "exploration"
RULE = ("(a) a reference conversation's client byte stream cut at every offset (1-cut exhaustive, 2-cut "
        "sampled / exhaustive in thorough, uniform chunk sizes, random multi-cuts), delivered with and "
        "without server quiescence between chunks, plain and TLS (TLS flights cut on the ciphertext, SSLRequest "
        "coalesced with ClientHello); (b) payload sizes around k*(2^24-1) in both directions; non-trivial = "
        "distinct (conversation, cut vector) or (direction, size, segmentation)")
ASSUMPTIONS = ["a stream socket may return any non-empty prefix of the pending bytes from one read"]
MIN = {"segmentations": 800, "tls_segmentations": 150, "big_client_payloads": 8, "big_server_payloads": 8,
       "direct_payloads": 30, "big_client_hellos": 15}
DEADLINE = {"quick": 480, "thorough": 800}
CASE_CPU = 120
M = P.MAXP
CAPS = P.BASE_CAPS | P.LENENC_AUTH | P.CONNECT_ATTRS | P.CONNECT_WITH_DB


def conv_bytes(name, caps, seq=1):
    """The client's byte stream after the greeting, as a list of wire packets."""
    hs = P.handshake_response(caps, user=b"u", auth=b"", db=b"d", plugin=b"mysql_native_password",
                              attrs={b"k": b"v" * 3})
    out = [P.frame(hs, seq)[0]]
    cmds = {
        "a": [P.com_query("one", caps), bytes([P.COM_PING]), P.com_stmt_prepare("two ? x"),
              P.com_stmt_long(0, 0, b"LL"), P.com_stmt_execute(0, [("varchar", "abc")], caps),
              P.com_stmt_close(0), bytes([P.COM_INIT_DB]) + b"db2", P.com_query("three", caps)],
        "b": [P.com_stmt_prepare("two"), P.com_stmt_execute(0, [], caps, cursor=True),
              P.com_stmt_fetch(0, 1), P.com_stmt_fetch(0, 9), P.com_stmt_reset(0), b"\x99", bytes([P.COM_QUIT])],
        "c": [bytes([P.COM_PING]), P.com_query("q" * 40, caps)],
        "d": [P.com_query("x" * 300, caps), P.com_query("big", caps), bytes([P.COM_PING])],
    }[name]
    for c in cmds:
        out.append(P.frame(c, 0)[0])
    return out


def handler(s, sql, attrs):
    if sql == "three":
        return None
    if sql == "big":
        return [("w" * 70000,), ("z",)], ["c"]
    return [(i, f"r{i}") for i in range(3)], ["a", "b"]


def new_world(tls):
    ident = FixedIdentity({"u": User("u", auth_plugin="mysql_native_password")})
    return World(handler=handler, identity=ident, tls=tls)


def transcript(w, c):
    s = w.sessions[0]
    out = bytes(c.sock.out[c.pos:]) if c.tls is None else None
    if c.tls is not None:
        c._tls_pump()
        out = bytes(c.plain)
    return out, list(s.calls), s.database, c.sock.closed


_base = {}


def baseline(name, tls):
    key = (name, tls)
    if key not in _base:
        caps = CAPS | (P.SSL if tls else 0)
        with new_world(tls) as w:
            c = w.connect()
            c.greet()
            pk = conv_bytes(name, caps, 2 if tls else 1)
            if tls:
                start_tls_plain(w, c, caps)
            n0 = 0
            for i, p in enumerate(pk):
                # lockstep, whole packets: the friendliest possible delivery
                c.deliver(p)
                w.quiesce()
            _base[key] = transcript(w, c)
        sanity(name, _base[key])
    return _base[key]


def sanity(name, t):
    """The reference transcript itself must be the right one."""
    pk, used = P.deframe_packets(t[0])
    if used != len(t[0]):
        raise Violation("baseline: incomplete packet")
    want = {"a": ["one", "two 'LL' x", "three"], "b": ["two"], "c": ["q" * 40], "d": ["x" * 300, "big"]}[name]
    got = [c[1] for c in t[1] if c[0] == "query"]
    norm = lambda s: s.replace(" ", "")
    if list(map(norm, got)) != list(map(norm, want)):
        raise Violation(f"baseline: statements received {got!r}, sent {want!r}")
    # every command starts its response at seq 1 (commands are single packets)
    starts = sum(1 for s, _ in pk if s == 1)
    if starts < {"a": 6, "b": 6, "c": 2, "d": 3}[name]:
        raise Violation(f"baseline: only {starts} responses")


def start_tls_plain(w, c, caps):
    c.deliver(P.frame(P.ssl_request(caps), 1)[0])
    w.quiesce()
    c.sock.inbox.append(c.start_tls())
    c.finish_tls()


def chunks_of(data, cuts):
    pts = [0] + sorted(cuts) + [len(data)]
    return [data[a:b] for a, b in zip(pts, pts[1:]) if b > a]


def deliver_chunks(w, c, chunks, mode):
    for ch in chunks:
        c.sock.inbox.append(ch)
        if mode == "quiesce":
            w.quiesce()
        elif mode == "step":
            w.loop.step()
    w.quiesce()


def compare(base, got, what):
    names = ("server bytes", "application calls", "database", "closed flag")
    for n, b, g in zip(names, base, got):
        if b != g:
            raise Violation(f"{what}: {n} differ from the unsegmented run: {str(b)[:200]!r} vs {str(g)[:200]!r}")


def run_plain(name, cuts, mode, st):
    base = baseline(name, False)
    data = b"".join(conv_bytes(name, CAPS))
    with new_world(False) as w:
        c = w.connect()
        c.greet()
        deliver_chunks(w, c, chunks_of(data, cuts), mode)
        compare(base, transcript(w, c), f"conversation {name} cut at {list(cuts)[:8]} ({mode})")
    st.count("segmentations")
    st.seen("p", name, tuple(cuts), mode)


def run_tls(name, part, cutf, mode, st, **hello_kw):
    """part: which flight is cut.  cutf(len) -> cut offsets."""
    caps = CAPS | P.SSL
    base = baseline(name, True)
    pk = conv_bytes(name, caps, 2)
    with new_world(True) as w:
        c = w.connect()
        c.greet()
        req = P.frame(P.ssl_request(caps), 1)[0]
        hello = c.start_tls(**hello_kw)
        if len(hello) > 1500:
            st.count("big_client_hellos")
        if part == "first":
            data = req + hello
            deliver_chunks(w, c, chunks_of(data, cutf(len(data))), mode)
            c.finish_tls()
            for p in pk:
                c.deliver(p)
                w.quiesce()
        else:
            deliver_chunks(w, c, [req, hello], mode)
            # complete the client side and coalesce its Finished with all the application data
            c.tls_in.write(bytes(c.sock.out[c.pos:]))
            c.pos = len(c.sock.out)
            try:
                c._pending_tls.do_handshake()
            except ssl.SSLWantReadError:        # TLS 1.2 needs one more flight of the server
                deliver_chunks(w, c, [c.tls_out.read()], mode)
                c.tls_in.write(bytes(c.sock.out[c.pos:]))
                c.pos = len(c.sock.out)
                c._pending_tls.do_handshake()
            c.tls = c._pending_tls
            c.ppos = 0
            for p in pk:
                c.tls.write(p)
            data = c.tls_out.read()
            deliver_chunks(w, c, chunks_of(data, cutf(len(data))), mode)
        compare(base, transcript(w, c), f"TLS conversation {name}, {part} flight cut ({mode})")
    st.count("tls_segmentations")


SIZES = [1, 2, 250, 251, 65535, 65536, M - 2, M - 1, M, M + 1, M + 2, 2 * M - 1, 2 * M, 2 * M + 1]
BIG3 = [3 * M, 3 * M + 1, 4 * M, 4 * M + 1]


def pattern(n, salt):
    """n bytes of position-dependent ASCII."""
    block = hashlib.sha256(str(salt).encode()).hexdigest().encode()
    blk = b"".join(b"%07x" % i + block[:9] for i in range(4096))
    out = (blk * (n // len(blk) + 1))[:n]
    return out


def gen(tier, seed):
    th = tier == "thorough"
    lens = {n: len(b"".join(conv_bytes(n, CAPS))) for n in "abcd"}
    # 1-cut, exhaustive
    for name in "abcd":
        for mode in ("queued", "quiesce") if name != "d" else ("quiesce",):
            for lo in range(1, lens[name], 16):
                yield {"k": "cut1", "conv": name, "lo": lo, "hi": min(lo + 16, lens[name]), "mode": mode}
    for name in "abcd":
        yield {"k": "uniform", "conv": name, "sizes": list(range(1, 41))}
    # whole conversation in one read is part of uniform (size >= len)
    yield {"k": "uniform", "conv": "a", "sizes": [10**6]}
    yield {"k": "uniform", "conv": "b", "sizes": [10**6]}
    yield {"k": "uniform", "conv": "d", "sizes": [10**6]}
    # TLS
    for part in ("first", "second"):
        for mode in ("queued", "quiesce"):
            for blk in range(0, 40 if th or part == "first" else 24):
                yield {"k": "tls", "part": part, "mode": mode, "blk": blk, "of": 40 if th or part == "first" else 24,
                       "stride": 1 if th else (3 if part == "first" else 7),
                       "conv": "c" if part == "second" and not th else "abc"[blk % 3], "off": seed % 3}
    for i in range(60 if not th else 800):
        yield {"k": "tlsrand", "seed": f"{seed}/t{i}", "conv": "abcd"[i % 4], "part": ["first", "second"][i % 2]}
    # sizes
    for n, size in enumerate(SIZES + (BIG3 if th else [])):
        for how in ("query", "long"):
            yield {"k": "toserver", "size": size, "how": how, "seed": f"{seed}/{n}", "seg": n % 4}
        for how in ("text", "binary", "cursor"):
            yield {"k": "toclient", "size": size, "how": how, "small": n % 3}
    if not th:
        yield {"k": "toserver", "size": 3 * M, "how": "query", "seed": f"{seed}/3", "seg": seed % 4}
        yield {"k": "toserver", "size": 3 * M + 1 + seed % 3, "how": "long", "seed": f"{seed}/3", "seg": (seed + 1) % 4}
        yield {"k": "toclient", "size": 3 * M, "how": "binary", "small": seed % 3}
        yield {"k": "toclient", "size": 3 * M + 5, "how": "text", "small": 0}
    for size in [3 * M - 1, 3 * M, 3 * M + 1, 4 * M, 4 * M + 9] + ([5 * M, 6 * M + 1, 8 * M, 8 * M + 3] if th else []):
        yield {"k": "direct", "seed": f"{seed}/D{size}", "big": size}
    yield {"k": "zero"}
    for i in range(8 if not th else 60):
        yield {"k": "direct", "seed": f"{seed}/d{i}"}
    for i in range(120 if not th else 6000):
        yield {"k": "multi", "seed": f"{seed}/m{i}", "conv": "abcd"[i % 4]}
    if th:
        L = lens["c"]
        for a in range(1, L):
            yield {"k": "cut2", "conv": "c", "a": a}
        for i in range(2500):
            yield {"k": "cut2r", "seed": f"{seed}/2{i}", "conv": "ab"[i % 2]}
    else:
        for i in range(60):
            yield {"k": "cut2r", "seed": f"{seed}/2{i}", "conv": "ab"[i % 2]}


def run(case, st):
    k = case["k"]
    if k == "cut1":
        for p in range(case["lo"], case["hi"]):
            run_plain(case["conv"], [p], case["mode"], st)
    elif k == "cut2":
        n = len(b"".join(conv_bytes(case["conv"], CAPS)))
        for b in range(case["a"] + 1, n):
            run_plain(case["conv"], [case["a"], b], "queued", st)
    elif k in ("cut2r", "multi"):
        rng = random.Random(case["seed"])
        n = len(b"".join(conv_bytes(case["conv"], CAPS)))
        for _ in range(4):
            m = 2 if k == "cut2r" else rng.randrange(3, 60)
            run_plain(case["conv"], sorted(rng.sample(range(1, n), m)),
                      rng.choice(["queued", "quiesce", "step"]), st)
    elif k == "uniform":
        n = len(b"".join(conv_bytes(case["conv"], CAPS)))
        for s in case["sizes"]:
            for mode in ("queued", "quiesce"):
                run_plain(case["conv"], list(range(s, n, s)), mode, st)
    elif k == "tls":
        blk, of, stride = case["blk"], case["of"], case["stride"]
        n = 620 if case["part"] == "first" else 1100
        pts = [p for p in range(1 + case["off"] % stride, n, stride)][blk::of]
        for p in pts:
            run_tls(case["conv"], case["part"], lambda ln: [p] if p < ln else [ln - 1 - p % 5], case["mode"], st)
            st.seen("t", case["part"], case["conv"], case["mode"], p)
    elif k == "tlsrand":
        rng = random.Random(case["seed"])
        for _ in range(3):
            m = rng.choice([0, 1, 2, 5, 30, "bytes"])
            cutf = lambda ln: list(range(1, ln)) if m == "bytes" else sorted(rng.sample(range(1, ln), m))
            run_tls(case["conv"], case["part"], cutf, rng.choice(["queued", "quiesce", "step"]), st,
                    **rng.choice([{}, {"alpn": 1}, {"alpn": 9}, {"alpn": 14}, {"alpn": 60}, {"alpn": 150},
                                  {"alpn": 500}, {"tls12": True}, {"tls12": True, "alpn": 20},
                                  {"sni": "db.example.org"}]))
            st.seen("tr", case["seed"], _)
    elif k == "toserver":
        to_server(case, st)
    elif k == "toclient":
        to_client(case, st)
    elif k == "zero":
        zero_reply(st)
    elif k == "direct":
        direct(case, st)
    else:
        raise AssertionError(k)


def segment(wire, rng, seg):
    """Chunking of a big wire stream with cuts around the packet headers."""
    cuts = set()
    if seg == 0:
        return [wire]
    pos = 0
    while pos < len(wire):
        ln = int.from_bytes(wire[pos:pos + 3], "little")
        if seg == 1:
            cuts.update(x for x in range(pos - 1, pos + 7) if 0 < x < len(wire))
        elif seg == 2:
            cuts.update(x for x in (pos + rng.randrange(1, 4),) if 0 < x < len(wire))
        pos += 4 + ln
    if seg == 3:
        cuts.update(rng.randrange(1, len(wire)) for _ in range(40) if len(wire) > 1)
    return chunks_of(wire, cuts)


def to_server(case, st):
    size, how = case["size"], case["how"]
    rng = random.Random(case["seed"])
    got = []

    def h(s, sql, attrs):
        got.append(sql)
        return [(1,)], ["x"]

    ident = FixedIdentity({"u": User("u", auth_plugin="mysql_native_password")})
    with World(handler=h, identity=ident) as w:
        c = w.login()
        if how == "query":
            if size < 2:
                return
            sql = pattern(size - 1, case["seed"])
            pay = bytes([P.COM_QUERY]) + sql
            wire, seq = P.frame(pay)
            c.deliver(wire, segment(wire, rng, case["seg"]))
            w.quiesce()
            r = P.parse_query(c.take_payloads(seq), c.caps)
            want = sql.decode("ascii")
        else:
            if size < 8:
                return
            sid = c.prepare("p ?").stmt_id
            data = pattern(size - 7, case["seed"])
            wire, seq = P.frame(P.com_stmt_long(sid, 0, data))
            c.deliver(wire, segment(wire, rng, case["seg"]))
            w.quiesce()
            if c.take_payloads():
                raise Violation("COM_STMT_SEND_LONG_DATA answered")
            r = c.execute(sid, [("varchar", "")], long_idx=(0,))
            want = "p '" + data.decode("ascii") + "'"
        if r.kind != "rs":
            raise Violation(f"payload of {size} bytes ({how}): {r}")
        if len(got) != 1 or got[0].replace("p  '", "p '", 1).strip() != want:
            d = next((i for i, (a, b) in enumerate(zip(got[0] if got else "", want)) if a != b), None)
            raise Violation(f"payload of {size} bytes ({how}) arrived changed: {len(got)} statements, "
                            f"length {len(got[0]) if got else None} vs {len(want)}, first difference at {d}")
        if c.ping().kind != "ok":
            raise Violation("not in step after a large payload")
        if how == "query" and size > 1:
            # a payload that never arrives completely
            n = len(got)
            t = w.login()
            for cut in [x for x in (5, len(wire) // 2, len(wire) - 1, M + 6, M + 9) if x < len(wire)][size % 3::3 if size < M else 2]:
                t = w.login()
                t.deliver(wire[:cut])
                w.quiesce()
                t.eof()
                w.quiesce()
                if len(got) != n:
                    raise Violation(f"{cut} of the {len(wire)} bytes of a statement were sent, and it was executed")
                st.count("truncated")
    st.count("big_client_payloads" if size >= M - 2 else "small_client_payloads")
    st.seen("s", how, size, case["seg"])


def to_client(case, st):
    size, how = case["size"], case["how"]
    head = 0 if how == "text" else 2       # binary row: 0x00 + 1 byte bitmap

    def value_len(total):
        for pre in (1, 3, 4, 9):
            n = total - head - pre
            if n >= 0 and len(P.lenenc(n)) == pre:
                return n
        return None
    n = value_len(size)
    if n is None:
        return
    val = pattern(n, size)

    def h(s, sql, attrs):
        return [(val,), (b"tail",)], [ResultColumn("x", ColumnType.BLOB)]

    ident = FixedIdentity({"u": User("u", auth_plugin="mysql_native_password")})
    with World(handler=h, identity=ident) as w:
        c = w.login(client_caps=P.BASE_CAPS | (P.DEPRECATE_EOF if case["small"] else 0))
        if case["small"] == 1:
            c.sock.max_send = 99991
        if case["small"] == 2:
            c.sock.window = 150000
        def pump(pay):
            seq = c.send(pay)
            w.quiesce()
            while c.sock.window is not None and c.sock.window == 0:
                c.sock.window = 3_000_000
                w.quiesce()
            return c.take_payloads(seq)
        if how == "text":
            pls = pump(P.com_query("x", c.caps))
            r = P.parse_query(pls, c.caps)
        else:
            sid = c.prepare("x").stmt_id
            pls = pump(P.com_stmt_execute(sid, [], c.caps, cursor=how == "cursor"))
            r = P.parse_query(pls, c.caps, binary=True, cursor=how == "cursor")
            if how == "cursor" and r.kind == "rs":
                cols = r.cols
                pls = pump(P.com_stmt_fetch(sid, 2))
                r = P.parse_fetch(pls, c.caps, cols)
        if not any(len(p) == size for p in pls):
            raise Violation(f"server payload of {size} bytes ({how}) reassembles to {[len(p) for p in pls]}")
        rows = [x[0] for x in r.rows]
        if rows != [val, b"tail"]:
            raise Violation(f"server payload of {size} bytes ({how}) arrived changed")
        if c.ping().kind != "ok":
            raise Violation("not in step after a large response")
    st.count("big_server_payloads" if size >= M - 2 else "small_server_payloads")
    st.seen("c", how, size, case["small"])


def zero_reply(st):
    """A zero-length client payload in context: the empty auth-switch reply of a passwordless user."""
    for chunks in ([4], [1, 3], [2, 2], [3, 1], [1, 1, 1, 1]):
        ident = FixedIdentity({"u": User("u", auth_plugin="mysql_native_password")})
        with World(handler=handler, identity=ident) as w:
            c = w.connect()
            r = c.login(plugin="mysql_clear_password", auth=b"xx\0")
            if r.kind != "switch":
                raise Violation(f"expected an auth switch, got {r}")
            wire, seq = P.frame(b"", r.seq)
            pos = 0
            for n in chunks:
                c.sock.inbox.append(wire[pos:pos + n])
                pos += n
            w.quiesce()
            r = c.auth_result(seq)
            if r.kind != "ok":
                raise Violation(f"empty auth reply answered {r}")
            if c.ping().kind != "ok":
                raise Violation("not in step after an empty payload")
        st.count("direct_payloads")


def direct(case, st):
    """MysqlStream on real asyncio streams: arbitrary payload sequences both ways, start seq random."""
    rng = random.Random(case["seed"])
    sizes = [rng.choice([0, 0, 1, 5, 250, 40000, 70000, 300000]) for _ in range(rng.randrange(3, 12))]
    if rng.random() < 0.5:
        sizes.insert(rng.randrange(len(sizes)), rng.choice([M - 1, M, M + 1]))
    if "big" in case:
        sizes = rng.choice([[case["big"]], [3, case["big"], 0], [case["big"], 0, 2], [0, case["big"], 7]])
    if rng.random() < 0.3 or "many" in case:
        sizes[1:1] = [rng.choice([0, 1, 3, 60]) for _ in range(rng.randrange(200, 600))]
    payloads = [pattern(n, i % 40) for i, n in enumerate(sizes)]
    loop = DetLoop()
    got = []
    start = rng.randrange(256)

    async def cb(reader, writer):
        s = MysqlStream(reader, writer)
        for _ in range(start):
            next(s.seq)
        for p, drain in plan_w:
            await s.write(p, drain=drain)
        await s.drain()
        s.reset_seq()
        for _ in range(start):
            next(s.seq)
        try:
            for _ in payloads:
                got.append(await s.read())
        except BaseException as e:
            got.append(e)
            raise

    plan_w = [(p, rng.random() < 0.5) for p in payloads]

    async def boot():
        await asyncio.start_server(cb, port=0)
    loop.run(boot())
    sock = loop.connect()
    if rng.random() < 0.4:
        sock.max_send = rng.choice([50_000, 99_999, 1 << 18])
    wire = b""
    seq = start
    for p in payloads:
        b, seq = P.frame(p, seq)
        wire += b
    for ch in chunks_of(wire, sorted(rng.sample(range(1, len(wire)), min(len(wire) - 1, rng.choice([0, 3, 50]))))):
        sock.inbox.append(ch)
    loop.quiesce()
    out = bytes(sock.out)
    loop.shutdown()
    if got != payloads:
        raise Violation(f"MysqlStream.read reassembled sizes {[len(g) if isinstance(g, bytes) else g for g in got]} from {sizes}")
    if out != wire:
        raise Violation(f"MysqlStream.write of payload sizes {sizes} (start seq {start}) is not the standard framing")
    st.count("direct_payloads", 2 * len(payloads))
    st.seen("d", tuple(sizes), start)
