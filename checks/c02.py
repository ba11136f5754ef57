"""C02: a password proof is accepted iff it fits this connection's nonce and the account's secret."""
import asyncio
import copy
import hashlib
import random

from vlib import proto as P
from vlib.apps import FixedIdentity, RecBase
from vlib.client import World, native_scramble
from vlib.runner import Violation

from mysql_mimic import NativePasswordAuthPlugin, User
from mysql_mimic.auth import AbstractClearPasswordAuthPlugin, NoLoginAuthPlugin, AuthPlugin, Success, Forbidden

ID = "C02"
LEVEL = "exploration"
RULE = ("accounts (password set / secondary / none / malformed stored hash) x routes (optimistic handshake, "
        "auth switch, AuthMoreData, COM_CHANGE_USER with the handshake nonce, COM_CHANGE_USER with auth "
        "switch / AuthMoreData) x responses (exact, secondary, all 160 bit flips, all truncations, extensions, "
        "other connection's nonce, derived values, random) ; distinct = (account kind, route, response kind, "
        "password class, outcome)")
ASSUMPTIONS = ["responses whose first 20 bytes are a valid scramble followed by junk may be accepted or not",
               "an account with only a secondary password is not probed with an empty response",
               "after an auth switch the handshake nonce and the switch nonce are not told apart in "
               "the accepting direction of a later COM_CHANGE_USER"]
MIN = {"exchanges_with_live_directory": 1000, "overlapping_exchanges": 500, "accepted": 400, "rejected": 2000, "replays_rejected": 100, "nonces": 1000, "clear_checks": 100,
       "nologin_rejected": 40}
DEADLINE = {"quick": 480, "thorough": 780}

ROUTES = ["opt", "switch", "more", "cu", "cuswitch", "cumore"]
EXHAUSTIVE = ["all 160 single-bit corruptions and all 20 truncations of the scramble on each route"]


def hash_(pw):
    return hashlib.sha1(hashlib.sha1(pw.encode("utf8")).digest()).hexdigest()


PWS = ["a", "secret", "pässwörd ☃", "😀" * 5, "x" * 1000, " ", "with\0nul", "'\"\\`;--", "\u00e9", "e\u0301",
       "🇩🇪漢字", "0", "false", "\x7f\x01\x02"]


def randpw(rng):
    if rng.random() < 0.5:
        return rng.choice(PWS)
    n = rng.choice([1, 2, 5, 20, 64])
    return "".join(chr(rng.choice([rng.randrange(1, 128), rng.randrange(160, 0x2000),
                                   rng.randrange(0x10000, 0x10400)])) for _ in range(n))


class Other(AuthPlugin):
    """A default plugin that is not native (so the handshake carries no native nonce)."""
    name = "app_other"
    client_plugin_name = "app_other_client"

    async def auth(self, auth_info=None):
        if not auth_info:
            auth_info = yield b"o" * 20 + b"\0"
        yield Success(auth_info.user.name) if auth_info.data == b"other-ok" else Forbidden()


class Clear(AbstractClearPasswordAuthPlugin):
    name = "app_clear"

    def __init__(self, table):
        self.table = table
        self.seen = []

    async def check(self, username, password):
        self.seen.append((username, password))
        return self.table.get((username, password))


class Lax(AbstractClearPasswordAuthPlugin):
    """Accepts every password."""

    def __init__(self, name):
        self.name = name

    async def check(self, username, password):
        return "lax"


def gen(tier, seed):
    n = 0
    reps = 8 if tier == "quick" else 120
    for rep in range(reps):
        for route in ROUTES:
            for acct in ["pw", "both", "old", "none", "emptystr", "upper"]:
                for part in range(4):
                    n += 1
                    yield {"k": "bits", "route": route, "acct": acct, "part": part, "seed": f"{seed}/{n}"}
            for acct in ["pw", "both", "old", "none", "emptystr", "upper", "bad"]:
                n += 1
                yield {"k": "shapes", "route": route, "acct": acct, "seed": f"{seed}/{n}"}
            for j in range(8):
                n += 1
                yield {"k": "replay", "route": route, "seed": f"{seed}/{n}"}
            for j in range(6):
                n += 1
                yield {"k": "nologin", "route": route, "seed": f"{seed}/{n}"}
                yield {"k": "clear", "route": route, "seed": f"{seed}/c{n}", "def": j % 3}
        for j in range(24):
            n += 1
            yield {"k": "nonce", "seed": f"{seed}/{n}", "reseed": j % 2}
        for j in range(60):
            n += 1
            yield {"k": "multi", "seed": f"{seed}/{n}"}
        for j in range(30):
            n += 1
            yield {"k": "default", "seed": f"{seed}/d{n}"}
        for j in range(40):
            n += 1
            yield {"k": "rotate", "seed": f"{seed}/r{n}"}
            yield {"k": "overlap", "seed": f"{seed}/o{n}"}


class Acct:
    def __init__(self, kind, rng):
        self.kind = kind
        self.pw = randpw(rng)
        self.old = randpw(rng)
        while self.old == self.pw:
            self.old = randpw(rng)
        kw = {}
        if kind in ("pw", "both"):
            kw["auth_string"] = hash_(self.pw)
        if kind == "upper":
            kw["auth_string"] = hash_(self.pw).upper()
        if kind in ("both", "old"):
            kw["old_auth_string"] = hash_(self.old)
        if kind == "emptystr":
            kw["auth_string"] = ""
        if kind == "bad":
            h = hash_(self.pw)
            kw["auth_string"] = rng.choice([h[:-1], h[:-2], h + "00", "zz" + h[2:], "*" + h.upper(), "not hex",
                                            self.pw, h[::-1] + "g"])
        self.user = User("acct", auth_plugin="mysql_native_password", **kw)

    def secrets(self):
        s = []
        if self.kind in ("pw", "both", "upper"):
            s.append(self.pw)
        if self.kind in ("both", "old"):
            s.append(self.old)
        return s

    def verdict(self, resp, nonce):
        """True: must be accepted; False: must be rejected; None: either."""
        ok = [native_scramble(p, nonce) for p in self.secrets()]
        if resp in ok:
            return True
        if resp == b"":
            if self.kind in ("none", "emptystr"):
                return True
            if self.kind == "old":
                return None
            return False
        if resp[:20] in ok:
            return None
        return False


def world(users, route, plugins=None, gate=None, **kw):
    plugs = plugins
    if plugs is None:
        native = NativePasswordAuthPlugin()
        plugs = [Other(), native, NoLoginAuthPlugin()] if route in ("more", "cumore") else [native, NoLoginAuthPlugin(), Other()]
    users = dict(users)
    users["gate"] = User("gate", auth_plugin=gate or ("app_other" if route == "cumore" else "mysql_native_password"))
    return World(session=RecBase, identity=FixedIdentity(users, plugs), **kw)


def attempt(w, username, route, respond, st, lenenc=True, announce=None, gate_auth=b"", cu_conn=None, pa=True):
    """Runs one exchange; respond(nonce) -> bytes.  -> (outcome, nonce, conn)"""
    c = cu_conn or w.connect()
    change = route.startswith("cu")
    caps = P.BASE_CAPS | P.DEPRECATE_EOF | (P.LENENC_AUTH if lenenc else 0)
    if not pa:
        caps &= ~P.PLUGIN_AUTH      # such a client always uses mysql_native_password and can't switch
        st.count("without_plugin_auth")
    if announce is None:
        announce = {"opt": "mysql_native_password", "cu": "mysql_native_password", "more": "mysql_native_password",
                    "cumore": "mysql_native_password"}.get(route, "unrelated_plugin")
    if cu_conn is None:
        if c.greet() is None:
            raise Violation("no greeting")
        if change:
            r = c.login(user="gate", client_caps=caps, auth=gate_auth,
                        plugin="app_other_client" if gate_auth else "mysql_native_password")
            if r.kind != "ok":
                raise Violation(f"set-up login answered {r!r}")
    nonce = c.hs.nonce
    if route in ("opt", "cu"):
        resp = respond(nonce)
    else:
        resp = respond(None)          # whatever accompanies the request that triggers a prompt
    if change:
        seq = c.send(P.com_change_user(c.caps, username.encode(), resp[:255], b"", plugin=announce.encode(), attrs={}))
        w.quiesce()
        r = c.auth_result(seq)
    else:
        c.caps = caps & c.hs.caps
        pay = P.handshake_response(c.caps, user=username.encode(), auth=resp if lenenc else resp[:255],
                                   plugin=announce.encode())
        d, seq = P.frame(pay, 1)
        c.deliver(d)
        w.quiesce()
        r = c.auth_result(seq)
    rounds = 0
    while r.kind in ("switch", "more"):
        st.count("prompts." + r.kind)
        if route in ("opt", "cu"):
            raise Violation(f"{route}: unexpected prompt {r.kind} {getattr(r, 'plugin', b'')!r}")
        if r.kind == "switch" and r.plugin == b"mysql_native_password" or r.kind == "more":
            check_nonce_blob(r.data, route)
        nonce = r.data[:20]
        resp = respond(nonce)
        d, seq = P.frame(resp, r.seq)
        c.deliver(d)
        w.quiesce()
        r = c.auth_result(seq)
        rounds += 1
        if rounds > 3:
            raise Violation("exchange does not end")
    if r.kind not in ("ok", "err"):
        raise Violation(f"{route}: exchange ended with {r!r}")
    if route not in ("opt", "cu") and rounds == 0:
        return r.kind, None, c, resp
    return r.kind, nonce, c, resp


def check_nonce_blob(data, where):
    if len(data) != 21 or data[20] != 0 or 0 in data[:20]:
        raise Violation(f"{where}: nonce is not 20 NUL-free bytes plus terminator: {data!r}")


def probe(w, acct, route, respond, st, kind, lenenc=True, pa=True):
    out, nonce, c, resp = attempt(w, "acct", route, respond, st, lenenc, pa=pa or route not in ("opt", "cu"),
                                  gate_auth=b"other-ok" if route == "cumore" else b"")
    if nonce is None:
        raise Violation(f"{route}: decided ({out}) without issuing a nonce for this exchange")
    must = acct.verdict(resp, nonce)
    st.seen(acct.kind, route, kind, len(acct.pw), out)
    if must is True and out != "ok":
        raise Violation(f"{route}: valid proof ({kind}) rejected for account kind {acct.kind!r}")
    if must is False and out == "ok":
        raise Violation(f"{route}: invalid proof ({kind}, {len(resp)} bytes) accepted for account kind {acct.kind!r}")
    st.sample({"account": acct.kind, "route": route, "response": kind, "bytes": len(resp), "outcome": out})
    if out == "ok":
        st.count("accepted")
        s = w.sessions[-1]
        if s.username != "acct":
            raise Violation(f"session runs as {s.username!r}")
    else:
        st.count("rejected")
    return out


def run(case, st):
    return globals()["run_" + case["k"]](case, st, random.Random(case["seed"]))


def run_bits(case, st, rng):
    acct = Acct(case["acct"], rng)
    route = case["route"]
    w = world({"acct": acct.user}, route)
    with w:
        secs = acct.secrets() or [acct.pw]
        pw = secs[case["part"] % len(secs)]
        for i in range(case["part"], 160, 4):
            def respond(nonce):
                d = bytearray(native_scramble(pw, nonce or bytes(range(1, 21))))
                d[i // 8] ^= 1 << (i % 8)
                return bytes(d)
            probe(w, acct, route, respond, st, f"bit{i}", lenenc=i % 2 == 0)
        for n in range(case["part"], 20, 4):
            probe(w, acct, route, lambda nonce: native_scramble(pw, nonce or bytes(20))[:n], st, f"trunc{n}")
        if acct.secrets():
            probe(w, acct, route, lambda nonce: native_scramble(pw, nonce or bytes(20)), st, "exact")
            probe(w, acct, route, lambda nonce: native_scramble(pw, nonce or bytes(20)), st, "exact", pa=False)


def run_shapes(case, st, rng):
    acct = Acct(case["acct"], rng)
    route = case["route"]
    w = world({"acct": acct.user}, route)
    z = bytes(range(1, 21))

    def s(pw):
        return lambda n: native_scramble(pw, n or z)

    def sha(b):
        return hashlib.sha1(b).digest()
    pw, old = acct.pw, acct.old
    pwb = pw.encode()
    shapes = {
        "pw": s(pw), "old": s(old), "empty": lambda n: b"",
        "pw+junk": lambda n: native_scramble(pw, n or z) + b"\0", "pw+junk2": lambda n: native_scramble(pw, n or z) * 2,
        "junk+pw": lambda n: b"\0" + native_scramble(pw, n or z), "nul": lambda n: b"\0", "nul20": lambda n: bytes(20),
        "ff20": lambda n: b"\xff" * 20, "nonce": lambda n: (n or z), "hash": lambda n: sha(sha(pwb)), "sha": lambda n: sha(pwb),
        "nonce21": lambda n: native_scramble(pw, (n or z) + b"\0"), "nonce8": lambda n: native_scramble(pw, (n or z)[:8]),
        "nonce12": lambda n: native_scramble(pw, (n or z)[8:]), "nononce": lambda n: native_scramble(pw, b""),
        "rev": lambda n: native_scramble(pw, (n or z)[::-1]), "revd": lambda n: native_scramble(pw, n or z)[::-1],
        "xorhash": lambda n: bytes(a ^ b for a, b in zip(sha((n or z) + sha(sha(pwb))), sha(sha(pwb)))),
        "mask": lambda n: sha((n or z) + sha(sha(pwb))),
        "hexhash": lambda n: acct.user.auth_string.encode() if acct.user.auth_string else b"None",
        "clear": lambda n: pwb[:200] + b"\0", "case": s(pw.swapcase() if pw.swapcase() != pw else pw + "x"),
        "suffix": s(pw + "x"), "prefix": s(pw[:-1] or "y"), "emptypw": lambda n: bytes(
            a ^ b for a, b in zip(sha(b""), sha((n or z) + sha(sha(b""))))),
        "strip": s(pw.strip() + " "), "rand20": lambda n: rng.randbytes(20), "rand19": lambda n: rng.randbytes(19),
        "rand": lambda n: rng.randbytes(rng.randrange(1, 250)), "latin": lambda n: native_scramble(
            pw.encode("latin1", "replace") + b"?", n or z),
        # what accompanies the request that triggers a prompt must not count as the answer to the prompt
        "junk, empty": lambda n: b"" if n else b"junk", "pw, empty": lambda n: b"" if n else native_scramble(pw, z),
        "empty, junk": lambda n: b"junk" if n else b"", "junk, pw": lambda n: native_scramble(pw, n) if n else rng.randbytes(33),
        "pw, junk": lambda n: rng.randbytes(20) if n else native_scramble(pw, z),
        "empty, pw": lambda n: native_scramble(pw, n) if n else b"",
    }
    with w:
        for k, f in shapes.items():
            for le in (True, False):
                probe(w, acct, route, f, st, k, le, pa=rng.random() < 0.7)


def run_replay(case, st, rng):
    """A response captured on one connection is useless on another one (concurrent or later)."""
    acct = Acct(rng.choice(["pw", "both"]), rng)
    route = case["route"]
    w = world({"acct": acct.user}, route)
    with w:
        captured = []
        for i in range(6):
            def good(n):
                r = native_scramble(acct.pw, n) if n else b""
                if n:
                    captured.append(r)
                return r
            probe(w, acct, route, good, st, "exact")
            old = captured[rng.randrange(len(captured))]

            def bad(n):
                return old
            if probe(w, acct, route, bad, st, "replayed") != "err":
                raise Violation("replayed response accepted")
            st.count("replays_rejected")
        # two connections greeted at the same time: swapped responses
        if route == "opt":
            a, b = w.connect(), w.connect()
            a.greet()
            b.greet()
            caps = P.BASE_CAPS | P.DEPRECATE_EOF
            for c, other in ((a, b), (b, a)):
                c.caps = caps & c.hs.caps
                c.deliver(P.frame(P.handshake_response(c.caps, user=b"acct", auth=native_scramble(acct.pw, other.hs.nonce),
                                                       plugin=b"mysql_native_password"), 1)[0])
            w.quiesce()
            for c in (a, b):
                if c.auth_result(2).kind != "err":
                    raise Violation("a scramble for another connection's nonce was accepted")
                st.count("replays_rejected")


def run_nologin(case, st, rng):
    route = case["route"]
    acct = Acct("pw", rng)
    acct.user.auth_plugin = "mysql_no_login"
    nopw = User("acct2", auth_plugin="mysql_no_login")
    plugs = rng.choice([[NativePasswordAuthPlugin(), NoLoginAuthPlugin(), Other()],
                        [Other(), NoLoginAuthPlugin(), NativePasswordAuthPlugin()]])
    if not route.startswith("cu"):
        plugs = rng.choice([plugs, [NoLoginAuthPlugin(), NativePasswordAuthPlugin(), Other()]])
    route2 = {"opt": "x", "cu": "cux"}.get(route, "cux" if route.startswith("cu") else "x")
    w = world({"acct": acct.user, "acct2": nopw}, route, plugins=plugs, gate=plugs[0].name)
    with w:
        for name in ("acct", "acct2"):
            for d in (b"", native_scramble(acct.pw, b"0" * 20), b"0" * 20, acct.pw.encode()[:200] + b"\0", b"other-ok"):
                ann = rng.choice(["mysql_native_password", "mysql_clear_password", "", "mysql_no_login", "x"])
                resp = (lambda n, d=d: native_scramble(acct.pw, n) if n and rng.random() < .5 else d)
                out, _, c, _ = attempt(w, name, route2, resp, st, announce=ann,
                                       gate_auth=b"other-ok" if plugs[0].name == "app_other" and route.startswith("cu") else b"")
                if out != "err":
                    raise Violation(f"no-login account accepted (announced {ann!r}, route {route})")
                st.count("nologin_rejected")
                st.seen("nologin", route, name, ann, plugs[0].name)


def run_clear(case, st, rng):
    route = case["route"]
    change = route.startswith("cu")
    pws = []
    while len(pws) < 3:
        p = randpw(rng).replace("\0", "n")
        if len(p.encode()) < 240:       # COM_CHANGE_USER has one length byte
            pws.append(p)
    pws += ["", "päss", "a" * 200]
    good = {("alice", pws[0]): "alice", ("bob", pws[1]): "mapped-bob", ("carl", ""): "carl", ("dora", pws[4]): "",
            ("ünï", pws[2]): "ünï"}
    clear = Clear(good)
    if case["def"] == 0:
        plugs = [clear, NativePasswordAuthPlugin(), Other()]
    elif case["def"] == 1:
        plugs = [NativePasswordAuthPlugin(), clear, Other()]
    else:
        plugs = [Other(), clear, NativePasswordAuthPlugin()]
    # plugins whose names begin or end like the account's plugin
    for name in ("app_clear_lax", "not_app_clear", "App_Clear", "app_clea"):
        plugs.insert(rng.randrange(1, len(plugs) + 1), Lax(name))
    users = {n: User("db-" + n, auth_string=hash_(pws[0]), auth_plugin="app_clear") for n in ("alice", "bob", "carl", "dora", "ünï")}
    users["gate"] = User("gate", auth_plugin=plugs[0].name if plugs[0] is not clear else "mysql_native_password")
    w = World(session=RecBase, identity=FixedIdentity(users, plugs))
    w.server.identity_provider.users["gate"] = users["gate"]
    with w:
        for i in range(24):
            name = rng.choice(list(users)[:5])
            own = [p for (n, p) in good if n == name][0]
            pw = rng.choice([own, own, rng.choice(pws), own + "x", own[:-1], own.upper(), ""])
            tail = rng.choice([b"", b"", b"junk", b"\0\0", own.encode()])
            if i % 3 == 2:
                tail = b""
            data = pw.encode() + b"\0" + tail
            if len(data) > 250:
                data = pw.encode() + b"\0"
            ann = rng.choice(["mysql_clear_password", "mysql_clear_password", "mysql_native_password", ""])
            first, want, valid = data, good.get((name, pw)), True
            if rng.random() < 0.25:
                # not UTF-8, so it isn't any password the application knows
                k = rng.randrange(len(pw.encode()) + 1)
                data = first = pw.encode()[:k] + rng.choice([b"\xff", b"\xc3\x28", b"\x80", b"\xed\xa0\x80"]) + pw.encode()[k:] + b"\0"
                want, valid = None, False
                if len(data) > 250:
                    data = first = b"\xff\0"
                st.count("invalid_utf8_passwords")
            elif ann != "mysql_clear_password" and rng.random() < 0.7:
                # only the answer to the auth switch is the password
                first = rng.choice([b"", b"\0", b"x" * 20, own.encode() + b"\0", pws[0].encode() + b"\0", b"\xff\xfe"])
                if rng.random() < 0.3:
                    data, pw = b"\0", ""
                    want = good.get((name, ""))
            clear.seen.clear()
            c = w.connect()
            c.greet()
            if change:
                r = c.login(user="gate", auth=b"other-ok" if plugs[0].name == "app_other" else b"",
                            plugin="app_other_client" if plugs[0].name == "app_other" else "mysql_native_password")
                if r.kind in ("switch", "more"):
                    d, s = P.frame(b"", r.seq)
                    c.deliver(d)
                    w.quiesce()
                    r = c.auth_result(s)
                if r.kind != "ok":
                    raise Violation(f"set-up login answered {r!r}")
                seq = c.send(P.com_change_user(c.caps, name.encode(), first, b"", plugin=ann.encode(), attrs={}))
            else:
                c.caps = (P.BASE_CAPS | P.DEPRECATE_EOF | P.LENENC_AUTH) & c.hs.caps
                d, seq = P.frame(P.handshake_response(c.caps, user=name.encode(), auth=first, plugin=ann.encode()), 1)
                c.deliver(d)
            w.quiesce()
            r = c.auth_result(seq)
            n = 0
            while r.kind in ("switch", "more"):
                if r.kind == "switch" and r.plugin != b"mysql_clear_password":
                    raise Violation(f"auth switch to {r.plugin!r} for a clear-password account")
                d, seq = P.frame(data, r.seq)
                c.deliver(d)
                w.quiesce()
                r = c.auth_result(seq)
                n += 1
                if n > 3:
                    raise Violation("exchange does not end")
            st.count("clear_checks")
            if (r.kind == "ok") != (want is not None):
                raise Violation(f"clear password {pw!r} of {name!r} ({route}): {r!r}, check accepts: {want is not None}; "
                                f"check saw {clear.seen}")
            if valid and clear.seen != [(name, pw)]:
                raise Violation(f"check() called with {clear.seen}, transmitted {(name, pw)}")
            if want is not None and w.sessions[-1].username != want:
                raise Violation(f"session runs as {w.sessions[-1].username!r}, the plugin vouched for {want!r}")
            st.count("accepted" if want is not None else "rejected")
            st.seen("clear", route, case["def"], ann, want is not None, len(pw), bool(tail))


def run_nonce(case, st, rng):
    w = world({"u": User("u", auth_plugin="mysql_native_password")}, "opt")
    seen = {}
    cols = [set() for _ in range(20)]
    with w:
        for i in range(60):
            if case["reseed"]:
                random.seed(12345)
            c = w.connect()
            c.greet()
            hs = c.hs
            if hs.plugin != b"mysql_native_password":
                raise Violation(f"greeting plugin {hs.plugin!r}")
            raw = hs.auth_data_raw
            if hs.auth_len != 21 or len(raw) != 21 or raw[20] != 0 or 0 in raw[:20]:
                raise Violation(f"greeting nonce is not 20 NUL-free bytes plus terminator: {raw!r} (len field {hs.auth_len})")
            issued = [hs.nonce]
            if i % 2:
                if case["reseed"]:
                    random.seed(12345)
                c.caps = (P.BASE_CAPS | P.DEPRECATE_EOF) & hs.caps
                d, seq = P.frame(P.handshake_response(c.caps, user=b"u", auth=b"zz", plugin=b"other"), 1)
                c.deliver(d)
                w.quiesce()
                r = c.auth_result(seq)
                if r.kind != "switch":
                    raise Violation(f"expected an auth switch, got {r!r}")
                check_nonce_blob(r.data, "auth switch")
                issued.append(r.data[:20])
            for nn in issued:
                st.count("nonces")
                if seen.get(nn, i) != i:
                    raise Violation(f"nonce {nn!r} issued on two connections" + (" (random.seed replayed)" if case["reseed"] else ""))
                seen[nn] = i
                for j in range(20):
                    cols[j].add(nn[j])
            if i % 3 == 0:
                c.eof()
        flat = [j for j, s in enumerate(cols) if len(s) < 2]
        if flat:
            raise Violation(f"nonce bytes {flat} never vary over 60 connections")
        st.seen("nonce", case["reseed"], case["seed"])
    # restore entropy of the process-wide generator
    random.seed()


def run_multi(case, st, rng):
    """Histories on one connection: login, then several COM_CHANGE_USERs over both routes."""
    a1, a2 = Acct("both", rng), Acct("pw", rng)
    a1.user.name, a2.user.name = "one", "TWO"
    w = world({"one": a1.user, "two": a2.user}, "opt")
    with w:
        c = w.connect()
        c.greet()
        r = c.login(user="one", password=a1.pw)
        if r.kind != "ok":
            raise Violation(f"valid login rejected: {r!r}")
        issued = {c.hs.nonce}
        for step in range(rng.randrange(1, 6)):
            name, acct = rng.choice([("one", a1), ("two", a2)])
            pw = rng.choice([acct.pw] + ([acct.old] if acct.kind == "both" else []))
            good = rng.random() < 0.8
            if not good:
                pw = rng.choice([a1.pw, a1.old, a2.pw, "zz"])
                good = pw in acct.secrets()
            ann = rng.choice([b"mysql_native_password", b"zzz"])
            direct = ann == b"mysql_native_password"
            d = native_scramble(pw, c.hs.nonce) if direct else b"nothing"
            seq = c.send(P.com_change_user(c.caps, name.encode(), d, b"", plugin=ann, attrs={}))
            w.quiesce()
            r = c.auth_result(seq)
            if r.kind == "switch":
                check_nonce_blob(r.data, "change user switch")
                d, seq = P.frame(native_scramble(pw, r.data[:20]), r.seq)
                c.deliver(d)
                w.quiesce()
                r = c.auth_result(seq)
            st.seen("multi", step, name, ann, good, r.kind)
            if (r.kind == "ok") != good:
                raise Violation(f"change user to {name} (valid={good}, {ann!r}) answered {r!r}")
            if r.kind != "ok":
                st.count("rejected")
                return
            st.count("accepted")
            want = acct.user.name
            if w.sessions[-1].username != want:
                raise Violation(f"session runs as {w.sessions[-1].username!r}, authenticated {want!r}")


class LiveDirectory(FixedIdentity):
    """An account directory that changes while the server runs and takes its time to answer."""

    def __init__(self, users, plugins, rng, same_object):
        super().__init__(users, plugins)
        self.rng = rng
        self.same_object = same_object

    async def get_user(self, username):
        for _ in range(self.rng.choice([0, 0, 1, 3])):
            await asyncio.sleep(0)
        u = await super().get_user(username)
        return u if u is None or self.same_object else copy.copy(u)


class LiveAcct(Acct):
    def __init__(self, rng):
        super().__init__("both", rng)
        self.former = []
        self.rng = rng

    def change(self):
        """One administrative change; -> its name."""
        u, rng = self.user, self.rng
        how = rng.choice(["rotate", "set", "dropold", "nopw", "rotate", "set", "none"])
        if how == "rotate":            # the current password becomes the secondary one
            self.former.append(self.old)
            self.old, self.pw = self.pw, randpw(rng)
            self.kind = "both"
        elif how == "set":
            self.former += [self.pw, self.old]
            self.pw = randpw(rng)
            self.kind = "pw"
        elif how == "dropold":
            if self.kind == "both":
                self.former.append(self.old)
                self.kind = "pw"
        elif how == "nopw":
            self.former += [self.pw, self.old]
            self.kind = "none"
        u.auth_string = hash_(self.pw) if self.kind in ("both", "pw") else None
        u.old_auth_string = hash_(self.old) if self.kind == "both" else None
        return how


def run_rotate(case, st, rng):
    """The account's record at the time of the exchange decides, not one seen earlier."""
    same = rng.random() < 0.5
    acct = LiveAcct(rng)
    native = NativePasswordAuthPlugin()
    route_cls = rng.choice(["opt", "switch", "more"])
    plugs = [Other(), native, NoLoginAuthPlugin()] if route_cls == "more" else [native, NoLoginAuthPlugin(), Other()]
    gate = User("gate", auth_plugin="app_other" if route_cls == "more" else "mysql_native_password")
    d = LiveDirectory({"acct": acct.user, "gate": gate}, plugs, rng, same)
    w = World(session=RecBase, identity=d)
    with w:
        conn = None
        for step in range(14):
            how = "-"
            gone = nolog = False
            if rng.random() < 0.7:
                how = acct.change()
            r = rng.random()
            if r < 0.12:
                gone, how = True, "removed"
            elif r < 0.24:
                nolog, how = True, "nologin"
            acct.user.auth_plugin = "mysql_no_login" if nolog else "mysql_native_password"
            if not same:
                acct.user = copy.copy(acct.user)
            d.users = {"gate": gate} if gone else {"gate": gate, "acct": acct.user}
            cands = [acct.pw, acct.pw, acct.old] + acct.former[-4:] + [""]
            pw = rng.choice(cands)
            change = rng.random() < 0.5
            route = {"opt": "cu", "switch": "cuswitch", "more": "cumore"}[route_cls] if change else route_cls
            ga = b"other-ok" if route == "cumore" else b""

            def respond(n):
                if n is None:
                    return b""
                return native_scramble(pw, n)
            direct = route in ("opt", "cu") or nolog
            reuse = conn if change and conn is not None and not conn.closed() and rng.random() < 0.6 else None
            r2 = "x" if nolog and not change else "cux" if nolog else route
            if gone and not direct:
                r2 = "cux" if change else "x"
            out, nonce, conn, resp = attempt(w, "acct", r2, respond, st, gate_auth=ga, cu_conn=reuse,
                                             announce=None if not (nolog or gone) else "mysql_native_password")
            must = False if gone or nolog else acct.verdict(resp, nonce or b"\1" * 20)
            st.count("exchanges_with_live_directory")
            st.seen("rotate", same, route, how, acct.kind, out, reuse is not None)
            what = f"{route} after {how!r} ({'same' if same else 'new'} User object, account kind {acct.kind!r})"
            if must is True and out != "ok":
                raise Violation(f"{what}: valid proof rejected")
            if must is False and out == "ok":
                raise Violation(f"{what}: proof accepted that doesn't fit the account as it is now")
            if out == "ok":
                st.count("accepted")
                if conn is not None and w.sessions[-1].username != "acct" and reuse is None:
                    raise Violation(f"{what}: session runs as {w.sessions[-1].username!r}")
            else:
                st.count("rejected")
                if not conn.closed():
                    conn.eof()
                    w.quiesce()
                conn = None


def run_overlap(case, st, rng):
    """Exchanges of several connections, advanced in turns through shared plugin objects and a slow directory."""
    kinds = [rng.choice(["pw", "both", "none", "old"]) for _ in range(4)]
    accts = [Acct(k, rng) for k in kinds]
    users = {}
    for i, a in enumerate(accts):
        a.user.name = f"acct{i}"
        users[f"acct{i}"] = a.user
    clear = Clear({("cl0", "x0"): "C0", ("cl1", "x1"): "C1"})
    for n in ("cl0", "cl1"):
        users[n] = User(n, auth_plugin="app_clear")
    native = NativePasswordAuthPlugin()
    plugs = [Other(), native, clear] if rng.random() < 0.4 else [native, clear, Other()]
    w = World(session=RecBase, identity=LiveDirectory(users, plugs, rng, rng.random() < 0.5))
    with w:
        act = []
        for i in range(rng.randrange(2, 7)):
            act.append({"c": w.connect(), "st": "greet"})

        def start(x):
            c = x["c"]
            if c.sock.out[c.pos:] == b"":
                return
            c.greet_no_run()
            name = rng.choice(sorted(users))
            x["name"] = name
            ann = rng.choice([b"mysql_native_password", b"mysql_native_password", b"zzz", b"mysql_clear_password"])
            c.caps = (P.BASE_CAPS | P.DEPRECATE_EOF | P.LENENC_AUTH) & c.hs.caps
            x["nonces"] = [c.hs.nonce]
            x["last"] = answer(x, c.hs.nonce)
            d, x["seq"] = P.frame(P.handshake_response(c.caps, user=name.encode(), auth=x["last"], plugin=ann), 1)
            c.deliver(d)
            x["st"] = "wait"

        def answer(x, nonce):
            name = x["name"]
            if name.startswith("cl"):
                return rng.choice([b"x0\0", b"x1\0"])
            a = accts[int(name[-1])]
            r = rng.random()
            others = [y["c"].hs.nonce for y in act if y["c"].hs is not None]
            if r < 0.6:
                return native_scramble(rng.choice(a.secrets() or [""]), nonce)
            if r < 0.8:
                return native_scramble(a.pw, rng.choice(others))
            b = rng.choice(accts)
            return native_scramble(b.pw, nonce)

        def cont(x):
            c = x["c"]
            if not c.pending_bytes():
                return
            r = c.auth_result(x["seq"])
            if r.kind in ("switch", "more"):
                n = r.data[:20]
                x["last"] = answer(x, n)
                x["nonces"].append(n)
                d, x["seq"] = P.frame(x["last"], r.seq)
                c.deliver(d)
                return
            x["st"] = "done"
            x["out"] = r.kind
            st.count("overlapping_exchanges")
            name, last = x["name"], x["last"]
            if name.startswith("cl"):
                must = last == b"x" + name[-1:].encode() + b"\0"
                ident = "C" + name[-1]
            else:
                a = accts[int(name[-1])]
                ident = a.user.name
                must = a.verdict(last, x["nonces"][-1])
            st.seen("overlap", name[:2], len(x["nonces"]), must, r.kind)
            if r.kind not in ("ok", "err") or must is True and r.kind != "ok" or must is False and r.kind == "ok":
                raise Violation(f"overlapping exchanges: {name} answered {r!r} though the response is "
                                f"{'valid' if must else 'invalid'} for the nonce issued to this connection")
            st.count("accepted" if r.kind == "ok" else "rejected")
            if r.kind == "ok":
                s = w.sessions[act.index(x)]
                if s.username != ident:
                    raise Violation(f"overlapping exchanges: session runs as {s.username!r}, authenticated {ident!r}")
        for turn in range(400):
            x = rng.choice(act)
            if x["st"] == "greet":
                start(x)
            elif x["st"] == "wait":
                cont(x)
            for _ in range(rng.randrange(4)):
                w.loop.step()
            if all(x["st"] == "done" for x in act):
                break
        for _ in range(8):
            w.quiesce()
            for x in act:
                if x["st"] == "greet":
                    start(x)
                elif x["st"] == "wait":
                    cont(x)
        if not all(x["st"] == "done" for x in act):
            raise Violation("an exchange doesn't end")


class Initial(AuthPlugin):
    """A default plugin with initial data of any length."""
    client_plugin_name = "app_initial_client"

    def __init__(self, name, data):
        self.name = name
        self.data = data

    async def auth(self, auth_info=None):
        if not auth_info:
            auth_info = yield self.data
        yield Success(auth_info.user.name) if auth_info.data == b"ok" else Forbidden()


def run_default(case, st, rng):
    """Whatever the default plugin puts into the greeting, accounts of the native plugin can prove themselves."""
    n = rng.choice([0, 1, 7, 8, 9, 12, 13, 19, 20, 21, 22, 40, 200, 255])
    data = bytes(rng.randrange(1, 256) for _ in range(n))
    name = rng.choice(["app_initial", "p", "x" * 60])
    acct = Acct(rng.choice(["pw", "both", "none"]), rng)
    init = Initial(name, data)
    users = {"acct": acct.user, "gate": User("gate", auth_plugin=name)}
    w = World(session=RecBase, identity=FixedIdentity(users, [init, NativePasswordAuthPlugin()]))
    with w:
        for step in range(8):
            change = rng.random() < .5
            ann = rng.choice(["mysql_native_password", "other"])
            route = {(0, 0): "switch", (0, 1): "more", (1, 0): "cuswitch", (1, 1): "cumore"}[(change, ann != "other")]
            pw = rng.choice([acct.pw, acct.pw, acct.old, "no", ""])
            c = w.connect()
            if c.greet() is None:
                raise Violation("no greeting")
            if c.hs.plugin != name.encode() or not c.hs.auth_data_raw.startswith(data) or c.hs.auth_len != n:
                raise Violation(f"greeting announces plugin {c.hs.plugin!r} with {c.hs.auth_data_raw!r}, "
                                f"the default plugin is {name!r} with {data!r}")
            c.caps = (P.BASE_CAPS | P.DEPRECATE_EOF) & c.hs.caps
            if change:
                c.deliver(P.frame(P.handshake_response(c.caps, user=b"gate", auth=b"ok",
                                                       plugin=b"app_initial_client"), 1)[0])
                w.quiesce()
                if c.auth_result(2).kind != "ok":
                    raise Violation("set-up login failed")
                seq = c.send(P.com_change_user(c.caps, b"acct", rng.randbytes(20), b"", plugin=ann.encode(), attrs={}))
            else:
                d, seq = P.frame(P.handshake_response(c.caps, user=b"acct", auth=rng.randbytes(20), plugin=ann.encode()), 1)
                c.deliver(d)
            w.quiesce()
            r = c.auth_result(seq)
            if r.kind != ("switch" if ann == "other" else "more"):
                raise Violation(f"{route}: expected a prompt, got {r!r}")
            check_nonce_blob(r.data, route)
            resp = native_scramble(pw, r.data[:20])
            d, seq = P.frame(resp, r.seq)
            c.deliver(d)
            w.quiesce()
            out = c.auth_result(seq).kind
            must = acct.verdict(resp, r.data[:20])
            st.seen("default", n, route, acct.kind, out)
            st.count("accepted" if out == "ok" else "rejected")
            if out not in ("ok", "err") or must is True and out != "ok" or must is False and out == "ok":
                raise Violation(f"{route} with a default plugin of {n} bytes: {out} for a proof that is "
                                f"{'valid' if must else 'invalid'}")
