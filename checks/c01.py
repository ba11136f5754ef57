"""C01: no command is served on a connection that has not authenticated."""
import itertools
import random
import sys

from vlib import proto as P
from vlib.apps import FixedIdentity, RecBase, RecSession
from vlib.client import World, native_scramble
from vlib.runner import Violation

from mysql_mimic import NativePasswordAuthPlugin, User
from mysql_mimic.auth import (AbstractClearPasswordAuthPlugin, AuthPlugin, Forbidden, KerberosAuthPlugin,
                              NoLoginAuthPlugin, Success)

ID = "C01"
LEVEL = "exploration"
RULE = ("identity configurations (plugin lists/default, users with and without password, unknown, "
        "no-login, bound to another plugin, unbound) x announced client plugin x response strategy per "
        "round (right, wrong, empty, truncated, garbage, other nonce, absent) x follow-up program "
        "(pipelined with the failing response or sent afterwards), for the handshake and for "
        "COM_CHANGE_USER (also malformed / failing in a callback); distinct = (route, plugins, user, "
        "announced plugin, strategy, follow-up, delivery, outcome)")
ASSUMPTIONS = ["application plugins/check() are the application's own and are trusted to decide correctly"]
MIN = {"directory_changes": 200, "failed_handshakes": 800, "failed_change_user": 400, "followup_commands": 500,
       "successful_logins": 150, "successful_change_user": 50, "switch_roundtrips": 200,
       "more_roundtrips": 30, "empty_prompts": 30, "calls_with_identity_checked": 300}
DEADLINE = {"quick": 480, "thorough": 780}

SECRET = "s3crét"
OLD = "older"


class Clear(AbstractClearPasswordAuthPlugin):
    name = "app_clear"

    def __init__(self):
        self.seen = []

    async def check(self, username, password):
        self.seen.append((username, password))
        if password == "clr-" + username:
            return "mapped_" + username
        return None


class Multi(AuthPlugin):
    """Two AuthMoreData rounds; accepts any client plugin."""
    name = "app_multi"
    client_plugin_name = None
    prompts = (b"round-1", b"round-2")

    async def auth(self, auth_info=None):
        if not auth_info:
            auth_info = yield b"round-0\0"
        auth_info = yield self.prompts[0]
        if auth_info.data != b"one":
            yield Forbidden("nope")
            return
        auth_info = yield self.prompts[1]
        if auth_info.data == b"two":
            yield Success("multi!" + auth_info.username)
        else:
            yield Forbidden("nope")


class Blank(Multi):
    """Its prompts carry no data: an empty prompt is not a decision."""
    name = "app_blank"
    prompts = (b"", b"")


class Ends(AuthPlugin):
    """Stops without ever deciding: nobody has been authenticated."""
    name = "app_ends"
    client_plugin_name = None

    async def auth(self, auth_info=None):
        if not auth_info:
            auth_info = yield b"round-0\0"
        auth_info = yield b"anything?"


class Boom(AuthPlugin):
    name = "app_boom"
    client_plugin_name = None

    async def auth(self, auth_info=None):
        if not auth_info:
            auth_info = yield b"x" * 20 + b"\0"
        raise RuntimeError("plugin exploded")


class _Gss:
    """A stand-in for the gssapi module: a token is the principal it proves."""

    class exceptions:
        class GSSError(Exception):
            pass

    @staticmethod
    def Name(n):
        return n

    @staticmethod
    def Credentials(usage, name):
        return (usage, name)

    class SecurityContext:
        def __init__(self, usage, creds):
            self.initiator_name = None

        def step(self, token):
            if not token.startswith(b"token:"):
                raise _Gss.exceptions.GSSError("bad token")
            self.initiator_name = token[6:].decode()


sys.modules.setdefault("gssapi", _Gss)
sys.modules.setdefault("gssapi.exceptions", _Gss.exceptions)


def Kerberos():
    return KerberosAuthPlugin("mysql", "REALM")


PLUGINS = {"krb": Kerberos, "native": NativePasswordAuthPlugin, "clear": Clear, "nologin": NoLoginAuthPlugin,
           "multi": Multi, "boom": Boom, "blank": Blank, "ends": Ends}
NAMES = {"krb": "authentication_kerberos", "native": "mysql_native_password", "clear": "app_clear", "nologin": "mysql_no_login",
         "multi": "app_multi", "boom": "app_boom", "blank": "app_blank", "ends": "app_ends"}
LISTS = [["native", "nologin"], ["native"], ["native", "clear", "nologin", "multi", "boom", "blank", "ends", "krb"],
         ["clear", "native", "nologin"], ["nologin", "native", "clear"], ["multi", "native", "clear"],
         ["clear"], ["nologin"], ["multi"], ["boom", "native"], ["blank", "ends", "native"],
         ["krb", "native"], ["native", "krb", "clear"]]
H = NativePasswordAuthPlugin.create_auth_string
USERS = ["krb", "krbx", "nopw", "pw", "both", "clr", "nolog", "multi", "blank", "ends", "boom", "unbound", "unkplug", "clinm", "alias", "ghost",
         "raiser", "emptyname"]


class W(World):
    """Records the name the session runs under wherever the application can look at it, from the
    first callback to close(); every one of them must be None or have passed authentication."""

    def __init__(self, **kw):
        self.names = []
        self.allowed = {None}
        self.names_checked = 0
        super().__init__(**kw)

    def observe(self, point):
        for s in self.sessions:
            self.names.append((point, s.username))

    def check_names(self):
        for point, name in self.names:
            if name not in self.allowed:
                raise Violation(f"at {point} the session runs as {name!r}, which never passed "
                                f"authentication (proven: {sorted(x for x in self.allowed if x)})")

    def __exit__(self, et, ev, tb):
        try:
            if et is None:
                self.observe("end of the conversation")
                for c in self.conns:
                    if not c.closed():
                        c.eof()
                self.quiesce()
                self.observe("after the connection ended")
                self.check_names()
                self.st.count("names_observed", len(self.names))
        finally:
            self.close()


class Ident(FixedIdentity):
    world = None

    async def get_user(self, username):
        if self.world:
            self.world.observe("get_user")
        if username == "raiser":
            raise RuntimeError("directory down")
        return await super().get_user(username)


def hash_(pw):
    import hashlib
    return hashlib.sha1(hashlib.sha1(pw.encode("utf8")).digest()).hexdigest()


def make_users():
    return {
        "krb": User("krb", auth_plugin="authentication_kerberos"),
        "krbx": User("krbx", auth_plugin="authentication_kerberos"),
        "nopw": User("nopw", auth_plugin="mysql_native_password"),
        "pw": User("pw", auth_string=hash_(SECRET), auth_plugin="mysql_native_password"),
        "both": User("both", auth_string=hash_(SECRET), old_auth_string=hash_(OLD),
                     auth_plugin="mysql_native_password"),
        "clr": User("clr", auth_plugin="app_clear"),
        "nolog": User("nolog", auth_plugin="mysql_no_login"),
        "multi": User("multi", auth_plugin="app_multi"),
        "boom": User("boom", auth_plugin="app_boom"),
        "blank": User("blank", auth_plugin="app_blank"),
        "ends": User("ends", auth_plugin="app_ends"),
        "unbound": User("unbound", auth_string=hash_(SECRET)),
        "unkplug": User("unkplug", auth_string=hash_(SECRET), auth_plugin="who_knows"),
        # directory canonicalises the name
        "clinm": User("clinm", auth_string=hash_(SECRET), auth_plugin="mysql_clear_password"),   # a client plugin: not one of ours
        "alias": User("canonical", auth_string=hash_(SECRET), auth_plugin="mysql_native_password"),
    }


STRATS = ["right", "right", "wrong", "empty", "trunc", "garbage", "flip", "stale", "absent", "userhash", "other"]
CLIENT_PLUGINS = ["right", "mysql_native_password", "mysql_clear_password", "", "bogus_plugin", None]
FOLLOW = ["query", "prepare", "initdb", "fields", "ping", "chuser", "handshake", "resetconn", "execute",
          "fetch", "reset", "long", "close", "debug", "quit", "empty", "badcom", "mix", "badseq", "cleartext"]


class Auth:
    """The client's side of one exchange and the independent verdict about it."""

    def __init__(self, plugins, user, users=None):
        self.plugins = plugins
        self.user = user
        u = (users if users is not None else make_users()).get(user)
        eff = None
        if u is not None:
            for p in plugins:
                if NAMES[p] == u.auth_plugin:
                    eff = p
            if eff is None:
                eff = plugins[0]
        self.u = u
        self.eff = eff
        self.nonces = []
        self.sent = []

    def secret_for(self):
        return {"pw": SECRET, "both": SECRET, "unbound": SECRET, "unkplug": SECRET, "clinm": SECRET, "alias": SECRET}.get(self.user, "")

    def right(self, nonce, rnd):
        if self.eff == "clear":
            return b"clr-" + self.user.encode() + b"\0"
        if self.eff == "krb":
            return b"token:" + self.user.encode() + b"@REALM"
        if self.eff in ("multi", "blank"):
            return [b"", b"one", b"two"][min(rnd, 2)]
        return native_scramble(self.secret_for(), nonce)

    def respond(self, strat, nonce, rnd, rng):
        r = self.right(nonce, rnd)
        if strat == "right":
            d = r
        elif strat == "wrong":
            d = (b"not-it\0" if self.eff == "clear" else
                 rng.choice([b"token:krb2@REALM", b"token:nopw@REALM", b"token:", b"tok", b"token:@REALM"]) if self.eff == "krb" else b"no" if self.eff in ("multi", "blank")
                 else native_scramble("bad" + self.secret_for(), nonce))
        elif strat == "empty":
            d = b""
        elif strat == "trunc":
            d = r[:rng.randrange(0, max(1, len(r) - 1))] if self.eff != "clear" else b"clr\0"
        elif strat == "flip":
            d = bytes(r) or b"\1" * 20
            i = rng.randrange(len(d) * 8 if self.eff != "clear" else 16)
            d = bytearray(d)
            d[i // 8] ^= 1 << (i % 8)
            d = bytes(d)
        elif strat == "stale":
            d = native_scramble(self.secret_for() or "x", bytes(range(1, 21)))
        elif strat == "other":
            # what one of the other plugins would want to hear
            d = rng.choice([b"clr-" + self.user.encode() + b"\0", b"token:" + self.user.encode() + b"@REALM",
                            [b"", b"one", b"two"][min(rnd, 2)], native_scramble(SECRET, nonce)])
        elif strat == "userhash":
            # knowing the stored hash must not be enough
            d = bytes.fromhex(self.u.auth_string) if self.u and self.u.auth_string else b"\0" * 20
        else:
            d = bytes(rng.randrange(256) for _ in range(rng.choice([1, 8, 20, 21, 40])))
        self.sent.append(d)
        return d

    def verdict(self):
        """identity if the last response authenticates the user, else None."""
        if self.eff is None or not self.sent:
            return None
        last = self.sent[-1]
        if self.eff == "native":
            u = self.u
            secrets = {hash_(x): x for x in (SECRET, OLD, "changed")}
            for pw in [secrets[h] for h in (u.auth_string, u.old_auth_string) if h]:
                if any(last[:20] == native_scramble(pw, n) for n in self.nonces):
                    return u.name
            if not u.auth_string and last == b"":
                return u.name
            return None
        if self.eff == "clear":
            if b"\0" in last and last.split(b"\0")[0] == b"clr-" + self.user.encode():
                return "mapped_" + self.user
            return None
        if self.eff == "krb":
            if last == b"token:" + self.user.encode() or last.startswith(b"token:" + self.user.encode() + b"@"):
                return self.user
            if last.startswith(b"token:") and not self.user:
                return last[6:].decode().split("@")[0]
            return None
        if self.eff in ("multi", "blank"):
            if self.sent[-2:] == [b"one", b"two"]:
                return "multi!" + self.user
            return None
        return None


def gen(tier, seed):
    rng = random.Random(f"{seed}/c01")
    n = 0
    # systematic: every (plugin list, user, strategy) x announced plugin, rotating follow-up/delivery
    reps = 5 if tier == "quick" else 120
    for rep in range(reps):
        for li, user, strat, cp in itertools.product(range(len(LISTS)), USERS, sorted(set(STRATS)), range(6)):
            n += 1
            if tier == "quick" and li > 4 and (n * 7 + rep) % 3:
                continue
            yield {"k": "hs", "pl": li, "user": user, "strat": strat, "cp": cp,
                   "fu": (n * 7 + rep) % len(FOLLOW), "dl": (n + rep) % 4, "seed": f"{seed}/{n}/{rep}",
                   "tls": n % 23 == 0, "sess": n % 2}
        for li, user, strat, cp in itertools.product(range(5), USERS, sorted(set(STRATS)), range(6)):
            n += 1
            if tier == "quick" and (n * 5 + rep) % 2:
                continue
            yield {"k": "cu", "pl": li, "user": user, "strat": strat, "cp": cp,
                   "fu": (n * 11 + rep) % len(FOLLOW), "dl": (n + rep) % 4, "seed": f"{seed}/{n}/{rep}",
                   "via": rng.choice(["nopw", "pw", "both"]), "sess": n % 2}
    for i in range(800 if tier == "quick" else 20000):
        yield {"k": "cubad", "seed": f"{seed}/b{i}", "how": ["trunc", "coll", "resetfail", "badseq", "eof",
                                                            "getuser", "plugin", "bits"][i % 8],
               "fu": i % len(FOLLOW), "dl": i % 4, "sess": i % 2}
    for i in range(600 if tier == "quick" else 10000):
        yield {"k": "early", "seed": f"{seed}/e{i}", "fu": i % len(FOLLOW), "sess": i % 2}
    for i in range(600 if tier == "quick" else 20000):
        yield {"k": "hist", "seed": f"{seed}/h{i}", "sess": i % 2}


def make_world(st, pl, sess, tls=False, users=None):
    plugins = [PLUGINS[p]() for p in LISTS[pl]]
    ident = Ident(users or make_users(), plugins)

    st.count("worlds")

    def handler(session, sql, attrs, expression=None):
        w.seen_users.append(session.username)
        return [(1,)], ["a"]

    def setup(s):
        s.faults = {}
        orig = s._rec

        def rec(name, *args):
            w.ident_log.append((name, s.username))
            w.names.append((name, s.username))
            return orig(name, *args)
        s._rec = rec

    w = W(session=(RecBase, RecSession)[sess], identity=ident, handler=handler, setup=setup, tls=tls)
    w.st = st
    ident.world = w
    w.seen_users = []
    w.ident_log = []
    return w


def announced(case, auth):
    cp = CLIENT_PLUGINS[case["cp"]]
    if cp == "right":
        return {"native": "mysql_native_password", "clear": "mysql_clear_password",
                None: "mysql_native_password"}.get(auth.eff, "mysql_native_password")
    return cp


def follow_wires(fu, rng, c, valid_user=True):
    """-> list of (payload, seq) a client may try after a failed exchange."""
    caps = c.caps or (P.BASE_CAPS | P.DEPRECATE_EOF)
    name = FOLLOW[fu]
    q = P.com_query("select 1 from t", caps)
    cu = P.com_change_user(caps, b"nopw", b"", b"db", plugin=b"mysql_native_password", attrs={})
    cu2 = P.com_change_user(caps, b"pw", native_scramble(SECRET, c.hs.nonce), b"db",
                            plugin=b"mysql_native_password", attrs={})
    hs = P.handshake_response(caps & ~(P.CONNECT_WITH_DB | P.CONNECT_ATTRS), user=b"nopw", auth=b"",
                              plugin=b"mysql_native_password")
    hs2 = P.handshake_response(caps & ~(P.CONNECT_WITH_DB | P.CONNECT_ATTRS), user=b"pw",
                               auth=native_scramble(SECRET, c.hs.nonce), plugin=b"mysql_native_password")
    t = {
        "query": [q], "prepare": [P.com_stmt_prepare("select ? from t"),
                                  P.com_stmt_execute(0, [("i64", 1)], caps)],
        "initdb": [b"\x02newdb"], "fields": [P.com_field_list(b"t")], "ping": [b"\x0e"],
        "chuser": [cu, q, cu2, q], "handshake": [hs, q, hs2, q], "resetconn": [b"\x1f", q],
        "execute": [P.com_stmt_execute(0, [], caps)], "fetch": [P.com_stmt_fetch(0, 5)],
        "reset": [P.com_stmt_reset(0)], "long": [P.com_stmt_long(0, 0, b"x"), q],
        "close": [P.com_stmt_close(0), q], "debug": [b"\x0d"], "quit": [b"\x01", q], "empty": [b"", q],
        "badcom": [b"\x55", q], "badseq": [q],
        "mix": [b"\x0e", q, b"\x02zz", P.com_stmt_prepare("select 1"), cu, q],
        "cleartext": [SECRET.encode() + b"\0", b"clr-clr\0", q],
    }[name]
    if name == "badseq":
        return [(q, s) for s in (0, 1, 2, 3, 4, 5)]
    if name == "handshake":
        out = []
        for s in (0, 1, 2, 3, 4):
            out.append((hs, s))
        return out + [(hs2, 0), (q, 0)]
    return [(p, 0) for p in t]


def forbidden_calls(w, since):
    return [x for x in w.ident_log[since:] if x[0] != "close"]


def check_dead(w, c, st, since, fu, dl, rng, what, piped=()):
    """Everything the client tries now must be neither executed nor answered with anything but ERR."""
    bad = forbidden_calls(w, since)
    if bad:
        raise Violation(f"{what}: the application session was called: {bad[:4]}")
    if not piped:
        for p, s in follow_wires(fu, rng, c):
            if c.closed():
                break
            c.deliver(P.frame(p, s)[0])
            st.count("followup_commands")
            if dl != 1:
                w.quiesce()
        w.quiesce()
    else:
        st.count("followup_commands", len(piped))
    if c.closed():
        st.count("closed_after_failure")
    bad = forbidden_calls(w, since)
    if bad:
        raise Violation(f"{what}: a command was served afterwards: {bad[:4]}")
    for p in c.take_payloads(None, partial_ok=True):
        if p[:1] != b"\xff":
            raise Violation(f"{what}: answered with something else than ERR: {p[:40]!r}")


def exchange(w, c, auth, strat, seq, rng, st, tail=b""):
    """Follow the server's prompts.  -> Response, wellformed"""
    rnd = mores = 0
    while True:
        r = c.auth_result(seq) if not tail else lenient_result(c)
        if r.kind == "switch":
            st.count("switch_roundtrips")
            nonce = r.data[:20]
        elif r.kind == "more":
            st.count("more_roundtrips")
            nonce = r.data[:20]
        else:
            return r
        auth.nonces.append(nonce)
        w.observe("a prompt of the authentication exchange")
        rnd += 1
        if rnd > 6:
            raise Violation("authentication exchange does not end")
        if strat == "absent":
            c.eof()
            w.quiesce()
            return P.Response("absent")
        mores += r.kind == "more"
        if r.kind == "more" and not r.data:
            st.count("empty_prompts")
        rr = mores if auth.eff in ("multi", "blank") else rnd
        d = auth.respond(strat, nonce, rr, rng)
        data, seq = P.frame(d, r.seq)
        c.deliver(data + tail)
        w.quiesce()


def lenient_result(c):
    pl = c.take_payloads(None, partial_ok=True)
    if not pl:
        return P.Response("closed" if c.closed() else "none")
    p = pl[0]
    c.extra = pl[1:]
    if p[:1] == b"\xff":
        return P.Response("err", err=P.Err(p, P.PROTOCOL_41))
    if p[:1] == b"\x00":
        return P.Response("ok")
    if p[:1] == b"\xfe":
        b = P.Buf(p)
        b.u(1)
        return P.Response("switch", plugin=b.nul(), data=b.rest(), seq=None)
    return P.Response("more", data=p[1:], seq=None)


def after_success(w, c, st, identity, sess, what):
    w.allowed.add(identity)
    if c.closed():
        raise Violation(f"{what}: connection closed after OK")
    n = len(w.ident_log)
    r = c.query("select a from t")
    if r.kind not in ("rs",):
        raise Violation(f"{what}: query after OK answered {r!r}")
    if w.seen_users and w.seen_users[-1] != identity:
        raise Violation(f"{what}: session runs as {w.seen_users[-1]!r}, authenticated as {identity!r}")
    c.ping()
    for name, user in w.ident_log[n:]:
        st.count("calls_with_identity_checked")
        if user != identity:
            raise Violation(f"{what}: {name} called with username {user!r}, authenticated as {identity!r}")


def run(case, st):
    rng = random.Random(case["seed"])
    return {"hs": run_hs, "cu": run_cu, "cubad": run_cubad, "early": run_early, "hist": run_hist}[case["k"]](case, st, rng)


def run_hs(case, st, rng):
    tls = case["tls"]
    w = make_world(st, case["pl"], case["sess"], tls=tls)
    with w:
        c = w.connect()
        c.greet()
        if c.hs is None:
            raise Violation("no greeting")
        auth = Auth(LISTS[case["pl"]], case["user"])
        auth.nonces.append(c.hs.nonce)
        strat = case["strat"]
        cp = announced(case, auth)
        caps = P.BASE_CAPS | P.DEPRECATE_EOF | (P.LENENC_AUTH if rng.random() < .5 else 0)
        if rng.random() < 0.4:
            caps |= P.CONNECT_WITH_DB
        if cp is None:
            caps &= ~P.PLUGIN_AUTH
        seq = 1
        if tls:
            caps |= P.SSL
            data, _ = P.frame(P.ssl_request(caps), 1)
            c.deliver(data + c.start_tls())
            c.finish_tls()
            seq = 2
        c.caps = caps & c.hs.caps
        uname = case["user"] if case["user"] != "emptyname" else ""
        what = f"handshake user={uname!r} plugins={LISTS[case['pl']]} announced={cp!r} {strat}"
        if strat == "absent":
            c.deliver(P.frame(P.handshake_response(caps & c.hs.caps, user=uname.encode(), auth=b"zz",
                                                   db=b"d", plugin=b"other"), seq)[0])
            w.quiesce()
            r = exchange(w, c, auth, "absent", seq + 1, rng, st)
            if r.kind != "absent":
                pass
            c.eof()
            w.quiesce()
            if r.kind == "ok" and auth_none(auth):
                raise Violation(f"{what}: OK for garbage credentials")
            if r.kind != "ok":
                bad = forbidden_calls(w, 0)
                if bad:
                    raise Violation(f"{what}: calls {bad[:3]}")
                st.count("failed_handshakes")
            return
        d = auth.respond(strat, c.hs.nonce, 0, rng)
        pay = P.handshake_response(caps & c.hs.caps, user=uname.encode(), auth=d[:250], db=b"d",
                                   plugin=(cp or "").encode())
        pay = caps.to_bytes(4, "little") + pay[4:]
        data, nseq = P.frame(pay, seq)
        piped = follow_wires(case["fu"], rng, c) if case["dl"] == 3 else ()
        tail = b"".join(P.frame(p, s)[0] for p, s in piped)
        if tail and (auth.verdict() is not None or strat == "right"):
            tail, piped = b"", ()
        c.deliver(data + tail)
        w.quiesce()
        if piped:
            # a server that asks for more takes the piped bytes as the answer: that is fine, but
            # nothing may be executed and nothing but prompts/ERR may be sent
            bad = forbidden_calls(w, 0)
            if bad:
                raise Violation(f"{what} + pipelined {FOLLOW[case['fu']]}: {bad[:4]}")
            pl = c.take_payloads(None, partial_ok=True)
            seen_err = False
            for p in pl:
                if p[:1] == b"\xff":
                    seen_err = True
                elif p[:1] in (b"\xfe", b"\x01") and not seen_err:
                    pass
                else:
                    raise Violation(f"{what} + pipelined {FOLLOW[case['fu']]}: server sent {p[:30]!r}")
            st.count("failed_handshakes")
            st.count("pipelined_followups")
            st.count("followup_commands", len(piped))
            st.seen("hsp", case["pl"], case["user"], cp, strat, case["fu"])
            return
        r = exchange(w, c, auth, strat, nseq, rng, st)
        ident = auth.verdict()
        st.seen("hs", case["pl"], case["user"], cp, strat, case["fu"], case["dl"], r.kind)
        if r.kind == "ok":
            if ident is None:
                raise Violation(f"{what}: accepted without valid credentials")
            st.count("successful_logins")
            after_success(w, c, st, ident, case["sess"], what)
            if any(u != ident for n, u in w.ident_log):
                raise Violation(f"{what}: calls under another user: {w.ident_log}")
            return
        if r.kind != "err":
            raise Violation(f"{what}: failed exchange not answered with ERR but {r!r}")
        st.count("failed_handshakes")
        st.sample({"exchange": what, "follow_up": FOLLOW[case["fu"]]})
        check_dead(w, c, st, 0, case["fu"], case["dl"], rng, what)


def auth_none(auth):
    return auth.verdict() is None


VIA = {"nopw": "", "pw": SECRET, "both": OLD}


def prepare_session(w, c, via, st):
    """Login over whatever default plugin and open some state (a statement, a cursor)."""
    r = c.login(user=via, password=VIA[via], db="first")
    if r.kind == "switch" or r.kind == "more":
        data, seq = P.frame(native_scramble(VIA[via], r.data[:20]), r.seq)
        c.deliver(data)
        w.quiesce()
        r = c.auth_result(seq)
    if r.kind != "ok":
        return False
    w.allowed.add(via)
    st.count("successful_logins")
    p = c.prepare("select a from t where b = ?")
    if p.kind == "prep":
        c.execute(p.stmt_id, [("i64", 1)], cursor=True)
    return True


def run_cu(case, st, rng):
    w = make_world(st, case["pl"], case["sess"])
    with w:
        c = w.connect()
        if not prepare_session(w, c, case["via"], st):
            st.count("login_refused")
            return
        auth = Auth(LISTS[case["pl"]], case["user"])
        auth.nonces.append(c.hs.nonce)
        strat = case["strat"]
        cp = announced(case, auth)
        uname = case["user"] if case["user"] != "emptyname" else ""
        what = (f"COM_CHANGE_USER {case['via']}->{uname!r} plugins={LISTS[case['pl']]} announced={cp!r} {strat}")
        since = len(w.ident_log)
        if strat == "absent":
            d = b"zz"
            auth.sent.append(d)
        else:
            d = auth.respond(strat, c.hs.nonce, 0, rng)
        pay = P.com_change_user(c.caps, uname.encode(), d[:250], b"second", plugin=(cp or "").encode(),
                                attrs={}, tail=cp is not None)
        data, seq = P.frame(pay, 0)
        tail = b""
        piped = ()
        if case["dl"] == 3 and strat not in ("right", "absent") and auth.verdict() is None:
            piped = follow_wires(case["fu"], rng, c)
            tail = b"".join(P.frame(p, s)[0] for p, s in piped)
        c.deliver(data + tail)
        w.quiesce()
        if piped:
            bad = forbidden_calls(w, since)
            if bad:
                raise Violation(f"{what} + pipelined {FOLLOW[case['fu']]}: {bad[:4]}")
            seen_err = False
            for p in c.take_payloads(None, partial_ok=True):
                if p[:1] == b"\xff":
                    seen_err = True
                elif not (p[:1] in (b"\xfe", b"\x01") and not seen_err):
                    raise Violation(f"{what} + pipelined {FOLLOW[case['fu']]}: server sent {p[:30]!r}")
            st.count("failed_change_user")
            st.count("pipelined_followups")
            st.seen("cup", case["pl"], case["user"], cp, strat, case["fu"])
            return
        r = exchange(w, c, auth, strat, seq, rng, st)
        ident = auth.verdict()
        st.seen("cu", case["pl"], case["user"], cp, strat, case["fu"], case["dl"], r.kind)
        if r.kind == "ok":
            if ident is None:
                raise Violation(f"{what}: accepted without valid credentials")
            st.count("successful_change_user")
            after_success(w, c, st, ident, case["sess"], what)
            bad = [x for x in w.ident_log[since:] if x[0] != "close" and x[1] != ident]
            if bad:
                raise Violation(f"{what}: calls under another user {bad[:3]}")
            return
        if r.kind == "absent":
            if forbidden_calls(w, since):
                raise Violation(f"{what}: calls {forbidden_calls(w, since)[:3]}")
            return
        if r.kind != "err":
            raise Violation(f"{what}: failed exchange not answered with ERR but {r!r}")
        st.count("failed_change_user")
        check_dead(w, c, st, since, case["fu"], case["dl"], rng, what)


def run_cubad(case, st, rng):
    """COM_CHANGE_USER that fails for another reason than a refused credential."""
    how = case["how"]
    w = make_world(st, 2, case["sess"])
    with w:
        c = w.connect()
        if not prepare_session(w, c, "pw", st):
            raise Violation("login refused")
        since = len(w.ident_log)
        sess = w.sessions[-1]
        good = P.com_change_user(c.caps, b"nopw", b"", b"second", plugin=b"mysql_native_password", attrs={b"k": b"v"})
        what = f"COM_CHANGE_USER failing by {how}"
        pay = good
        if how == "trunc":
            pay = good[:rng.randrange(1, 12)]
        elif how == "bits":
            i = rng.randrange(8, len(good) * 8)
            b = bytearray(good)
            b[i // 8] ^= 1 << (i % 8)
            pay = bytes(b)
        elif how == "coll":
            pay = P.com_change_user(c.caps, b"nopw", b"", b"second", charset=rng.choice([0, 999, 65535]),
                                    plugin=b"mysql_native_password", attrs={})
        elif how == "resetfail":
            sess.faults = {("reset", None): "reset failed"}
        elif how in ("badseq", "eof"):
            pay = P.com_change_user(c.caps, b"clr", b"", b"second", plugin=b"nonsense", attrs={})
        elif how == "getuser":
            pay = P.com_change_user(c.caps, b"raiser", b"", b"second", plugin=b"mysql_native_password", attrs={})
        elif how == "plugin":
            pay = P.com_change_user(c.caps, b"boom", b"x", b"second", plugin=b"mysql_native_password", attrs={})
        c.deliver(P.frame(pay, 0)[0])
        w.quiesce()
        pl = c.take_payloads(None, partial_ok=True)
        if how in ("badseq", "eof"):
            if not pl or pl[0][:1] != b"\xfe":
                raise Violation(f"{what}: expected an auth switch request, got {pl}")
            if how == "eof":
                c.eof()
                w.quiesce()
                if forbidden_calls(w, since):
                    raise Violation(f"{what}: {forbidden_calls(w, since)}")
                return
            c.deliver(P.frame(b"clr-clr\0", rng.choice([0, 1, 3, 9]))[0])
            w.quiesce()
            pl = c.take_payloads(None, partial_ok=True)
        kinds = [p[:1] for p in pl]
        st.seen("cubad", how, case["fu"], case["dl"], tuple(kinds))
        if b"\x00" in kinds:
            if how not in ("bits", "trunc"):
                raise Violation(f"{what}: answered OK ({len(pl)} packets)")
            if len(pl) != 1:
                raise Violation(f"{what}: {len(pl)} packets")
            # still a valid packet (only a flag/charset/attribute changed): user must be nopw
            after_success(w, c, st, "nopw", case["sess"], what)
            return
        if kinds == [b"\xfe"]:
            # plugin name damaged: the server asks for an auth switch; hang up
            st.count("damaged_into_switch")
            c.eof()
            w.quiesce()
            if forbidden_calls(w, since):
                raise Violation(f"{what}: {forbidden_calls(w, since)}")
            return
        if how == "resetfail":
            w.allowed.add("nopw")
            since += sum(1 for x in w.ident_log[since:] if x[0] == "reset")
        if not c.closed() and kinds != [b"\xff"]:
            raise Violation(f"{what}: {kinds}")
        st.count("failed_change_user")
        check_dead(w, c, st, since, case["fu"], case["dl"], rng, what)


def run_early(case, st, rng):
    """Commands instead of (or before) the handshake response / the auth-switch reply."""
    w = make_world(st, rng.randrange(5), case["sess"])
    with w:
        c = w.connect()
        c.greet()
        c.caps = (P.BASE_CAPS | P.DEPRECATE_EOF) & c.hs.caps
        stage = rng.choice(["first", "switch", "ssl"])
        wires = follow_wires(case["fu"], rng, c)
        if FOLLOW[case["fu"]] in ("handshake", "cleartext", "badseq", "mix"):
            wires = [(P.com_query("select 1 from t", c.caps), s) for s in (1, 2, 0)]
        if stage == "switch":
            c.deliver(P.frame(P.handshake_response(c.caps, user=b"pw", auth=b"", plugin=b"odd"), 1)[0])
            w.quiesce()
            seq = 3
        elif stage == "ssl":
            c.deliver(P.frame(P.ssl_request(c.caps | P.SSL), 1)[0])
            w.quiesce()
            seq = 2
        else:
            seq = 1
        for j, (p, s) in enumerate(wires):
            c.deliver(P.frame(p, seq + j if rng.random() < .7 else s)[0])
            st.count("followup_commands")
            if rng.random() < 0.5:
                w.quiesce()
        w.quiesce()
        st.count("failed_handshakes")
        st.seen("early", stage, case["fu"])
        bad = forbidden_calls(w, 0)
        if bad:
            raise Violation(f"command before authentication ({stage}): {bad[:3]}")
        for p in c.take_payloads(None, partial_ok=True):
            if p[:1] == b"\x00":
                raise Violation(f"command before authentication ({stage}) answered with OK")


def run_hist(case, st, rng):
    """Random histories of successful changes of user ending in a failed one; accounts disappear, are disabled
    or get another secret between two exchanges."""
    users = make_users()
    w = make_world(st, 2, case["sess"], users=users)
    with w:
        c = w.connect()
        if not prepare_session(w, c, rng.choice(["nopw", "pw", "both"]), st):
            raise Violation("login refused")
        for step in range(rng.randrange(1, 7)):
            user = rng.choice(["nopw", "pw", "both", "clr", "multi", "blank", "alias"])
            if rng.random() < 0.3:
                victim = user if rng.random() < 0.7 else rng.choice(sorted(users))
                how = rng.choice(["removed", "nologin", "secret"])
                st.count("directory_changes")
                if how == "removed":
                    users.pop(victim, None)
                elif victim in users and how == "nologin":
                    users[victim].auth_plugin = "mysql_no_login"
                elif victim in users:
                    users[victim] = User(users[victim].name, auth_string=hash_("changed"),
                                         auth_plugin=users[victim].auth_plugin)
            auth = Auth(LISTS[2], user, users)
            auth.nonces.append(c.hs.nonce)
            cp = rng.choice(["mysql_native_password", "mysql_clear_password", "x"])
            last = rng.random() < 0.25
            strat = "wrong" if last else "right"
            since = len(w.ident_log)
            d = auth.respond(strat, c.hs.nonce, 0, rng)
            seq = c.send(P.com_change_user(c.caps, user.encode(), d, b"", plugin=cp.encode(), attrs={}))
            w.quiesce()
            r = exchange(w, c, auth, strat, seq, rng, st)
            ident = auth.verdict()
            if r.kind == "ok":
                if ident is None:
                    raise Violation("accepted without valid credentials")
                st.count("successful_change_user")
                after_success(w, c, st, ident, case["sess"], f"change user to {user}")
            else:
                if r.kind != "err":
                    raise Violation(f"failed change user answered {r!r}")
                st.count("failed_change_user")
                check_dead(w, c, st, since, rng.randrange(len(FOLLOW)), rng.randrange(3), rng, "history")
                return
            st.seen("hist", step, user, cp)
