"""World (server under test on a DetLoop) and Conn (a strict client)."""
import gc
import hashlib
import os
import ssl as _ssl

from vlib import proto as P
from vlib.detloop import DetLoop
from vlib.apps import RecBase, RecControl, FixedIdentity
from vlib.proto import ProtoError

import mysql_mimic
from mysql_mimic import MysqlServer

HERE = os.path.dirname(os.path.abspath(__file__))
CERT = os.path.join(HERE, "cert.pem")
KEY = os.path.join(HERE, "key.pem")

_ssl_ctx = None


def server_ssl_context():
    global _ssl_ctx
    if _ssl_ctx is None:
        c = _ssl.SSLContext(_ssl.PROTOCOL_TLS_SERVER)
        c.load_cert_chain(CERT, KEY)
        _ssl_ctx = c
    return _ssl_ctx


class World:
    def __init__(self, session=RecBase, identity=None, control=None, tls=False, handler=None,
                 factory=None, setup=None, **server_kw):
        self.loop = DetLoop()
        self.log = []
        self.sessions = []
        self.control = control if control is not None else RecControl(server_id=7)
        self.session_cls = session
        self.handler = handler
        self.setup = setup
        self.conns = []
        if tls:
            server_kw["ssl"] = server_ssl_context()

        def make():
            s = self.session_cls()
            s.world = self
            s.index = len(self.sessions)
            s.handler = self.handler
            self.sessions.append(s)
            if self.setup:
                self.setup(s)
            return s

        self.make_session = make
        self.server = MysqlServer(session_factory=factory or make, control=self.control,
                                  identity_provider=identity, **server_kw)
        self.loop.run(self.server.start_server(port=0))

    def connect(self):
        c = Conn(self)
        self.conns.append(c)
        return c

    def login(self, **kw):
        """Open a connection and authenticate; returns the Conn after OK."""
        c = self.connect()
        r = c.login(**kw)
        if r.kind != "ok":
            raise ProtoError(f"login failed: {r}")
        return c

    def quiesce(self, limit=300000):
        return self.loop.quiesce(limit)

    def tasks(self):
        import asyncio
        return [t for t in asyncio.all_tasks(self.loop) if not t.done()]

    def close(self):
        self.loop.shutdown()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def native_scramble(password, nonce):
    """mysql_native_password, from the documentation."""
    if isinstance(password, str):
        password = password.encode("utf-8")
    if not password:
        return b""
    h1 = hashlib.sha1(password).digest()
    h2 = hashlib.sha1(h1).digest()
    h3 = hashlib.sha1(nonce + h2).digest()
    return bytes(a ^ b for a, b in zip(h1, h3))


class Conn:
    def __init__(self, world):
        self.w = world
        self.sock = world.loop.connect()
        self.pos = 0                 # consumed bytes of sock.out
        self.tls = None
        self.plain = bytearray()     # decrypted server bytes
        self.caps = 0
        self.hs = None
        self.stmt_cols = {}
        self.stmt_nparams = {}
        self.codec = "utf8"

    # ------------------------------------------------------------ raw I/O
    def _stream(self):
        if self.tls is None:
            return self.sock.out, self.pos
        self._tls_pump()
        return self.plain, self.ppos

    def pending_bytes(self):
        buf, pos = self._stream()
        return bytes(buf[pos:])

    def _advance(self, n):
        if self.tls is None:
            self.pos += n
        else:
            self.ppos += n

    def deliver(self, data, chunks=None):
        """Put plaintext bytes on the wire (each chunk is one network read)."""
        if self.tls is not None:
            for c in ([data] if chunks is None else chunks):
                self.tls.write(bytes(c))
                self.sock.inbox.append(self.tls_out.read())
            return
        for c in ([data] if chunks is None else chunks):
            if c:
                self.sock.inbox.append(bytes(c))

    def eof(self):
        self.sock.eof = True

    def reset(self):
        self.sock.reset = ConnectionResetError(104, "Connection reset by peer")
        self.sock.send_exc = BrokenPipeError(32, "Broken pipe")

    def closed(self):
        return self.sock.closed

    def take_payloads(self, expect_seq=None, partial_ok=False):
        """All complete packets available -> list of payloads; checks sequence ids and slack."""
        buf, pos = self._stream()
        view = bytes(buf[pos:])
        pk, used = P.deframe_packets(view)
        if used != len(view) and not partial_ok:
            raise ProtoError(f"{len(view) - used} bytes of an incomplete packet from the server")
        payloads = []
        cur = b""
        cont = False
        good = 0
        off = 0
        for seq, chunk in pk:
            if expect_seq is not None:
                if seq != expect_seq & 255:
                    raise ProtoError(f"server packet seq {seq}, expected {expect_seq & 255} "
                                     f"(payload {chunk[:30]!r})")
                expect_seq += 1
            off += 4 + len(chunk)
            cur = cur + chunk if cont else chunk
            if len(chunk) == P.MAXP:
                cont = True
            else:
                payloads.append(cur)
                cont = False
                cur = b""
                good = off
        if cont and not partial_ok:
            raise ProtoError("server stream ends inside a split payload (missing last packet)")
        self._advance(good if partial_ok else used)
        self.next_seq = expect_seq
        return payloads

    # ------------------------------------------------------------ handshake
    def greet(self):
        self.w.quiesce()
        return self.greet_no_run()

    def greet_no_run(self):
        pl = self.take_payloads(0)
        if len(pl) != 1:
            raise ProtoError(f"expected one greeting packet, got {len(pl)}")
        if P.is_err(pl[0]):
            self.greet_err = P.Err(pl[0], P.PROTOCOL_41 if pl[0][3:4] == b"#" else 0)
            return None
        self.hs = P.Handshake(pl[0])
        return self.hs

    def start_tls(self, alpn=0, tls12=False, sni=None):
        """-> the ClientHello; alpn: number of offered protocols (each makes it some 100 bytes longer)."""
        ctx = _ssl.SSLContext(_ssl.PROTOCOL_TLS_CLIENT)
        ctx.check_hostname = False
        ctx.verify_mode = _ssl.CERT_NONE
        if alpn:
            ctx.set_alpn_protocols([f"{i:05d}" + "p" * 95 for i in range(alpn)])
        if tls12:
            ctx.maximum_version = _ssl.TLSVersion.TLSv1_2
        self.tls_in = _ssl.MemoryBIO()
        self.tls_out = _ssl.MemoryBIO()
        tls = ctx.wrap_bio(self.tls_in, self.tls_out, server_hostname=sni)
        self._pending_tls = tls
        try:
            tls.do_handshake()
        except _ssl.SSLWantReadError:
            pass
        return self.tls_out.read()  # ClientHello

    def finish_tls(self, limit=50):
        tls = self._pending_tls
        for _ in range(limit):
            self.w.quiesce()
            data = bytes(self.sock.out[self.pos:])
            self.pos = len(self.sock.out)
            if data:
                self.tls_in.write(data)
            try:
                tls.do_handshake()
                done = True
            except _ssl.SSLWantReadError:
                done = False
            out = self.tls_out.read()
            if out:
                self.tls_chunk(out)
            if done:
                break
            if not data and not out:
                raise ProtoError("TLS handshake stalled")
        else:
            raise ProtoError("TLS handshake did not complete")
        self.tls = tls
        self.ppos = 0
        self.w.quiesce()

    def tls_chunk(self, out):
        self.sock.inbox.append(out)

    def _tls_pump(self):
        data = bytes(self.sock.out[self.pos:])
        self.pos = len(self.sock.out)
        if data:
            self.tls_in.write(data)
        while True:
            try:
                d = self.tls.read(1 << 16)
            except _ssl.SSLWantReadError:
                break
            except (_ssl.SSLZeroReturnError, _ssl.SSLEOFError):
                break
            if not d:
                break
            self.plain += d

    def login(self, user="u", password=None, db=None, client_caps=None, extra_caps=0, charset=45,
              plugin="mysql_native_password", attrs=None, auth=None, seq=1, tls=False):
        if self.hs is None and self.greet() is None:
            return P.Response("err", err=self.greet_err)
        hs = self.hs
        if client_caps is None:
            client_caps = P.BASE_CAPS | P.DEPRECATE_EOF | P.LENENC_AUTH
        client_caps |= extra_caps
        if db is not None:
            client_caps |= P.CONNECT_WITH_DB
        if attrs is not None:
            client_caps |= P.CONNECT_ATTRS
        if tls:
            client_caps |= P.SSL
            data, _ = P.frame(P.ssl_request(client_caps, charset=charset), seq)
            self.deliver(data + self.start_tls())
            self.finish_tls()
            seq += 1
        # a client encodes according to (its own & server) capabilities
        caps = client_caps & hs.caps
        self.caps = caps
        if auth is None:
            auth = native_scramble(password, hs.nonce) if password else b""
        pay = P.handshake_response(caps, charset=charset, user=_b(user), auth=auth,
                                   db=None if db is None else _b(db),
                                   plugin=_b(plugin), attrs=attrs)
        # announce all bits the client claims, but encode by the negotiated ones
        pay = client_caps.to_bytes(4, "little") + pay[4:]
        data, nseq = P.frame(pay, seq)
        self.deliver(data)
        self.w.quiesce()
        return self.auth_result(nseq, password)

    def auth_result(self, seq, password=None):
        pl = self.take_payloads(seq)
        if not pl:
            return P.Response("closed" if self.closed() else "none")
        if len(pl) == 1 and pl[0][:1] in (b"\xfe", b"\x01"):
            b = P.Buf(pl[0])
            t = b.u(1)
            if t == 0xFE:
                plugin = b.nul()
                data = b.rest()
                return P.Response("switch", plugin=plugin, data=data, seq=self.next_seq)
            return P.Response("more", data=b.rest(), seq=self.next_seq)
        return P.parse_simple(pl, self.caps)

    # ------------------------------------------------------------ commands
    def send(self, payload, chunks=None):
        data, seq = P.frame(payload, 0)
        self.deliver(data, chunks)
        self._expect = seq
        return seq

    def cmd(self, payload):
        """Send a command, run to quiescence, return response payloads."""
        seq = self.send(payload)
        self.w.quiesce()
        return self.take_payloads(seq)

    def resp(self, payload, parse):
        pl = self.cmd(payload)
        if not pl and self.closed():
            return P.Response("closed")
        r = parse(pl)
        return r

    def ping(self):
        return self.resp(bytes([P.COM_PING]), lambda pl: P.parse_simple(pl, self.caps))

    def query(self, sql, attrs=(), codec=None):
        return self.resp(P.com_query(sql, self.caps, attrs, codec or self.codec),
                         lambda pl: P.parse_query(pl, self.caps))

    def prepare(self, sql):
        r = self.resp(P.com_stmt_prepare(sql, self.codec), lambda pl: P.parse_prepare(pl, self.caps))
        if r.kind == "prep":
            self.stmt_nparams[r.stmt_id] = r.nparams
        return r

    def execute(self, sid, params=(), cursor=False, attrs=(), **kw):
        kw.setdefault("codec", self.codec)
        r = self.resp(P.com_stmt_execute(sid, list(params), self.caps, cursor, attrs, **kw),
                      lambda pl: P.parse_query(pl, self.caps, binary=True, cursor=cursor))
        if r.kind == "rs":
            self.stmt_cols[sid] = r.cols
        return r

    def fetch(self, sid, n):
        return self.resp(P.com_stmt_fetch(sid, n),
                         lambda pl: P.parse_fetch(pl, self.caps, self.stmt_cols.get(sid, ())))

    def stmt_reset(self, sid):
        return self.resp(P.com_stmt_reset(sid), lambda pl: P.parse_simple(pl, self.caps))

    def stmt_close(self, sid):
        pl = self.cmd(P.com_stmt_close(sid))
        if pl:
            raise ProtoError(f"COM_STMT_CLOSE was answered: {pl[0][:40]!r}")

    def long_data(self, sid, i, data):
        pl = self.cmd(P.com_stmt_long(sid, i, data))
        if pl:
            raise ProtoError(f"COM_STMT_SEND_LONG_DATA was answered: {pl[0][:40]!r}")

    def init_db(self, db, codec=None):
        return self.resp(bytes([P.COM_INIT_DB]) + db.encode(codec or self.codec),
                         lambda pl: P.parse_simple(pl, self.caps))

    def field_list(self, table, wild="", codec=None):
        c = codec or self.codec
        return self.resp(P.com_field_list(table.encode(c), wild.encode(c)),
                         lambda pl: P.parse_field_list(pl, self.caps))

    def quit(self):
        pl = self.cmd(bytes([P.COM_QUIT]))
        if pl:
            raise ProtoError("COM_QUIT was answered")


def _b(s):
    return s if isinstance(s, bytes) else s.encode("utf8")
