"""
Independent, strict MySQL client-side codec.

Written from the protocol documentation; shares no code with mysql_mimic.  Every decoder raises
ProtoError unless the bytes are exactly what a standard client would accept.
"""
import datetime
import struct
from decimal import Decimal

MAXP = 0xFFFFFF

# capability bits
LONG_PASSWORD = 1
FOUND_ROWS = 2
LONG_FLAG = 4
CONNECT_WITH_DB = 8
NO_SCHEMA = 16
COMPRESS = 32
ODBC = 64
LOCAL_FILES = 128
IGNORE_SPACE = 256
PROTOCOL_41 = 512
INTERACTIVE = 1024
SSL = 2048
IGNORE_SIGPIPE = 4096
TRANSACTIONS = 8192
RESERVED = 16384
SECURE_CONNECTION = 32768
MULTI_STATEMENTS = 1 << 16
MULTI_RESULTS = 1 << 17
PS_MULTI_RESULTS = 1 << 18
PLUGIN_AUTH = 1 << 19
CONNECT_ATTRS = 1 << 20
LENENC_AUTH = 1 << 21
EXPIRED_PW = 1 << 22
SESSION_TRACK = 1 << 23
DEPRECATE_EOF = 1 << 24
OPTIONAL_META = 1 << 25
ZSTD = 1 << 26
QUERY_ATTRIBUTES = 1 << 27

BASE_CAPS = PROTOCOL_41 | SECURE_CONNECTION | PLUGIN_AUTH | LONG_PASSWORD

COM_QUIT, COM_INIT_DB, COM_QUERY, COM_FIELD_LIST = 1, 2, 3, 4
COM_DEBUG, COM_PING, COM_CHANGE_USER = 0x0D, 0x0E, 0x11
COM_STMT_PREPARE, COM_STMT_EXECUTE, COM_STMT_SEND_LONG_DATA = 0x16, 0x17, 0x18
COM_STMT_CLOSE, COM_STMT_RESET, COM_STMT_FETCH, COM_RESET_CONNECTION = 0x19, 0x1A, 0x1C, 0x1F

CURSOR_EXISTS, LAST_ROW_SENT, MORE_RESULTS = 0x40, 0x80, 0x08

T_DECIMAL, T_TINY, T_SHORT, T_LONG, T_FLOAT, T_DOUBLE, T_NULL, T_TIMESTAMP = range(8)
T_LONGLONG, T_INT24, T_DATE, T_TIME, T_DATETIME, T_YEAR, T_NEWDATE, T_VARCHAR, T_BIT = range(8, 17)
T_BOOL, T_JSON, T_NEWDECIMAL, T_ENUM, T_SET = 0xF4, 0xF5, 0xF6, 0xF7, 0xF8
T_TINY_BLOB, T_MEDIUM_BLOB, T_LONG_BLOB, T_BLOB, T_VAR_STRING, T_STRING, T_GEOMETRY = range(0xF9, 0x100)


class ProtoError(Exception):
    """The server's bytes are not a legal response."""


# ---------------------------------------------------------------- encoding
def lenenc(n):
    if n < 251:
        return bytes([n])
    if n < 1 << 16:
        return b"\xfc" + n.to_bytes(2, "little")
    if n < 1 << 24:
        return b"\xfd" + n.to_bytes(3, "little")
    return b"\xfe" + n.to_bytes(8, "little")


def lstr(b):
    return lenenc(len(b)) + b


def frame(payload, seq=0):
    """One payload -> wire bytes, returns (bytes, next_seq)."""
    out = bytearray()
    i = 0
    while True:
        part = payload[i:i + MAXP]
        out += len(part).to_bytes(3, "little") + bytes([seq & 255]) + part
        seq += 1
        i += len(part)
        if len(part) < MAXP:
            return bytes(out), seq & 255


def deframe_packets(buf):
    """wire bytes -> ([(seq, chunk)], consumed)."""
    out = []
    pos = 0
    n = len(buf)
    while n - pos >= 4:
        ln = int.from_bytes(buf[pos:pos + 3], "little")
        if n - pos - 4 < ln:
            break
        out.append((buf[pos + 3], bytes(buf[pos + 4:pos + 4 + ln])))
        pos += 4 + ln
    return out, pos


# ---------------------------------------------------------------- decoding
class Buf:
    def __init__(self, data):
        self.d = data
        self.p = 0

    def left(self):
        return len(self.d) - self.p

    def take(self, n):
        if n < 0 or self.p + n > len(self.d):
            raise ProtoError(f"short packet: want {n} bytes, have {self.left()} in {self.d[:60]!r}")
        r = self.d[self.p:self.p + n]
        self.p += n
        return r

    def u(self, n):
        return int.from_bytes(self.take(n), "little")

    def lenenc(self):
        b = self.u(1)
        if b < 251:
            return b
        if b == 0xFC:
            return self.u(2)
        if b == 0xFD:
            return self.u(3)
        if b == 0xFE:
            return self.u(8)
        raise ProtoError(f"bad length-encoded integer 0x{b:x}")

    def lstr(self):
        return self.take(self.lenenc())

    def nul(self):
        i = self.d.find(b"\0", self.p)
        if i < 0:
            raise ProtoError("unterminated string")
        r = self.d[self.p:i]
        self.p = i + 1
        return r

    def rest(self):
        return self.take(self.left())

    def end(self):
        if self.left():
            raise ProtoError(f"{self.left()} trailing bytes in packet {self.d[:60]!r}")


class Handshake:
    def __init__(self, payload):
        b = Buf(payload)
        self.protocol = b.u(1)
        if self.protocol != 10:
            raise ProtoError(f"protocol version {self.protocol}")
        self.version = b.nul()
        self.thread_id = b.u(4)
        part1 = b.take(8)
        if b.u(1) != 0:
            raise ProtoError("handshake filler is not 0")
        lo = b.u(2)
        self.charset = b.u(1)
        self.status = b.u(2)
        hi = b.u(2)
        self.caps = lo | hi << 16
        alen = b.u(1)
        if b.take(10) != bytes(10):
            raise ProtoError("handshake reserved bytes not zero")
        part2 = b""
        self.part2_raw = b""
        if self.caps & SECURE_CONNECTION:
            part2 = b.take(max(13, alen - 8))
            self.part2_raw = part2
        self.auth_len = alen
        self.plugin = None
        if self.caps & PLUGIN_AUTH:
            self.plugin = b.nul()
        b.end()
        full = part1 + part2
        self.auth_data_raw = full
        # clients use the first 20 bytes as nonce; the 21st is a NUL
        self.nonce = full[:20]


def handshake_response(caps, max_packet=1 << 24, charset=45, user=b"", auth=b"", db=None,
                       plugin=None, attrs=None, filler=bytes(23), zstd=None):
    out = struct.pack("<IIB", caps, max_packet, charset & 255) + filler
    out += user + b"\0"
    if caps & LENENC_AUTH:
        out += lstr(auth)
    elif caps & SECURE_CONNECTION:
        out += bytes([len(auth)]) + auth
    else:
        out += auth + b"\0"
    if caps & CONNECT_WITH_DB:
        out += (db or b"") + b"\0"
    if caps & PLUGIN_AUTH:
        out += (plugin or b"") + b"\0"
    if caps & CONNECT_ATTRS:
        out += conn_attrs(attrs or {})
    if caps & ZSTD:
        out += bytes([zstd or 0])
    return out


def conn_attrs(attrs):
    body = b"".join(lstr(k) + lstr(v) for k, v in attrs.items())
    return lstr(body)


def ssl_request(caps, max_packet=1 << 24, charset=45):
    return struct.pack("<IIB", caps, max_packet, charset) + bytes(23)


def com_change_user(caps, user, auth, db=b"", charset=45, plugin=None, attrs=None, tail=True):
    out = bytes([COM_CHANGE_USER]) + user + b"\0"
    if caps & SECURE_CONNECTION:
        out += bytes([len(auth)]) + auth
    else:
        out += auth + b"\0"
    out += db + b"\0"
    if tail:
        if caps & PROTOCOL_41:
            out += struct.pack("<H", charset)
        if caps & PLUGIN_AUTH:
            out += (plugin or b"") + b"\0"
        if caps & CONNECT_ATTRS:
            out += conn_attrs(attrs or {})
    return out


def enc_param(p, codec="utf8"):
    """p = (kind, value) -> (type, flags, bytes|None)."""
    kind, v = p
    if v is None and kind != "typed_null":
        return T_NULL, 0, None
    if kind == "typed_null":
        return v, 0, None
    ints = {"i8": (T_TINY, 0, "<b"), "u8": (T_TINY, 0x80, "<B"), "i16": (T_SHORT, 0, "<h"),
            "u16": (T_SHORT, 0x80, "<H"), "i32": (T_LONG, 0, "<i"), "u32": (T_LONG, 0x80, "<I"),
            "i64": (T_LONGLONG, 0, "<q"), "u64": (T_LONGLONG, 0x80, "<Q"),
            "i24": (T_INT24, 0, "<i"), "u24": (T_INT24, 0x80, "<I"),
            "year": (T_YEAR, 0, "<h"), "uyear": (T_YEAR, 0x80, "<H"),
            "f32": (T_FLOAT, 0, "<f"), "f64": (T_DOUBLE, 0, "<d"), "bool": (T_BOOL, 0, "<B")}
    if kind in ints:
        t, f, fmt = ints[kind]
        return t, f, struct.pack(fmt, v)
    strs = {"varchar": T_VARCHAR, "var_string": T_VAR_STRING, "string": T_STRING, "blob": T_BLOB,
            "tiny_blob": T_TINY_BLOB, "medium_blob": T_MEDIUM_BLOB, "long_blob": T_LONG_BLOB}
    if kind in strs:
        b = v if isinstance(v, bytes) else v.encode(codec)
        return strs[kind], 0, lstr(b)
    raise ValueError(kind)


def param_block(params, named, codec="utf8", long_idx=()):
    """params: [(name|None, (kind, value))] -> null bitmap, bound flag, types, values."""
    n = len(params)
    bitmap = bytearray((n + 7) // 8)
    types = bytearray()
    vals = bytearray()
    for i, (name, p) in enumerate(params):
        t, f, data = enc_param(p, codec)
        types += bytes([t, f])
        if named:
            nm = name or b""
            types += lstr(nm if isinstance(nm, bytes) else nm.encode(codec))
        if i in long_idx:
            continue
        if data is None:
            bitmap[i // 8] |= 1 << (i % 8)
        else:
            vals += data
    return bytes(bitmap) + b"\x01" + bytes(types) + bytes(vals)


def com_query(sql, caps, attrs=(), codec="utf8"):
    out = bytes([COM_QUERY])
    if caps & QUERY_ATTRIBUTES:
        out += lenenc(len(attrs)) + lenenc(1)
        if attrs:
            out += param_block(attrs, True, codec)
    return out + (sql if isinstance(sql, bytes) else sql.encode(codec))


def com_stmt_prepare(sql, codec="utf8"):
    return bytes([COM_STMT_PREPARE]) + (sql if isinstance(sql, bytes) else sql.encode(codec))


def com_stmt_execute(stmt_id, params, caps, cursor=False, attrs=(), codec="utf8", long_idx=(),
                     flags=None, count_available=None):
    """params: [(kind, value)], attrs: [(name, (kind, value))]."""
    f = (1 if cursor else 0) if flags is None else flags
    qa = caps & QUERY_ATTRIBUTES
    if count_available is None:
        count_available = bool(qa)
    if qa and count_available:
        f |= 8
    out = bytes([COM_STMT_EXECUTE]) + struct.pack("<IBI", stmt_id, f, 1)
    if qa and (f & 8):
        allp = [(b"", p) for p in params] + list(attrs)
        out += lenenc(len(allp))
        if allp:
            out += param_block(allp, True, codec, long_idx)
    elif qa:
        if params:
            # per the protocol documentation the count is sent when num_params > 0
            out += lenenc(len(params))
            out += param_block([(b"", p) for p in params], True, codec, long_idx)
    elif params:
        out += param_block([(b"", p) for p in params], False, codec, long_idx)
    return out


def com_stmt_fetch(stmt_id, n):
    return bytes([COM_STMT_FETCH]) + struct.pack("<II", stmt_id, n)


def com_stmt_reset(stmt_id):
    return bytes([COM_STMT_RESET]) + struct.pack("<I", stmt_id)


def com_stmt_close(stmt_id):
    return bytes([COM_STMT_CLOSE]) + struct.pack("<I", stmt_id)


def com_stmt_long(stmt_id, param, data):
    return bytes([COM_STMT_SEND_LONG_DATA]) + struct.pack("<IH", stmt_id, param) + data


def com_field_list(table, wildcard=b""):
    return bytes([COM_FIELD_LIST]) + table + b"\0" + wildcard


# ---------------------------------------------------------------- responses
class Err:
    def __init__(self, payload, caps):
        b = Buf(payload)
        if b.u(1) != 0xFF:
            raise ProtoError("not an ERR")
        self.code = b.u(2)
        self.state = None
        if caps & PROTOCOL_41:
            if b.take(1) != b"#":
                raise ProtoError("ERR without sqlstate marker")
            self.state = b.take(5)
        self.msg = b.rest()

    def __repr__(self):
        return f"ERR({self.code}, {self.msg[:80]!r})"


class Ok:
    def __init__(self, payload, caps, header=0):
        b = Buf(payload)
        if b.u(1) != header:
            raise ProtoError(f"OK packet header is not 0x{header:x}: {payload[:20]!r}")
        self.affected = b.lenenc()
        self.insert_id = b.lenenc()
        self.status = 0
        if caps & PROTOCOL_41:
            self.status = b.u(2)
            self.warnings = b.u(2)
        elif caps & TRANSACTIONS:
            self.status = b.u(2)
        self.info = b.rest()
        if header == 0xFE and len(payload) >= MAXP:
            raise ProtoError("oversized OK terminator")

    def __repr__(self):
        return f"OK(status={self.status:x})"


class Eof:
    def __init__(self, payload, caps):
        if len(payload) != 5 or payload[0] != 0xFE:
            raise ProtoError(f"not an EOF packet: {payload[:20]!r}")
        self.warnings, self.status = struct.unpack("<HH", payload[1:])


class Col:
    __slots__ = ("schema", "table", "org_table", "name", "org_name", "charset", "length", "type",
                 "flags", "decimals", "default", "catalog")

    def __init__(self, payload, field_list=False):
        b = Buf(payload)
        self.catalog = b.lstr()
        if self.catalog != b"def":
            raise ProtoError(f"column catalog {self.catalog!r}")
        self.schema = b.lstr()
        self.table = b.lstr()
        self.org_table = b.lstr()
        self.name = b.lstr()
        self.org_name = b.lstr()
        if b.lenenc() != 0x0C:
            raise ProtoError("column fixed-length field is not 0x0c")
        self.charset = b.u(2)
        self.length = b.u(4)
        self.type = b.u(1)
        self.flags = b.u(2)
        self.decimals = b.u(1)
        if b.u(2) != 0:
            raise ProtoError("column filler")
        self.default = None
        if field_list and b.left():
            # lenenc string; 0xFB stands for NULL
            if b.d[b.p] == 0xFB:
                b.take(1)
            else:
                self.default = b.lstr()
        b.end()

    def sig(self):
        return (self.name, self.type, self.charset, self.table)


def text_row(payload, ncols):
    b = Buf(payload)
    out = []
    for _ in range(ncols):
        if b.left() and b.d[b.p] == 0xFB:
            b.take(1)
            out.append(None)
        else:
            out.append(b.lstr())
    b.end()
    return out


def binary_value(b, t, flags):
    uns = bool(flags & 32)
    if t in (T_TINY, T_BOOL):
        return int.from_bytes(b.take(1), "little", signed=not uns)
    if t in (T_SHORT, T_YEAR):
        return int.from_bytes(b.take(2), "little", signed=not uns)
    if t in (T_LONG, T_INT24):
        return int.from_bytes(b.take(4), "little", signed=not uns)
    if t == T_LONGLONG:
        return int.from_bytes(b.take(8), "little", signed=not uns)
    if t == T_FLOAT:
        return struct.unpack("<f", b.take(4))[0]
    if t == T_DOUBLE:
        return struct.unpack("<d", b.take(8))[0]
    if t in (T_DATE, T_DATETIME, T_TIMESTAMP, T_NEWDATE):
        n = b.u(1)
        if n not in (0, 4, 7, 11):
            raise ProtoError(f"date length {n}")
        y = mo = d = h = mi = s = us = 0
        if n >= 4:
            y, mo, d = b.u(2), b.u(1), b.u(1)
        if n >= 7:
            h, mi, s = b.u(1), b.u(1), b.u(1)
        if n == 11:
            us = b.u(4)
        if t == T_DATE or t == T_NEWDATE:
            if n > 4 and (h or mi or s or us):
                return ("dt", y, mo, d, h, mi, s, us)
            return ("date", y, mo, d)
        return ("dt", y, mo, d, h, mi, s, us)
    if t == T_TIME:
        n = b.u(1)
        if n not in (0, 8, 12):
            raise ProtoError(f"time length {n}")
        if n == 0:
            return datetime.timedelta(0)
        neg, days, h, mi, s = b.u(1), b.u(4), b.u(1), b.u(1), b.u(1)
        us = b.u(4) if n == 12 else 0
        if neg > 1 or h > 23 or mi > 59 or s > 59 or us > 999999:
            raise ProtoError(f"bad TIME fields {(neg, days, h, mi, s, us)}")
        try:
            td = datetime.timedelta(days=days, hours=h, minutes=mi, seconds=s, microseconds=us)
        except OverflowError:
            raise ProtoError("TIME out of range")
        return -td if neg else td
    return b.lstr()


def binary_row(payload, cols):
    b = Buf(payload)
    if b.u(1) != 0:
        raise ProtoError("binary row header")
    n = len(cols)
    bm = b.take((n + 7 + 2) // 8)
    used = n + 2
    for i in list(range(2)) + list(range(used, len(bm) * 8)):
        if bm[i // 8] >> (i % 8) & 1:
            raise ProtoError(f"stray bit {i} in null bitmap")
    out = []
    for i, c in enumerate(cols):
        k = i + 2
        if bm[k // 8] >> (k % 8) & 1:
            out.append(None)
        else:
            out.append(binary_value(b, c.type, c.flags))
    b.end()
    return out


class Response:
    kind = None          # ok, err, rs, prep, fields, fetch, none, closed
    cols = ()
    rows = ()
    err = None
    ok = None
    status = 0
    err_after_rows = False
    raw = ()

    def __init__(self, kind, **kw):
        self.kind = kind
        self.__dict__.update(kw)

    def __repr__(self):
        if self.kind == "err":
            return f"<{self.err!r}{' mid-stream' if self.err_after_rows else ''}>"
        return f"<{self.kind} cols={len(self.cols)} rows={len(self.rows)} status={self.status:x}>"


class Packets:
    """Payload-level reader over the packets of one response."""

    def __init__(self, payloads):
        self.pl = payloads
        self.i = 0

    def peek(self):
        if self.i >= len(self.pl):
            raise ProtoError("response is missing packets (no terminator)")
        return self.pl[self.i]

    def next(self):
        p = self.peek()
        self.i += 1
        return p

    def done(self):
        if self.i != len(self.pl):
            extra = self.pl[self.i:]
            raise ProtoError(f"{len(extra)} unsolicited packet(s) after the response: {extra[0][:40]!r}")


def is_err(p):
    return p[:1] == b"\xff"


def is_terminator(p, caps):
    if p[:1] != b"\xfe":
        return False
    if caps & DEPRECATE_EOF:
        return len(p) < MAXP
    return len(p) < 9


def terminator_status(p, caps):
    if caps & DEPRECATE_EOF:
        return Ok(p, caps, 0xFE).status
    return Eof(p, caps).status


def _err(ps, caps, mid=False, **kw):
    e = Err(ps.next(), caps)
    ps.done()
    return Response("err", err=e, err_after_rows=mid, **kw)


def _rows_until_end(ps, caps, decode, cols):
    rows = []
    while True:
        p = ps.peek()
        if is_err(p):
            return rows, None, Err(ps.next(), caps)
        if is_terminator(p, caps):
            st = terminator_status(ps.next(), caps)
            return rows, st, None
        rows.append(decode(ps.next()))


def parse_simple(payloads, caps, allow_eof=False):
    ps = Packets(payloads)
    if is_err(ps.peek()):
        return _err(ps, caps)
    if allow_eof and ps.peek()[:1] == b"\xfe":
        e = Eof(ps.next(), caps)
        ps.done()
        return Response("ok", ok=e, status=e.status)
    ok = Ok(ps.next(), caps)
    ps.done()
    return Response("ok", ok=ok, status=ok.status)


def parse_query(payloads, caps, binary=False, cursor=False):
    ps = Packets(payloads)
    p = ps.peek()
    if is_err(p):
        return _err(ps, caps)
    if p[:1] == b"\x00":
        ok = Ok(ps.next(), caps)
        ps.done()
        if ok.status & MORE_RESULTS:
            raise ProtoError("MORE_RESULTS set")
        return Response("ok", ok=ok, status=ok.status)
    b = Buf(ps.next())
    if p[:1] == b"\xfb":
        raise ProtoError("LOCAL INFILE request")
    if caps & OPTIONAL_META:
        if b.u(1) != 1:
            raise ProtoError("metadata flag")
    n = b.lenenc()
    b.end()
    if n == 0:
        raise ProtoError("zero column count")
    cols = []
    for _ in range(n):
        if is_err(ps.peek()):
            return _err(ps, caps, mid=True, cols=cols)
        cols.append(Col(ps.next()))
    if cursor:
        # metadata is terminated by an EOF/OK carrying CURSOR_EXISTS; no rows follow
        if is_err(ps.peek()):
            return _err(ps, caps, mid=True, cols=cols)
        p = ps.next()
        st = terminator_status(p, caps)
        ps.done()
        if not st & CURSOR_EXISTS:
            raise ProtoError("cursor result without CURSOR_EXISTS")
        return Response("rs", cols=cols, rows=[], status=st, cursor=True)
    if not caps & DEPRECATE_EOF:
        if is_err(ps.peek()):
            return _err(ps, caps, mid=True, cols=cols)
        Eof(ps.next(), caps)
    decode = (lambda x: binary_row(x, cols)) if binary else (lambda x: text_row(x, n))
    rows, st, err = _rows_until_end(ps, caps, decode, cols)
    ps.done()
    if err:
        return Response("err", err=err, err_after_rows=True, cols=cols, rows=rows)
    if st & MORE_RESULTS:
        raise ProtoError("MORE_RESULTS set")
    return Response("rs", cols=cols, rows=rows, status=st, cursor=False)


def parse_prepare(payloads, caps):
    ps = Packets(payloads)
    if is_err(ps.peek()):
        return _err(ps, caps)
    b = Buf(ps.next())
    if b.u(1) != 0:
        raise ProtoError("prepare response status")
    stmt_id = b.u(4)
    ncols = b.u(2)
    nparams = b.u(2)
    if b.u(1) != 0:
        raise ProtoError("prepare filler")
    if b.left():
        b.u(2)
    if caps & OPTIONAL_META and b.u(1) != 1:
        raise ProtoError("metadata flag")
    b.end()
    for count in (nparams, ncols):
        if count:
            for _ in range(count):
                Col(ps.next())
            if not caps & DEPRECATE_EOF:
                Eof(ps.next(), caps)
    ps.done()
    return Response("prep", stmt_id=stmt_id, nparams=nparams, ncols=ncols)


def parse_field_list(payloads, caps):
    ps = Packets(payloads)
    cols = []
    while True:
        p = ps.peek()
        if is_err(p):
            return _err(ps, caps, mid=bool(cols))
        if is_terminator(p, caps):
            st = terminator_status(ps.next(), caps)
            ps.done()
            return Response("fields", cols=cols, status=st)
        cols.append(Col(ps.next(), field_list=True))


def parse_fetch(payloads, caps, cols):
    ps = Packets(payloads)
    if is_err(ps.peek()):
        return _err(ps, caps)
    rows, st, err = _rows_until_end(ps, caps, lambda x: binary_row(x, cols), cols)
    ps.done()
    if err:
        return Response("err", err=err, err_after_rows=True, rows=rows)
    return Response("fetch", rows=rows, status=st)


# ---------------------------------------------------------------- text values
def parse_text_time(b):
    s = b.decode("ascii")
    neg = s.startswith("-")
    if neg:
        s = s[1:]
    parts = s.split(":")
    if len(parts) != 3:
        raise ProtoError(f"TIME text {b!r}")
    h, mi, sec = parts
    us = 0
    if "." in sec:
        sec, frac = sec.split(".")
        if not 1 <= len(frac) <= 6 or not frac.isdigit():
            raise ProtoError(f"TIME text {b!r}")
        us = int(frac.ljust(6, "0"))
    if not (h.isdigit() and mi.isdigit() and sec.isdigit()) or int(mi) > 59 or int(sec) > 59:
        raise ProtoError(f"TIME text {b!r}")
    td = datetime.timedelta(hours=int(h), minutes=int(mi), seconds=int(sec), microseconds=us)
    return -td if neg else td


def parse_text_dt(b):
    s = b.decode("ascii")
    date, _, time = s.partition(" ")
    y, m, d = (int(x) for x in date.split("-"))
    if not time:
        return ("dt", y, m, d, 0, 0, 0, 0)
    hms, _, frac = time.partition(".")
    h, mi, sec = (int(x) for x in hms.split(":"))
    if frac and (not frac.isdigit() or len(frac) > 6):
        raise ProtoError(f"DATETIME text {b!r}")
    us = int(frac.ljust(6, "0")) if frac else 0
    return ("dt", y, m, d, h, mi, sec, us)


def dec(b):
    return Decimal(b.decode("ascii"))
