"""Instrumented application side: sessions, control, identity providers."""
import asyncio
import inspect
import struct

import vlib.loader  # noqa: F401
from sqlglot.errors import ExecuteError, ParseError
from mysql_mimic.errors import ErrorCode, MysqlError
from mysql_mimic.stream import ConnectionClosed
from mysql_mimic import Session, User, IdentityProvider, NativePasswordAuthPlugin
from mysql_mimic.control import LocalControl
from mysql_mimic.session import BaseSession
from mysql_mimic.variables import SessionVariables, GlobalVariables


class AppError(Exception):
    pass


class BareError(Exception):
    """An exception whose str() is empty."""

    def __init__(self, *a):
        super().__init__()


class UnprintableArgs(Exception):
    """An exception carrying non-string arguments."""


def _unicode_error(m):
    return UnicodeEncodeError("ascii", "\u20ac" + m[:5].replace("\ud800", "?"), 0, 1, "no such character")


# Every kind of exception an application can be expected to raise.  All of them are ordinary errors of the
# statement: the client gets one ERR packet.
EXC_KINDS = {
    "app": AppError,
    "mysql": lambda m: MysqlError(m, ErrorCode.PARSE_ERROR),
    "mysql2": lambda m: MysqlError(m),
    "value": ValueError, "key": KeyError, "index": IndexError, "type": TypeError, "attr": AttributeError,
    "assert": AssertionError, "zero": ZeroDivisionError, "overflow": OverflowError, "notimpl": NotImplementedError,
    "runtime": RuntimeError, "recursion": RecursionError, "memory": MemoryError, "lookup": LookupError,
    "os": lambda m: OSError(5, m), "conn": lambda m: ConnectionResetError(104, m), "pipe": lambda m: BrokenPipeError(32, m),
    "refused": lambda m: ConnectionRefusedError(111, m),
    "timeout": TimeoutError, "atimeout": lambda m: asyncio.TimeoutError(), "eof": EOFError,
    "incomplete": lambda m: asyncio.IncompleteReadError(b"", 4), "invalidstate": asyncio.InvalidStateError,
    "closed": lambda m: ConnectionClosed(m), "struct": struct.error, "uni": _unicode_error,
    "sqlparse": ParseError, "sqlexec": ExecuteError, "perm": PermissionError, "fnf": FileNotFoundError,
    "bare": BareError, "args": lambda m: UnprintableArgs(None, 3, b"x"),
    "group": lambda m: ExceptionGroup(m[:20] or "g", [ValueError(m)]),
}


def app_exc(kind, msg="boom"):
    return EXC_KINDS[kind](msg)


def rand_exc(rng, msg="boom"):
    return app_exc(rng.choice(sorted(EXC_KINDS)), msg)


class RecControl(LocalControl):
    """LocalControl that logs what the server asks of it."""

    def __init__(self, *a, **kw):
        super().__init__(*a, **kw)
        self.log = []
        self.fail_add = None
        self.live = {}

    async def add(self, connection):
        if self.fail_add is not None:
            self.log.append(("add_fail",))
            raise self.fail_add
        cid = await super().add(connection)
        self.log.append(("add", cid))
        self.live[cid] = connection
        return cid

    async def remove(self, connection_id):
        self.log.append(("remove", connection_id))
        self.live.pop(connection_id, None)
        return await super().remove(connection_id)

    async def kill(self, connection_id, *a, **kw):
        self.log.append(("kill", connection_id))
        return await super().kill(connection_id, *a, **kw)


class _Rec:
    """Mixin: logs every call the library makes into the application session."""

    world = None
    index = -1
    handler = None          # callable(session, sql, attrs[, expression]) -> result/awaitable
    faults = None           # {("init"|"query"|..., nth): exception}
    calls = None

    def _rec(self, name, *args):
        self.calls.append((name,) + args)
        if self.world is not None:
            self.world.log.append((self.index, name) + args)
        if self.faults:
            n = sum(1 for c in self.calls if c[0] == name)
            exc = self.faults.get((name, n)) or self.faults.get((name, None))
            if exc is not None:
                raise exc if isinstance(exc, BaseException) else AppError(exc)

    def count(self, name):
        return sum(1 for c in self.calls if c[0] == name)


class RecBase(_Rec, BaseSession):
    """Minimal BaseSession: the raw SQL goes straight to the handler."""

    def __init__(self):
        self.variables = SessionVariables(GlobalVariables())
        self.username = None
        self.database = None
        self.calls = []
        self.connection_obj = None

    async def init(self, connection):
        self.connection_obj = connection
        self._rec("init")

    async def close(self):
        self._rec("close")

    async def reset(self):
        self._rec("reset")

    async def use(self, database):
        self._rec("use", database)
        self.database = database

    async def handle_query(self, sql, attrs):
        self._rec("query", sql, dict(attrs))
        if self.handler is None:
            return None
        r = self.handler(self, sql, attrs)
        if inspect.isawaitable(r):
            r = await r
        return r


class RecSession(_Rec, Session):
    """Full Session: the library's middlewares in front, the handler behind."""

    mapping = None

    def __init__(self, *a, **kw):
        super().__init__(*a, **kw)
        self.calls = []
        self.dbs_seen = []

    async def init(self, connection):
        await super().init(connection)
        self._rec("init")

    async def close(self):
        self._rec("close")
        await super().close()

    async def reset(self):
        self._rec("reset")
        await super().reset()

    async def use(self, database):
        self._rec("use", database)
        await super().use(database)

    async def query(self, expression, sql, attrs):
        self.calls.append(("db", self.database))
        self._rec("query", sql, dict(attrs))
        if self.handler is None:
            return [], []
        r = self.handler(self, sql, attrs, expression)
        if inspect.isawaitable(r):
            r = await r
        return r

    async def schema(self):
        if self.mapping is None:
            return {}
        return self.mapping


class FixedIdentity(IdentityProvider):
    """users: {name: User}; plugins: list of plugin instances (first = default)."""

    def __init__(self, users=None, plugins=None, allow_any=False):
        self.users = users or {}
        self.plugins = plugins or [NativePasswordAuthPlugin()]
        self.allow_any = allow_any
        self.log = []

    def get_plugins(self):
        return self.plugins

    async def get_user(self, username):
        self.log.append(username)
        if self.allow_any and username not in self.users:
            return User(name=username, auth_plugin="mysql_native_password")
        return self.users.get(username)


class Gate:
    """A future the harness completes when it wants the application call to proceed."""

    def __init__(self, loop):
        self.loop = loop
        self.waiting = []

    async def wait(self):
        f = self.loop.create_future()
        self.waiting.append(f)
        return await f

    def pending(self):
        return sum(1 for f in self.waiting if not f.done())

    def release(self, value=None, exc=None):
        for f in self.waiting:
            if not f.done():
                if exc is not None:
                    f.set_exception(exc)
                else:
                    f.set_result(value)
                break

    def release_all(self):
        for f in self.waiting:
            if not f.done():
                f.set_result(None)


async def arows(rows):
    for r in rows:
        yield r


class AsyncRows:
    """An async iterable that is not an async generator."""

    def __init__(self, rows):
        self.rows = rows

    def __aiter__(self):
        self._it = iter(self.rows)
        return self

    async def __anext__(self):
        try:
            return next(self._it)
        except StopIteration:
            raise StopAsyncIteration


async def checkpoint(n=1):
    for _ in range(n):
        await asyncio.sleep(0)
