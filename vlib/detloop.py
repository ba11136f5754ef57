"""
A deterministic asyncio event loop.

It is asyncio's own SelectorEventLoop with the *real* `_SelectorSocketTransport`, streams and TLS
protocol.  Only three things are replaced: the selector (readiness of in-memory sockets instead of
kernel fds), the clock (virtual) and the sockets (FakeSock).  The harness therefore decides, per loop
iteration, what the kernel would have decided, and can see when the server is quiescent.
"""
import asyncio
import collections
import errno
import heapq
import selectors
import socket
import sys
import threading
import warnings
from asyncio import events

import vlib.loader  # noqa: F401

warnings.filterwarnings("ignore")

FD_BASE = 1 << 20


class Livelock(Exception):
    """The loop did not become idle within its iteration budget."""


class _Selector(selectors._BaseSelectorImpl):
    def __init__(self):
        super().__init__()
        self.socks = {}

    def ready(self):
        out = []
        for fd, key in self._fd_to_key.items():
            s = self.socks.get(fd)
            if s is None:
                continue
            ev = 0
            if key.events & selectors.EVENT_READ and s.readable():
                ev |= selectors.EVENT_READ
            if key.events & selectors.EVENT_WRITE and s.writable():
                ev |= selectors.EVENT_WRITE
            if ev:
                out.append((key, ev))
        return out

    def select(self, timeout=None):
        return self.ready()


class FakeSock:
    """The server's end of an in-memory, non-blocking stream socket."""

    family = socket.AF_UNIX
    type = socket.SOCK_STREAM
    proto = 0

    def __init__(self, loop):
        self.loop = loop
        loop._next_fd += 1
        self.fd = loop._next_fd
        loop._sel.socks[self.fd] = self
        self.inbox = collections.deque()  # each element is returned by (at most) one recv
        self.eof = False
        self.reset = None                 # exception raised by recv
        self.window = None                # bytes the peer will still accept, None = unlimited
        self.out = bytearray()            # bytes accepted from the server
        self.sends = 0
        self.send_sizes = []
        self.fail_send_at = None          # 1-based index of the send that fails
        self.send_exc = None
        self.closed = False
        self.shut_wr = False
        self.max_send = None              # accept at most this many bytes per send call
        self.recvs = 0
        self.on_send = None

    # --- readiness
    def readable(self):
        return bool(self.inbox) or self.eof or self.reset is not None

    def writable(self):
        return self.window is None or self.window > 0 or self.send_exc is not None

    # --- socket API used by asyncio
    def fileno(self):
        return -1 if self.closed else self.fd

    def setblocking(self, flag):
        pass

    def getsockname(self):
        return "fake"

    def getpeername(self):
        return ("127.0.0.1", 40000 + self.fd - FD_BASE)

    def getsockopt(self, *a):
        return 0

    def setsockopt(self, *a):
        pass

    def gettimeout(self):
        return 0

    def recv(self, n):
        self.recvs += 1
        if self.reset is not None:
            raise self.reset
        if self.inbox:
            chunk = self.inbox.popleft()
            if len(chunk) > n:
                self.inbox.appendleft(chunk[n:])
                chunk = chunk[:n]
            return bytes(chunk)
        if self.eof:
            return b""
        raise BlockingIOError(errno.EAGAIN, "again")

    def recv_into(self, buf):
        d = self.recv(len(buf))
        buf[: len(d)] = d
        return len(d)

    def send(self, data):
        self.sends += 1
        if self.fail_send_at is not None and self.sends >= self.fail_send_at and self.send_exc is None:
            self.send_exc = BrokenPipeError(errno.EPIPE, "Broken pipe")
        if self.send_exc is not None:
            raise self.send_exc
        if self.window == 0:
            raise BlockingIOError(errno.EAGAIN, "again")
        n = len(data)
        if self.window is not None:
            n = min(n, self.window)
            self.window -= n
        if self.max_send is not None:
            n = min(n, self.max_send)
        self.out += bytes(memoryview(data)[:n])
        self.send_sizes.append(n)
        if self.on_send:
            self.on_send(n)
        return n

    def sendmsg(self, bufs):
        return self.send(b"".join(bytes(b) for b in bufs))

    def shutdown(self, how):
        self.shut_wr = True

    def close(self):
        self.closed = True
        self.loop._sel.socks.pop(self.fd, None)

    def detach(self):
        self.close()
        return -1


class _FakeServer:
    def __init__(self, loop):
        self._loop = loop
        self._fut = None
        self.sockets = ()
        self.closed = False
        self._active = 0

    # called by asyncio transports
    def _attach(self):
        self._active += 1

    def _detach(self):
        self._active -= 1

    def get_loop(self):
        return self._loop

    def is_serving(self):
        return not self.closed

    async def start_serving(self):
        pass

    async def serve_forever(self):
        await self._loop.create_future()

    def close(self):
        self.closed = True

    async def wait_closed(self):
        pass

    async def __aenter__(self):
        return self

    async def __aexit__(self, *a):
        self.close()


class DetLoop(asyncio.SelectorEventLoop):
    NEAR = 5.0

    def __init__(self):
        self._sel = _Selector()
        self._vtime = 1000.0
        self._next_fd = FD_BASE
        super().__init__(self._sel)
        self.factory = None
        self.iterations = 0
        self.unhandled = []
        self.set_exception_handler(lambda loop, ctx: self.unhandled.append(ctx))
        self._on = False

    # --- clock
    def time(self):
        return self._vtime

    # --- server capture
    async def create_server(self, protocol_factory, *a, **kw):
        self.factory = protocol_factory
        return _FakeServer(self)

    async def create_unix_server(self, protocol_factory, *a, **kw):
        self.factory = protocol_factory
        return _FakeServer(self)

    # --- driving
    def enter(self):
        if not self._on:
            self._on = True
            self._thread_id = threading.get_ident()
            sys.set_asyncgen_hooks(firstiter=self._asyncgen_firstiter_hook,
                                   finalizer=self._asyncgen_finalizer_hook)

    def idle(self):
        if self._ready or self._sel.ready():
            return False
        self._drop_cancelled()
        return not (self._scheduled and self._scheduled[0]._when <= self._vtime + self.NEAR)

    def _drop_cancelled(self):
        while self._scheduled and self._scheduled[0]._cancelled:
            self._timer_cancelled_count -= 1
            h = heapq.heappop(self._scheduled)
            h._scheduled = False

    def step(self):
        """Run exactly one event-loop iteration."""
        self.enter()
        self.iterations += 1
        if not self._ready and not self._sel.ready():
            self._drop_cancelled()
            if self._scheduled:
                self._vtime = max(self._vtime, self._scheduled[0]._when)
        prev = events._get_running_loop()
        events._set_running_loop(self)
        try:
            self._run_once()
        finally:
            events._set_running_loop(prev)

    def quiesce(self, limit=300000):
        n = 0
        while not self.idle():
            self.step()
            n += 1
            if n > limit:
                raise Livelock(f"event loop still busy after {limit} iterations")
        return n

    def run(self, coro, limit=300000):
        """Run a coroutine of the harness to completion (or until the loop is idle)."""
        self.enter()
        t = self.create_task(coro)
        n = 0
        while not t.done():
            if self.idle():
                raise Livelock("harness coroutine blocked")
            self.step()
            n += 1
            if n > limit:
                raise Livelock(f"harness coroutine not done after {limit} iterations")
        return t.result()

    def spawn_front(self, coro):
        """Create a task whose first step runs before everything already ready."""
        t = self.create_task(coro)
        self._ready.rotate(1)
        return t

    def connect(self):
        sock = FakeSock(self)
        prev = events._get_running_loop()
        events._set_running_loop(self)
        try:
            proto = self.factory()
            tr = self._make_socket_transport(sock, proto, extra={"peername": sock.getpeername()})
        finally:
            events._set_running_loop(prev)
        sock.server_transport = tr
        return sock

    def advance(self, seconds):
        self._vtime += seconds

    def shutdown(self):
        self.enter()
        for t in asyncio.all_tasks(self):
            t.cancel()
        try:
            self.quiesce(5000)
        except Exception:
            pass
        sys.set_asyncgen_hooks(None, None)
        self._thread_id = None
        self._on = False
        try:
            self.close()
        except Exception:
            pass
