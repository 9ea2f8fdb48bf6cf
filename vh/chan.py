"""In-memory channels the sessions under test run on; the harness owns every schedule, fault and attacker."""
import asyncio
import socket as _socket

from saltchannel.channel import ByteChannel
from saltchannel.exceptions import ComException
from vh.core import Violation


class Starved(ComException):
    """Nothing more will ever arrive on this channel."""


def run(coro):
    """Runs a coroutine on this process's loop."""
    return asyncio.get_event_loop().run_until_complete(coro)


def as_bytes(m):
    if not isinstance(m, (bytes, bytearray, memoryview)):
        raise Violation("the channel was given %r instead of bytes" % type(m).__name__)
    return bytes(m)


class PeerChannel(ByteChannel):
    """A channel whose other end is a reacting function: on_write(list of raw, is_last) may push to inbox.

    Never blocks: a read with an empty inbox raises Starved."""

    def __init__(self, on_write=None, inbox=()):
        super().__init__()
        self.inbox = list(inbox)
        self.on_write = on_write
        self.sent = []        # raw messages, in order
        self.groups = []      # (list of raw, is_last) per write call
        self.reads = 0
        self.starved = False
        self.events = []

    def _write(self, msgs, is_last):
        msgs = [as_bytes(m) for m in msgs]
        self.groups.append((msgs, bool(is_last)))
        self.sent.extend(msgs)
        self.events.append(("w", len(msgs)))
        if self.on_write:
            for raw in self.on_write(msgs, is_last) or ():
                self.inbox.append(raw)

    def _read(self):
        self.reads += 1
        self.events.append(("r", 1))
        if not self.inbox:
            self.starved = True
            raise Starved("nothing to read")
        return self.inbox.pop(0)

    async def read(self):
        return self._read()

    async def write(self, msg, *args, is_last=False):
        self._write((msg,) + args, is_last)

    def read_sync(self):
        return self._read()

    def write_sync(self, msg, *args, is_last=False):
        self._write((msg,) + args, is_last)

    def close(self):
        pass


def peer_channel(peer):
    """PeerChannel in front of a reference Server/Client."""
    def on_write(msgs, last):
        out = []
        for m in msgs:
            out.extend(peer.feed(m, last))
        return out
    return PeerChannel(on_write)


class Net:
    """A set of tasks that only ever block on this net's channels. Finds deadlocks exactly: when every task waits
    and nothing can wake one, all waiting reads get Starved."""

    def __init__(self, delays=()):
        self.live = 0
        self.waiting = {}
        self.delays = list(delays)
        self.di = 0
        self.stamp = 0
        self.starved = False

    async def pause(self):
        if self.delays:
            n = self.delays[self.di % len(self.delays)]
            self.di += 1
            if n >= 100:                   # milliseconds; on a virtual-time loop only
                await asyncio.sleep(n / 1000)
                return
            for _ in range(n):
                await asyncio.sleep(0)

    def pipe(self, tap_ab=None, tap_ba=None):
        """Two connected channels. tap(list of raw, last) -> list of raw, applied to what passes."""
        a, b = MemChannel(self), MemChannel(self)
        a.other, b.other = b, a
        a.tap, b.tap = tap_ab, tap_ba
        return a, b

    def _check(self):
        if self.waiting and len(self.waiting) >= self.live:
            stamp = self.stamp
            loop = asyncio.get_running_loop()

            def again(n):
                if self.stamp != stamp or not self.waiting or len(self.waiting) < self.live:
                    return
                if n:
                    loop.call_soon(again, n - 1)
                    return
                self.starved = True
                for ch, fut in list(self.waiting.items()):
                    if not fut.done():
                        fut.set_exception(Starved("deadlock: nothing more to read"))
            loop.call_soon(again, 40)

    async def _guard(self, coro):
        try:
            return await coro
        finally:
            self.live -= 1
            self.stamp += 1
            self._check()

    async def gather(self, *coros):
        """Runs all; gives a list of results or exceptions."""
        self.live += len(coros)
        return await asyncio.gather(*[asyncio.ensure_future(self._guard(c)) for c in coros], return_exceptions=True)


class MemChannel(ByteChannel):
    def __init__(self, net):
        super().__init__()
        self.net = net
        self.queue = []
        self.tap = None
        self.sent = []
        self.groups = []

    async def read(self):
        await self.net.pause()
        while not self.queue:
            fut = asyncio.get_running_loop().create_future()
            self.net.waiting[self] = fut
            self.net.stamp += 1
            self.net._check()
            try:
                await fut
            finally:
                self.net.waiting.pop(self, None)
                self.net.stamp += 1
        return self.queue.pop(0)

    async def write(self, msg, *args, is_last=False):
        await self.net.pause()
        msgs = [as_bytes(m) for m in (msg,) + args]
        self.groups.append((msgs, bool(is_last)))
        self.sent.extend(msgs)
        self.net.stamp += 1
        out = self.tap(msgs, is_last) if self.tap else msgs
        self.other.queue.extend(out)
        fut = self.net.waiting.get(self.other)
        if out and fut is not None and not fut.done():
            fut.set_result(None)

    def close(self):
        pass


ERRORS = {"reset": ConnectionResetError, "timeout": _socket.timeout, "os": OSError, "pipe": BrokenPipeError,
          "aborted": ConnectionAbortedError}


class FakeSocket:
    """A stream socket whose far end is a byte string; recv gives generated fragment sizes, then EOF or an error."""

    def __init__(self, data=b"", cuts=(), end="eof", send_limit=None, send_error="pipe", hiccups=(), waits=()):
        self.waits, self.wi, self.timeout = list(waits), 0, None      # seconds to wait for each fragment
        self.hiccups = sorted(set(hiccups))      # positions where one recv() times out
        self.send_error = send_error
        self.data = bytes(data)
        self.pos = 0
        self.cuts = list(cuts) or [1 << 30]
        self.ci = 0
        self.end = end
        self.out = bytearray()
        self.send_limit = send_limit
        self.sendalls = 0

    def _step(self):
        n = self.cuts[self.ci % len(self.cuts)]
        self.ci += 1
        return max(1, n)

    def recv(self, n, flags=0):
        if n < 0:
            raise ValueError("negative buffersize in recv")
        if n == 0:
            return b""
        if self.hiccups and self.pos >= self.hiccups[0]:
            del self.hiccups[0]
            self.hicked = True
            raise _socket.timeout("timed out")
        if self.pos >= len(self.data):
            if self.end == "eof":
                return b""
            raise ERRORS[self.end]("injected")
        if self.waits:
            wait = self.waits[self.wi % len(self.waits)]
            self.wi += 1
            if self.timeout is not None and wait > self.timeout:
                raise _socket.timeout("timed out") if self.timeout else BlockingIOError("would block")
        k = min(n, self._step(), len(self.data) - self.pos, self.hiccups[0] - self.pos if self.hiccups else n)
        b = self.data[self.pos:self.pos + k]
        self.pos += k
        return b

    def recv_into(self, buf, n=0, flags=0):
        mv = memoryview(buf).cast("B")
        b = self.recv(n or len(mv))
        mv[:len(b)] = b
        return len(b)

    def _room(self):
        return None if self.send_limit is None else self.send_limit - len(self.out)

    def sendall(self, b, flags=0):
        b = bytes(b)
        self.sendalls += 1
        room = self._room()
        if room is not None and room < len(b):
            self.out += b[:max(0, room)]
            raise ERRORS[self.send_error]("injected")
        self.out += b

    def send(self, b, flags=0):
        b = bytes(b)
        room = self._room()
        if room is not None and room <= 0:
            raise ERRORS[self.send_error]("injected")
        k = min(len(b), self._step(), room if room is not None else len(b))
        self.out += b[:k]
        return k

    def close(self):
        pass

    def shutdown(self, how):
        pass

    def settimeout(self, t):
        self.timeout = t

    def gettimeout(self):
        return self.timeout

    def setblocking(self, flag):
        self.timeout = None if flag else 0.0

    def fileno(self):
        return -1
