"""Stand-ins for the transports below AsyncioChannel, and real socket pairs."""
import asyncio
import socket
import struct

from saltchannel.channel import AsyncioChannel
from saltchannel.dev.client_server_a import (SaltChannelStreamReader, SaltChannelStreamReaderProtocol, SaltChannelStreamWriter,
                                             open_saltchannel_connection)
from vh import chan


def frame(msgs):
    return b"".join(struct.pack("<i", len(m)) + m for m in msgs)


class Transport(asyncio.Transport):
    """Collects what is written; can apply back pressure and lose the connection at a byte position."""

    def __init__(self, protocol=None, high=None, fail_at=None, error="reset"):
        super().__init__()
        self.protocol = protocol
        self.out = bytearray()
        self.high = high              # pause writing after so many unsent bytes
        self.pending = 0
        self.paused_writing = False
        self.paused_reading = False
        self.fail_at = fail_at
        self.error = error
        self.closed = False
        self.lost = False

    def write(self, data):
        data = bytes(data)
        if self.closed:                # as a real transport: nothing goes out after close() or abort()
            return
        if self.fail_at is not None and len(self.out) + len(data) > self.fail_at:
            self.out += data[:max(0, self.fail_at - len(self.out))]
            if not self.lost:
                self.lost = True
                self.protocol.connection_lost(None if self.error == "closed" else chan.ERRORS[self.error]("injected"))
            return
        self.out += data
        if self.high is not None:
            self.pending += len(data)
            if self.pending > self.high and not self.paused_writing:
                self.paused_writing = True
                self.protocol.pause_writing()
                asyncio.get_event_loop().call_soon(self._again, 2)

    def _again(self, n):
        if n:
            asyncio.get_event_loop().call_soon(self._again, n - 1)
            return
        self.pending = 0
        self.paused_writing = False
        self.protocol.resume_writing()

    def writelines(self, list_of_data):
        for d in list_of_data:
            self.write(d)

    def is_closing(self):
        return self.closed or self.lost

    def close(self):
        self.closed = True

    def abort(self):
        self.closed = True

    def get_write_buffer_size(self):
        return self.pending

    def pause_reading(self):
        self.paused_reading = True

    def resume_reading(self):
        self.paused_reading = False

    def is_reading(self):
        return not self.paused_reading

    def get_extra_info(self, name, default=None):
        return default


class Fake:
    """An AsyncioChannel on a fake transport."""

    def __init__(self, limit=2 ** 16, loop=None, transport=Transport, **kw):
        try:
            loop = loop or asyncio.get_event_loop()
            if loop.is_closed():
                raise RuntimeError
        except RuntimeError:                 # whoever has an asyncio connection has a loop
            loop = asyncio.new_event_loop()
            asyncio.set_event_loop(loop)
        self.reader = SaltChannelStreamReader(limit=limit, loop=loop)
        self.protocol = SaltChannelStreamReaderProtocol(self.reader, loop=loop)
        self.transport = transport(self.protocol, **kw)
        self.protocol.connection_made(self.transport)
        self.writer = SaltChannelStreamWriter(self.transport, self.protocol, self.reader, loop)
        self.channel = AsyncioChannel(self.reader, self.writer, loop=loop)

    async def feed(self, data, cuts=(), end=None, waits=()):
        """Delivers data in fragments, letting the reader run in between; then EOF or an error."""
        cuts = list(cuts) or [1 << 30]
        pos = i = 0
        while pos < len(data) and not self.transport.lost:
            while self.transport.paused_reading:
                await asyncio.sleep(0)
            n = max(1, cuts[i % len(cuts)])
            if waits:                        # milliseconds before each fragment; on a virtual-time loop only
                await asyncio.sleep(waits[i % len(waits)] / 1000)
            i += 1
            self.protocol.data_received(data[pos:pos + n])
            pos += n
            for _ in range(i % 3):
                await asyncio.sleep(0)
        # as with a real transport, the end is reported in a later iteration of the loop than the data
        await asyncio.sleep(0)
        await asyncio.sleep(0)
        if not self.transport.lost:
            self.finish(end)

    def finish(self, end):
        if end == "eof":
            self.protocol.eof_received()
        elif end == "closed":
            self.protocol.connection_lost(None)
        elif end:
            exc = chan.ERRORS[end]("injected")
            self.protocol.connection_lost(exc)


def pair(sndbuf=None):
    a, b = socket.socketpair()
    for s in (a, b):
        if sndbuf:
            s.setsockopt(socket.SOL_SOCKET, socket.SO_SNDBUF, sndbuf)
    return a, b


async def real_channel(sock):
    """AsyncioChannel on a real connected socket."""
    sock.setblocking(False)
    r, w = await open_saltchannel_connection(sock=sock, loop=asyncio.get_running_loop())
    return AsyncioChannel(r, w)
