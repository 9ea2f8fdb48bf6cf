import asyncio
import struct

from hypothesis import strategies as st

from saltchannel.channel import AsyncioChannel
from saltchannel.dev.client_server_a import SaltChannelStreamReader, SaltChannelStreamReaderProtocol, SaltChannelStreamWriter
from saltchannel.dev.mitm_channel import MitmChannel
from vh import chan, gen, ref, stream
from vh.core import Sub, check, exc_text, fail, short

RULE = ("On an asyncio stream whose bytes the harness delivers one fragment at a time, reads and writes of the application are started, run for a "
        "generated number of loop iterations (or, reads, while other operations go on) and cancelled (as wait_for does when time is up), under generated back pressure, on the bare stream "
        "channel and in established sessions (also where a buffered M4 is still to be sent). Afterwards everything is delivered and read. Oracle: FIFO model; a cancelled write counts as done "
        "entirely or not at all. Non-trivial: at least one operation was cancelled while it waited.")
ASSUMPTIONS = ["the handshake itself is not cancelled", "one task reads"]


class Line(stream.Transport):
    """Collects frames; the harness delivers."""

    def __init__(self):
        super().__init__()
        self.frames = []

    def write(self, data):
        if self.closed:
            return
        self.out += bytes(data)
        while len(self.out) >= 4:
            n = struct.unpack("<i", self.out[:4])[0]
            if len(self.out) < 4 + n:
                break
            self.frames.append(bytes(self.out[4:4 + n]))
            del self.out[:4 + n]


def case():
    msg = st.one_of(gen.msg(0), gen.msg(0), gen.msg(0), gen.msg(1))
    msgs = st.lists(msg, min_size=1, max_size=3)
    op = st.one_of(
        st.tuples(st.just("in"), msgs, st.booleans()).map(list),
        st.tuples(st.just("bytes"), st.one_of(st.integers(1, 8), st.integers(1, 60), st.just(1 << 20))).map(list),
        st.tuples(st.just("read"), st.integers(0, 4), st.booleans()).map(list),
        st.tuples(st.just("read"), st.integers(0, 4), st.booleans()).map(list),
        st.tuples(st.just("write"), msgs, st.integers(0, 4)).map(list),
        st.tuples(st.just("pause"), st.booleans()).map(list), st.just(["background"]), st.just(["stop"]), st.just(["stop"]))
    return st.fixed_dictionaries(dict(layer=st.sampled_from(["raw", "client", "server", "client buffered"]), mitm=st.booleans(), k=st.integers(0, 60), limit=st.sampled_from([64, 2 ** 16]),
                                      ops=st.lists(op, min_size=2, max_size=20)))


async def go(case, rec):
    loop = asyncio.get_event_loop()
    reader = SaltChannelStreamReader(limit=case["limit"], loop=loop)
    protocol = SaltChannelStreamReaderProtocol(reader, loop=loop)
    line = Line()
    line.protocol = protocol
    protocol.connection_made(line)
    ch = AsyncioChannel(reader, SaltChannelStreamWriter(line, protocol, reader, loop))
    if case["mitm"]:
        ch = MitmChannel(ch)
    inbound = bytearray()
    peer = None

    def deliver(n):
        if inbound and not line.paused_reading and not line.closed:
            protocol.data_received(bytes(inbound[:n]))
            del inbound[:n]

    if case["layer"] == "raw":
        end = ch
        pack = lambda msgs, multi: list(msgs)                                              # noqa
    else:
        k = case["k"]
        ck, sk = gen.keys([k, k + 1000]), gen.keys([k + 2000, k + 3000])
        if case["layer"].startswith("client"):
            peer, s = ref.Server(sk), gen.client(ck, ch, case["layer"] == "client buffered")
        else:
            peer, s = ref.Client(ck), gen.server(sk, ch)
            inbound += stream.frame(peer.start())
        t = asyncio.ensure_future(s.handshake())
        for _ in range(300):
            await asyncio.sleep(0)
            while line.frames:
                inbound += stream.frame(peer.feed(line.frames.pop(0)))
            deliver(1 << 30)
            if t.done() and (peer.state == "app" or case["layer"] == "client buffered") and not inbound:
                break
        await t
        end = s.app_channel

        def pack(msgs, multi):
            if multi and all(len(m) <= 65535 for m in msgs):
                return [peer.link.send(ref.multi(msgs))]
            return [peer.link.send(ref.app(m)) for m in msgs]

    sent, got, calls = [], [], []
    cancelled = 0

    async def attempt(coro, steps, by_timeout=False):
        nonlocal cancelled
        t = asyncio.ensure_future(coro)
        for _ in range(steps):
            await asyncio.sleep(0)
        if not t.done():
            if steps:
                cancelled += 1
            t.cancel()
        try:
            return True, await t
        except asyncio.CancelledError:
            return False, None

    waiting = None                # a read that waits while other operations go on

    def take(m):
        got.append(bytes(m))
        check(got == sent[:len(got)], "read {} gave {} instead of {}", len(got) - 1, short(m), short(sent[len(got) - 1]) if len(got) <= len(sent) else "nothing")

    async def stop():
        nonlocal waiting, cancelled
        t, waiting = waiting, None
        if not t.done():
            cancelled += 1
            t.cancel()
        try:
            take(await t)
        except asyncio.CancelledError:
            pass

    for op in case["ops"]:
        if waiting is not None and (waiting.done() or op[0] in ("read", "stop", "background")):
            await stop()
        if op[0] == "stop":
            continue
        if op[0] == "background":
            waiting = asyncio.ensure_future(end.read())
            await asyncio.sleep(0)
        elif op[0] == "in":
            msgs = [gen.mk(m) for m in op[1]]
            sent += msgs
            inbound += stream.frame(pack(msgs, op[2]))
        elif op[0] == "bytes":
            deliver(op[1])
        elif op[0] == "pause":
            if op[1] != line.paused_writing:
                line.paused_writing = op[1]
                (protocol.pause_writing if op[1] else protocol.resume_writing)()
        elif op[0] == "read":
            t_done, m = await attempt(end.read(), op[1])
            if t_done:
                take(m)
        else:
            msgs = [gen.mk(m) for m in op[1]]
            t_done, _ = await attempt(end.write(*msgs), op[2])
            calls.append((msgs, t_done))
    if waiting is not None:
        await stop()
    if line.paused_writing:
        line.paused_writing = False
        protocol.resume_writing()

    async def rest():
        while len(got) < len(sent):
            got.append(bytes(await end.read()))
            check(got == sent[:len(got)], "read {} after {} cancelled operations gave {} instead of {}", len(got) - 1, cancelled, short(got[-1]), short(sent[len(got) - 1]))
        await end.write(b"the end")
    t = asyncio.ensure_future(rest())
    idle = 0
    while not t.done() and idle < 30:
        idle = 0 if inbound else idle + 1
        deliver(4096)
        await asyncio.sleep(0)
    if not t.done():
        t.cancel()
        try:
            await t
        except asyncio.CancelledError:
            fail("{} of {} messages arrived after {} cancelled operations, the next read waits for ever", len(got), len(sent), cancelled)
    await t
    # the other direction
    if peer is None:
        seen = line.frames
    else:
        for raw in line.frames:
            peer.feed(raw)
        seen = peer.app_in
    possible = {0}
    for msgs, done in calls + [([b"the end"], True)]:
        nxt = set() if done else set(possible)
        for p in possible:
            if seen[p:p + len(msgs)] == msgs:
                nxt.add(p + len(msgs))
        possible = nxt
    check(len(seen) in possible, "the peer got {} messages, which are not those of the {} write calls (completed: {})", len(seen), len(calls), [d for _, d in calls])
    rec.label(case["layer"], *(["cancelled"] if cancelled else []))
    rec.nontrivial(cancelled > 0)


def body(case, rec):
    try:
        chan.run(go(case, rec))
    except ref.ProtocolError as e:
        fail("the reference peer refuses: {}", e)
    except Exception as e:
        if type(e).__name__ in ("Violation", "Skip"):
            raise
        fail("failed with {} after cancelled operations", exc_text(e))


def every_byte(tier):
    """A read is cancelled after each number of bytes of a message has arrived."""
    out = []
    for layer in ("raw", "client", "server"):
        for n in (0, 1, 5, 30):
            size = 4 + n + (0 if layer == "raw" else 24)
            for b in range(1, size + 1):
                for steps in (1, 2, 3):
                    ops = [["in", [[n, 1], [n + 1, 2]], False], ["read", steps, False], ["bytes", b], ["read", steps, False], ["bytes", 1], ["read", steps, False]]
                    out.append(dict(layer=layer, mitm=False, k=3, limit=64, ops=ops))
    return out


def long(tier):
    """Many operations on one connection, some of them cancelled all the way through."""
    out = []
    for layer in ("raw", "client", "server", "client buffered"):
        for mitm in (False, True):
            for f, step in ((3, 1), (7, 2), (11, 3)):
                ops = []
                for i in range(150):
                    ops += [["in", [[i % 40, 1], [i % 9, 2]], bool(i & 1)], ["read", i % 4, False], ["bytes", f + i % 5], ["read", step, False], ["bytes", 1 << 20],
                            ["pause", i % 3 == 0], ["write", [[i % 30, 3]], i % 4], ["read", 3, False]]
                    ops += [["background"], ["bytes", 3], ["stop"]] if i % 10 == 9 else []
                out.append(dict(layer=layer, mitm=mitm, k=4, limit=64, ops=ops))
    return out


CHECKS = [
    Sub("every_byte", None, body, quick=1, cases=every_byte),
    Sub("long", None, body, quick=1, cases=long, cpu=300),
    Sub("cancelled", case, body, quick=12000, thorough=150000),
]
