import asyncio
import inspect
import threading

from hypothesis import strategies as st

from saltchannel.a1a2.a1_client_session import A1ClientSession
from saltchannel.channel import AsyncioChannel, ByteChannel, SocketChannel
from saltchannel.dev.mitm_channel import MitmChannel
from saltchannel.dev.tunnel import Tunnel, TunnelMP
from saltchannel.exceptions import ComException
from saltchannel.v2.app_channel_v2 import AppChannelV2
from saltchannel.v2.encrypted_channel_v2 import EncryptedChannelV2, Role
from saltchannel.v2.salt_client_session import SaltClientSession
from saltchannel.v2.salt_server_session import SaltServerSession
from vh import chan, gen, pk, ref, stream, vtime
from vh.core import Sub, check, exc_text, fail, same_bytes, short
from vh.props import c09, c10

RULE = ("One generated script (handshake, A1, writes, application and encrypted reads; genuine, hostile and failing peers) is run twice "
        "on identical deterministic channels, once awaiting the coroutines and once with the blocking calls, the latter in the main "
        "thread, in a thread without an event loop, after an event loop was closed, with objects made in another thread, on a channel that takes up to months (virtual time), or after the objects' loop was closed, or inside the running loop; bytes sent, "
        "results and error types must be the same. Real sockets with one blocking session per thread as well. Non-trivial: the script "
        "runs outside the plain main thread or ends in an error.")

CONTEXTS = ["main", "thread", "closed", "thread closed", "made here, used in thread", "no loop"]
GIVEN = ["given closed loop", "given closed loop in thread", "given loop", "given loop in thread", "given loop, another one current"]


class Cell:
    pass


def in_thread(f):
    c = Cell()
    c.r = c.e = None

    def go():
        try:
            c.r = f()
        except BaseException as e:
            c.e = e
    t = threading.Thread(target=go, daemon=True)
    t.start()
    t.join(55)
    if t.is_alive():
        fail("a blocking call did not return")
    if c.e is not None:
        raise c.e
    return c.r


def close_current_loop():
    loop = asyncio.new_event_loop()
    asyncio.set_event_loop(loop)
    loop.close()


def in_context(name, make, use):
    """make() then use(made) in the given circumstances; the process's own loop is put back afterwards."""
    own = asyncio.get_event_loop()

    def both():
        return use(make())
    try:
        if name == "main":
            return both()
        if name == "thread":
            return in_thread(both)
        if name == "closed":
            close_current_loop()
            return both()
        if name == "thread closed":
            return in_thread(lambda: (close_current_loop(), both())[1])
        if name in ("given loop in thread", "given closed loop in thread"):
            return in_thread(lambda: (close_current_loop(), both())[1])
        if name == "given loop, another one current":
            other = asyncio.new_event_loop()
            asyncio.set_event_loop(other)
            try:
                return both()
            finally:
                other.close()
        if name in ("no loop", "given loop", "given closed loop"):
            asyncio.set_event_loop(None)
            return both()
        made = make()
        return in_thread(lambda: use(made))
    finally:
        asyncio.set_event_loop(own)


# ---------------------------------------------------------------- sessions

def payload():
    return st.one_of(*[c10.LEGAL[k] for k in ("app", "multi")], *[c10.EDITED[k] for k in ("app", "multi")], c10.LEGAL["m4"])


def case():
    op = st.one_of(st.tuples(st.just("write"), st.lists(gen.msg(0), min_size=1, max_size=3), st.booleans()).map(list), st.just(["read"]),
                   st.just(["read"]), st.tuples(st.just("ewrite"), st.lists(gen.msg(0), min_size=1, max_size=2), st.booleans()).map(list),
                   st.just(["eread"]))
    return st.fixed_dictionaries(dict(
        role=st.sampled_from(["client", "server"]), k=st.integers(0, 30), buf=st.booleans(), ctx=st.sampled_from(CONTEXTS + GIVEN),
        ops=st.lists(op, max_size=6), loads=st.lists(st.tuples(st.booleans(), payload()).map(list), max_size=4),
        fail_write=st.one_of(st.none(), st.none(), st.integers(0, 4)), spoil=st.one_of(st.none(), st.none(), st.integers(0, 300)),
        t=st.one_of(st.none(), st.tuples(st.integers(0, 1), st.lists(gen.U32, min_size=1, max_size=3)).map(list)), nokey=st.integers(0, 15),
        exc=st.integers(0, len(EXC) - 1)))


EXC = [ComException, EOFError, OSError, ConnectionResetError, TimeoutError, ValueError, RuntimeError, KeyError, AssertionError, MemoryError]


class Faulty(chan.PeerChannel):
    fail_write = None
    exc = ComException

    def _write(self, msgs, is_last):
        if self.fail_write is not None and len(self.groups) >= self.fail_write:
            self.events.append(("fail", [bytes(m) for m in msgs]))
            raise self.exc("injected write failure")
        super()._write(msgs, is_last)

    def _read(self):
        try:
            return super()._read()
        except chan.Starved:
            raise self.exc("nothing to read")


def build(case, loop=None, kind=Faulty):
    ck, sk = gen.keys([case["k"], 1000]), gen.keys([case["k"] + 2000, 3000])
    if case["role"] == "client":
        peer = ref.Server(sk)
    else:
        peer = ref.Client(ck)
    left = [case["spoil"]]

    def spoil(raw):
        if left[0] is None:
            return raw
        n, left[0] = left[0], left[0] - len(raw)
        if n < len(raw):
            left[0] = None
            return raw[:n] + bytes([raw[n] ^ 1]) + raw[n + 1:]
        return raw

    def on_write(msgs, last):
        out = []
        for m in msgs:
            try:
                out.extend(spoil(r) for r in peer.feed(m, last))
            except Exception:
                pass
        return out
    ch = kind(on_write)
    ch.fail_write, ch.exc = case["fail_write"], EXC[case.get("exc", 0)]
    if case["role"] == "client":
        s = gen.client(ck, ch, case["buf"], loop=loop)
    else:
        ch.inbox.extend(spoil(r) for r in peer.start())
        s = gen.server(sk, ch, case["buf"], loop=loop)
    if case["nokey"] == 0:
        s.enc_keypair = None
    gen.set_timing(s, case["t"])
    return s, ch, peer


def script(case, made, call):
    s, ch, peer = made
    log = []

    def step(obj, name, *a, **kw):
        try:
            r = call(obj, name, *a, **kw)
            log.append((name, bytes(r) if isinstance(r, (bytes, bytearray)) else r))
            return True
        except Exception as e:
            if isinstance(e, AttributeError) and name + "_sync" in str(e):
                fail("{} has no {}_sync", type(obj).__name__, name)
            log.append((name, type(e).__name__))
            return False
    ok = step(s, "handshake")
    if ok and s.app_channel is not None:
        for sealed, p in case["loads"]:
            b = c10.mk(p)
            ch.inbox.append(peer.link.send(b) if sealed or len(b) < 3 else b)
        for op in case["ops"]:
            if op[0] == "write":
                step(s.app_channel, "write", *[gen.mk(m) for m in op[1]], is_last=op[2])
            elif op[0] == "ewrite":
                step(s.enc_channel, "write", *[gen.mk(m) for m in op[1]], is_last=op[2])
            elif op[0] == "read":
                step(s.app_channel, "read")
            else:
                step(s.enc_channel, "read")
        log.append(("last", bool(s.app_channel.last)))
    return log, ch.groups, ch.events, ch.reads


def awaited(obj, name, *a, **kw):
    return chan.run(getattr(obj, name)(*a, **kw))


def blocking(obj, name, *a, **kw):
    r = getattr(obj, name + "_sync")(*a, **kw)
    if inspect.iscoroutine(r) or isinstance(r, asyncio.Future):
        fail("{}.{}_sync gives a coroutine", type(obj).__name__, name)
    return r


def compare(a, b, case):
    for x, y, what in zip(a, b, ("results", "messages sent", "order of operations", "number of reads")):
        check(x == y, "{} differ: awaited {}, blocking in context '{}' {}", what, short(x), case["ctx"], short(y))


def body(case, rec):
    a = script(case, build(case), awaited)
    loop = asyncio.new_event_loop() if case["ctx"] in GIVEN else None
    if "closed loop" in case["ctx"]:
        loop.close()
    try:
        b = in_context(case["ctx"], lambda: build(case, loop), lambda m: script(case, m, blocking))
    finally:
        if loop is not None:
            loop.close()
    compare(a, b, case)
    err = [r for _, r in a[0] if isinstance(r, str)]
    rec.label(case["ctx"], case["role"], *["error " + e for e in err])
    rec.nontrivial(case["ctx"] != "main" or bool(err))


def long_cases(tier):
    """Many calls on the same objects."""
    ops = []
    for i in range(130):
        ops += [["write", [[i % 9, 1]], i % 5 == 0], ["read"], ["ewrite", [[i % 9, 2], [3, 3]], i % 7 == 0]] + ([["read"]] if i % 3 else [["write", [[4, 1], [5, 2]], False]])
    loads = [[True, ["x", "noise", ref.app(b"%d" % i, i)]] if i % 4 else [True, ["x", "noise", ref.multi([b"%d" % i, b""], i)]] for i in range(250)]
    loads += [[True, ["x", "noise", b"\x05"]], [False, ["x", "noise", b"junk that is not sealed"]]]
    return [dict(role=role, k=5, buf=buf, ctx=ctx, ops=ops, loads=loads, fail_write=fw, spoil=None, t=t, nokey=3, exc=0)
            for role in ("client", "server") for buf, t in ((False, None), (True, [1, [5, 6, 7]])) for ctx in CONTEXTS + GIVEN for fw in (None, 210)]


class Slow(Faulty):
    """Takes its time, in milliseconds per operation; blocking calls as inherited."""
    waits, wi = [0], 0
    read_sync, write_sync = ByteChannel.read_sync, ByteChannel.write_sync

    async def _pause(self):
        self.wi += 1
        await asyncio.sleep(self.waits[self.wi % len(self.waits)] / 1000)

    async def read(self):
        await self._pause()
        return self._read()

    async def write(self, msg, *args, is_last=False):
        await self._pause()
        self._write((msg,) + args, is_last)


def slow_case():
    return st.tuples(case(), gen.slow_delays(), st.sampled_from(["slow", "slow", "closed afterwards", "closed between"])).map(
        lambda t: dict(t[0], waits=t[1], ctx=t[2]))


def slow_body(case, rec):
    """A slow channel on a virtual-time loop: a blocking call waits as long as the awaited one. With a loop that was closed after the
    objects were made, a blocking call may work or fail; it must not pretend."""
    a = script(case, build(case), awaited)

    def using(how):
        def make():
            m = build(case, kind=Slow)
            m[1].waits = case["waits"]
            return m

        def use(m):
            n = [0]

            def call(obj, name, *args, **kw):
                n[0] += 1
                if how == "closed afterwards" and n[0] == 1 or how == "closed between" and n[0] == 2:
                    asyncio.get_event_loop().close()
                return blocking(obj, name, *args, **kw)
            return script(case, m, call)
        own = asyncio.get_event_loop()
        asyncio.set_event_loop(vtime.Loop())
        try:
            return use(make())
        finally:
            asyncio.get_event_loop().close()
            asyncio.set_event_loop(own)
    b = using(case["ctx"])
    if case["ctx"] == "slow":
        compare(a, b, case)
        rec.label("slow")
    elif b[0] != a[0] or b[1] != a[1]:
        check(any(isinstance(r, str) for _, r in b[0]), "loop closed after the objects were made: blocking calls gave {}, awaited {}", short(b[:2]), short(a[:2]))
        rec.label("refused with a closed loop")
    rec.nontrivial()


# ---------------------------------------------------------------- other channels

class OnlyCoroutines(ByteChannel):
    """A channel as a user writes it: just the two abstract coroutines."""

    def __init__(self, inbox, exc=ComException):
        super().__init__()
        self.inbox, self.sent, self.exc = list(inbox), [], exc

    async def read(self):
        await asyncio.sleep(0)
        if not self.inbox:
            raise self.exc("nothing to read")
        return self.inbox.pop(0)

    async def write(self, msg, *args, is_last=False):
        await asyncio.sleep(0)
        if any(m == b"refuse" for m in (msg,) + args):
            raise self.exc("not written")
        self.sent.append(([bytes(m) for m in (msg,) + args], is_last))


def channel_case():
    op = st.one_of(st.tuples(st.just("write"), st.lists(gen.msg(0), min_size=1, max_size=3), st.booleans()).map(list), st.just(["read"]))
    return st.fixed_dictionaries(dict(
        what=st.sampled_from(["socket", "asyncio", "mitm", "user", "mitm user", "tunnel", "tunnelmp", "enc"]), ops=st.lists(op, min_size=1, max_size=6),
        inbox=st.lists(gen.msg(0), max_size=4), cut=st.one_of(st.none(), st.integers(0, 60)), ctx=st.sampled_from(CONTEXTS), key=gen.tag32(),
        limit=st.one_of(st.none(), st.integers(0, 60)), exc=st.integers(0, len(EXC) - 1)))


def channel_body(case, rec):
    inbox = [gen.mk(m) for m in case["inbox"]]
    data = stream.frame(inbox)
    if case["cut"] is not None:
        data = data[:case["cut"]]
    what = case["what"]

    def make():
        if what == "socket":
            sock = chan.FakeSocket(data, [3, 1, 7], send_limit=case["limit"])
            return SocketChannel(sock), lambda: bytes(sock.out)
        if what == "asyncio":
            f = stream.Fake(fail_at=case["limit"])
            f.protocol.data_received(data)
            f.protocol.eof_received()
            return f.channel, lambda: bytes(f.transport.out)
        if what == "mitm":
            p = chan.PeerChannel(inbox=inbox)
            m = MitmChannel(p)
            return m, lambda: (p.groups, m.counter_read, m.counter_write)
        if what in ("user", "mitm user"):
            u = OnlyCoroutines(inbox, EXC[case.get("exc", 0)])
            return (MitmChannel(u) if what != "user" else u), lambda: u.sent
        if what == "enc":
            key = gen.b32(case["key"])
            p = chan.PeerChannel(inbox=[ref.encp(ref.seal(key, 2 + 2 * i, m)) for i, m in enumerate(inbox)])
            return EncryptedChannelV2(p, key, Role.CLIENT), lambda: p.groups
        t = Tunnel() if what == "tunnel" else TunnelMP()
        for m in inbox:
            t.channel2.write_sync(m)
        sent = []
        left = [0]

        def out():
            r = [bytes(t.channel2.read_sync()) for _ in range(left[0])]
            return r
        t.channel1._verif_left = left
        return t.channel1, out

    def use(call):
        def go(made):
            ch, out = made
            log = []
            avail = len(inbox)
            for op in case["ops"]:
                try:
                    if op[0] == "write":
                        r = call(ch, "write", *[gen.mk(m) for m in op[1]], is_last=op[2])
                        if what.startswith("tunnel"):
                            ch._verif_left[0] += len(op[1])
                    else:
                        if what.startswith("tunnel") and not avail:
                            continue                   # an empty tunnel is not read
                        avail -= 1
                        r = call(ch, "read")
                        if not isinstance(r, (bytes, bytearray)):
                            fail("read of {} gave {}", what, short(r))
                        r = bytes(r)
                    log.append((op[0], r))
                except (ComException,) + tuple(EXC) as e:
                    log.append((op[0], "ComException", type(e).__name__))
            return log, out()
        return go
    a = use(awaited)(make())
    b = in_context(case["ctx"], make, use(blocking))
    check(a == b, "{} channel, context '{}': awaited {}, blocking {}", what, case["ctx"], short(a), short(b))
    rec.label(what, case["ctx"])
    rec.nontrivial(case["ctx"] != "main" or any("ComException" in x for x in a[0]))


# ---------------------------------------------------------------- streams that belong to a given loop

class Reacting(stream.Transport):
    """A peer behind an asyncio stream: answers come in a later iteration of the stream's own loop."""
    peer = loop = None

    def write(self, data):
        super().write(data)
        while len(self.out) >= 4 and len(self.out) >= 4 + int.from_bytes(self.out[:4], "little"):
            n = 4 + int.from_bytes(self.out[:4], "little")
            raw = bytes(self.out[4:n])
            del self.out[:n]
            self.answer(raw)

    def answer(self, raw):
        for r in self.peer(raw):
            self.loop.call_later(0.0005, self.protocol.data_received, stream.frame([r]))


def given_case():
    return st.fixed_dictionaries(dict(
        what=st.sampled_from(["raw", "mitm", "client", "client", "server", "a1", "enc"]), ctx=st.sampled_from(["main", "thread", "another", "none"]),
        use=st.sampled_from(["here", "thread"]), k=st.integers(0, 30), buf=st.booleans(), msgs=st.lists(gen.msg(0), min_size=1, max_size=3)))


def given_body(case, rec):
    """A stream, and the objects on it, made for one loop while another one (or none) is the thread's current one."""
    msgs = [gen.mk(m) for m in case["msgs"]]
    ck, sk = gen.keys([case["k"], 1000]), gen.keys([case["k"] + 2000, 3000])
    what = case["what"]
    loop = asyncio.new_event_loop()
    own = asyncio.get_event_loop()
    other = asyncio.new_event_loop() if case["ctx"] == "another" else None

    def make():
        f = stream.Fake(loop=loop, transport=Reacting)
        t = f.transport
        t.loop = loop
        if what in ("raw", "mitm"):
            t.peer = lambda raw: [raw]
            return MitmChannel(f.channel, loop=loop) if what == "mitm" else f.channel
        if what == "enc":
            key = bytes(range(32))
            t.peer = lambda raw: [ref.encp(ref.seal(key, 2, msgs[0]))]
            return EncryptedChannelV2(f.channel, key, Role.CLIENT, loop=loop)
        if what == "a1":
            t.peer = lambda raw: [ref.a2([(b"SCv2------", b"----------")])]
            return A1ClientSession(f.channel, loop=loop)
        peer = ref.Server(sk) if what == "client" else ref.Client(ck)

        def react(raw):
            n = len(peer.app_in)
            out = list(peer.feed(raw))
            return out + [peer.link.send(ref.app(m)) for m in peer.app_in[n:]]
        t.peer = react
        if what == "client":
            return gen.client(ck, f.channel, case["buf"], loop=loop)
        for r in peer.start():
            loop.call_later(0.0005, t.protocol.data_received, stream.frame([r]))
        return gen.server(sk, f.channel, case["buf"], loop=loop)

    def use(obj):
        if what == "a1":
            obj.do_a1a2_sync()
            check(len(obj.a2.Prot) == 1, "the answer has {} entries", len(obj.a2.Prot))
            return
        if what in ("client", "server"):
            obj.handshake_sync()
            obj = obj.app_channel
        for m in msgs[:1] if what == "enc" else msgs:
            obj.write_sync(m)
            same_bytes(obj.read_sync(), m, "echo over a stream of a given loop")

    def circumstances(f):
        if case["ctx"] == "another":
            asyncio.set_event_loop(other)
        elif case["ctx"] == "none":
            asyncio.set_event_loop(None)
        return f()
    try:
        if case["ctx"] == "thread":
            in_thread(lambda: use(make()))
        elif case["use"] == "thread":
            obj = circumstances(make)
            in_thread(lambda: use(obj))
        else:
            circumstances(lambda: use(make()))
    except Exception as e:
        if type(e).__name__ in ("Violation", "Skip"):
            raise
        fail("{} on a stream of a given loop, context '{}': blocking call failed with {}", what, case["ctx"], exc_text(e))
    finally:
        asyncio.set_event_loop(own)
        loop.close()
        if other is not None:
            other.close()
    rec.label(what, case["ctx"], "used " + case["use"])
    rec.nontrivial(case["ctx"] != "main" or case["use"] == "thread")


# ---------------------------------------------------------------- A1 client and A1 requests on the server

def a1_case():
    return st.fixed_dictionaries(dict(
        side=st.sampled_from(["client", "server"]), chan=st.sampled_from(["peer", "user"]), k=st.integers(0, 30),
        addr=st.one_of(st.none(), gen.tag32(), st.just("own")), answer=st.one_of(c10.LEGAL["a2"], c10.LEGAL["a2"], c10.EDITED["a2"]),
        req=st.one_of(c10.LEGAL["a1"], c10.EDITED["a1"]), ctx=st.sampled_from(CONTEXTS)))


def a1_body(case, rec):
    sk = gen.keys([case["k"] + 2000, 3000])

    def make():
        raw = c10.mk(case["answer"] if case["side"] == "client" else case["req"])
        if case["side"] == "client":
            ch = chan.PeerChannel(inbox=[raw]) if case["chan"] == "peer" else OnlyCoroutines([raw])
            s = A1ClientSession(ch)
            if case["addr"] is not None:
                addr = sk.sig_pub if case["addr"] == "own" else gen.b32(case["addr"])
                pk.fill("a1", s.a1, dict(atype=1, addr=addr))
            return s, ch
        ch = chan.PeerChannel(inbox=[raw]) if case["chan"] == "peer" else OnlyCoroutines([raw])
        return gen.server(sk, ch), ch

    def use(call):
        def go(made):
            s, ch = made
            try:
                call(s, "do_a1a2" if case["side"] == "client" else "handshake")
                r = "done"
            except ComException as e:
                r = type(e).__name__
            extra = (None if s.a2 is None else bytes(s.a2)) if case["side"] == "client" else s.is_done
            return r, extra, ch.groups if case["chan"] == "peer" else ch.sent
        return go
    a = use(awaited)(make())
    b = in_context(case["ctx"], make, use(blocking))
    check(a == b, "A1/A2, {} side, {} channel, context '{}': awaited {}, blocking {}", case["side"], case["chan"], case["ctx"], short(a), short(b))
    rec.label(case["side"], case["ctx"], a[0])
    rec.nontrivial(case["ctx"] != "main" or a[0] != "done")


# ---------------------------------------------------------------- every coroutine has its counterpart

CLASSES = [ByteChannel, AsyncioChannel, SocketChannel, EncryptedChannelV2, AppChannelV2, SaltClientSession, SaltServerSession, A1ClientSession,
           MitmChannel, "tunnel", "tunnelmp", "subclass"]


def counterpart_body(case, rec):
    cls = CLASSES[case["i"]]
    if cls == "tunnel":
        cls = type(Tunnel().channel1)
    elif cls == "tunnelmp":
        cls = type(TunnelMP().channel1)
    elif cls == "subclass":
        class Mine(SaltClientSession):
            async def extra(self, a, b=1):
                return (a, b)

        class MyChannel(AppChannelV2):
            async def read(self):
                return b"mine " + await super().read()
        k = gen.keys([1, 2])
        m = Mine(gen.sig_pair(k), chan.PeerChannel())
        check(m.extra_sync(3, b=4) == (3, 4), "blocking version of a subclass's coroutine")
        check(hasattr(m, "handshake_sync"), "handshake_sync")
        cls = Mine
        s, ch, link, _ = gen.established("client", 4)
        mc = MyChannel(s.enc_channel, s.time_keeper, s.time_checker)
        ch.inbox.append(link.send(ref.app(b"x")))
        same_bytes(mc.read_sync(), b"mine x", "read_sync of a subclass that overrides read")
    n = 0
    for name, f in inspect.getmembers(cls, inspect.iscoroutinefunction):
        if name.startswith("_"):
            continue
        n += 1
        g = getattr(cls, name + "_sync", None)
        check(callable(g), "{}.{} has no blocking counterpart", cls.__name__, name)
        check(not inspect.iscoroutinefunction(g), "{}.{}_sync is a coroutine", cls.__name__, name)
    check(n, "{} has no coroutines", cls.__name__)
    rec.nontrivial()


# ---------------------------------------------------------------- blocking calls where the loop is running

def inside_case():
    return st.fixed_dictionaries(dict(what=st.sampled_from(["client", "server", "app", "app", "enc", "a1", "stream", "mitm"]), read=st.booleans(), k=st.integers(0, 30),
                                      msgs=st.lists(gen.msg(0), min_size=1, max_size=3), late=st.booleans(), last=st.booleans()))


def inside_body(case, rec):
    """Called by a coroutine of the same loop, a blocking call may fail, but must not come back with its work undone."""
    what, msgs = case["what"], [gen.mk(m) for m in case["msgs"]]
    loop = asyncio.get_event_loop()

    def make():
        """The call, and what must be seen when it has come back."""
        if what in ("client", "server"):
            s, ch, peer = fresh(what, case["k"])
            return s.handshake_sync, (), lambda r: (peer.state, bytes(s.session_key or b"")) == ("app", bytes(peer.key)) and r is None
        if what in ("app", "enc"):
            s, ch, link, peer = gen.established("client", case["k"])
            target = s.app_channel if what == "app" else s.enc_channel
            if case["read"]:
                ch.inbox.append(link.send(ref.app(msgs[0]) if what == "app" else msgs[0]))
                return target.read_sync, (), lambda r: bytes(r) == msgs[0]
            n = len(ch.sent)
            want = 1 if what == "app" else len(msgs)
            return target.write_sync, msgs, lambda r: len(ch.sent) == n + want and r is None
        if what == "a1":
            raw = ref.a2([(b"SCv2------", b"----------")])
            ch = chan.PeerChannel(lambda m, l: [raw])
            s = A1ClientSession(ch)
            return s.do_a1a2_sync, (), lambda r: s.a2 is not None and bytes(s.a2) == raw and len(ch.sent) == 1
        if what == "mitm":
            ch = MitmChannel(chan.PeerChannel(inbox=[msgs[0]]))
            if case["read"]:
                return ch.read_sync, (), lambda r: bytes(r) == msgs[0] and ch.counter_read == len(msgs[0])
            return ch.write_sync, msgs, lambda r: ch.orig.sent == msgs and r is None
        f = stream.Fake(loop=loop)
        if case["read"]:
            f.reader.feed_data(stream.frame(msgs))
            return f.channel.read_sync, (), lambda r: bytes(r) == msgs[0]
        return f.channel.write_sync, msgs, lambda r: bytes(f.transport.out) == stream.frame(msgs) and r is None

    made = None if case["late"] and what not in ("app", "enc") else make()

    async def main():
        call, args, done = made or make()
        try:
            r = call(*args, is_last=True) if args and case["last"] else call(*args)
        except Exception as e:
            return exc_text(e)
        if not (not inspect.isawaitable(r) and done(r)):
            fail("{}: a blocking {} inside the running loop came back with {} and its work undone", what, call.__name__, type(r).__name__)
        return "done"
    r = loop.run_until_complete(main())
    rec.label(what, "refused" if r != "done" else "done")
    rec.nontrivial()


def fresh(role, k):
    ck, sk = gen.keys([k, 1000]), gen.keys([k + 2000, 3000])
    if role == "client":
        peer = ref.Server(sk)
        ch = chan.peer_channel(peer)
        return gen.client(ck, ch), ch, peer
    peer = ref.Client(ck)
    ch = chan.peer_channel(peer)
    ch.inbox.extend(peer.start())
    return gen.server(sk, ch), ch, peer


# ---------------------------------------------------------------- blocking sessions in threads over real sockets

def threads_case():
    return st.fixed_dictionaries(dict(k=st.integers(0, 30), n=st.integers(1, 3), buf=st.tuples(st.booleans(), st.booleans()).map(list),
                                      msgs=st.lists(gen.msg(1), min_size=1, max_size=3)))


def threads_body(case, rec):
    res, ts, socks = {}, [], []
    msgs = [gen.mk(m) for m in case["msgs"]]

    def client(sock, i):
        s = gen.client(gen.keys([case["k"], i]), SocketChannel(sock), case["buf"][0])
        s.handshake_sync()
        for m in msgs:
            s.app_channel.write_sync(m)
        return [bytes(s.app_channel.read_sync()) for _ in msgs]

    def server(sock, i):
        s = gen.server(gen.keys([case["k"] + 99, i + 50]), SocketChannel(sock), case["buf"][1])
        s.handshake_sync()
        got = [bytes(s.app_channel.read_sync()) for _ in msgs]
        s.app_channel.write_sync(*got, is_last=True)
        return got

    def note(name, f, *a):
        def go():
            try:
                res[name] = f(*a)
            except BaseException as e:
                res[name] = e
        t = threading.Thread(target=go, daemon=True)
        ts.append(t)
    for i in range(case["n"]):
        a, b = stream.pair()
        socks += [a, b]
        for x in (a, b):
            x.settimeout(50)
        note(("client", i), client, a, i)
        note(("server", i), server, b, i)
    try:
        for t in ts:
            t.start()
        for t in ts:
            t.join(55)
    finally:
        for x in socks:
            x.close()
    for i in range(case["n"]):
        for side in ("client", "server"):
            r = res.get((side, i), "no result")
            check(r == msgs, "blocking {} in a thread: {} instead of {}", side, exc_text(r) if isinstance(r, BaseException) else short(r), short(msgs))
    rec.nontrivial()
    rec.label("%d sessions" % case["n"])


CHECKS = [
    Sub("counterparts", None, counterpart_body, quick=1, cases=lambda tier: [dict(i=i) for i in range(len(CLASSES))]),
    Sub("many_calls", None, body, quick=1, cases=long_cases, cpu=300),
    Sub("sessions", case, body, quick=18000, thorough=250000),
    Sub("slow", slow_case, slow_body, quick=2500, thorough=30000),
    Sub("channels", channel_case, channel_body, quick=12000, thorough=150000),
    Sub("given_loops", given_case, given_body, quick=2400, thorough=30000),
    Sub("a1a2", a1_case, a1_body, quick=9000, thorough=100000),
    Sub("inside", inside_case, inside_body, quick=1500, thorough=15000),
    Sub("threads", threads_case, threads_body, quick=720, thorough=8000),
]
