import asyncio
import logging
import threading

from hypothesis import strategies as st

from saltchannel.channel import ByteChannel
from saltchannel.dev.mitm_channel import MitmChannel
from saltchannel.dev.tunnel import Tunnel, TunnelMP
from saltchannel.exceptions import BadPeer, ComException
from vh import chan, gen, ref
from vh.core import Sub, check, exc_text, expand, fail, same_bytes, short

RULE = ("Generated histories of reads, writes (1-4 messages, empty ones included, last flag), failures of the wrapped channel at any "
        "operation, buffering switched on and off, flushes and close are run on a channel and on the same channel wrapped by MitmChannel, "
        "awaited or blocking; results, calls below, counters and log records are compared with a model; writers reuse mutable buffers after a write. Overlapping "
        "reads and writes that wait, fail or are cancelled in generated orders end alike with and without the wrapper. Sessions with a reference peer run with "
        "and without the wrapper. Tunnels are driven by generated reads and writes at both ends of two tunnels at once against a FIFO "
        "model, and carry blocking sessions in two threads. Non-trivial: at least three messages, or a failure, or a flush of a non-empty buffer.")

EXC = {"com": ComException("broken"), "bad": BadPeer("broken"), "value": ValueError("broken"), "timeout": TimeoutError("broken"), "os": OSError("broken"),
       "reset": ConnectionResetError("broken"), "pipe": BrokenPipeError("broken"), "eof": EOFError("broken"), "index": IndexError("broken"),
       "runtime": RuntimeError("broken"), "incomplete": asyncio.IncompleteReadError(b"", 4), "memory": MemoryError("broken")}


class Inner(ByteChannel):
    """The wrapped channel: gives generated messages, writes down every call, fails where told to."""
    big = None

    def __init__(self, fails):
        super().__init__()
        self.fails = fails
        self.n = 0
        self.calls = []
        self.given = 0
        self.closed = 0

    def _hit(self):
        i = self.n
        self.n += 1
        if str(i) in self.fails:
            self.calls.append(("fail", i))
            raise EXC[self.fails[str(i)]]

    def _read(self):
        self._hit()
        self.given += 1
        self.calls.append(("r",))
        n = self.given
        return self.big or (ref.sha512(b"%d" % n)[:n * 7 % 40] if n % 5 else b"")

    def _write(self, msgs, last):
        self._hit()
        self.calls.append(("w", [bytes(m) for m in msgs], bool(last)))

    async def read(self):
        return self._read()

    async def write(self, msg, *args, is_last=False):
        self._write((msg,) + args, is_last)

    def read_sync(self):
        return self._read()

    def write_sync(self, msg, *args, is_last=False):
        self._write((msg,) + args, is_last)

    def close(self):
        self.closed += 1


class Catch(logging.Handler):
    def __init__(self):
        super().__init__()
        self.texts = []

    def emit(self, record):
        self.texts.append(record.getMessage())


def mitm_case():
    op = st.one_of(st.just(["r"]), st.just(["r"]), st.tuples(st.just("w"), st.lists(gen.msg(0), min_size=1, max_size=4), st.booleans()).map(list),
                   st.tuples(st.just("w"), st.lists(gen.msg(0), min_size=1, max_size=4), st.booleans()).map(list),
                   st.just(["buffer"]), st.just(["flush"]), st.just(["direct"]))
    return st.fixed_dictionaries(dict(ops=st.lists(st.tuples(op, st.booleans()).map(list), min_size=1, max_size=14), log=st.sampled_from(["info", "info", "info", "none", "off"]),
                                      fails=st.dictionaries(st.integers(0, 8).map(str), st.sampled_from(sorted(EXC)), max_size=2), close=st.booleans(),
                                      mutable=st.booleans()))


def long_cases(tier):
    """Long histories: many records are held back before they are flushed."""
    out = []
    for n in (60, 150, 300, 700, 3000) + ((1500, 5000) if tier == "thorough" else ()):
        for sync in (False, True):
            some = [[[["r"], sync], [["w", [[3, i % 200], [0, 0], [5, 1]], False], sync]][i % 2] for i in range(n)]
            out.append(dict(ops=[[["buffer"], sync]] + some + [[["flush"], sync]] + some + [[["flush"], sync]] + some[:5] + [[["direct"], sync]] + some,
                            log="info", fails={}, close=True, mutable=False))
    return out


def volume_cases(tier):
    """More bytes than fit in small counters."""
    big = [["w", [[7 << 20, 1], [1, 2], [5 << 20, 3]], False], ["r"], ["r"], ["w", [[6 << 20, 1]], True], ["r"], ["w", [[3, 1]], False], ["r"]]
    out = [dict(ops=[[op, sync] for op in big], log=log, fails={}, close=True, mutable=False, big=6 << 20) for sync in (False, True) for log in ("none", "off")]
    for n in (255, 1000, 4097, 65537, 300000):              # logged in full
        few = [["buffer"], ["w", [[n, 1], [3, 2], [n, 3]], False], ["r"], ["flush"], ["direct"], ["w", [[n, 4]], True], ["r"]]
        out += [dict(ops=[[op, sync] for op in few], log="info", fails={}, close=True, mutable=False, big=n) for sync in (False, True)]
    if tier == "thorough":
        out.append(dict(ops=[[op, bool(i % 2)] for i in range(40) for op in big], log="none", fails={}, close=True, mutable=False, big=6 << 20))
    return out


def reuse(bufs):
    """The writer takes its buffers into use again."""
    for b in bufs:
        if isinstance(b, bytearray):
            b[:] = bytes(x ^ 0x5a for x in b)


def do(ch, op, sync, mutable):
    try:
        if op[0] == "r":
            return ("data", bytes(ch.read_sync() if sync else chan.run(ch.read())))
        msgs = [gen.mk(m) for m in op[1]]
        if mutable:
            msgs = [bytearray(m) for m in msgs]
        kw = dict(is_last=True) if op[2] else {}
        if sync:
            ch.write_sync(*msgs, **kw)
        else:
            chan.run(ch.write(*msgs, **kw))
        reuse(msgs)
        return ("ok",)
    except Exception as e:
        return ("error", e)


def mitm_body(case, rec):
    plain, inner = Inner(case["fails"]), Inner(case["fails"])
    if case.get("big"):
        plain.big = inner.big = expand(case["big"] - 50, 9) + bytes(50)
    log, handler = None, Catch()
    if case["log"] != "none":
        log = logging.Logger("verif.c20", logging.INFO if case["log"] == "info" else logging.WARNING)
        log.addHandler(handler)
    m = MitmChannel(inner, log=log) if log is not None else MitmChannel(inner)
    passed = []          # what the log must show, in order
    held = []            # with buffering on
    buffering = False
    nread = nwrite = errors = flushed = 0
    for op, sync in case["ops"]:
        if op[0] == "buffer":
            m.log_buffering = buffering = True
        elif op[0] == "flush":
            m.flush_log_buffer()
            flushed += len(held)
            passed += held
            held = []
        elif op[0] == "direct":
            m.flush_log_buffer()
            flushed += len(held)
            passed += held
            held = []
            m.log_buffering = buffering = False
        else:
            want, got = do(plain, op, sync, case["mutable"]), do(m, op, sync, case["mutable"])
            if want[0] == "error":
                check(got[0] == "error" and type(got[1]) is type(want[1]) and str(got[1]) == str(want[1]), "{}: the channel fails with {}, wrapped: {}", op[0],
                      exc_text(want[1]), exc_text(got[1]) if got[0] == "error" else short(got))
                errors += 1
            else:
                check(got == want, "{}: the channel gives {}, wrapped: {}", op[0], short(want), exc_text(got[1]) if got[0] == "error" else short(got))
                if op[0] == "r":
                    nread += len(want[1])
                    (held if buffering else passed).append(("READ", want[1]))
                else:
                    nwrite += sum(x[0] for x in op[1])
                    (held if buffering else passed).extend(("WRITE", gen.mk(x)) for x in op[1])
        check(inner.calls == plain.calls, "calls on the wrapped channel: {}; expected {}", short(inner.calls[-3:]), short(plain.calls[-3:]))
        check((m.counter_read, m.counter_write) == (nread, nwrite), "counters {}/{} after {}/{} bytes read/written", m.counter_read, m.counter_write, nread, nwrite)
        want = passed if case["log"] == "info" else []
        check(len(handler.texts) == len(want), "{} log records after {} messages to be logged", len(handler.texts), len(want))
    for i, ((kind, data), text) in enumerate(zip(passed if case["log"] == "info" else [], handler.texts)):
        check(kind in text, "log record {} of a {}: {}", i, kind, short(text))
        check(data.hex() in text, "log record {} does not show the message {}: {}", i, short(data), short(text))
    if case["close"]:
        m.close()
        check(inner.closed == 1, "close() closed the wrapped channel {} times", inner.closed)
    else:
        check(inner.closed == 0, "the wrapped channel was closed")
    rec.label("log " + case["log"], *(["failure"] if errors else []), *(["flush"] if flushed else []))
    rec.nontrivial(len(passed) + len(held) >= 3 or errors > 0 or flushed > 0)


# ---------------------------------------------------------------- overlapping operations

class Wire(ByteChannel):
    """Reads wait for a message, writes for permission; both may be failed."""

    def __init__(self):
        super().__init__()
        self.readers, self.writers, self.calls = [], [], []

    async def read(self):
        f = asyncio.get_running_loop().create_future()
        self.readers.append(f)
        self.calls.append("read")
        return await f

    async def write(self, msg, *args, is_last=False):
        f = asyncio.get_running_loop().create_future()
        self.writers.append(f)
        self.calls.append(("write", [bytes(m) for m in (msg,) + args], is_last))
        await f


def overlap_case():
    op = st.one_of(st.just(["r"]), st.tuples(st.just("w"), st.lists(gen.msg(0), min_size=1, max_size=3), st.booleans()).map(list),
                   st.tuples(st.sampled_from(["readers", "writers"]), st.integers(0, 5), st.one_of(st.none(), st.none(), st.sampled_from(sorted(EXC)))).map(list),
                   st.tuples(st.sampled_from(["readers", "writers"]), st.integers(0, 5), st.none()).map(list),
                   st.tuples(st.just("cancel"), st.integers(0, 9)).map(list))
    return st.fixed_dictionaries(dict(ops=st.lists(op, min_size=2, max_size=14), log=st.booleans(), depth=st.integers(1, 2)))


def overlap_run(case, wrap):
    async def main():
        w = Wire()
        m = wrap(w)
        tasks, hist, kinds = [], [], []
        given = nread = nwrite = 0
        for op in case["ops"]:
            if op[0] == "r":
                tasks.append(asyncio.ensure_future(m.read()))
                kinds.append(0)
            elif op[0] == "w":
                msgs = [gen.mk(x) for x in op[1]]
                tasks.append(asyncio.ensure_future(m.write(*msgs, is_last=op[2])))
                kinds.append(sum(map(len, msgs)))
            elif op[0] == "cancel":
                if tasks:
                    tasks[op[1] % len(tasks)].cancel()
            else:
                fs = [f for f in getattr(w, op[0]) if not f.done()]
                if fs:
                    f = fs[op[1] % len(fs)]
                    given += 1
                    if op[2]:
                        f.set_exception(EXC[op[2]])
                    else:
                        f.set_result(ref.sha512(b"%d" % given)[:given * 7 % 40] if op[0] == "readers" else None)
            for _ in range(6):
                await asyncio.sleep(0)
            now = []
            for t in tasks:
                if not t.done():
                    now.append("pending")
                elif t.cancelled():
                    now.append("cancelled")
                elif t.exception():
                    now.append(exc_text(t.exception()))
                else:
                    now.append(t.result())
            hist.append((now, list(w.calls)))
            nread = sum(len(x) for x, k, o in zip(now, kinds, kinds) if isinstance(x, bytes))
            nwrite = sum(k for x, k in zip(now, kinds) if x is None)
            if isinstance(m, MitmChannel):
                check((m.counter_read, m.counter_write) == (nread, nwrite), "counters {}/{} after {}/{} bytes", m.counter_read, m.counter_write, nread, nwrite)
        for t in tasks:
            t.cancel()
        await asyncio.gather(*tasks, return_exceptions=True)
        return hist
    return chan.run(main())


def overlap_body(case, rec):
    log = logging.Logger("verif.c20o", logging.INFO)
    log.addHandler(Catch())

    def wrap(ch):
        for _ in range(case["depth"]):
            ch = MitmChannel(ch, log=log if case["log"] else None)
        return ch
    a, b = overlap_run(case, lambda ch: ch), overlap_run(case, wrap)
    for i, (x, y) in enumerate(zip(a, b)):
        check(x == y, "after step {} ({}): {} with the wrapper, {} without", i, case["ops"][i][0], short(y), short(x))
    rec.nontrivial(any(x[0].count("pending") >= 2 for x in a))


# ---------------------------------------------------------------- sessions on the wrapper

def session_case():
    return st.fixed_dictionaries(dict(role=st.sampled_from(["client", "server"]), tag=st.integers(0, 2**16), buf=st.booleans(), sync=st.booleans(),
                                      depth=st.integers(1, 3), log=st.booleans(),
                                      script=st.lists(st.tuples(st.booleans(), st.lists(gen.msg(0), min_size=1, max_size=3), st.booleans()).map(list), max_size=5)))


def play(case, wrap):
    ck, sk = gen.keys([case["tag"], case["tag"] + 1]), gen.keys([case["tag"] + 2, case["tag"] + 3])
    if case["role"] == "client":
        peer = ref.Server(sk)
        ch = chan.peer_channel(peer)
        w = wrap(ch)
        s = gen.client(ck, w, case["buf"])
    else:
        peer = ref.Client(ck)
        ch = chan.peer_channel(peer)
        ch.inbox.extend(peer.start())
        w = wrap(ch)
        s = gen.server(sk, w, case["buf"])
    got, rbytes = [], [sum(map(len, ch.inbox))]

    def call(o, name, *a, **k):
        return getattr(o, name + "_sync")(*a, **k) if case["sync"] else chan.run(getattr(o, name)(*a, **k))
    push = ch.on_write

    def on_write(msgs, last):
        out = push(msgs, last)
        rbytes[0] += sum(map(len, out))
        return out
    ch.on_write = on_write
    call(s, "handshake")
    if case["buf"] and case["role"] == "client":
        call(s.app_channel, "write", b"first")
    for up, ms, last in case["script"]:
        msgs = [gen.mk(m) for m in ms]
        if up:
            call(s.app_channel, "write", *msgs, is_last=last)
        else:
            raw = peer.link.send(ref.app(msgs[0]) if len(msgs) == 1 else ref.multi(msgs), last)
            ch.inbox.append(raw)
            rbytes[0] += len(raw)
            got += [bytes(call(s.app_channel, "read")) for _ in msgs]
            got.append(bool(s.app_channel.last))
    return ch.groups, got, peer.app_in, peer.last_flags, w, rbytes[0], sum(map(len, ch.sent))


def session_body(case, rec):
    log, handler = logging.Logger("verif.c20s", logging.INFO), Catch()
    log.addHandler(handler)

    def wrap(ch):
        for _ in range(case["depth"]):
            ch = MitmChannel(ch, log=log if case["log"] else None)
        return ch
    a, b = play(case, lambda ch: ch), play(case, wrap)
    for name, x, y in zip(("sent", "received", "data at the peer", "last flags at the peer"), a, b):
        check(x == y, "{}: {} with the wrapper, {} without", name, short(y), short(x))
    check((b[4].counter_read, b[4].counter_write) == (b[5], b[6]), "counters {}/{} after {}/{} bytes", b[4].counter_read, b[4].counter_write, b[5], b[6])
    rec.label(case["role"], "sync" if case["sync"] else "async")
    rec.nontrivial(bool(case["script"]))


# ---------------------------------------------------------------- tunnels

def tunnel_case():
    op = st.tuples(st.integers(0, 1), st.integers(0, 1), st.one_of(st.just("r"), st.lists(gen.msg(0), min_size=1, max_size=4)), st.booleans(), st.booleans()).map(list)
    return st.fixed_dictionaries(dict(kind=st.sampled_from(["Tunnel", "TunnelMP"]), mutable=st.booleans(), ops=st.lists(op, min_size=1, max_size=20)))


def tunnel_body(case, rec):
    cls = {"Tunnel": Tunnel, "TunnelMP": TunnelMP}[case["kind"]]
    ts = [cls(), cls()]
    q = {(i, e): [] for i in range(2) for e in range(2)}     # what end e of tunnel i has still to read
    n = 0

    def end(i, e):
        return ts[i].channel1 if e == 0 else ts[i].channel2

    def take(i, e, sync):
        ch = end(i, e)
        same_bytes(ch.read_sync() if sync else chan.run(ch.read()), q[i, e].pop(0), "%s: message at end %d of tunnel %d" % (case["kind"], e + 1, i))
    for i, e, what, sync, last in case["ops"]:
        if what == "r":
            if q[i, e]:
                take(i, e, sync)
            continue
        msgs = [gen.mk(m) for m in what]
        while case["kind"] == "TunnelMP" and sum(map(len, q[i, 1 - e])) + sum(map(len, msgs)) > 30000:
            if not q[i, 1 - e]:
                msgs = msgs[:1]
                break
            take(i, 1 - e, sync)
        ch = end(i, e)
        kw = dict(is_last=True) if last else {}
        bufs = [bytearray(m) for m in msgs] if case["mutable"] else msgs
        if sync:
            ch.write_sync(*bufs, **kw)
        else:
            chan.run(ch.write(*bufs, **kw))
        q[i, 1 - e] += msgs
        reuse(bufs)
        n += len(msgs)
    for (i, e), rest in q.items():
        while rest:
            take(i, e, (i + e) % 2 == 0)
    rec.label(case["kind"])
    rec.nontrivial(n >= 3)


def large_cases(tier):
    return [dict(kind=k, sizes=s, sync=sync) for k in ("Tunnel", "TunnelMP") for sync in (False, True)
            for s in ([65535, 65536, 65537], [200000, 1, 0, 70000], [1 << 20, (1 << 20) + 1], [3000000])] + [
                dict(kind="Tunnel", sizes=["many", n], sync=sync) for n in (1000, 5000, 70000) for sync in (False, True)]


def large_body(case, rec):
    """Messages larger than what a pipe holds: one thread writes, the other reads."""
    t = {"Tunnel": Tunnel, "TunnelMP": TunnelMP}[case["kind"]]()
    many = case["sizes"][0] == "many"
    msgs = [i.to_bytes(3, "big") for i in range(case["sizes"][1])] if many else [gen.mk([n, i]) for i, n in enumerate(case["sizes"])]
    step = 100 if many else 2
    res = []

    def write(ch):
        try:
            asyncio.set_event_loop(asyncio.new_event_loop())
            ch.loop = asyncio.get_event_loop()
            for k in range(0, len(msgs), step):
                if case["sync"]:
                    ch.write_sync(*msgs[k:k + step])
                else:
                    ch.loop.run_until_complete(ch.write(*msgs[k:k + step]))
            res.append("done")
        except BaseException as e:
            res.append(e)
        finally:
            asyncio.get_event_loop().close()
    for a, b in ((t.channel1, t.channel2), (t.channel2, t.channel1)):
        th = threading.Thread(target=write, args=(a,), daemon=True)
        th.start()
        if case["kind"] == "Tunnel":
            th.join(30)
        b.loop = asyncio.get_event_loop()
        for i, m in enumerate(msgs):
            same_bytes(b.read_sync() if case["sync"] else chan.run(b.read()), m, "%s: message %d of %d bytes" % (case["kind"], i, len(m)))
        th.join(30)
        check(res and res[-1] == "done", "{}: writing failed: {}", case["kind"], short(res[-1:]))
    rec.nontrivial()


def tsession_case():
    return st.fixed_dictionaries(dict(c=gen.party(), s=gen.party(), buf=st.tuples(st.booleans(), st.booleans()).map(list), mitm=st.booleans(),
                                      script=st.lists(st.tuples(st.booleans(), st.lists(gen.msg(0), min_size=1, max_size=3)).map(list), min_size=1, max_size=5)))


def tsession_body(case, rec):
    """Blocking sessions in two threads at the two ends of a tunnel."""
    t = TunnelMP()
    ck, sk = gen.keys(case["c"]), gen.keys(case["s"])
    script = [(up, [gen.mk(m) for m in ms]) for up, ms in case["script"]]
    if case["buf"][0] and not script[0][0]:
        script.insert(0, (True, [b"first"]))
    res = {}

    def side(name, client):
        try:
            asyncio.set_event_loop(asyncio.new_event_loop())
            ch = t.channel1 if client else t.channel2
            ch.loop = asyncio.get_event_loop()
            if case["mitm"]:
                ch = MitmChannel(ch, loop=ch.loop)
            s = gen.client(ck, ch, case["buf"][0]) if client else gen.server(sk, ch, case["buf"][1])
            s.handshake_sync()
            got = []
            for up, msgs in script:
                if up == client:
                    s.app_channel.write_sync(*msgs)
                else:
                    got += [bytes(s.app_channel.read_sync()) for _ in msgs]
            res[name] = got
        except BaseException as e:
            res[name] = e
        finally:
            asyncio.get_event_loop().close()
    th = [threading.Thread(target=side, args=a, daemon=True) for a in (("c", True), ("s", False))]
    for x in th:
        x.start()
    for x in th:
        x.join(30)
        if isinstance(res.get("c"), BaseException) or isinstance(res.get("s"), BaseException):
            break
    for name, client in (("c", True), ("s", False)):
        r = res.get(name)
        if isinstance(r, BaseException):
            fail("session at end {} of the tunnel failed: {}", 1 if client else 2, exc_text(r))
    for name, client in (("c", True), ("s", False)):
        r = res.get(name)
        check(r is not None, "session at end {} of the tunnel did not end", name)
        want = [m for up, msgs in script for m in msgs if up != client]
        check(r == want, "session at end {} of the tunnel got {}", name, short(r))
    rec.nontrivial()


CHECKS = [
    Sub("mitm", mitm_case, mitm_body, quick=18000, thorough=200000),
    Sub("long_logs", None, mitm_body, quick=1, cases=long_cases),
    Sub("volume", None, mitm_body, quick=1, cases=volume_cases),
    Sub("tunnel_large", None, large_body, quick=1, cases=large_cases),
    Sub("overlap", overlap_case, overlap_body, quick=6000, thorough=80000),
    Sub("mitm_session", session_case, session_body, quick=4500, thorough=60000),
    Sub("tunnel", tunnel_case, tunnel_body, quick=12000, thorough=120000),
    Sub("tunnel_session", tsession_case, tsession_body, quick=900, thorough=8000),
]
