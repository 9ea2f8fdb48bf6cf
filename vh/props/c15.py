import asyncio
import struct

from hypothesis import strategies as st

from saltchannel.a1a2.a1_client_session import A1ClientSession
from saltchannel.channel import SocketChannel
from saltchannel.exceptions import ComException
from vh import chan, gen, ref, stream
from vh.core import Sub, check, exc_text, fail, same_bytes, short

LEVEL = "fault_enumeration"
RULE = ("The byte stream below a socket or asyncio channel ends (EOF, clean close) or fails (reset, time-out, OSError, broken pipe) at "
        "every byte position, for plain message streams, for the peer's half of a handshake followed by application packets (client, "
        "server, A1 client), and for the bytes being written; length prefixes are made negative or larger than what follows. Sockets also time out at generated "
        "positions and go on, and the read is repeated. Reference peers compute the streams. Non-trivial: the fault hits inside a message, a length prefix or the handshake.")

READ_ENDS = {"socket": ["eof", "reset", "timeout", "os"], "asyncio": ["eof", "closed", "reset", "timeout", "os"]}
WRITE_ENDS = {"socket": ["pipe", "reset", "timeout", "os"], "asyncio": ["closed", "reset", "timeout", "pipe"]}


def positions(msgs, cut):
    """Number of complete messages in the first `cut` bytes."""
    n = o = 0
    for m in msgs:
        o += 4 + len(m)
        if o > cut:
            break
        n += 1
    return n


def com(f, what):
    """Runs f, which must fail with ComException."""
    try:
        r = f()
    except ComException:
        return
    except Exception as e:
        fail("{}: {} instead of ComException", what, exc_text(e))
    fail("{}: {} instead of ComException", what, "returned " + short(r))


class Wire:
    """A channel of the wanted kind over an input stream with a fault, and/or an output that fails."""

    def __init__(self, kind, data=b"", cuts=(), end="eof", limit=None, werr="pipe"):
        self.kind = kind
        if kind == "socket":
            self.sock = chan.FakeSocket(data, cuts, end, send_limit=limit, send_error=werr)
            self.ch = SocketChannel(self.sock)
        else:
            self.fake = stream.Fake(fail_at=limit, error=werr)
            self.ch = self.fake.channel
            self.data, self.cuts, self.end = data, cuts, end
            self.fed = False

    @property
    def out(self):
        return bytes(self.sock.out if self.kind == "socket" else self.fake.transport.out)

    def run(self, coro):
        if self.kind == "asyncio" and not self.fed:
            self.fed = True
            self.task = asyncio.get_event_loop().create_task(self.fake.feed(self.data, self.cuts, self.end))
        return chan.run(coro)

    def stop(self):
        if self.kind == "asyncio" and self.fed and not self.task.done():
            self.task.cancel()
            chan.run(asyncio.sleep(0))


def stopping(body):
    def go(case, rec):
        made = []
        try:
            body(case, rec, lambda *a, **kw: made.append(Wire(*a, **kw)) or made[-1])
        finally:
            for w in made:
                w.stop()
    return go


# ---------------------------------------------------------------- plain reads

def read_case():
    return st.fixed_dictionaries(dict(
        kind=st.sampled_from(["socket", "asyncio"]), msgs=st.lists(gen.msg(1), max_size=4), cut=st.integers(0, 10**6),
        near=st.sampled_from([None, -1, 0, 1, 2, 3, 4, 5]), at=st.integers(0, 4), end=st.integers(0, 4),
        cuts=st.lists(st.sampled_from([1, 2, 3, 4, 5, 100, 5000]), max_size=4), sync=st.booleans(),
        prefix=st.one_of(st.none(), st.none(), st.integers(-2**31, -1), st.sampled_from([-1, -2, -4, -2**31, 1, 5, 65536, 2**24]))))


@stopping
def read_body(case, rec, wire):
    msgs = [gen.mk(m) for m in case["msgs"]]
    data = stream.frame(msgs)
    bad_prefix = False
    if case["prefix"] is not None:
        data += struct.pack("<i", case["prefix"])
        bad_prefix = case["prefix"] < 0
        if bad_prefix:
            data += b"some bytes after an impossible length"
        cut = len(data)
    elif case["near"] is not None:
        o = [0]
        for m in msgs:
            o.append(o[-1] + 4 + len(m))
        cut = min(len(data), max(0, o[case["at"] % len(o)] + case["near"]))
    else:
        cut = case["cut"] % (len(data) + 1)
    n = positions(msgs, cut)
    ends = READ_ENDS[case["kind"]]
    end = ends[case["end"] % len(ends)]
    cuts = case["cuts"]
    if cuts and cut > 20000 and max(cuts) < 100:
        cuts = [1000]
    w = wire(case["kind"], data[:cut], cuts, end)
    sync = case["sync"] and case["kind"] == "socket"
    tail = [None]

    def read():
        return w.ch.read_sync() if sync else w.run(w.ch.read())
    lost = case["kind"] == "asyncio" and end not in ("eof", "closed")
    early = 0
    for i in range(n):
        try:
            r = read()
        except ComException as e:
            # asyncio reports a connection error ahead of data it has buffered; that is not a wrong delivery, and
            # the messages read before the error arrived were delivered
            if lost:
                early = n - i
                break
            fail("message {} of {} was completely received but the read failed: {}", i, n, exc_text(e))
        except Exception as e:
            fail("message {} of {}: {}", i, n, exc_text(e))
        same_bytes(r, msgs[i], "message %d" % i)
    com(read, "%s channel, %s after %d bytes of %d" % (case["kind"], end, cut, len(data)))
    if not bad_prefix:
        com(read, "%s channel, second read after %s" % (case["kind"], end))
    rec.label(case["kind"] + " " + end, *(["impossible length"] if bad_prefix else []), *(["error before buffered data"] if early else []))
    rec.nontrivial(bad_prefix or cut > positions_bytes(msgs, n))


def read_late(tier):
    """The stream ends after many messages."""
    out = []
    for kind in ("socket", "asyncio"):
        for end in range(len(READ_ENDS[kind])):
            for n in (70, 130, 260, 520, 1030):
                for near in (0, 1, 3, 4, 5):
                    for sync in (False, True):
                        out.append(dict(kind=kind, msgs=[[i % 6 + 2, 1] for i in range(n)] + [[9, 2]], cut=0, near=near, at=n, end=end, cuts=[], sync=sync, prefix=None))
                out.append(dict(kind=kind, msgs=[[i % 6, 1] for i in range(n)], cut=0, near=None, at=0, end=0, cuts=[], sync=bool(end & 1), prefix=-1 - end))
    return out


def positions_bytes(msgs, n):
    return sum(4 + len(m) for m in msgs[:n])


def read_enum(tier):
    out = []
    for kind in ("socket", "asyncio"):
        for end in range(len(READ_ENDS[kind])):
            for cut in range(0, 4 + 3 + 4 + 4 + 20 + 1):
                for sync in (False, True):
                    out.append(dict(kind=kind, msgs=[[3, 1], [0, 1], [20, 2]], cut=cut, near=None, at=0, end=end, cuts=[], sync=sync, prefix=None))
                    out.append(dict(kind=kind, msgs=[[3, 1], [0, 1], [20, 2]], cut=cut, near=None, at=0, end=end, cuts=[1], sync=sync, prefix=None))
        for p in [-1, -2, -3, -4, -2**31, -2**31 + 1] + [-(1 << i) for i in range(31)]:
            for sync in (False, True):
                out.append(dict(kind=kind, msgs=[[3, 1]], cut=0, near=None, at=0, end=0, cuts=[], sync=sync, prefix=p))
    for kind in ("socket", "asyncio"):
        for p in (2**31 - 1, 2**30, 2**30 + 1, 2**29, 2**28 + 1, 2**26):
            for end in range(len(READ_ENDS[kind])):
                out.append(dict(kind=kind, msgs=[[2, 1]], cut=0, near=None, at=0, end=end, cuts=[], sync=True, prefix=p))
    return out


# ---------------------------------------------------------------- faults inside handshakes and encrypted traffic

def peer_stream(role, k, napp, before=0):
    """(keys of the code under test, messages the peer sends, messages in them)"""
    ck, sk = gen.keys([k, k + 1000]), gen.keys([k + 2000, k + 3000])
    app = [b"first message", b"", b"third"][:napp]
    if role == "client":
        srv = ref.Server(sk)
        out = srv.feed(ref.m1(ck.enc_pub))
        link = srv.link
        packets = list(out)
    elif role == "server":
        c = ref.Client(ck)
        packets = c.start()
        m2 = ref.m2(sk.enc_pub)
        c.feed(m2)
        link = c.link
        m4 = ref.m34(4, ck.sig_pub, ref.sign(ck.sig_sec, ref.SIG2 + c.transcript))
        packets.append(link.send(m4))
    else:
        return (ck, sk), [ref.a2(ref.DEFAULT_PROTS)], []
    packets += [link.send(ref.app(b"%d" % i)) for i in range(before)]
    for i, m in enumerate(app):
        packets.append(link.send(ref.app(m)) if i != 1 else link.send(ref.multi([m, b"with it"])))
    if napp > 1:
        app.insert(2, b"with it")
    app[:0] = [b"%d" % i for i in range(before)]
    return (ck, sk), packets, app


def session_case():
    return st.fixed_dictionaries(dict(
        role=st.sampled_from(["client", "server", "a1"]), kind=st.sampled_from(["socket", "asyncio"]), k=st.integers(0, 30),
        napp=st.integers(0, 3), cut=st.integers(0, 10**4), end=st.integers(0, 4),
        cuts=st.lists(st.sampled_from([1, 2, 3, 4, 5, 100]), max_size=3), sync=st.booleans()))


@stopping
def session_body(case, rec, wire):
    role, kind = case["role"], case["kind"]
    (ck, sk), packets, app = peer_stream(role, case["k"], case["napp"], case.get("before", 0))
    data = stream.frame(packets)
    cut = len(data) - case["back"] if "back" in case else case["cut"] % (len(data) + 1)
    n = positions(packets, cut)
    ends = READ_ENDS[kind]
    end = ends[case["end"] % len(ends)]
    w = wire(kind, data[:cut], case["cuts"], end)
    sync = case["sync"] and kind == "socket"
    soft = kind == "asyncio" and end not in ("eof",)      # the error may overtake buffered data, also in a write
    what = "%s on %s channel, %s after %d bytes (%d complete messages)" % (role, kind, end, cut, n)
    if role == "a1":
        s = A1ClientSession(w.ch)
        act = lambda: s.do_a1a2_sync() if sync else w.run(s.do_a1a2())
        need = 1
    else:
        s = gen.client(ck, w.ch) if role == "client" else gen.server(sk, w.ch)
        act = lambda: s.handshake_sync() if sync else w.run(s.handshake())
        need = 2
    rec.label(role + " " + kind + " " + end)
    rec.nontrivial(cut not in (0, len(data)))
    if n < need:
        com(act, what)
        if role == "a1":
            check(s.a2 is None, "an A2 is reported although it was not received")
        rec.label("in handshake")
        return
    try:
        act()
    except ComException as e:
        if soft:
            rec.label("error before buffered data")
            return
        fail("{}: handshake failed with {}", what, exc_text(e))
    except Exception as e:
        fail("{}: {}", what, exc_text(e))
    if role == "a1":
        check(s.a2 is not None, "no A2")
        return
    complete = n - 2
    b = case.get("before", 0)
    msgs = app[:complete if complete <= b else b + {1: 1, 2: 3, 3: 4}[complete - b]]
    rec.label("in application reads")

    def read():
        return s.app_channel.read_sync() if sync else w.run(s.app_channel.read())
    for i, m in enumerate(msgs):
        try:
            r = read()
        except ComException as e:
            if soft:
                return
            fail("{}: read {} failed with {}", what, i, exc_text(e))
        except Exception as e:
            fail("{}: {}", what, exc_text(e))
        same_bytes(r, m, "message %d" % i)
    com(read, what + ", application read")
    com(lambda: w.run(s.enc_channel.read()), what + ", encrypted read")


def session_enum(tier):
    out = []
    for role in ("client", "server", "a1"):
        total = len(stream.frame(peer_stream(role, 3, 2)[1]))
        for kind in ("socket", "asyncio"):
            for cut in range(total + 1):
                for end in range(len(READ_ENDS[kind])) if tier == "thorough" else (cut % len(READ_ENDS[kind]), 0):
                    out.append(dict(role=role, kind=kind, k=3, napp=2, cut=cut, end=end, cuts=[], sync=bool(cut & 1)))
    return out


def session_late(tier):
    """The stream ends after many application packets."""
    out = []
    for role in ("client", "server"):
        for kind in ("socket", "asyncio"):
            for before in (60, 130, 270, 520):
                for back in (0, 1, 5, 27, 30, 31, 60, 90, 200):
                    for end in range(len(READ_ENDS[kind])):
                        out.append(dict(role=role, kind=kind, k=3, napp=2, cut=0, back=back, before=before, end=end, cuts=[], sync=bool(back & 1)))
    return out


# ---------------------------------------------------------------- faults while writing

def write_case():
    return st.fixed_dictionaries(dict(
        role=st.sampled_from(["plain", "plain", "client", "server", "a1", "a1server"]), kind=st.sampled_from(["socket", "asyncio"]),
        k=st.integers(0, 30), groups=st.lists(st.lists(gen.msg(0), min_size=1, max_size=3), min_size=1, max_size=3),
        limit=st.integers(0, 2000), err=st.integers(0, 3), sync=st.booleans(), buf=st.booleans()))


@stopping
def write_body(case, rec, wire):
    role, kind = case["role"], case["kind"]
    errs = WRITE_ENDS[kind]
    err = errs[case["err"] % len(errs)]
    groups = [[gen.mk(m) for m in g] for g in case["groups"]]
    (ck, sk), packets, _ = peer_stream(role if role in ("client", "server", "a1") else "a1", case["k"], 0)
    if role == "a1server":
        packets = [ref.a1(0, b"")]
    data = b"" if role == "plain" else stream.frame(packets)
    w = wire(kind, data, [], None if kind == "asyncio" else "eof", limit=case["limit"], werr=err)
    sync = case["sync"] and kind == "socket"
    if role == "plain":
        steps = [(w.ch, "write", g) for g in groups]
    elif role == "a1":
        steps = [(A1ClientSession(w.ch), "do_a1a2", [])]
    else:
        s = gen.client(ck, w.ch, case["buf"]) if role == "client" else gen.server(sk, w.ch, case["buf"])
        steps = [(s, "handshake", [])] + ([] if role == "a1server" else [("app", "write", g) for g in groups])
    failed = False
    for obj, name, args in steps:
        if obj == "app":
            obj = s.app_channel
        before = len(w.out)
        try:
            if sync:
                getattr(obj, name + "_sync")(*args)
            else:
                w.run(getattr(obj, name)(*args))
            ok = True
        except ComException:
            ok = False
        except Exception as e:
            fail("{} on {} channel, output failing ({}) after {} bytes: {} instead of ComException", name, kind, err, case["limit"], exc_text(e))
        hit = len(w.out) >= case["limit"] and not ok
        if not ok:
            check(hit or failed, "{} failed after {} bytes although the output works up to {}", name, len(w.out), case["limit"])
            failed = True
            rec.label(role + " " + kind + " " + err, "failed")
            rec.nontrivial(before < case["limit"])
            if name != "write":
                return
        else:
            check(not failed, "{} succeeded on a connection that failed before", name)
            check(len(w.out) > before or (name == "handshake" and role == "client" and case["buf"]), "{} succeeded but sent nothing", name)
    if not failed:
        rec.label("no failure")
        if role == "plain":
            same_bytes(w.out, stream.frame([m for g in groups for m in g]), "bytes sent")
        # whatever was promised has gone out whole
        o = 0
        while o < len(w.out):
            n = struct.unpack("<i", w.out[o:o + 4])[0]
            o += 4 + n
        check(o == len(w.out), "an incomplete message was sent without an error")


def write_enum(tier):
    out = []
    for role in ("plain", "client", "server", "a1", "a1server"):
        top = {"plain": 40, "client": 280, "server": 300, "a1": 12, "a1server": 30}[role]
        for kind in ("socket", "asyncio"):
            for lim in range(top):
                for buf in (False, True) if role in ("client", "server") else (False,):
                    out.append(dict(role=role, kind=kind, k=3, groups=[[[5, 1], [0, 1]], [[20, 2]]], limit=lim, err=lim % 4, sync=bool(lim & 1), buf=buf))
    return out


def write_late(tier):
    """The output fails after many writes."""
    out = []
    for role, per, head in (("plain", 9, 0), ("client", 9 + 24, 42 + 4 + 4 + 120), ("server", 9 + 24, 38 + 4 + 4 + 120)):
        for kind in ("socket", "asyncio"):
            for n in (60, 130, 270, 520):
                for extra in (0, 1, 4, 7):
                    for err in range(4):
                        out.append(dict(role=role, kind=kind, k=3, groups=[[[5, 1 + i % 7]] for i in range(n + 12)], limit=head + per * n + extra, err=err, sync=bool(extra & 1), buf=False))
    return out


# ---------------------------------------------------------------- time-outs after which the connection goes on

def timeout_case():
    return st.fixed_dictionaries(dict(
        role=st.sampled_from(["plain", "plain", "client", "server"]), msgs=st.lists(gen.msg(1), min_size=1, max_size=4),
        at=st.lists(st.one_of(st.tuples(st.integers(0, 4), st.integers(0, 6)).map(list), st.integers(0, 10**6)), min_size=1, max_size=5),
        cuts=st.lists(st.sampled_from([1, 2, 3, 4, 5, 100, 5000]), max_size=4), sync=st.booleans(), real=st.booleans()))


def timeout_body(case, rec):
    """A blocking socket times out at generated positions; the read is repeated and gets the whole message."""
    msgs = [gen.mk(m) for m in case["msgs"]]
    if case["role"] == "plain":
        packets, skip = msgs, 0
    else:
        k = 4
        (ck, sk), packets, msgs = peer_stream(case["role"], k, 3)
        skip = 2
    data = stream.frame(packets)
    start = len(stream.frame(packets[:skip]))
    bounds = [start]
    for m in packets[skip:]:
        bounds.append(bounds[-1] + 4 + len(m))
    at = sorted({min(len(data), bounds[a[0] % len(bounds)] + a[1]) if isinstance(a, list) else start + a % (len(data) - start + 1) for a in case["at"]})
    cuts = case["cuts"]
    if cuts and len(data) > 20000 and max(cuts) < 100:
        cuts = [1000]
    pair = None
    if case["real"]:
        a, b = pair = stream.pair(1 << 20)
        a.setblocking(False)
        b.setblocking(False)
        sock, todo = a, [0] + at + [len(data)]
        if len(data) > 100000:
            rec.label("too long for a real socket")
            a.close(), b.close()
            return
    else:
        sock = chan.FakeSocket(data, cuts, "timeout", hiccups=at)
    try:
        ch = SocketChannel(sock)
        part = [0]

        def arrive():
            """The next part of the stream arrives on the real socket."""
            if pair and part[0] < len(todo) - 1:
                i = part[0]
                part[0] += 1
                pair[1].sendall(data[todo[i]:todo[i + 1]])
        if pair:
            arrive()
        if skip:
            s = gen.client(ck, ch) if case["role"] == "client" else gen.server(sk, ch)
            s.handshake_sync() if case["sync"] else chan.run(s.handshake())
            ch = s.app_channel
        got, errors = [], 0
        while len(got) < len(msgs):
            try:
                r = ch.read_sync() if case["sync"] else chan.run(ch.read())
            except ComException:
                errors += 1
                check(errors <= len(at) + 1, "message {} cannot be read although all its bytes arrived", len(got))
                arrive()
                continue
            except Exception as e:
                fail("{} instead of ComException or a message", exc_text(e))
            same_bytes(r, msgs[len(got)], "message %d after %d time-outs" % (len(got), errors))
            got.append(r)
        com(lambda: ch.read_sync() if case["sync"] else chan.run(ch.read()), "read with nothing left")
    finally:
        if pair:
            pair[0].close()
            pair[1].close()
    rec.label(case["role"], "real socket" if pair else "fake socket", "%d time-outs" % min(errors, 3))
    rec.nontrivial(errors > 0)


def timeout_enum(tier):
    out = []
    for role in ("plain", "client", "server"):
        n = 45 if role == "plain" else 150
        for i in range(n):
            for real in (False, True):
                out.append(dict(role=role, msgs=[[3, 1], [0, 1], [20, 2]], at=[i], cuts=[], sync=bool(i & 1), real=real))
    return out


CHECKS = [
    Sub("read_late", None, read_body, quick=1, cases=read_late, cpu=300),
    Sub("write_late", None, write_body, quick=1, cases=write_late, cpu=300),
    Sub("session_late", None, session_body, quick=1, cases=session_late, cpu=300),
    Sub("timeout_every_position", None, timeout_body, quick=1, cases=timeout_enum),
    Sub("timeouts", timeout_case, timeout_body, quick=9000, thorough=120000),
    Sub("read_every_position", None, read_body, quick=1, cases=read_enum),
    Sub("session_every_position", None, session_body, quick=1, cases=session_enum),
    Sub("write_every_position", None, write_body, quick=1, cases=write_enum),
    Sub("read", read_case, read_body, quick=15000, thorough=250000),
    Sub("session", session_case, session_body, quick=9000, thorough=150000),
    Sub("write", write_case, write_body, quick=12000, thorough=200000),
]
