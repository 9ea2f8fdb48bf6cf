import asyncio
import contextlib
import io
import logging
import os
import re
import struct
import subprocess
import sys

from hypothesis import strategies as st

from saltchannel.dev.client_server_a import SaltChannelStreamReader, SaltChannelStreamReaderProtocol, SaltChannelStreamWriter
from saltchannel.dev.mitm_channel import MitmChannel
from saltchannel.exceptions import ComException
from saltchannel.util.crypto_test_data import CryptoTestData
from vh import chan, env, gen, ref, stream
from vh.core import Sub, check, exc_text, fail, short
from vh.props.c23 import the_port

RULE = ("The sessions in saltchannel/dev (echo, examples 1-3; blocking and asyncio; server and client side) run with generated keys against "
        "a reference peer that sends generated messages, packs them in any legal way, answers with generated echoes (right and wrong), "
        "holds several sessions on one connection and may go away after any packet; on asyncio the bytes arrive in generated fragments. "
        "The programs are run with generated numbers of clients. Non-trivial: at least one application message, or address query, was answered.")
ASSUMPTIONS = ["the peer conforms to Salt Channel v2", "wording of log output is not part of the property, the labels of the printed figures are"]

_root = logging.getLogger()
_kept = _root.handlers[:], _root.level
from saltchannel.dev import (example_session1, example_session1_a, example_session2, example_session2_a, example_session3,   # noqa
                             example_session3_a, simple_echo_session, simple_echo_session_a)
_root.handlers[:] = _kept[0]
_root.setLevel(_kept[1])

KINDS = {
    "echo": (simple_echo_session.SimpleEchoSession, simple_echo_session_a.SimpleEchoSessionA),
    "ex1": (example_session1.ExampleSession, example_session1_a.ExampleSessionA),
    "ex2": (example_session2.ExampleSession, example_session2_a.ExampleSessionA),
    "ex3": (example_session3.ExampleSession, example_session3_a.ExampleSessionA),
}


# ---------------------------------------------------------------- two ways to run one side against a reacting peer

class Peer:
    """start() and on(raw) give what the peer sends; `budget` packets after which it goes away (None: never)."""

    def __init__(self, budget):
        self.budget = budget
        self.gone = False
        self.over = False           # nothing more to come: the peer closes

    def give(self, out):
        res = []
        for raw in out:
            if self.budget is not None and self.budget <= 0:
                self.gone = True
                break
            if self.budget is not None:
                self.budget -= 1
            res.append(raw)
        return res


class Wire(stream.Transport):
    """Takes frames, lets the peer react, brings the reaction back in fragments."""

    def __init__(self, peer, cuts, at_once=False):
        super().__init__()
        self.at_once = at_once          # the end of the stream comes together with the last bytes
        self.peer, self.cuts, self.ci = peer, list(cuts) or [1 << 30], 0
        self.buf, self.groups, self.inbound, self.busy, self.ended = b"", [], b"", False, False
        self.got = []

    def write(self, data):
        if self.closed:
            return
        self.buf += bytes(data)
        while len(self.buf) >= 4:
            n = struct.unpack("<i", self.buf[:4])[0]
            if len(self.buf) < 4 + n:
                break
            m, self.buf = self.buf[4:4 + n], self.buf[4 + n:]
            self.got.append(m)
            self.push(self.peer.give(self.peer.on(m)))

    def push(self, msgs):
        self.inbound += stream.frame(msgs)
        if not self.busy:
            self.busy = True
            asyncio.get_event_loop().call_soon(self._step)

    def _step(self):
        loop = asyncio.get_event_loop()
        if self.paused_reading:
            loop.call_soon(self._step)
        elif self.inbound:
            n = max(1, self.cuts[self.ci % len(self.cuts)])
            self.ci += 1
            if len(self.inbound) > 4000:
                n = max(n, 700)
            d, self.inbound = self.inbound[:n], self.inbound[n:]
            self.protocol.data_received(d)
            if not self.inbound and self.at_once:
                self.busy = False
                self._end(lambda f: f())
            else:
                loop.call_soon(self._step)
        else:
            self.busy = False
            self._end(loop.call_soon)

    def _end(self, when):
        if (self.peer.gone or self.peer.over) and not self.ended:
            self.ended = True
            when(self.protocol.eof_received)

    def close(self):
        self.closed = True


async def run_a(session, side, peer, cuts, at_once):
    loop = asyncio.get_event_loop()
    reader = SaltChannelStreamReader(limit=2 ** 16, loop=loop)
    protocol = SaltChannelStreamReaderProtocol(reader, loop=loop)
    t = Wire(peer, cuts, at_once)
    t.protocol = protocol
    protocol.connection_made(t)
    writer = SaltChannelStreamWriter(t, protocol, reader, loop)
    t.push(peer.give(peer.start()))
    await getattr(session, side + "_session")(reader, writer)


def run_sync(session, side, peer):
    def on_write(msgs, last):
        out = []
        for m in msgs:
            out += peer.give(peer.on(m))
        return out
    ch = chan.PeerChannel(on_write)
    ch.inbox.extend(peer.give(peer.start()))
    getattr(session, side + "_session")(MitmChannel(ch) if side == "client" else ch)
    return ch


def execute(case, session, side, peer, rec):
    """(exception or None, printed text)"""
    out = io.StringIO()
    err = None
    logging.disable(logging.CRITICAL)
    try:
        with contextlib.redirect_stdout(out):
            if case["a"]:
                chan.run(asyncio.wait_for(run_a(session, side, peer, case["cuts"], case.get("eof", False)), 30))
            else:
                run_sync(session, side, peer)
    except ref.ProtocolError as e:
        fail("{} {}: the reference peer refuses: {}", case["kind"], side, e)
    except (ComException, asyncio.IncompleteReadError, AssertionError) as e:
        err = e
    except asyncio.TimeoutError:
        fail("{} {}: does not come to an end", case["kind"], side)
    except Exception as e:
        if type(e).__name__ == "Violation":
            raise
        fail("{} {} failed with {}", case["kind"], side, exc_text(e))
    finally:
        logging.disable(logging.NOTSET)
    return err, out.getvalue()


def make(case, sk, ck):
    s = KINDS[case["kind"]][1 if case["a"] else 0]()
    if case["kind"] in ("ex1", "ex3"):
        s.server_sig_keypair, s.server_enc_keypair = gen.sig_pair(sk), gen.enc_pair(sk)
        s.client_sig_keypair, s.client_enc_keypair = gen.sig_pair(ck), gen.enc_pair(ck)
    if case["kind"] == "ex2":
        s.server_sig_keypair = gen.sig_pair(sk)
    return s


# ---------------------------------------------------------------- servers

class EchoUser(Peer):
    def __init__(self, budget, msgs, bye):
        super().__init__(budget)
        self.msgs, self.bye, self.sent, self.echoed = msgs, bye, 0, []

    def next(self):
        if self.sent < len(self.msgs):
            self.sent += 1
            return [self.msgs[self.sent - 1]]
        self.over = not self.bye
        return [b""] if self.bye and self.sent == len(self.msgs) else []

    start = next

    def on(self, m):
        self.echoed.append(m)
        return self.next()


class AllAtOnce(EchoUser):
    def start(self):
        self.sent = len(self.msgs)
        self.over = not self.bye
        return self.msgs + ([b""] if self.bye else [])

    def on(self, m):
        self.echoed.append(m)
        return []


class Visitor(Peer):
    """Client of example servers 1 and 3: sessions one after the other on one connection."""

    def __init__(self, budget, plan, ex3):
        super().__init__(budget)
        self.plan, self.ex3, self.i, self.done, self.c = plan, ex3, -1, [], None

    def start(self):
        return self.next()

    def next(self):
        self.i += 1
        if self.i >= len(self.plan):
            self.over = True
            return []
        p = self.plan[self.i]
        self.c = ref.Client(gen.keys(p["k"]), p["t"])
        self.step = 0
        return self.c.start()

    def on(self, raw):
        if self.c is None:
            raise ref.ProtocolError("unexpected packet")
        p, c = self.plan[self.i], self.c
        out = c.feed(raw)
        if c.state != "app":
            return out
        want = [p["m"]] if not self.ex3 else [p["m"], p["m2"], p["m3"]]
        if self.step == 0:
            self.step = 1
            self.asked = [p["m"]]
            return out + self.say([p["m"]], p["pack"], p["last"] and not self.ex3)
        if c.app_in != want[:len(c.app_in)]:
            fail("server returned {} for {}", [short(x) for x in c.app_in], [short(x) for x in want])
        if self.ex3 and self.step == 1:
            self.step = 2
            return out + self.say([p["m2"], p["m3"]], p["pack"], p["last"])
        if len(c.app_in) == len(want):
            self.done.append(c)
            return out + self.next()
        return out

    def say(self, msgs, pack, last):
        if pack and all(len(m) <= 65535 for m in msgs):
            return [self.c.link.send(ref.multi(msgs, 3), last)]
        return [self.c.link.send(ref.app(m, 3), last and i == len(msgs) - 1) for i, m in enumerate(msgs)]


class Asker(Peer):
    def __init__(self, budget, raw):
        super().__init__(budget)
        self.raw, self.answers = raw, []

    def start(self):
        return [self.raw]

    def on(self, m):
        self.answers.append(m)
        return []


def server_case():
    one = st.fixed_dictionaries(dict(k=gen.party(), t=st.tuples(st.integers(0, 1), gen.U32).map(list), m=gen.msg(1), m2=gen.msg(1), m3=gen.msg(1),
                                     pack=st.booleans(), last=st.booleans()))
    return st.fixed_dictionaries(dict(
        kind=st.sampled_from(["echo", "ex1", "ex1", "ex3", "ex3", "ex2"]), a=st.booleans(), s=gen.party(), cuts=st.lists(st.integers(1, 40), max_size=5),
        plan=st.lists(one, min_size=1, max_size=4), loss=st.one_of(st.none(), st.none(), st.integers(0, 12)), bye=st.booleans(), burst=st.booleans(), eof=st.booleans(),
        addr=st.one_of(st.sampled_from(["any", "own", "other"]), st.integers(0, 255))))


def server_body(case, rec):
    sk = gen.keys(case["s"])
    s = make(case, sk, sk)
    what = case["kind"] + " server"
    loss = case["loss"]
    if case["kind"] == "echo":
        msgs = [m for m in (gen.mk(p[x]) for p in case["plan"] for x in ("m", "m2", "m3")) if m]
        peer = (AllAtOnce if case["burst"] else EchoUser)(loss, msgs, case["bye"])
        err, _ = execute(case, s, "server", peer, rec)
        n = len(msgs) if loss is None else min(loss, len(msgs))
        check(peer.echoed == msgs[:n], "{}: echoed {} for {}", what, [short(x) for x in peer.echoed], [short(x) for x in msgs[:n]])
        if loss is None and case["bye"]:
            check(err is None, "{}: ended with {} after the empty message", what, exc_text(err) if err else "")
        if not case["a"]:
            check(err is None, "{}: the end of the connection came out as {}", what, exc_text(err) if err else "")
        rec.nontrivial(n > 0)
    elif case["kind"] == "ex2":
        addr = case["addr"]
        pub = sk.sig_pub
        if addr == "any":
            raw, own = ref.a1(0, b""), True
        else:
            other = bytearray(pub)
            if isinstance(addr, int):
                other[addr % 32] ^= 1 << (addr // 32)
            else:
                other[31] ^= 1
            a = pub if addr == "own" else bytes(other)
            raw, own = ref.a1(1, a), a == pub
        peer = Asker(loss, raw)
        err, _ = execute(case, s, "server", peer, rec)
        if loss == 0:
            check(not peer.answers, "{}: an answer to no question", what)
        else:
            want = ref.a2([(b"SCv2------", b"ECHO------")]) if own else ref.a2([], True)
            check(err is None, "{}: {}", what, exc_text(err) if err else "")
            check(peer.answers == [want], "{}: answered {}, expected {}", what, [short(x) for x in peer.answers], short(want))
            rec.nontrivial()
    else:
        plan = [dict(p, m=gen.mk(p["m"]), m2=gen.mk(p["m2"]), m3=gen.mk(p["m3"])) for p in case["plan"]]
        # a connection serves sessions until one is marked last; the asyncio server serves one
        n = next((i for i, p in enumerate(plan) if p["last"]), len(plan) - 1) + 1
        plan = plan[:1] if case["a"] else plan
        n = min(n, len(plan))
        peer = Visitor(loss, plan, case["kind"] == "ex3")
        err, _ = execute(case, s, "server", peer, rec)
        if not case["a"]:
            check(err is None, "{}: the end of the connection came out as {}", what, exc_text(err) if err else "")
        if not peer.gone:
            check(err is None, "{}: {}", what, exc_text(err) if err else "")
            check(len(peer.done) == n, "{}: {} of {} sessions on this connection were served (marked last: {})", what, len(peer.done), n, [p["last"] for p in plan])
        for p, c in zip(plan, peer.done):
            check(c.peer_sig == sk.sig_pub and c.m2["enc"] == sk.enc_pub, "{}: another key", what)
            times = [ref.d_appmsg(x[0])[1] for x in c.log]
            if case["kind"] == "ex3":
                check((c.m2["time"], c.m3["time"]) == (1, 2), "{}: M2 and M3 have the times {}", what, (c.m2["time"], c.m3["time"]))
                check(times[0] == 3 and all(t == 4 for t in times[1:]), "{}: times of the application packets are {}", what, times)
                check(c.last_flags == [False] * (len(c.last_flags) - 1) + [True], "{}: last flags {}", what, c.last_flags)
                if max(len(p["m2"]), len(p["m3"])) <= 65535:
                    check(len(c.log) == 2 and c.log[1][0][0] == 11, "{}: the two messages were not returned in one multi packet", what)
            else:
                check(not any(c.last_flags), "{}: last flag set", what)
        rec.nontrivial(bool(peer.done))
        rec.label("%d sessions" % len(peer.done))
    rec.label(what, "asyncio" if case["a"] else "blocking", "cut off" if peer.gone else "whole")


def long_servers(tier):
    """Many sessions, or messages, on one connection."""
    out = []
    for n in (20, 70, 300):
        plan = [dict(k=[i, i + 5000], t=[i & 1, 7], m=[i % 50, i % 60], m2=[i % 9, 1], m3=[i % 30, 2], pack=i % 3 == 0, last=False) for i in range(n)]
        for burst in (False, True):
            for a in (False, True):
                out.append(dict(kind="echo", a=a, s=[1, 2], cuts=[9, 40], plan=plan, loss=None, bye=not burst, burst=burst, eof=a, addr="any"))
        for kind in ("ex1", "ex3"):
            out.append(dict(kind=kind, a=False, s=[1, 2], cuts=[], plan=plan[:70], loss=None, bye=False, burst=False, eof=False, addr="any"))
    return out


# ---------------------------------------------------------------- clients

class EchoHost(Peer):
    def __init__(self, budget):
        super().__init__(budget)
        self.got = []

    def start(self):
        return []

    def on(self, m):
        self.got.append(m)
        return [m] if m else []


class Host(Peer):
    """Server for example clients 1 and 3."""

    def __init__(self, budget, keys, times, replies):
        super().__init__(budget)
        self.s = ref.Server(keys, times)
        self.replies, self.handled = replies, 0
        self.rx, self.tx = [], []

    def start(self):
        return []

    def give(self, out):
        out = super().give(out)
        self.tx.extend(out)
        return out

    def on(self, raw):
        self.rx.append((raw, len(self.tx)))
        out = self.s.feed(raw)
        while self.handled < len(self.s.log):
            out = out + self.replies(self.s, self.handled)
            self.handled += 1
        return out


def figures(text):
    r = {}
    for line in text.splitlines():
        m = re.match(r"\s*([^:]+):\s*(\S+)\s*$", line)
        if m:
            r[m.group(1).strip()] = m.group(2)
    return r


# wrong echoes
HOW = [lambda m: m[:-1] + bytes([m[-1] ^ 1]), lambda m: bytes([m[0] ^ 128]) + m[1:], lambda m: m + b"\0", lambda m: m[:-1], lambda m: b"", lambda m: m + m]


def client_case():
    p = st.lists(st.sampled_from(b"ABCZabcz0189-./_"), min_size=10, max_size=10).map(bytes)
    return st.fixed_dictionaries(dict(
        kind=st.sampled_from(["echo", "ex1", "ex1", "ex3", "ex3", "ex2"]), a=st.booleans(), s=gen.party(), c=gen.party(), cuts=st.lists(st.integers(1, 40), max_size=5),
        t=st.tuples(st.integers(0, 1), gen.U32).map(list), reply=gen.msg(1), pack=st.booleans(), last=st.booleans(), wrong=st.one_of(st.none(), st.none(), st.integers(0, 2)), how=st.integers(0, 5), eof=st.booleans(),
        prots=st.lists(st.tuples(p, p).map(list), min_size=1, max_size=5), loss=st.one_of(st.none(), st.none(), st.integers(0, 8))))


def client_body(case, rec):
    sk, ck = gen.keys(case["s"]), gen.keys(case["c"])
    s = make(case, sk, ck)
    kind, what, loss = case["kind"], case["kind"] + " client", case["loss"]
    if kind == "echo":
        peer = EchoHost(loss)
        err, _ = execute(case, s, "client", peer, rec)
        full = 10
        if loss is not None and loss < full:
            check(err is not None and len(peer.got) == loss + 1, "{}: went on after the connection was lost ({} messages, {} echoes)", what, len(peer.got), loss)
        else:
            check(err is None, "{}: {}", what, exc_text(err) if err else "")
            check([len(m) for m in peer.got] == [6] * full + ([0] if case["a"] else []), "{}: sent messages of {} bytes", what, [len(m) for m in peer.got])
        rec.nontrivial(loss is None or loss > 0)
    elif kind == "ex2":
        prots = [tuple(p) for p in case["prots"]]
        peer = Asker(loss, b"")
        peer.start = lambda: []
        peer.on = lambda m: peer.answers.append(m) or [ref.a2(prots)]
        err, text = execute(case, s, "client", peer, rec)
        want = ref.a1(1, b"\x08" * 32)
        check(peer.answers == [want], "{}: asked {}, expected {}", what, [short(x) for x in peer.answers], want.hex())
        f = figures(text)
        if loss == 0:
            check(err is not None, "{}: ended without an answer", what)
            check("TOTAL BYTES" not in f, "{}: printed a result without an answer", what)
        else:
            check(err is None, "{}: {}", what, exc_text(err) if err else "")
            size = len(ref.a2(prots))
            check((f.get("client --> server total bytes"), f.get("client <-- server total bytes"), f.get("TOTAL BYTES")) == (str(len(want)), str(size), str(size + len(want))),
                  "{}: printed {} for {} and {} bytes", what, f, len(want), size)
            check(repr(prots[0][0]) in text and repr(prots[0][1]) in text, "{}: did not print {}", what, prots[0])
            rec.nontrivial()
    else:
        ex3 = kind == "ex3"
        req = [b"\x01\x05\x05\x05\x05\x05"] + ([b"\x01\x04\x04\x04\x04", b"\x03\x03\x03\x03"] if ex3 else [])
        wrong = case["wrong"]
        answers = []

        def replies(srv, i):
            clear = srv.log[i][0]
            msgs = ref.d_appmsg(clear)[2]
            if not ex3:
                msgs = [gen.mk(case["reply"]) if wrong is not None else msgs[0]]
            else:
                at = len(answers)
                msgs = [HOW[case.get("how", 0)](m) if wrong == at + j else m for j, m in enumerate(msgs)]
            answers.extend(msgs)
            if case["pack"] and all(len(m) <= 65535 for m in msgs):
                return [srv.link.send(ref.multi(msgs, 5), case["last"])]
            return [srv.link.send(ref.app(m, 5), case["last"]) for m in msgs]
        peer = Host(loss, sk, case["t"], replies)
        err, text = execute(case, s, "client", peer, rec)
        srv = peer.s
        check(srv.app_in == req[:len(srv.app_in)], "{}: sent {}", what, [short(x) for x in srv.app_in])
        f = figures(text)
        if peer.gone:
            check(err is not None, "{}: ended although the connection was lost", what)
            check("TOTAL BYTES" not in f, "{}: printed a result although the connection was lost", what)
            check(not isinstance(err, AssertionError), "{}: {}", what, exc_text(err))
        else:
            if ex3 and wrong is not None:
                check(isinstance(err, AssertionError), "{}: a wrong echo went unnoticed (answers {})", what, [a.hex() for a in answers])
            else:
                check(err is None, "{}: {}", what, exc_text(err) if err else "")
            check(srv.app_in == req, "{}: sent {}", what, [short(x) for x in srv.app_in])
            check(srv.peer_sig == ck.sig_pub and srv.m1["enc"] == ck.enc_pub, "{}: another key", what)
            check(f.get("session key") == ref.shared(ck.enc_sec, sk.enc_pub).hex(), "{}: printed session key {}", what, f.get("session key"))
            times = [ref.d_appmsg(x[0])[1] for x in srv.log]
            if ex3:
                got = dict(zip(("app_response1", "app_response2", "app_response3"), [a.hex() for a in answers]))
                check((srv.m1["time"], srv.m4["time"], times) == (1, 2, [3, 4]), "{}: times {} {} {}", what, srv.m1["time"], srv.m4["time"], times)
                check(srv.last_flags == [False, False], "{}: last flags {}", what, srv.last_flags)
            else:
                got = {"app response": answers[0].hex()}
                check(srv.last_flags == [True], "{}: last flags {}", what, srv.last_flags)
            for k, v in got.items():
                check(f.get(k, "") == v, "{}: printed {} {}, the server answered {}", what, k, f.get(k), v)
            w, r = sum(len(x[0]) for x in peer.rx), sum(map(len, peer.tx))
            hw = sum(len(x[0]) for x in peer.rx[:1]) if not case["a"] and not ex3 else sum(len(x[0]) for x in peer.rx[:2])
            hr = len(srv.m2_raw) + 2 + 16 + 102
            want = {"client --> server handshake bytes": hw, "client <-- server handshake bytes": hr, "client --> server total bytes": w,
                    "client <-- server total bytes": r, "HANDSHAKE BYTES": hw + hr, "TOTAL BYTES": w + r}
            for k, v in want.items():
                check(f.get(k) == str(v), "{}: printed {!r} {}, on the wire were {}", what, k, f.get(k), v)
            rec.nontrivial()
        if wrong is not None:
            rec.label("other answer")
    rec.label(what, "asyncio" if case["a"] else "blocking", *(["cut off"] if peer.gone else []))


# ---------------------------------------------------------------- the programs

PROGRAMS = {"example_session1": "SESSION_NUM", "example_session2": "SESSION_NUM", "example_session3": "SESSION_NUM", "run_session": None,
            "example_session1_a": "CLIENT_NUM", "example_session2_a": "CLIENT_NUM", "example_session3_a": "CLIENT_NUM", "run_session_a": "CLIENT_NUM"}


def programs(tier):
    ns = [1, 3] if tier == "quick" else [1, 2, 3, 5, 8, 20]
    return [dict(prog=p, n=n) for p, v in PROGRAMS.items() for n in (ns if v else [1])]


# several threads and processes print to one pipe at the same time: let every line come out whole
LINES = '''
import os, sys, threading
class Lines:
    encoding, errors = "utf-8", "replace"
    def __init__(self): self.b = {}
    def write(self, s):
        k = os.getpid(), threading.get_ident()
        t = self.b.pop(k, "") + s
        i = t.rfind("\\n") + 1
        if t[i:]: self.b[k] = t[i:]
        for l in t[:i].splitlines(True): os.write(1, l.encode("utf-8", "replace"))
        return len(s)
    def writelines(self, ls):
        for l in ls: self.write(l)
    def flush(self): pass
    def isatty(self): return False
    def fileno(self): return 1
sys.stdout = Lines()
'''


def program_body(case, rec):
    with the_port() if case["prog"].endswith("_a") else contextlib.nullcontext():
        program_body2(case, rec)


def program_body2(case, rec):
    var = PROGRAMS[case["prog"]]
    code = LINES + "sys.path.insert(0, %r); from saltchannel.dev import %s as m; %s; m.main()" % (
        env.REPO, case["prog"], "m.%s = %d" % (var, case["n"]) if var else "pass")
    try:
        p = subprocess.run([sys.executable, "-c", code], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60)
    except subprocess.TimeoutExpired:
        fail("{} with {} clients does not come to an end", case["prog"], case["n"])
    text = p.stdout.decode("utf-8", "replace")
    check(p.returncode == 0, "{} ended with {}: {}", case["prog"], p.returncode, text[-500:])
    check("Traceback" not in text, "{}: {}", case["prog"], text[text.find("Traceback"):][:600])
    if "example" in case["prog"]:
        check(len(re.findall(r"^\s*TOTAL BYTES:\s+\d+", text, re.M)) == case["n"], "{}: {} client sessions asked for, {} reported", case["prog"], case["n"],
              text.count("TOTAL BYTES"))
        keys = re.findall(r"session key: ([0-9a-f]+)", text)
        want = ref.shared(CryptoTestData.aEnc.sec, CryptoTestData.bEnc.pub).hex()
        check(all(k == want for k in keys) and len(keys) == (0 if "session2" in case["prog"] else case["n"]), "{}: session keys {}", case["prog"], keys)
    rec.label(case["prog"])
    rec.nontrivial()


CHECKS = [
    Sub("programs", None, program_body, quick=1, cases=programs, serial=True, wall=100),
    Sub("long_servers", None, server_body, quick=1, cases=long_servers, cpu=300),
    Sub("servers", server_case, server_body, quick=4500, thorough=60000),
    Sub("clients", client_case, client_body, quick=4500, thorough=60000),
]
