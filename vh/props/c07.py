import asyncio
import itertools

from hypothesis import strategies as st

from saltchannel.exceptions import BadPeer, ComException
from vh import chan, gen, ref
from vh.core import Sub, check, exc_text, fail

LEVEL = "fault_enumeration"
RULE = ("Sessions write generated messages while generated writes of the underlying channel fail (before, in the middle of, or "
        "after passing the packets on, also by cancellation), in the handshake and later, and go on writing, with reads (also of refused packets) in between. Every byte string "
        "ever handed to the underlying channel is kept; the reference finds the nonce each packet was sealed with. "
        "Non-trivial: at least one failed write followed by another one.")
ASSUMPTIONS = ["what is handed to the underlying channel may reach an attacker even if the write fails",
               "a session starts with fresh encryption keys"]


FAIL = dict(com=ComException, bad=BadPeer, os=OSError, pipe=BrokenPipeError, value=ValueError, run=RuntimeError, over=OverflowError, mem=MemoryError,
            time=TimeoutError, eof=EOFError, block=BlockingIOError, reset=ConnectionResetError, type=TypeError, key=KeyError, stop=AssertionError)


class FaultChannel(chan.PeerChannel):
    """Fails the writes listed in `faults`: {index of write call: (kind, how many packets pass, error)}"""

    def __init__(self, peer_on_write, faults):
        super().__init__(peer_on_write)
        self.faults = faults
        self.all = []
        self.calls = 0
        self.failed = 0

    def _write(self, msgs, is_last):
        i = self.calls
        self.calls += 1
        msgs = [chan.as_bytes(m) for m in msgs]
        self.all.extend(msgs)
        if i in self.faults:
            kind, n = self.faults[i][:2]
            self.failed += 1
            if n and kind != "before":
                super()._write(msgs[:n] if kind == "partial" else msgs, is_last)
            raise FAIL[self.faults[i][2]]("injected write failure")
        super()._write(msgs, is_last)

    async def write(self, msg, *args, is_last=False):
        i = self.calls
        if i in self.faults and self.faults[i][0] == "cancel":
            self.calls += 1
            self.all.extend(chan.as_bytes(m) for m in (msg,) + args)
            self.failed += 1
            await asyncio.Event().wait()
        self._write((msg,) + args, is_last)


def case():
    fault = st.tuples(st.integers(0, 7), st.sampled_from(["before", "partial", "after", "cancel"]), st.integers(0, 3), st.sampled_from(["com"] * 4 + sorted(FAIL))).map(list)
    call = st.tuples(st.lists(gen.msg(1), min_size=1, max_size=4), st.booleans()).map(list)
    return st.fixed_dictionaries(dict(
        role=st.sampled_from(["client", "server"]), k=st.integers(0, 60), buf=st.booleans(), faults=st.lists(fault, max_size=3),
        calls=st.lists(call, min_size=1, max_size=6), retry=st.booleans(),
        reads=st.lists(st.one_of(st.none(), st.sampled_from(["good", "junk", "replay", "late", "empty", "none", "hollow", "short", "alien", "handshake"]), gen.msg(0)), max_size=6)))


HOLLOW = dict(hollow=b"", short=b"\x05\x00", alien=bytes([99, 0]) + bytes(10), handshake=bytes([4, 0]) + bytes(100))


class Tolerant:
    """A reference peer that takes the handshake part and ignores what it cannot follow after an injected fault."""

    def __init__(self, peer):
        self.p = peer
        self.dead = False

    def on_write(self, msgs, last):
        out = []
        for m in msgs:
            if self.dead:
                break
            try:
                out += self.p.feed(m, last)
            except ref.ProtocolError:
                self.dead = True
        return out


def body(case, rec):
    k = case["k"]
    ck, sk = gen.keys([k, k + 1000]), gen.keys([k + 2000, k + 3000])
    faults = {f[0]: (f[1], f[2], f[3]) for f in case["faults"]}
    peer = ref.Server(sk) if case["role"] == "client" else ref.Client(ck)
    ch = FaultChannel(Tolerant(peer).on_write, faults)
    if case["role"] == "client":
        s = gen.client(ck, ch, case["buf"])
        me = ck
    else:
        ch.inbox.extend(peer.start())
        s = gen.server(sk, ch, case["buf"])
        me = sk

    async def attempt(coro):
        """Runs until done or stuck in a cancelled write."""
        t = asyncio.ensure_future(coro)
        for _ in range(60):
            await asyncio.sleep(0)
            if t.done():
                break
        if not t.done():
            t.cancel()
        try:
            return await t
        except asyncio.CancelledError:
            return None
        except (ComException,) + tuple(FAIL.values()) as e:
            return e

    async def read(what):
        """The application reads between its writes: genuine packets, none at all, or ones that have to be refused."""
        if what is None or peer.link is None:
            return
        if what == "good" or isinstance(what, list):
            ch.inbox.append(peer.link.send(ref.app(b"good" if what == "good" else gen.mk(what))))
        elif what == "junk":
            ch.inbox.append(ref.encp(bytes(40)))
        elif what == "replay":
            ch.inbox.append(ref.encp(ref.seal(peer.key, 1 if case["role"] == "server" else 2, ref.app(b"again"))))
        elif what == "late":
            ch.inbox.append(ref.encp(ref.seal(peer.key, 51 if case["role"] == "server" else 52, ref.app(b"late"))))
        elif what in HOLLOW:               # sealed by the peer, but no application packet
            ch.inbox.append(peer.link.send(HOLLOW[what]))
        elif what == "empty":
            ch.inbox.append(b"")
        await attempt(s.app_channel.read())
        del ch.inbox[:]
        rec.label("read " + (what if isinstance(what, str) else "good"))

    async def go():
        await attempt(s.handshake())
        app_ch = s.app_channel
        if app_ch is None:
            return 0
        n = 0
        for i, (ms, last) in enumerate(case["calls"]):
            msgs = [gen.mk(m) for m in ms]
            if case["reads"]:
                await read(case["reads"][i % len(case["reads"])])
            r = await attempt(app_ch.write(*msgs, is_last=last))
            if isinstance(r, Exception) and case["retry"]:
                await attempt(app_ch.write(*msgs, is_last=last))     # what an application does on failure
            n += 1
        return n
    calls = chan.run(go())
    key = ref.shared(ck.enc_sec, sk.enc_pub)
    secrets = [gen.mk(m) for ms, _ in case["calls"] for m in ms]
    clear_ok = {ref.T_M2} if case["role"] == "server" else set()
    seen = {}
    limit = 2 * (len(ch.all) + 4) + 10
    nxt = 1 if case["role"] == "client" else 2
    for i, raw in enumerate(ch.all):
        if case["role"] == "client" and i == 0:
            check(ref.d_m1(raw)[0] == "ok", "first packet is not M1")
            continue
        if case["role"] == "server" and raw and raw[0] == ref.T_M2 and i == 0:
            check(ref.d_m2(raw)[0] == "ok", "bad M2")
            continue
        v, f = ref.d_enc(raw)
        check(v != "bad", "packet {} was handed on unencrypted: {}", i, raw[:40].hex())
        found = None
        for n in [nxt] + list(range(1, limit)):
            if ref.unseal(key, n, f["body"]) is not None:
                found = n
                break
        check(found is not None, "packet {} is not sealed with the session key and a nonce of this session", i)
        clear = ref.unseal(key, found, f["body"])
        check(found % 2 == (1 if case["role"] == "client" else 0), "packet {} uses nonce {} of the other direction", i, found)
        if found in seen:
            check(seen[found] == clear, "nonce {} was used for two different packets", found)
        seen[found] = clear
        nxt = found + 2
    blob = b"".join(x + b"|" for x in ch.all[1:])
    for m in secrets + [me.sig_pub, me.sig_sec[:32]]:
        if len(m) >= 12 and len(set(m)) > 4 and m[:24] in blob:
            fail("application or identity bytes went out in clear")
    if ch.failed:
        rec.label("failed write")
    rec.label(*{f[0] for i, f in faults.items() if i < ch.calls})
    rec.nontrivial(ch.failed > 0 and ch.calls > min(faults) + 1 if faults else False)


class SlowChannel(chan.PeerChannel):
    def __init__(self, on_write, delays):
        super().__init__(on_write)
        self.delays, self.i, self.all = delays, 0, []

    async def write(self, msg, *args, is_last=False):
        self.all.extend(chan.as_bytes(m) for m in (msg,) + args)
        d = self.delays[self.i % len(self.delays)] if self.delays else 0
        self.i += 1
        for _ in range(d):
            await asyncio.sleep(0)
        self._write((msg,) + args, is_last)


def conc_case():
    task = st.lists(st.lists(gen.msg(0), min_size=1, max_size=3), min_size=1, max_size=3)
    return st.fixed_dictionaries(dict(role=st.sampled_from(["client", "server"]), k=st.integers(0, 60),
                                      tasks=st.lists(task, min_size=2, max_size=4), delays=gen.delays()))


def concurrent(case, rec):
    """Tasks writing at the same time on a slow channel: still no nonce twice, nothing in clear."""
    k = case["k"]
    ck, sk = gen.keys([k, k + 1000]), gen.keys([k + 2000, k + 3000])
    peer = ref.Server(sk) if case["role"] == "client" else ref.Client(ck)
    ch = SlowChannel(Tolerant(peer).on_write, case["delays"])
    if case["role"] == "client":
        s = gen.client(ck, ch)
    else:
        ch.inbox.extend(peer.start())
        s = gen.server(sk, ch)

    async def writer(t):
        for call in t:
            await s.app_channel.write(*[gen.mk(m) for m in call])

    async def go():
        await s.handshake()
        del ch.all[:]
        await asyncio.gather(*[writer(t) for t in case["tasks"]])
    chan.run(go())
    seen = {}
    key = ref.shared(ck.enc_sec, sk.enc_pub)
    for i, raw in enumerate(ch.all):
        v, f = ref.d_enc(raw)
        check(v != "bad", "packet {} was handed on unencrypted: {}", i, raw[:40].hex())
        n = next((n for n in range(1, 2 * len(ch.all) + 12) if ref.unseal(key, n, f["body"]) is not None), None)
        check(n is not None, "packet {} is not sealed with a nonce of this session", i)
        clear = ref.unseal(key, n, f["body"])
        check(seen.setdefault(n, clear) == clear, "nonce {} was used for two different packets", n)
    rec.nontrivial(len(ch.all) > 1 and any(case["delays"]))


def sweep(tier):
    """A failure of every kind at every write of one history, for both roles and buffering settings."""
    out = []
    for role in ("client", "server"):
        for buf in (False, True):
            for i in range(7):
                for kind in ("before", "partial", "after", "cancel"):
                    for n in (0, 1, 2):
                        if kind in ("before", "cancel") and n:
                            continue
                        for retry in (False, True):
                            out.append(dict(role=role, k=7, buf=buf, faults=[[i, kind, n, "com"]], reads=[], retry=retry, calls=[
                                [[[20, 1]], False], [[[20, 2], [65536, 3], [20, 4]], False], [[[20, 5], [30, 6]], True],
                                [[[20, 7]], False], [[[0, 7]], False]]))
    return out


def late(tier):
    """The writes that fail come late in a long session."""
    out = []
    for role in ("client", "server"):
        for kind in ("before", "partial", "after", "cancel"):
            for at in (60, 140, 270, 530):
                for retry in (False, True):
                    calls = [[[[20 + i % 7, 1 + i % 9]], False] for i in range(at - 6)] + [[[[20, i], [65536, 3], [20, 4]] if i % 3 else [[20, i], [30, 5]], False] for i in range(1, 20)]
                    out.append(dict(role=role, k=7, buf=False, faults=[[at, kind, 1, "com"], [at + 3, kind, 2, "os"]], reads=["good"] if at < 200 else [], retry=retry, calls=calls))
    return out


def long_cases(tier):
    return [dict(role=r, n=n, jump=j) for r in ("client", "server") for n, j in
            [(33000, 0), (70, 2**8 - 60), (70, 2**32 - 60), (70, 2**31 - 60), (70, 2**63 - 60), (70, 2**64 - 300), (400, 2**64 - 300)]] + (
            [dict(role="client", n=140000, jump=0)] if tier == "thorough" else [])


def long_body(case, rec):
    """No nonce comes back in a long session: every packet opens with a nonce of its own."""
    s, ch, link, peer = gen.established(case["role"], 6)
    ch.on_write = None
    if case["jump"] and not gen.jump(s, link, case["jump"]):
        rec.label("not applicable")
        return
    raws = []
    over = case["jump"] + 2 * case["n"] > 2**64 - 10      # where the nonces run out writes may fail
    del ch.sent[:], ch.groups[:], ch.events[:]

    async def go():
        for i in range(case["n"]):
            try:
                await s.app_channel.write(b"%d" % i)
            except Exception:
                if not over:
                    raise
            raws.extend(ch.sent)
            del ch.sent[:], ch.groups[:], ch.events[:]
    chan.run(go())
    check(len(raws) == case["n"] or over, "{} packets for {} writes", len(raws), case["n"])
    seen = set()
    at = link.r
    for i, raw in enumerate(raws):
        v, f = ref.d_enc(raw)
        check(v != "bad", "packet {} was handed on unencrypted", i)
        for nonce in itertools.chain([at], range(at - 80, at + 80, 2), range(1, 4 * case["n"] + 10)):
            if 0 < nonce < 2**64 and ref.unseal(peer.key, nonce, f["body"]) is not None:
                break
        else:
            fail("packet {} is not sealed with a nonce of this session", i)
        check(nonce not in seen, "nonce {} was used twice, the second time for packet {}", nonce, i)
        seen.add(nonce)
        at = nonce + 2
    rec.label(case["role"])
    rec.nontrivial()


CHECKS = [
    Sub("long_session", None, long_body, quick=1, cases=long_cases, cpu=600),
    Sub("every_write_fails", None, body, quick=1, cases=sweep),
    Sub("late_write_fails", None, body, quick=1, cases=late, cpu=300),
    Sub("faulty_writes", case, body, quick=15000, thorough=200000),
    Sub("concurrent_writers", conc_case, concurrent, quick=4500, thorough=60000),
]
