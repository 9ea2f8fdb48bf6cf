from hypothesis import strategies as st

from saltchannel.a1a2.a1_client_session import A1ClientSession
from saltchannel.a1a2.packets import A1Packet
from vh import chan, gen, ref
from vh.core import Sub, check, exc_text, fail, same_bytes, short

RULE = ("A session of the code under test, as client or server with generated keys, clocks and options, talks to an independent "
        "reference implementation, which rebuilds every byte string it expects and sends every kind of legal packet. "
        "Non-trivial: the handshake completed and at least two application packets were exchanged, or a clock, wanted key, "
        "buffering option or unusual legal packet was used.")
ASSUMPTIONS = ["the reference implementation in vh/ref.py follows Salt Channel v2 (draft 8)"]


def case():
    call = st.tuples(st.lists(gen.msg(1), min_size=1, max_size=5), st.booleans()).map(list)
    pk = st.tuples(st.sampled_from(["app", "multi"]), st.lists(gen.msg(1), min_size=1, max_size=4), st.booleans(), gen.U32).map(list)
    return st.fixed_dictionaries(dict(
        role=st.sampled_from(["client", "server"]), c=gen.party(), s=gen.party(), buf=st.booleans(), wanted=st.booleans(), jump=gen.JUMPS,
        t=gen.timing(), pt=st.tuples(st.integers(0, 1), gen.U32).map(list), ops=st.lists(st.one_of(
            st.tuples(st.just("out"), call).map(list), st.tuples(st.just("in"), pk).map(list)), max_size=6)))


def body(case, rec):
    ck, sk = gen.keys(case["c"]), gen.keys(case["s"])
    first, later = (case["t"][0], case["t"][1]) if case["t"] else (0, [0])
    first_of_all = 0
    if case["role"] == "client":
        peer = ref.Server(sk, case["pt"])
        ch = chan.peer_channel(peer)
        s = gen.client(ck, ch, case["buf"], sk.sig_pub if case["wanted"] else None)
        gen.set_timing(s, case["t"])
        chan.run(s.handshake())
        same_bytes(ch.sent[0], ref.m1(ck.enc_pub, first, sk.sig_pub if case["wanted"] else None), "M1")
        if case["buf"]:
            check(len(ch.sent) == 1, "M4 was sent although it is to be buffered")
    else:
        peer = ref.Client(ck, case["pt"], sk.sig_pub if case["wanted"] else None)
        ch = chan.peer_channel(peer)
        ch.inbox.extend(peer.start())
        s = gen.server(sk, ch, case["buf"])
        gen.set_timing(s, case["t"])
        chan.run(s.handshake())
        same_bytes(ch.sent[0], ref.m2(sk.enc_pub, first), "M2")
        check(peer.m3["key"] == sk.sig_pub, "M3 names another key")
        same_bytes(s.client_sig_key, ck.sig_pub, "client key")
    h_sent = len(ch.sent)
    # exact bytes of M3 / M4
    tr = ref.sha512(peer.m1_raw) + ref.sha512(peer.m2_raw)
    if case["role"] == "server":
        body_ = ref.m34(ref.T_M3, sk.sig_pub, ref.sign(sk.sig_sec, ref.SIG1 + tr), peer.m3["time"])
        same_bytes(ch.sent[1], ref.encp(ref.seal(peer.key, 2, body_)), "M3 packet")
    elif not case["buf"]:
        body_ = ref.m34(ref.T_M4, ck.sig_pub, ref.sign(ck.sig_sec, ref.SIG2 + tr), peer.m4["time"])
        same_bytes(ch.sent[1], ref.encp(ref.seal(peer.key, 1, body_)), "M4 packet")
    n = (1 if case["role"] == "client" else 4) if h_sent < 2 else (3 if case["role"] == "client" else 4)
    packets = 0
    ops = case["ops"]
    if peer.state == "app" and gen.jump(s, peer.link, case.get("jump")):
        n += case["jump"]
        rec.label("far into the session")
    if case["buf"] and case["role"] == "client" and not any(o[0] == "out" for o in ops):
        ops = [["out", [[[3, 1]], False]]] + ops
    for kind, x in ops:
        if kind == "out":
            msgs = [gen.mk(m) for m in x[0]]
            before, seen = len(peer.app_in), len(ch.sent)
            lg = len(peer.log)
            chan.run(s.app_channel.write(*msgs, is_last=x[1]))
            got = peer.app_in[before:]
            check(got == msgs, "the peer decodes {} message(s) {}, written were {}", len(got), [short(g) for g in got][:4],
                  [short(m) for m in msgs][:4])
            new = ch.sent[seen:]
            clears = peer.log[lg:]
            if len(new) == len(clears) + 1:          # M4 came along
                check(case["buf"] and case["role"] == "client", "an extra packet was sent")
                body_ = ref.m34(ref.T_M4, ck.sig_pub, ref.sign(ck.sig_sec, ref.SIG2 + tr), peer.m4["time"])
                same_bytes(new[0], ref.encp(ref.seal(peer.key, 1, body_)), "buffered M4 packet")
                new = new[1:]
                n = 3
            check(len(new) == len(clears), "packets sent and decoded differ in number")
            for raw, (clear, last) in zip(new, clears):
                same_bytes(raw, ref.encp(ref.seal(peer.key, n, clear), last), "application packet with nonce %d" % n)
                n += 2
                packets += 1
        else:
            kind2, ms, last, t = x
            if case["buf"] and case["role"] == "client" and peer.state != "app":
                pass                                  # the server may send before it has seen M4
            msgs = [gen.mk(m) for m in ms]
            if kind2 == "multi":
                msgs = [m[:65535] for m in msgs]
                raw = peer.link.send(ref.multi(msgs, t), last)
            else:
                msgs = msgs[:1]
                raw = peer.link.send(ref.app(msgs[0], t), last)
            ch.inbox.append(raw)
            for m in msgs:
                try:
                    got = chan.run(s.app_channel.read())
                except Exception as e:
                    fail("a legal {} packet was refused: {}", kind2, exc_text(e))
                same_bytes(got, m, "message from the reference peer")
            packets += 1
    rec.label(case["role"], *(["clock"] if case["t"] else []), *(["wanted"] if case["wanted"] else []),
              *(["buffered"] if case["buf"] else []), *(["multi in"] if any(o[0] == "in" and o[1][0] == "multi" for o in ops) else []))
    rec.nontrivial(packets >= 2 or case["buf"] or case["wanted"] or bool(case["t"]))


def a_case():
    ch = st.sampled_from(b"ABCZabcz0189-./_")
    p = st.lists(ch, min_size=10, max_size=10).map(bytes)
    return st.fixed_dictionaries(dict(
        role=st.sampled_from(["client", "server"]), k=gen.party(), atype=st.integers(0, 1), own=st.booleans(),
        prots=st.one_of(st.none(), st.lists(st.tuples(p, p).map(list), max_size=4), st.lists(st.tuples(p, p).map(list), min_size=127, max_size=127)),
        nosuch=st.booleans()))


def a_body(case, rec):
    """A1/A2 bytes as client and as server."""
    k = gen.keys(case["k"])
    addr = b"" if case["atype"] == 0 else (k.sig_pub if case["own"] else bytes(31) + b"\x01")
    if case["role"] == "client":
        prots = [] if case["nosuch"] or case["prots"] is None else [tuple(p) for p in case["prots"]]
        ch = chan.PeerChannel(lambda m, last: [ref.a2(prots, case["nosuch"])])
        s = A1ClientSession(ch)
        if case["atype"]:
            s.a1.data.AddressType = A1Packet.ADDRESS_TYPE_PUBKEY
            s.a1.data.AddressSize = 32
            s.a1.Address = addr
        chan.run(s.do_a1a2())
        check(ch.sent == [ref.a1(case["atype"], addr)], "A1 is {}", [x.hex() for x in ch.sent])
        got = [(bytes(x.P1), bytes(x.P2)) for x in s.a2.Prot]
        check(got == prots, "A2 with {} protocols decoded as {}", len(prots), got)
        check(bool(s.a2.data.Header.NoSuchServer) == case["nosuch"], "NoSuchServer flag lost")
    else:
        from saltchannel.a1a2.packets import A2Packet
        ch = chan.PeerChannel(inbox=[ref.a1(case["atype"], addr)])
        s = gen.server(k, ch)
        prots = ref.DEFAULT_PROTS
        if case["prots"] is not None:
            prots = [tuple(p) for p in case["prots"]]
            s.a2 = A2Packet(src_buf=ref.a2(prots))
        chan.run(s.handshake())
        want = ref.a2([], True) if case["atype"] and addr != k.sig_pub else ref.a2(prots)
        check(ch.sent == [want], "A2 is {}, expected {}", [short(x) for x in ch.sent], short(want))
    rec.label(case["role"])
    rec.nontrivial(case["atype"] == 1 or bool(case["prots"]))


def long_cases(tier):
    n = 33000 if tier == "quick" else 140000
    return [dict(role=r, n=n if r == "client" else n // 2) for r in ("client", "server")]


def long_body(case, rec):
    """A session long enough to carry the packet counter beyond 16 bits."""
    s, ch, link, peer = gen.established(case["role"], 5)
    n = 3 if case["role"] == "client" else 4
    loop_run = chan.run

    async def go():
        nonlocal n
        for i in range(case["n"]):
            await s.app_channel.write(b"m%d" % i)
            if i % 97 == 0 or i > case["n"] - 3:
                same_bytes(ch.sent[-1], ref.encp(ref.seal(peer.key, n, ref.app(b"m%d" % i))), "packet with nonce %d" % n)
            n += 2
            ch.inbox.append(link.send(ref.app(b"r%d" % i)))
            same_bytes(await s.app_channel.read(), b"r%d" % i, "message")
            del ch.sent[:], ch.groups[:], ch.events[:]
            peer.app_in.clear()
            peer.log.clear()
    loop_run(go())
    rec.nontrivial()


def count_cases(tier):
    ns = [1, 2, 3, 127, 128, 255, 256, 257, 32767, 32768, 65534, 65535, 65536, 65537]
    if tier == "thorough":
        ns += list(range(4, 127)) + [511, 512, 4095, 4096, 16383, 16384, 40000, 65533, 65538, 131071, 131072]
    return [dict(role=r, n=n, dir=d, size=z) for r in ("client", "server") for n in ns for d in ("out", "in")
            for z in (("mixed",) if tier == "quick" else ("mixed", "empty")) if d == "out" or n < 65536]


def count_body(case, rec):
    """One call, or one packet, with many messages."""
    s, ch, link, peer = gen.established(case["role"], 8)
    n = case["n"]
    msgs = [b"" if case["size"] == "empty" else bytes([i & 255]) * ((i * 7) % 5) for i in range(n)]
    if case["dir"] == "out":
        seen, lg = len(ch.sent), len(peer.log)
        chan.run(s.app_channel.write(*msgs))
        check(peer.app_in == msgs, "the peer decodes {} messages of {}", len(peer.app_in), n)
        at = 3 if case["role"] == "client" else 4
        new, clears = ch.sent[seen:], peer.log[lg:]
        check(len(new) == len(clears), "packets sent and decoded differ in number")
        for raw, (clear, last) in zip(new, clears):
            same_bytes(raw, ref.encp(ref.seal(peer.key, at, clear), last), "application packet with nonce %d" % at)
            at += 2
    else:
        ch.inbox.append(link.send(ref.multi(msgs, 7)))

        async def go():
            return [bytes(await s.app_channel.read()) for _ in msgs]
        try:
            got = chan.run(go())
        except Exception as e:
            fail("a legal packet with {} messages was refused: {}", n, exc_text(e))
        check(got == msgs, "a packet of {} messages was decoded to others", n)
    rec.label(case["dir"])
    rec.nontrivial(n > 1)


CHECKS = [
    Sub("counts", None, count_body, quick=1, cases=count_cases, cpu=300),
    Sub("long_session", None, long_body, quick=1, cases=long_cases, cpu=600),
    Sub("wire", case, body, quick=10000, thorough=250000),
    Sub("discovery", a_case, a_body, quick=3000, thorough=50000),
]
