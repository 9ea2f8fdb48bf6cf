from hypothesis import strategies as st

from vh import chan, gen, ref
from vh.core import Sub, check, same_bytes, exc_text, fail

RULE = ("Both peers of a session write generated calls (1-4 messages, also longer than a multi packet can carry, optionally "
        "buffering M2/M4, or naming the server wanted) with generated last flags; the wire is decoded with the reference implementation and the receiver's "
        "indicator is read after every message and after every write of its own. Non-trivial: at least one marked and one unmarked write, or a marked write of "
        "several packets.")
ASSUMPTIONS = ["in-memory reliable message channel"]


def case():
    call = st.tuples(st.lists(gen.msg(1), min_size=1, max_size=4), st.booleans()).map(list)
    return st.fixed_dictionaries(dict(
        c=st.integers(0, 50), buf=st.tuples(st.booleans(), st.booleans()).map(list), role=st.sampled_from(["client", "server"]),
        calls=st.lists(call, min_size=1, max_size=6), eager=st.booleans(), wanted=st.booleans()))


def body(case, rec):
    ck, sk = gen.keys([case["c"], case["c"] + 1000]), gen.keys([case["c"] + 2000, case["c"] + 3000])
    net = chan.Net()
    a, b = net.pipe()
    c, s = gen.client(ck, a, case["buf"][0], sk.sig_pub if case.get("wanted") else None), gen.server(sk, b, case["buf"][1])
    calls = [([gen.mk(m) for m in ms], last) for ms, last in case["calls"]]
    sender_is_client = case["role"] == "client"
    key = ref.shared(ck.enc_sec, sk.enc_pub)

    async def run_c():
        await c.handshake()
        if case["buf"][0] and not sender_is_client:
            await c.app_channel.write(b"go")

    async def run_s():
        await s.handshake()
        if case["buf"][0] and not sender_is_client:
            await s.app_channel.read()

    if case["buf"][0] and sender_is_client:
        # M4 travels with the first write: run the server's handshake together with it
        async def run_c():                                           # noqa: F811
            await c.handshake()
            await c.app_channel.write(*calls[0][0], is_last=calls[0][1])

    for x in chan.run(net.gather(run_c(), run_s())):
        if isinstance(x, BaseException):
            fail("handshake failed: {}", exc_text(x))
    snd, rcv = (c, s) if sender_is_client else (s, c)
    out_ch = a if sender_is_client else b
    done = 1 if (case["buf"][0] and sender_is_client) else 0
    hs = 1 if done else len(out_ch.sent)          # packets before the first call (M4 counts to the call it travels with)
    ends = [len(out_ch.sent)] if done else []

    # last indicator before anything was read
    check(not rcv.app_channel.last, "last is set before any application message was read")
    got_flags = []
    pend = []
    for idx, (msgs, last) in enumerate(calls):
        if idx >= done:
            (x,) = chan.run(net.gather(snd.app_channel.write(*msgs, is_last=last)))
            if isinstance(x, BaseException):
                fail("write failed: {}", exc_text(x))
            ends.append(len(out_ch.sent))
        pend.append((msgs, last))
        if case["eager"]:
            read_calls(net, rcv, pend, got_flags)
            pend = []
    read_calls(net, rcv, pend, got_flags)

    # the wire: for every packet its flags and what the channel was told with it
    packets = [(raw, told and i == len(raws) - 1) for raws, told in out_ch.groups for i, raw in enumerate(raws)]
    for raw, told in packets[:hs]:
        check(not told, "the channel was told is_last with a handshake packet")
        if raw[0] == ref.T_ENC or raw[0] == ref.T_M2:
            check(not raw[1] & 0x80, "last flag on a handshake packet: {}", raw[:2].hex())
    for raws, told in (b if sender_is_client else a).groups:        # the receiver has written its handshake only
        check(not told, "the channel was told is_last with a packet of the receiver's handshake")
        for raw in raws:
            if raw[0] == ref.T_ENC or raw[0] == ref.T_M2:
                check(not raw[1] & 0x80, "last flag on a handshake packet: {}", raw[:2].hex())
    wire = []
    for begin, end, (msgs, last) in zip([hs] + ends, ends, calls):
        check(end > begin, "a write sent nothing")
        wire.append(packets[begin:end])
        for i, (raw, told) in enumerate(packets[begin:end]):
            final = last and i == end - begin - 1
            check(bool(told) == final, "packet {}/{} of a write with is_last={} was passed on with is_last={}", i + 1, end - begin,
                  last, told)
            check(raw[0] == ref.T_ENC and raw[1] == (0x80 if final else 0), "packet {}/{} of a write with is_last={} has header {}",
                  i + 1, end - begin, last, raw[:2].hex())
    check(len(packets) == ends[-1], "{} packets sent after the last write", len(packets) - ends[-1])
    marks = {l for _, l in calls}
    several = any(l and (len(raws) > 1) for raws, (_, l) in zip(wire, calls))
    rec.label(*["marked" if True in marks else "unmarked only"], *(["marked write of several packets"] if several else []),
              *(["marked then unmarked"] if any(x[1] and not y[1] for x, y in zip(calls, calls[1:])) else []))
    rec.nontrivial(len(marks) == 2 or several)


def read_calls(net, rcv, calls, state):
    """Reads the messages of these calls and checks the indicator. state: [True] once a marked write was met."""
    for msgs, last in calls:
        for i, m in enumerate(msgs):
            (x,) = chan.run(net.gather(rcv.app_channel.read()))
            if isinstance(x, BaseException):
                fail("read failed: {}", exc_text(x))
            same_bytes(x, m, "message")
            flag = rcv.app_channel.last
            if not last:
                check(not flag, "last is set after reading message {} of an unmarked write", i)
            elif i == len(msgs) - 1:
                check(bool(flag), "last is not set after reading the final message of a marked write")


def many_cases(tier):
    """Writes of more messages than a multi packet can carry"""
    out = []
    for n in (65535, 65536, 65537, 70000) if tier == "quick" else (65534, 65535, 65536, 65537, 70000, 131071, 131073):
        for buf in (False, True):
            out.append(dict(n=n, role="client" if buf or n % 2 else "server", buf=buf, last=True))
    return out + [dict(n=66000, role="client", buf=True, last=False)]


def many_body(case, rec):
    sut, ch, link, _ = gen.established(case["role"], 3, case["buf"])
    seen = len(ch.sent)
    n, last = case["n"], case["last"]
    chan.run(sut.app_channel.write(*[bytes([i & 255])[:i % 3] for i in range(n)], is_last=last))
    sent = ch.sent[seen:]
    check(sent, "a write sent nothing")
    for i, raw in enumerate(sent):
        check(raw[0] == ref.T_ENC and raw[1] == (0x80 if last and i == len(sent) - 1 else 0), "packet {} of {} of a write of {} messages with is_last={} has header {}", i + 1,
              len(sent), n, last, raw[:2].hex())
    check(ch.groups[-1][1] == last and not any(g[1] for g in ch.groups[:-1]), "the channel was told is_last={}", [g[1] for g in ch.groups[-3:]])
    rec.nontrivial()


def peer_case():
    """A reference peer sends packets with generated flags; several reads per packet."""
    pk = st.tuples(st.sampled_from(["app", "multi"]), st.lists(gen.msg(0), min_size=1, max_size=4), st.booleans()).map(list)
    return st.fixed_dictionaries(dict(k=st.integers(0, 50), role=st.sampled_from(["client", "server"]),
                                      packets=st.lists(pk, min_size=1, max_size=8), buf=st.booleans(),
                                      own=st.lists(st.one_of(st.none(), st.tuples(gen.msg(0), st.booleans(), st.booleans()).map(list)), max_size=8)))


def peer_body(case, rec):
    sut, ch, link, _ = gen.established(case["role"], case["k"], bool(case.get("buf")))
    check(not sut.app_channel.last, "last is set before any application message was read")
    n = at = 0
    now = False                       # what the indicator has to be; None: open

    def own_write():
        """The session's own writes, marked or not, do not change its indicator."""
        nonlocal at
        own = case.get("own") or [None]
        o = own[at % len(own)]
        at += 1
        if o is None:
            return
        seen = len(ch.sent)
        if o[2]:
            sut.app_channel.write_sync(gen.mk(o[0]), is_last=o[1])
        else:
            chan.run(sut.app_channel.write(gen.mk(o[0]), is_last=o[1]))
        check(len(ch.sent) > seen, "a write sent nothing")
        for i, raw in enumerate(ch.sent[seen:]):
            want = o[1] and seen + i == len(ch.sent) - 1
            check(bool(raw[1] & 0x80) == want, "a packet of a write with is_last={} has header {}", o[1], raw[:2].hex())
        check(ch.groups[-1][1] == o[1], "the channel was told is_last={} with a write with is_last={}", ch.groups[-1][1], o[1])
        check(now is None or bool(sut.app_channel.last) == now, "the session's own write with is_last={} set its indicator to {}", o[1], sut.app_channel.last)
        rec.label("own write between reads")

    own_write()
    for kind, ms, last in case["packets"]:
        msgs = [gen.mk(m) for m in ms]
        if kind == "app":
            msgs = msgs[:1]
            clear = ref.app(msgs[0])
        else:
            clear = ref.multi(msgs)
        ch.inbox.append(link.send(clear, last))
        for i, m in enumerate(msgs):
            same_bytes(chan.run(sut.app_channel.read()), m, "message")
            n += 1
            now = None if last and i < len(msgs) - 1 else last
            check(now is None or bool(sut.app_channel.last) == last, "after a packet with last={} the indicator is {}", last, sut.app_channel.last)
            own_write()
    rec.nontrivial(n > 1 and len({p[2] for p in case["packets"]}) == 2)


def flags(n, k):
    """Generated marks: runs of marked and unmarked writes."""
    return [bool(x >> b & 1) for x in ref.sha512(b"%d" % k) * (n // 512 + 1) for b in range(8)][:n]


def long_cases(tier):
    """Many writes in one session."""
    out = []
    for k, n in enumerate([40, 150, 700] * 2 if tier == "quick" else [40, 150, 700, 2000, 9000] * 4):
        role = ("client", "server")[k % 2]
        out.append(dict(c=k, buf=[bool(k & 2), bool(k & 4)], role=role, calls=[[[[i % 5, i % 50]] * (1 + i % 3), f] for i, f in enumerate(flags(n, k))], eager=True, wanted=False))
        out.append(dict(k=k, role=role, packets=[[("app", "multi")[i % 2], [[i % 5, i % 50]] * (1 + i % 3), f] for i, f in enumerate(flags(n, k + 50))], buf=False,
                        own=[None, [[3, 3], False, False], [[2, 1], True, True]]))
    return out


def long_body(case, rec):
    (peer_body if "packets" in case else body)(case, rec)


CHECKS = [
    Sub("long", None, long_body, quick=1, cases=long_cases),
    Sub("many", None, many_body, quick=1, cases=many_cases, cpu=300),
    Sub("duplex", case, body, quick=10500, thorough=150000),
    Sub("receiver", peer_case, peer_body, quick=9000, thorough=120000),
]
