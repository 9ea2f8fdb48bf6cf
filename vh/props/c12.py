from hypothesis import strategies as st

from saltchannel.a1a2.a1_client_session import A1ClientSession
from saltchannel.a1a2.packets import A2Packet
from saltchannel.exceptions import BadPeer
from vh import chan, gen, pk, ref
from vh.core import Sub, check, exc_text, fail, same_bytes, short
from vh.props import c09, c11

RULE = ("Servers with the default or a generated protocol list (0..127 entries, also sharing one configured answer over several "
        "sessions) get A1 requests for any address, the own key, near misses of it, and malformed ones; A1 clients get generated "
        "legal and malformed answers; and the library's client asks the library's server. Reference decoder and encoder on the other "
        "side. Non-trivial: a key is named, a protocol list is configured, or the packet is malformed.")
ASSUMPTIONS = ["reserved bits and trailing bytes: acceptance and BadPeer both allowed"]

PROTS = st.one_of(st.none(), st.lists(st.tuples(pk.PSTR, pk.PSTR).map(list), max_size=4),
                  st.tuples(st.sampled_from([5, 63, 64, 101, 120, 126, 127]), pk.PSTR).map(lambda t: [[t[1], b"%010d" % i] for i in range(t[0])]))
REQ = st.one_of(st.just(["any"]), st.tuples(st.just("key"), c11.HOW, st.integers(0, 300)).map(list),
                st.tuples(st.just("raw"), c09.small_fields("a1"), st.lists(c09.edit(), min_size=1, max_size=2)).map(list),
                st.tuples(st.just("noise"), st.binary(max_size=40)).map(list))


def configured(prots):
    """An A2 packet object as a user configures it."""
    return pk.fill("a2", A2Packet(), dict(nosuch=0, prots=[tuple(p) for p in prots]))


def request(r, sk):
    if r[0] == "any":
        return ref.a1(0, b"")
    if r[0] == "key":
        return ref.a1(1, c11.other_key(sk.sig_pub, r[1], r[2], sk.enc_pub))
    if r[0] == "raw":
        return c09.make("a1", ["edit", r[1], r[2]])
    return r[1]


def server_case():
    return st.fixed_dictionaries(dict(server=gen.party(), prots=PROTS, reqs=st.lists(REQ, min_size=1, max_size=4), sync=st.booleans(),
                                      reuse=st.booleans(), buf=st.booleans()))


def expected(raw, sk, prots):
    v, f = ref.d_a1(raw)
    if v == "bad":
        return v, None
    if f["atype"] == 1 and f["addr"] != sk.sig_pub:
        return v, ref.a2([], True)
    return v, ref.a2(ref.DEFAULT_PROTS if prots is None else [tuple(p) for p in prots])


def ask(s, sync):
    try:
        if sync:
            s.handshake_sync()
        else:
            chan.run(s.handshake())
    except BadPeer as e:
        return e
    except Exception as e:
        if isinstance(e, chan.Starved):
            raise
        fail("{} instead of BadPeer or an answer", exc_text(e))


def server_body(case, rec):
    sk = gen.keys(case["server"])
    shared = None if case["prots"] is None else configured(case["prots"])
    s = ch = None
    for r in case["reqs"]:
        raw = request(r, sk)
        if ref.d_m1(raw)[0] != "bad":
            continue
        v, want = expected(raw, sk, case["prots"])
        if s is None or not case.get("reuse"):
            ch = chan.PeerChannel(inbox=[raw])
            s, fresh = gen.server(sk, ch, case.get("buf")), True
            if shared is not None:
                s.a2 = shared
        else:                          # the same session object is asked again
            ch.inbox, ch.sent, ch.groups, ch.reads = [raw], [], [], 0
            fresh = False
            rec.label("asked again")
        e = ask(s, case["sync"])
        rec.label("request " + r[0], "answer list" if case["prots"] is not None else "default list", v)
        if v == "bad" or (v == "free" and e is not None):
            check(e is not None, "a malformed A1 was accepted: {}", short(raw))
            check(not ch.sent, "a malformed A1 was answered: {}", short(raw))
            check(not (fresh and s.is_done), "the server session reports itself done after a malformed A1: {}", short(raw))
            rec.nontrivial()
            continue
        check(e is None, "A1 {} refused: {}", short(raw), exc_text(e) if e else "")
        check(len(ch.groups) == 1 and len(ch.sent) == 1, "{} messages sent in answer to A1", len(ch.sent))
        same_bytes(ch.sent[0], want, "answer to %s by server %s" % (raw.hex(), sk.sig_pub.hex()))
        check(ch.groups[0][1], "the channel was not told that the answer is the last message")
        check(s.is_done, "the server session does not report itself done")
        check(s.app_channel is None and s.enc_channel is None, "a session was set up by an A1 request")
        check(ch.reads == 1, "the server read {} messages", ch.reads)
        rec.nontrivial(r[0] == "key" or case["prots"] is not None)


def client_case():
    ans = st.one_of(st.tuples(st.just("edit"), c09.small_fields("a2"), st.just([])).map(list),
                    st.tuples(st.just("edit"), c09.small_fields("a2"), st.lists(c09.edit(), min_size=1, max_size=2)).map(list),
                    st.tuples(st.just("head"), st.binary(max_size=70)).map(list), st.tuples(st.just("noise"), st.binary(max_size=30)).map(list))
    return st.fixed_dictionaries(dict(addr=st.one_of(st.none(), gen.tag32()), answer=ans, sync=st.booleans(),
                                      before=st.one_of(st.none(), ans)))


def a1_session(ch, addr):
    s = A1ClientSession(ch)
    if addr is not None:
        pk.fill("a1", s.a1, dict(atype=1, addr=addr))
    return s


def client_body(case, rec):
    addr = None if case["addr"] is None else gen.b32(case["addr"])
    raw = c09.make("a2", case["answer"])
    v, f = ref.d_a2(raw)
    answers = [raw]
    ch = chan.PeerChannel(lambda m, l: [answers.pop(0)])
    s = a1_session(ch, addr)

    def go():
        try:
            if case["sync"]:
                s.do_a1a2_sync()
            else:
                chan.run(s.do_a1a2())
        except BadPeer as x:
            return x
    if case.get("before") is not None:     # asked before with the same session object
        first = c09.make("a2", case["before"])
        if ref.d_a2(first)[0] == "ok":
            answers.insert(0, first)
            check(go() is None, "a legal A2 was refused: {}", short(first))
            rec.label("asked twice")
            ch.sent, ch.groups = [], []
            was = pk.read("a2", s.a2)
    e = go()
    check(ch.sent == [ref.a1(0 if addr is None else 1, addr or b"")], "the request sent is {}", short(ch.sent))
    rec.label("answer " + v)
    if v == "bad" or (v == "free" and e is not None):
        check(e is not None, "a malformed A2 was returned: {}", short(raw))
        if not (v == "free" and e is not None) and s.a2 is not None:
            check(case.get("before") is not None and pk.read("a2", s.a2) == was, "a malformed A2 is kept")
        rec.nontrivial()
        return
    check(e is None, "a legal A2 was refused ({}): {}", exc_text(e) if e else "", short(raw))
    got = pk.read("a2", s.a2)
    check(got == f, "the client reports {} for {}", short(got), short(f))
    rec.nontrivial(bool(f["prots"]))


def both_case():
    return st.fixed_dictionaries(dict(server=gen.party(), prots=PROTS, how=st.one_of(st.none(), c11.HOW), n=st.integers(0, 300),
                                      delays=gen.delays(), buf=st.booleans()))


def both_body(case, rec):
    sk = gen.keys(case["server"])
    addr = None if case["how"] is None else c11.other_key(sk.sig_pub, case["how"], case["n"], sk.enc_pub)
    net = chan.Net(case["delays"])
    a, b = net.pipe()
    c = a1_session(a, addr)
    s = gen.server(sk, b, case.get("buf"))
    if case["prots"] is not None:
        s.a2 = configured(case["prots"])

    async def go():
        return await net.gather(c.do_a1a2(), s.handshake())
    for r in chan.run(go()):
        check(r is None, "A1/A2 exchange failed: {}", short(r))
    _, want = expected(ref.a1(0 if addr is None else 1, addr or b""), sk, case["prots"])
    check(pk.read("a2", c.a2) == ref.d_a2(want)[1], "the client got {} instead of {}", short(pk.read("a2", c.a2)), short(ref.d_a2(want)[1]))
    check(s.is_done, "server not done")
    rec.label("asks for " + (case["how"] or "any"))
    rec.nontrivial(addr is not None or case["prots"] is not None)


def bits(tier):
    return [dict(server=[i % 7, 90], prots=None, reqs=[["key", "bit", i]], sync=bool(i & 1)) for i in range(256)]


def stubs(tier):
    return [dict(server=[3, 90], prots=None, reqs=[["noise", ref.a1(at, bytes(32))[:n]]], sync=False) for at in (0, 1, 2) for n in range(38)]


def many(tier):
    """One session object that is asked over and over."""
    reqs = [["any"], ["key", "bit", 3], ["key", "own", 0], ["noise", b"junk"], ["key", "zero", 0], ["any"], ["key", "own", 0], ["key", "enc", 1], ["noise", ref.a1(1, bytes(32))[:9]]]
    prots = [None, [], [[b"SCv2------", b"ECHO------"]] * 3, [[b"A" * 10, b"b" * 10], [b"0" * 10, b"-" * 10]]]
    return [dict(server=[3, 90], prots=p, reqs=(reqs[i:] + reqs[:i]) * 40, sync=sync, reuse=reuse, buf=False)
            for i, p in enumerate(prots) for sync in (False, True) for reuse in (False, True)]


CHECKS = [
    Sub("every_bit", None, server_body, quick=1, cases=bits),
    Sub("truncations", None, server_body, quick=1, cases=stubs),
    Sub("many_times", None, server_body, quick=1, cases=many),
    Sub("server", server_case, server_body, quick=15000, thorough=250000),
    Sub("client", client_case, client_body, quick=15000, thorough=250000),
    Sub("both", both_case, both_body, quick=6000, thorough=80000),
]
