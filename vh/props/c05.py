from hypothesis import strategies as st

from saltchannel.exceptions import BadPeer
from vh import chan, gen, ref
from vh.core import Sub, check, exc_text, fail, short, Skip

RULE = ("An established session receives a packet stream that an attacker derived from the genuine one by a generated list of "
        "edits (flip, truncate, extend, drop, repeat, reorder, reflect, inject from another session or from another position, "
        "junk); the receiver reads to the end, going on after errors. The reference link decides which reads must succeed. "
        "Non-trivial: the edited stream differs from the genuine one and holds a packet that must be refused.")
ASSUMPTIONS = ["the attacker does not have the session key", "flag byte of the encrypted packet header is unauthenticated by design"]


def edit():
    i = st.integers(0, 12)
    return st.one_of(
        st.tuples(st.just("flip"), i, st.one_of(st.integers(0, 400), st.integers(0, 400), st.integers(0, 300000)), st.integers(0, 7)).map(list),
        st.tuples(st.just("trunc"), i, st.integers(1, 60)).map(list),
        st.tuples(st.just("extend"), i, st.binary(min_size=1, max_size=20)).map(list),
        st.tuples(st.just("drop"), i).map(list),
        st.tuples(st.just("dup"), i, i).map(list),
        st.tuples(st.just("swap"), i, i).map(list),
        st.tuples(st.just("reflect"), i, i).map(list),
        st.tuples(st.just("foreign"), i, i, st.sampled_from(["keys", "direction", "clear"])).map(list),
        st.tuples(st.just("junk"), i, st.binary(max_size=40)).map(list),
        st.tuples(st.just("splice"), i, i, st.integers(0, 60)).map(list),
        st.tuples(st.just("handshake"), i, st.integers(0, 3)).map(list),
        st.tuples(st.just("wrap"), i, st.integers(7, 63), st.booleans()).map(list),
    )


def case():
    call = st.tuples(st.lists(st.one_of(gen.msg(0), gen.msg(0), gen.msg(1)), min_size=1, max_size=3), st.booleans()).map(list)
    return st.fixed_dictionaries(dict(
        k=st.integers(0, 50), role=st.sampled_from(["client", "server"]), calls=st.lists(call, min_size=1, max_size=6),
        own=st.lists(gen.msg(0), max_size=2), jump=gen.JUMPS, edits=st.lists(edit(), min_size=1, max_size=3), sync=st.booleans()))


def apply_edit(stream, e, own_sent, k, genuine, hs, nonce, key):
    kind, i = e[0], e[1] % max(1, len(stream))
    if not stream and kind not in ("junk", "reflect", "foreign", "handshake"):
        return stream
    s = list(stream)
    if kind == "flip":
        b = bytearray(s[i])
        if not b:
            return s
        p = e[2] % len(b)
        b[p] ^= 1 << e[3]
        s[i] = bytes(b)
    elif kind == "trunc":
        s[i] = s[i][:max(0, len(s[i]) - e[2])]
    elif kind == "extend":
        s[i] = s[i] + e[2]
    elif kind == "drop":
        del s[i]
    elif kind == "dup":
        s.insert(e[2] % (len(s) + 1), s[i])
    elif kind == "swap":
        j = e[2] % len(s)
        s[i], s[j] = s[j], s[i]
    elif kind == "reflect":
        if own_sent:
            s.insert(i, own_sent[e[2] % len(own_sent)])
    elif kind == "foreign":
        n = e[2] + 1
        if e[3] == "keys":         # another session, right position
            s.insert(i, ref.encp(ref.seal(ref.sha512(b"k%d" % k)[:32], n, ref.app(b"foreign"))))
        elif e[3] == "direction":  # genuine packet of a session with the roles exchanged
            s.insert(i, ref.encp(ref.seal(ref.sha512(b"q%d" % k)[:32], 2 * n, ref.app(b"foreign"))))
        else:
            s.insert(i, ref.app(b"in clear") if n % 2 else ref.encp(ref.app(b"in clear, wrapped")))
    elif kind == "junk":
        s.insert(i, e[2])
    elif kind == "splice":
        j = e[2] % len(s)
        cut = 2 + e[3] % max(1, len(s[i]))
        s[i] = s[i][:cut] + s[j][cut:]
    elif kind == "wrap":           # a packet the peer sent, or will send, 2**n / 2 packets away in this session
        n = nonce + 2 * i + (2 ** e[2] if e[3] else -2 ** e[2])
        if 0 < n < 2**64 and abs(n - nonce) > 96:      # never a position this receiver gets to
            s.insert(i, ref.encp(ref.seal(key, n, ref.app(b"from far away"))))
    elif kind == "handshake":
        s.insert(i, hs[e[2] % len(hs)])
    return s


def body(case, rec):
    sut, ch, link, peer = gen.established(case["role"], case["k"])
    for m in case["own"]:
        chan.run(sut.app_channel.write(gen.mk(m)))
    own_sent = list(ch.sent)
    jumped = gen.jump(sut, link, case.get("jump"))
    sent, genuine = [], []
    base_r = link.w
    for ms, use_multi in case["calls"]:
        msgs = [gen.mk(m) for m in ms]
        if use_multi:
            msgs = [m[:65535] for m in msgs]
            genuine.append(link.send(ref.multi(msgs)))
            sent.extend(msgs)
        else:
            for m in msgs:
                genuine.append(link.send(ref.app(m)))
                sent.append(m)
    hs = [ref.m1(peer.k.enc_pub), ref.m2(peer.k.enc_pub), ref.m34(3, peer.k.sig_pub, bytes(64)), peer.link and
          ref.encp(ref.seal(peer.key, 2, ref.m34(3, peer.k.sig_pub, bytes(64))))]
    stream = list(genuine)
    for e in case["edits"]:
        stream = apply_edit(stream, e, own_sent, case["k"], genuine, hs, base_r, peer.key)
    # reference receiver
    model = ref.Link(peer.key, client=(case["role"] == "client"))
    model.r = base_r
    plan, refused = [], 0          # for every packet: list of messages or None (refuse)
    for raw in stream:
        got = model.recv(raw)
        if got is None:
            plan.append(None)
            refused += 1
        else:
            v, _, msgs = ref.d_appmsg(got[0])
            if v == "bad":
                raise Skip()
            plan.append(msgs)
    ch.inbox.extend(stream)
    delivered = []

    def read():
        return sut.app_channel.read_sync() if case["sync"] else chan.run(sut.app_channel.read())

    failed = False
    want_prefix = []
    for msgs in plan:
        if msgs is None:
            break
        want_prefix.extend(msgs)
    errors = 0
    for _ in range(len(sent) + len(stream) + 3):
        try:
            m = read()
        except chan.Starved:
            break
        except BadPeer as e:
            if not failed:
                failed = True
                check(delivered == want_prefix, "BadPeer after {} messages, but {} genuine ones came before the first bad packet",
                      len(delivered), len(want_prefix))
            errors += 1
            continue
        except Exception as e:
            fail("read failed with {} instead of BadPeer", exc_text(e))
        delivered.append(bytes(m))
        if delivered != sent[:len(delivered)]:
            fail("delivered {} as message {}, the peer sent {}", short(m), len(delivered) - 1,
                 short(sent[len(delivered) - 1]) if len(delivered) <= len(sent) else "nothing more")
    else:
        fail("the reads do not come to an end")
    if refused:
        check(failed, "a bad packet was met without BadPeer; {} messages delivered", len(delivered))
    else:
        check(not failed, "BadPeer on a stream that a conforming receiver accepts")
        check(delivered == want_prefix, "{} of {} messages delivered from an acceptable stream", len(delivered), len(want_prefix))
    rec.label(*[e[0] for e in case["edits"]])
    if jumped:
        rec.label("far into the session")
    if refused:
        rec.label("refused packet")
    if refused and any(p is not None for p in plan[plan.index(None):]):
        rec.label("acceptable packet after a refused one")
    rec.nontrivial(stream != genuine and refused > 0)


def sweep(tier):
    """Every byte of a genuine packet, one bit each, and every truncation."""
    out = []
    for role in ("client", "server"):
        for n in (0, 1, 17):
            size = 2 + 16 + 6 + n
            base = dict(k=3, role=role, calls=[[[[5, 1]], False], [[[n, 2]], False], [[[4, 3]], False]], own=[], sync=False)
            for p in range(size):
                for bit in (range(8) if tier == "thorough" else [p % 8, (p * 3 + 1) % 8]):
                    out.append(dict(base, edits=[["flip", 1, p, bit]]))
            for t in range(1, size + 1):
                out.append(dict(base, edits=[["trunc", 1, t]]))
    return out


def long_cases(tier):
    return [dict(role=r, n=n) for r in ("client", "server") for n in ([700, 33000] if tier == "quick" else [700, 33000, 140000])]


def long_body(case, rec):
    """Every packet of a long session is sent once more at its end."""
    s, ch, link, peer = gen.established(case["role"], 5)
    n, old = case["n"], []

    async def go():
        for i in range(n):
            old.append(link.send(ref.app(b"%d" % i)))
            ch.inbox.append(old[-1])
            got = await s.app_channel.read()
            if bytes(got) != b"%d" % i:
                fail("message {} is {}", i, short(got))
        del ch.events[:]
        for i, raw in enumerate(old):
            ch.inbox.append(raw)
            try:
                m = await s.app_channel.read()
            except BadPeer:
                continue
            fail("packet {} of {} was accepted a second time, as {}", i, n, short(m))
        ch.inbox.append(link.send(ref.app(b"end")))
        try:
            m = await s.app_channel.read()
        except BadPeer:
            return
        check(bytes(m) == b"end", "delivered {} at the end", short(m))
    chan.run(go())
    rec.label(case["role"])
    rec.nontrivial()


CHECKS = [
    Sub("long_session", None, long_body, quick=1, cases=long_cases, cpu=600),
    Sub("every_byte", None, body, quick=1, cases=sweep),
    Sub("attack", case, body, quick=14000, thorough=400000),
]
