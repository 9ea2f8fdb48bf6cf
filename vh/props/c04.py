from hypothesis import strategies as st

from saltchannel.exceptions import SaltChannelException
from vh import chan, gen, ref
from vh.core import Sub, Skip, check, exc_text, fail, same_bytes, expand

RULE = ("tamper: one handshake message of an honest client/server pair is altered (bit flip at any position, truncation, "
        "extension, field overwrite, message of another session, reflection, swap, drop, duplicate, arbitrary bytes). "
        "impersonate: a reference peer lacking the victim's signing key plays client or server with a forged proof. "
        "relay: a man in the middle with own ephemeral keys forwards genuine signatures. Non-trivial: the delivered bytes "
        "differ from the honest ones (tamper) or the claimed identity is not the attacker's (impersonate, relay).")
ASSUMPTIONS = ["the attacker has no secret key of the peers and does not break Ed25519, X25519 or XSalsa20-Poly1305",
               "flag byte of the encrypted packet header is unauthenticated by design and is not altered"]

# position in the handshake: (direction, index of the message in that direction)
WHERE = [("up", 0), ("down", 0), ("down", 1), ("up", 1)]


def mutation():
    return st.one_of(
        st.tuples(st.just("flip"), st.integers(0, 200), st.integers(0, 7)).map(list),
        st.tuples(st.just("flip"), st.integers(0, 200), st.integers(0, 7)).map(list),
        st.tuples(st.just("flip"), st.integers(0, 200), st.integers(0, 7)).map(list),
        st.tuples(st.just("trunc"), st.integers(1, 130)).map(list),
        st.tuples(st.just("extend"), st.one_of(st.binary(min_size=1, max_size=40), st.sampled_from([b"\x00", bytes(16), bytes(32)]))).map(list),
        st.tuples(st.just("set"), st.integers(0, 120), st.binary(min_size=1, max_size=32)).map(list),
        st.tuples(st.just("other"), st.integers(0, 3), st.sampled_from(["all", "enc", "time"])).map(list),
        st.tuples(st.just("reflect"), st.integers(0, 1)).map(list),
        st.tuples(st.just("raw"), st.binary(max_size=60)).map(list),
        st.just(["drop"]), st.just(["swap"]), st.just(["double"]), st.just(["zero-body"]),
        st.tuples(st.just("earlier"), st.integers(0, 3)).map(list),
        # something more in front of the honest message: junk, a packet of another handshake, what the receiver sent itself
        st.tuples(st.just("insert"), st.one_of(st.binary(max_size=60), st.integers(0, 9), st.sampled_from([b"", b"\x00\x00", b"\x03\x00", b"\x06\x00", b"\x08\x00\x01"]))).map(list),
    )


def case():
    return st.fixed_dictionaries(dict(
        c=gen.party(), s=gen.party(), buf=st.tuples(st.booleans(), st.booleans()).map(list), wanted=st.booleans(),
        where=st.integers(0, 3), mut=mutation(), delays=st.lists(st.integers(0, 2), max_size=3),
        prior=st.sampled_from([None, None, "enc", "c", "s", "same"])))


def honest(ck, sk, wanted, t=0):
    """The honest transcript of these keys by the reference implementation: up, down lists."""
    rc, rs = ref.Client(ck, (t, t), sk.sig_pub if wanted else None), ref.Server(sk, (t, t))
    up = rc.start()
    down = rs.feed(up[0])
    rc.feed(down[0])
    up += rc.feed(down[1])
    return up, down


def body(case, rec):
    ck, sk = gen.keys(case["c"]), gen.keys(case["s"])
    dirn, idx = WHERE[case["where"]]
    mut = case["mut"]
    hup, hdown = honest(ck, sk, case["wanted"])
    orig = (hup if dirn == "up" else hdown)[idx]
    state = dict(n=0, hit=False)
    sent_by_victim = []

    def change(raw):
        k = mut[0]
        if k == "flip":
            i = mut[1] % len(raw)
            if raw[0] == ref.T_ENC and i == 1:
                i = 2
            b = bytearray(raw)
            b[i] ^= 1 << mut[2]
            return [bytes(b)]
        if k == "trunc":
            return [raw[:max(0, len(raw) - mut[1])]]
        if k == "extend":
            return [raw + mut[1]]
        if k == "set":
            i = mut[1] % len(raw)
            b = bytearray(raw)
            b[i:i + len(mut[2])] = mut[2]
            b = b[:len(raw)]
            if raw[0] == ref.T_ENC and b[0] == ref.T_ENC:
                b[1] = raw[1]
            return [bytes(b)]
        if k == "other":
            o = gen.keys([case["c"][0] if mut[2] in ("enc", "time") else 2**41 + 1, case["c"][1] if mut[2] == "time" else 2**41 + 2])
            p = gen.keys([case["s"][0] if mut[2] in ("enc", "time") else 2**41 + 3, case["s"][1] if mut[2] == "time" else 2**41 + 4])
            up, down = honest(o, p, case["wanted"], 1 if mut[2] == "time" else 0)
            pool = up + down
            return [pool[mut[1] % len(pool)]]
        if k == "reflect":
            pool = sent_by_victim or [raw]
            return [pool[mut[1] % len(pool)]]
        if k == "raw":
            return [mut[1]]
        if k == "earlier":             # the message in this place, or another one, of the handshake before
            return [(pool_before[case["where"]:] + pool_before)[mut[1] if prior else 0]] if pool_before else [raw]
        if k == "zero-body":
            return [raw[:2] + bytes(len(raw) - 2)]
        if k == "drop":
            return []
        if k == "double":
            return [raw, raw]
        if k == "insert":
            if isinstance(mut[1], bytes):
                return [mut[1], raw]
            up, down = honest(gen.keys([2**41 + 1, 2**41 + 2]), gen.keys([2**41 + 3, 2**41 + 4]), case["wanted"])
            pool = up + down + list(sent_by_victim) + [raw[:-1], raw + b"\x00", raw[:1] + b"\x00" + raw[2:]]
            first = pool[mut[1] % len(pool)]
            return [first, raw] if first != raw else [raw[:2], raw]
        raise AssertionError(k)

    held = []
    prior, pool_before = case.get("prior"), []

    def tap_for(d):
        counter = dict(i=0)

        def tap(msgs, last):
            out = []
            for raw in msgs:
                i = counter["i"]
                counter["i"] += 1
                if not armed:
                    counter["i"] = 0
                    out.append(raw)
                    continue
                if d == dirn and i == idx:
                    state["hit"] = True
                    if mut[0] == "swap":
                        held.append(raw)
                        continue
                    new = change(raw)
                    if new == [raw]:
                        state["same"] = True
                    out.extend(new)
                else:
                    if d != dirn:
                        sent_by_victim.append(raw)
                    out.append(raw)
                    if d == dirn and held:
                        out.append(held.pop())
            return out
        return tap

    net = chan.Net(case["delays"])
    armed = []
    a, b = net.pipe(tap_for("up"), tap_for("down"))
    c = gen.client(ck, a, case["buf"][0], sk.sig_pub if case["wanted"] else None)
    s = gen.server(sk, b, case["buf"][1])
    if prior:
        # an honest handshake of the same session objects came before; then new encryption keys on one side, both or none
        before = [gen.keys([x[0], y]) for x, y in zip((case["c"], case["s"]), (2**42 + 1, 2**42 + 2))]
        if prior in ("c", "same"):
            before[1] = sk
        if prior in ("s", "same"):
            before[0] = ck
        c.enc_keypair, s.enc_keypair = gen.enc_pair(before[0]), gen.enc_pair(before[1])

        async def all_c():
            await c.handshake()
            if case["buf"][0]:
                await c.app_channel.write(b"before")

        async def all_s():
            await s.handshake()
            if case["buf"][0]:
                await s.app_channel.read()
        for x in chan.run(net.gather(all_c(), all_s())):
            if isinstance(x, BaseException):
                fail("the honest handshake before failed: {}", exc_text(x))
        pool_before.extend([a.sent[0], b.sent[0], b.sent[1], a.sent[1]])
        c.enc_keypair, s.enc_keypair = gen.enc_pair(ck), gen.enc_pair(sk)
        rec.label("same session objects as in an honest handshake before: " + prior)
    armed.append(1)

    done = dict(c=False, s=False)

    async def run_c():
        await c.handshake()
        done["c"] = True
        if case["buf"][0]:
            await c.app_channel.write(b"payload")

    async def run_s():
        await s.handshake()
        done["s"] = True

    rc, rs = chan.run(net.gather(run_c(), run_s()))
    if not state["hit"] or state.get("same"):
        raise Skip()
    # which side received the altered message
    victim, res, ok = ("server", rs, done["s"] and not s.is_done) if dirn == "up" else ("client", rc, done["c"])
    k = mut[0]
    if k == "double":
        # the second copy comes where another message is expected; only the last message doubled leaves the handshake intact
        if (dirn, idx) in (("up", 1), ("down", 1)):
            return
        if (dirn, idx) == ("up", 0):
            victim, res, ok = "server", rs, done["s"] and not s.is_done
    if k == "swap" and (dirn, idx) == ("down", 1):
        raise Skip()                       # nothing follows M3, so it was only held back for ever: same as drop
    if ok:
        fail("{} completed its handshake although {} {} was altered by {}", victim, dirn, idx, mut)
    if isinstance(res, BaseException):
        if not isinstance(res, SaltChannelException):
            fail("{} failed with {}", victim, exc_text(res))
    elif not (victim == "server" and s.is_done):
        fail("{} neither failed nor completed", victim)
    # identity: an altered M1 or M2 must also stop the other side from completing
    if case["where"] in (0, 1) and k not in ("drop", "double", "swap", "insert"):
        if done["s"] and not s.is_done:
            fail("server completed although {} {} was altered by {}", dirn, idx, mut)
        if done["c"]:
            fail("client completed although {} {} was altered by {}", dirn, idx, mut)
    rec.label(k, "message %d" % case["where"])
    rec.nontrivial()


# ---------------------------------------------------------------- impersonation by a peer without the key

FORGE = ["random", "own", "wrong prefix", "other session", "swapped hashes", "m1 only", "victim's other role", "zero",
         "small order", "truncated transcript", "honest"]


def imp_case():
    return st.fixed_dictionaries(dict(
        role=st.sampled_from(["client", "server"]), sut=gen.party(), att=gen.party(), victim=gen.party(),
        forge=st.sampled_from(FORGE), buf=st.booleans(), r=st.integers(0, 1000), wanted=st.booleans(), time=st.integers(0, 1)))


def forged(case, att, victim, transcript, mine, other_prefix):
    """(claimed key, signature) for the forgery of the case."""
    f = case["forge"]
    if f == "random":
        return victim.sig_pub, expand(64, case["r"])
    if f == "own":
        return victim.sig_pub, ref.sign(att.sig_sec, mine + transcript)
    if f == "wrong prefix":
        return victim.sig_pub, ref.sign(victim.sig_sec, other_prefix + transcript)      # victim signed in its other role
    if f == "other session":
        return victim.sig_pub, ref.sign(victim.sig_sec, mine + expand(128, case["r"]))
    if f == "swapped hashes":
        return victim.sig_pub, ref.sign(victim.sig_sec, mine + transcript[64:] + transcript[:64])
    if f == "m1 only":
        return victim.sig_pub, ref.sign(victim.sig_sec, mine + transcript[:64] + expand(64, case["r"]))
    if f == "victim's other role":
        return victim.sig_pub, ref.sign(victim.sig_sec, other_prefix + transcript[64:] + transcript[:64])
    if f == "zero":
        return victim.sig_pub, bytes(64)
    if f == "small order":
        key = ref.LOW_ORDER[case["r"] % 2]
        return key, (key + bytes(32)) if case["r"] % 3 else bytes(64)
    if f == "truncated transcript":
        return victim.sig_pub, ref.sign(victim.sig_sec, mine + transcript[:127])
    return att.sig_pub, ref.sign(att.sig_sec, mine + transcript)


def impersonate(case, rec):
    sut, att, victim = gen.keys(case["sut"]), gen.keys(case["att"]), gen.keys(case["victim"])
    if len({sut.sig_pub, att.sig_pub, victim.sig_pub}) < 3:
        att, victim = gen.keys([2**41 + 1, case["att"][1]]), gen.keys([2**41 + 2, case["victim"][1]])
    t = case["time"]
    if case["role"] == "client":
        def on_write(msgs, last):
            out = []
            for raw in msgs:
                if raw[:4] == b"SCv2" and "link" not in st_:
                    f = ref.d_m1(raw)[1]
                    m2 = ref.m2(att.enc_pub, t)
                    st_["link"] = ref.Link(ref.shared(att.enc_sec, f["enc"]), client=False)
                    tr = ref.sha512(raw) + ref.sha512(m2)
                    key, sig = forged(case, att, victim, tr, ref.SIG1, ref.SIG2)
                    out += [m2, st_["link"].send(ref.m34(ref.T_M3, key, sig, t))]
            return out
        st_ = {}
        ch = chan.PeerChannel(on_write)
        s = gen.client(sut, ch, case["buf"])
    else:
        st_ = {}
        m1 = ref.m1(att.enc_pub, t, sut.sig_pub if case["wanted"] else None)

        def on_write(msgs, last):
            out = []
            for raw in msgs:
                if raw[0] == ref.T_M2:
                    f = ref.d_m2(raw)[1]
                    link = ref.Link(ref.shared(att.enc_sec, f["enc"]), client=True)
                    tr = ref.sha512(m1) + ref.sha512(raw)
                    key, sig = forged(case, att, victim, tr, ref.SIG2, ref.SIG1)
                    out.append(link.send(ref.m34(ref.T_M4, key, sig, t)))
            return out
        ch = chan.PeerChannel(on_write, [m1])
        s = gen.server(sut, ch, case["buf"])
    try:
        chan.run(s.handshake())
        ok = True
    except SaltChannelException as e:
        ok, err = False, e
    if case["forge"] == "honest":
        check(ok, "honest peer refused: {}", exc_text(err) if not ok else "")
        same_bytes(s.m3.ServerSigKey if case["role"] == "client" else s.client_sig_key, att.sig_pub, "reported identity")
        return
    if ok:
        fail("{} accepted a forged proof of identity ({})", case["role"], case["forge"])
    rec.label(case["role"] + ": " + case["forge"])
    rec.nontrivial()


# ---------------------------------------------------------------- man in the middle with own ephemeral keys

def relay_case():
    return st.fixed_dictionaries(dict(c=gen.party(), s=gen.party(), m=st.integers(0, 2**20), buf=st.booleans(),
                                      own_m2=st.booleans(), target=st.sampled_from(["client", "server"])))


def relay(case, rec):
    ck, sk = gen.keys(case["c"]), gen.keys(case["s"])
    m = 2**41 + case["m"]              # no key of the attacker is one of the victims'
    mk1, mk2 = gen.keys([m, m + 1]), gen.keys([m + 2, m + 3])
    if case["target"] == "client":
        # the real server (reference) talks to the attacker, who hands its signature on to the client
        def on_write(msgs, last):
            out = []
            for raw in msgs:
                if raw[:4] == b"SCv2":
                    f = ref.d_m1(raw)[1]
                    real = ref.Server(sk)
                    down = real.feed(ref.m1(mk1.enc_pub))
                    lk = ref.Link(ref.shared(mk1.enc_sec, sk.enc_pub), client=True)
                    m3 = lk.recv(down[1])[0]
                    m2 = ref.m2(mk2.enc_pub) if case["own_m2"] else ref.m2(mk1.enc_pub)
                    to_c = ref.Link(ref.shared((mk2 if case["own_m2"] else mk1).enc_sec, f["enc"]), client=False)
                    out += [m2, to_c.send(m3)]
            return out
        ch = chan.PeerChannel(on_write)
        s = gen.client(ck, ch, case["buf"])
    else:
        m1 = ref.m1(mk1.enc_pub)

        def on_write(msgs, last):
            out = []
            for raw in msgs:
                if raw[0] == ref.T_M2:
                    f = ref.d_m2(raw)[1]
                    # the real client (reference) was lured into a handshake with the attacker
                    cl = ref.Client(ck)
                    m1c = cl.start()[0]
                    srv = ref.Server(mk2)
                    down = srv.feed(m1c)
                    cl.feed(down[0])
                    m4 = srv.link.recv(cl.feed(down[1])[0])[0]
                    lk = ref.Link(ref.shared(mk1.enc_sec, f["enc"]), client=True)
                    out.append(lk.send(m4))
            return out
        ch = chan.PeerChannel(on_write, [m1])
        s = gen.server(sk, ch, case["buf"])
    try:
        chan.run(s.handshake())
    except SaltChannelException:
        rec.label(case["target"])
        rec.nontrivial()
        return
    fail("{} accepted a signature relayed from another handshake", case["target"])


def all_flips(tier):
    """Every byte position of every handshake message, one bit each (all bits when thorough)."""
    out = []
    for buf in ([False, False], [True, True]):
        for w, n in ((0, 42), (1, 38), (2, 120), (3, 120)):
            for i in range(n):
                for bit in (range(8) if tier == "thorough" else [(i * 5 + w) % 8]):
                    out.append(dict(c=[1, 2], s=[3, 4], buf=buf, wanted=False, where=w, mut=["flip", i, bit], delays=[]))
            for k in range(1, n + 1):
                out.append(dict(c=[1, 2], s=[3, 4], buf=buf, wanted=False, where=w, mut=["trunc", k], delays=[]))
    return out


CHECKS = [
    Sub("every_byte", None, body, quick=1, cases=all_flips),
    Sub("tamper", case, body, quick=12000, thorough=200000),
    Sub("impersonate", imp_case, impersonate, quick=9000, thorough=150000),
    Sub("relay", relay_case, relay, quick=1500, thorough=20000),
]
