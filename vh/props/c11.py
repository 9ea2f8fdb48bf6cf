from hypothesis import strategies as st

from saltchannel.exceptions import BadPeer, ComException, NoSuchServerException, SaltChannelException
from vh import chan, gen, ref
from vh.core import Sub, check, exc_text, fail, short

RULE = ("A server is asked for its own key, no key, or another one (unrelated, or differing in one bit, shifted, reversed, zero, its "
        "encryption key); a client with a wanted key meets a server with that key, a server with another key that ignores the "
        "request, a server that gives the wanted key as its own without holding it, a NoSuchServer answer, or this library's own server. The session objects also serve or ask several times, and the write of the NoSuchServer answer may fail. Reference peers on the other side. Non-trivial: the key asked "
        "for is not the key of the server that is there.")


def other_key(own, how, n, enc):
    b = bytearray(own)
    if how == "bit":
        b[n % 32] ^= 1 << (n // 32 % 8)
    elif how == "shift":
        b = b[1:] + b[:1]
    elif how == "reverse":
        b = b[::-1]
    elif how == "zero":
        b = bytes(32)
    elif how == "ff":
        b = b"\xff" * 32
    elif how == "enc":
        b = enc
    elif how == "tag":
        b = gen.b32(n)
    elif how == "own":
        pass
    return bytes(b)


HOW = st.one_of(st.sampled_from(["bit", "bit", "bit", "shift", "reverse", "zero", "ff", "enc", "tag", "own", "own"]))


def server_case():
    return st.fixed_dictionaries(dict(server=gen.party(), client=gen.party(), how=st.one_of(st.none(), HOW), n=st.integers(0, 300),
                                      buf=st.booleans(), sync=st.booleans(), first=st.integers(0, 1),
                                      more=st.lists(st.tuples(st.one_of(st.none(), HOW), st.integers(0, 300)).map(list), max_size=3)))


def outcome(session, sync):
    try:
        if sync:
            session.handshake_sync()
        else:
            chan.run(session.handshake())
        return None
    except SaltChannelException as e:
        return e


def server_body(case, rec):
    """One or several clients ask one server session object, one after the other."""
    sk, ck = gen.keys(case["server"]), gen.keys(case["client"])
    ch = chan.PeerChannel()
    s = gen.server(sk, ch, case["buf"])
    asked(case, sk, ck, s, ch, True, rec)
    for i, (how, n) in enumerate(case.get("more", [])):
        s.enc_keypair = gen.enc_pair(gen.keys([0, 2**41 + i]))
        asked(dict(case, how=how, n=n), gen.Mixed(sk, gen.keys([0, 2**41 + i])), gen.keys([2**42 + i, 2**43 + i]), s, ch, False, rec)
        rec.label("asked again")


def asked(case, sk, ck, s, ch, fresh, rec):
    wanted = None if case["how"] is None else other_key(sk.sig_pub, case["how"], case["n"], sk.enc_pub)
    peer = ref.Client(ck, (case["first"], 5), wanted)
    ch.inbox, ch.sent, ch.groups, ch.on_write = peer.start(), [], [], None
    match = wanted is None or wanted == sk.sig_pub
    if match:
        ch.on_write = lambda msgs, last: [r for m in msgs for r in peer.feed(m)]
    e = outcome(s, case["sync"])
    rec.label("server asked for " + (case["how"] or "none"))
    if match:
        check(e is None, "server refused a client that asked for {}: {}", "its key" if wanted else "no key", exc_text(e) if e else "")
        check(peer.peer_sig == sk.sig_pub, "server did not authenticate with its key")
        check(bytes(s.client_sig_key) == ck.sig_pub, "the server reports another client")
        return
    rec.nontrivial()
    check(isinstance(e, NoSuchServerException), "server asked for {} (own key {}): {} instead of NoSuchServerException",
          wanted.hex(), sk.sig_pub.hex(), exc_text(e) if e else "success")
    check(len(ch.sent) == 1, "server sent {} messages to a client that asked for another server", len(ch.sent))
    v, f = ref.d_m2(ch.sent[0])
    check(v == "ok" and f["nosuch"] == 1 and f["last"] == 1, "the answer is {} instead of a NoSuchServer M2 with last flag", short(ch.sent[0]))
    check(f["enc"] == bytes(32), "the NoSuchServer M2 carries the key {}", f["enc"].hex())
    if not fresh:
        return
    check(s.app_channel is None and s.enc_channel is None, "a session was set up although the client asked for another server")
    check(s.client_sig_key is None, "a client key is reported although no handshake took place")


class Failing(chan.PeerChannel):
    """The first writes fail, the later ones work."""
    left, exc = 0, None

    def _write(self, msgs, is_last):
        if self.left:
            self.left -= 1
            self.tried = [bytes(m) for m in msgs]
            raise self.exc
        super()._write(msgs, is_last)


FAULTS = dict(com=lambda: ComException("injected"), os=lambda: OSError("injected"), reset=lambda: ConnectionResetError("injected"),
              pipe=lambda: BrokenPipeError("injected"), timeout=lambda: TimeoutError("injected"), bad=lambda: BadPeer("injected"))


def failing_case():
    return st.fixed_dictionaries(dict(server=gen.party(), client=gen.party(), how=HOW, n=st.integers(0, 300), buf=st.booleans(),
                                      sync=st.booleans(), fails=st.integers(1, 2), exc=st.sampled_from(sorted(FAULTS))))


def failing_body(case, rec):
    """The NoSuchServer answer cannot be sent: there is still no session."""
    sk, ck = gen.keys(case["server"]), gen.keys(case["client"])
    wanted = other_key(sk.sig_pub, case["how"], case["n"], sk.enc_pub)
    if wanted == sk.sig_pub:
        wanted = bytes(32)
    peer = ref.Client(ck, (0, 5), wanted)
    ch = Failing(lambda msgs, last: [r for m in msgs if ref.d_m2(m)[0] == "ok" and not ref.d_m2(m)[1]["nosuch"] or m[0] == 6 for r in peer.feed(m)],
                 inbox=peer.start())
    ch.left, ch.exc = case["fails"], FAULTS[case["exc"]]()
    s = gen.server(sk, ch, case["buf"])
    try:
        s.handshake_sync() if case["sync"] else chan.run(s.handshake())
    except Exception:
        pass
    else:
        fail("the handshake of a server asked for another key succeeded when its answer could not be written")
    for m in ch.sent:
        v, f = ref.d_m2(m)
        check(v == "ok" and f["nosuch"] == 1, "after its NoSuchServer answer could not be written the server sent {}", short(m))
    check(s.app_channel is None and s.enc_channel is None, "a session was set up although the client asked for another server")
    check(s.client_sig_key is None, "a client key is reported although no handshake took place")
    rec.label("answer fails: " + case["exc"])
    rec.nontrivial()


def bits(tier):
    return [dict(server=[i % 7, 90], client=[91, 92], how="bit", n=i, buf=bool(i & 1), sync=bool(i & 2), first=0) for i in range(256)]


def many(tier):
    """One session object that is asked over and over."""
    hows = [[None, 0], ["bit", 3], ["own", 0], ["tag", 900001], ["zero", 0], ["bit", 255], ["own", 0], ["enc", 0], [None, 1]]
    return [dict(server=[3, 90], client=[91, 92], how=h, n=1, buf=b, sync=y, first=0, more=(hows[i:] + hows[:i]) * 12 if i % 2 else [["bit", j] for j in range(60)])
            for i, h in enumerate([None, "bit", "own", "zero"]) for b in (False, True) for y in (False, True)]


def client_case():
    return st.fixed_dictionaries(dict(
        server=gen.party(), client=gen.party(), how=st.one_of(st.none(), HOW), n=st.integers(0, 300), buf=st.booleans(),
        sync=st.booleans(), peer=st.sampled_from(["ignores", "ignores", "tells", "library", "claims"]), nokey=st.booleans(),
        before=st.one_of(st.none(), HOW), ba=st.booleans()))


class Pretender(ref.Server):
    def on_m1(self, raw):
        out = super().on_m1(raw)
        self.link = ref.Link(self.key, client=False)
        return out[:1] + [self.link.send(ref.m34(ref.T_M3, self.claim, ref.sign(self.k.sig_sec, ref.SIG1 + self.transcript), self.times[1]))]


def client_body(case, rec):
    sk, ck = gen.keys(case["server"]), gen.keys(case["client"])
    wanted = None if case["how"] is None else other_key(sk.sig_pub, case["how"], case["n"], sk.enc_pub)
    match = wanted is None or wanted == sk.sig_pub
    rec.label("client: peer " + case["peer"], "wants " + (case["how"] or "any"))
    if case["peer"] == "library":
        return library(case, sk, ck, wanted, match, rec)
    if case["peer"] == "tells":
        raw = ref.m2(bytes(32) if case["nokey"] else sk.enc_pub, 0, True, True)
        ch = chan.PeerChannel(lambda m, l: [raw])
    else:
        peer = ref.Server(sk)
        if case["peer"] == "claims":         # signs with its own key, but gives the wanted one as its key
            peer = Pretender(gen.keys([2**44 + 3, 2**44 + 4]))
            peer.claim = sk.sig_pub if wanted is None else wanted
            match = False
        ch = chan.peer_channel(peer)
    s = gen.client(ck, ch, case["buf"], bytearray(wanted) if wanted and case.get("ba") else wanted)
    if case.get("before"):
        # the same session object asked for a server before: for the one that was there, or another one
        k2 = gen.keys([2**44 + 1, 2**44 + 2])
        s.wanted_server_sig_key = other_key(k2.sig_pub, case["before"], case["n"], k2.enc_pub)
        real, ch.on_write = ch.on_write, chan.peer_channel(ref.Server(k2)).on_write
        check((outcome(s, case["sync"]) is None) == (s.wanted_server_sig_key == k2.sig_pub), "first handshake of the session object went wrong")
        ch.on_write, ch.inbox, ch.sent, ch.groups = real, [], [], []
        s.wanted_server_sig_key = b"" if wanted is None else (bytearray if case.get("ba") else bytes)(wanted)
        rec.label("asked before")
    e = outcome(s, case["sync"])
    v, f = ref.d_m1(ch.sent[0]) if ch.sent else ("bad", None)
    check(v == "ok", "the first message is not an M1: {}", short(ch.sent and ch.sent[0]))
    check(f["included"] == int(wanted is not None) and f["wanted"] == (wanted or b""),
          "M1 names {} although the client wants {}", f["wanted"].hex() or "no server", wanted.hex() if wanted else "any")
    if case["peer"] == "tells":
        check(isinstance(e, NoSuchServerException), "client told NoSuchServer: {}", exc_text(e) if e else "success")
        check(len(ch.sent) == 1, "client went on after NoSuchServer")
        check(case.get("before") or s.app_channel is None, "session set up after NoSuchServer")
        rec.nontrivial()
    elif match:
        check(e is None, "client refused the server it wants: {}", exc_text(e) if e else "")
        check(bytes(s.m3.ServerSigKey) == sk.sig_pub, "wrong server key reported")
    else:
        rec.nontrivial()
        check(e is not None, "client that wants {} completed its handshake with {}", wanted.hex() if wanted else "any server",
              "one that does not hold the key it gave" if case["peer"] == "claims" else sk.sig_pub.hex())
        check(len(ch.sent) == 1, "client authenticated itself to a server it did not ask for")


def library(case, sk, ck, wanted, match, rec):
    """This library on both sides."""
    net = chan.Net()
    a, b = net.pipe()
    c, s = gen.client(ck, a, case["buf"], wanted), gen.server(sk, b, case["nokey"])

    async def use(sess, msg):
        await sess.handshake()
        await sess.app_channel.write(msg)
        return bytes(await sess.app_channel.read())

    async def go():
        return await net.gather(use(c, b"from client"), use(s, b"from server"))
    rc, rs = chan.run(go())
    if match:
        check(rc == b"from server" and rs == b"from client", "handshake with the wanted server: {}, {}", short(rc), short(rs))
    else:
        rec.nontrivial()
        for who, r in (("client", rc), ("server", rs)):
            check(isinstance(r, NoSuchServerException), "{} ended with {} instead of NoSuchServerException", who, short(r))


def client_bits(tier):
    return [dict(server=[i % 7, 90], client=[91, 92], how="bit", n=i, buf=bool(i & 1), sync=bool(i & 2), peer="ignores", nokey=True)
            for i in range(256)]


CHECKS = [
    Sub("server_every_bit", None, server_body, quick=1, cases=bits),
    Sub("client_every_bit", None, client_body, quick=1, cases=client_bits),
    Sub("server_many_times", None, server_body, quick=1, cases=many),
    Sub("server", server_case, server_body, quick=15000, thorough=250000),
    Sub("server_write_fails", failing_case, failing_body, quick=2400, thorough=40000),
    Sub("client", client_case, client_body, quick=15000, thorough=250000),
]
