from hypothesis import strategies as st

from saltchannel.exceptions import SaltChannelException
from vh import chan, gen, ref, vtime
from vh.core import Sub, check, same_bytes, exc_text, fail

RULE = ("Key pairs (random, extreme), buffering options, wanted server key, clocks, task schedules (also with up to months between two messages, on a virtual-time loop) and 1-3 handshakes in a "
        "row on one connection (with new or the same session objects, new or the same encryption keys, the same or another client or server) are generated. Non-trivial: every handshake of the case completed and at least one option "
        "(buffering, wanted key, own clock, delayed schedule, extreme key, repeated handshake) was in use; for the refusal "
        "check: a session without key pair was started.")
ASSUMPTIONS = ["PyNaCl's libsodium is the reference for NaCl", "reliable in-memory message channel"]


def case():
    return st.fixed_dictionaries(dict(
        c=gen.party(), s=gen.party(), buf=st.tuples(st.booleans(), st.booleans()).map(list), wanted=st.booleans(),
        tc=gen.timing_varied(), ts=gen.timing_varied(), any_first=st.one_of(st.none(), st.none(), st.tuples(
            gen.timing_varied(gen.U32), gen.timing_varied(gen.U32)).map(list)), delays=gen.delays(), rounds=st.sampled_from([1, 1, 1, 1, 1, 1, 2, 2, 3, 3, 7]),
        up=gen.msg(0), down=gen.msg(0), server_first=st.booleans(),
        reuse=st.booleans(), later=st.lists(st.tuples(gen.tag32(gen.ODD_ENC), gen.tag32(gen.ODD_ENC)).map(list), max_size=2),
        others=st.lists(st.tuples(gen.tag32(gen.ODD_SIG), gen.tag32(gen.ODD_SIG), st.sampled_from([0, 1, 2, 3])).map(list), max_size=2)))


def body(case, rec):
    ck, sk = gen.keys(case["c"]), gen.keys(case["s"])
    net = chan.Net(case["delays"])
    a, b = net.pipe()
    up, down = gen.mk(case["up"]), gen.mk(case["down"])
    later = case.get("later") or []
    others = case.get("others") or []
    c = s = None
    for r in range(case["rounds"]):
        if r and r <= len(later):      # other encryption keys for this handshake
            ck, sk = gen.Mixed(ck, gen.keys([1, later[r - 1][0]])), gen.Mixed(sk, gen.keys([1, later[r - 1][1]]))
        new = 0
        if r and r <= len(others):     # another client (1) or server (2) takes part in this handshake
            x, y, new = others[r - 1]
            ck = gen.Mixed(gen.keys([x, 1]), ck) if new & 1 else ck
            sk = gen.Mixed(gen.keys([y, 1]), sk) if new & 2 else sk
        want_key = ref.shared(ck.enc_sec, sk.enc_pub)
        if c is None or not case.get("reuse"):
            c = gen.client(ck, a, case["buf"][0], sk.sig_pub if case["wanted"] else None)
            s = gen.server(sk, b, case["buf"][1])
        else:
            if new & 1:
                c = gen.client(ck, a, case["buf"][0], sk.sig_pub if case["wanted"] else None)
            if new & 2:
                s = gen.server(sk, b, case["buf"][1])
                c.wanted_server_sig_key = sk.sig_pub if case["wanted"] else b""
            c.enc_keypair, s.enc_keypair = gen.enc_pair(ck), gen.enc_pair(sk)
        tc, ts = case["tc"], case["ts"]
        if case["any_first"]:       # checkers that accept every first time
            tc, ts = case["any_first"]
            c.time_checker, s.time_checker = gen.Checker(), gen.Checker()
        gen.set_timing(c, tc)
        gen.set_timing(s, ts)
        first = case["server_first"] and not case["buf"][0]

        async def run_c():
            await c.handshake()
            got = None
            if first:
                got = await c.app_channel.read()
            await c.app_channel.write(up)
            if not first:
                got = await c.app_channel.read()
            return got

        async def run_s():
            await s.handshake()
            if first:
                await s.app_channel.write(down)
            got = await s.app_channel.read()
            if not first:
                await s.app_channel.write(down)
            return got

        rc, rs = chan.run(net.gather(run_c(), run_s()))
        for who, x in (("client", rc), ("server", rs)):
            if isinstance(x, BaseException):
                fail("honest {} failed: {}", who, exc_text(x))
        same_bytes(rc, down, "first data to the client")
        same_bytes(rs, up, "first data to the server")
        same_bytes(c.session_key, want_key, "client's session key")
        same_bytes(s.session_key, want_key, "server's session key")
        same_bytes(c.m3.ServerSigKey, sk.sig_pub, "server key reported by the client")
        same_bytes(s.client_sig_key, ck.sig_pub, "client key reported by the server")
        check(not a.queue and not b.queue, "messages left over on the connection")
        check(s.a2 is None and not s.is_done, "server reports the session done after the handshake")
    opt = []
    if any(case["buf"]):
        opt.append("buffered")
    if case["wanted"]:
        opt.append("wanted")
    if case["tc"] or case["ts"] or case["any_first"]:
        opt.append("clock")
    if any(case["delays"]):
        opt.append("schedule")
    if case["rounds"] > 1:
        opt.append("repeated with the same objects" if case.get("reuse") else "repeated")
    if any(isinstance(x, bytes) for x in case["c"] + case["s"]):
        opt.append("own key bytes")
    rec.label(*opt)
    rec.nontrivial(bool(opt))


def slow_case():
    return st.tuples(case(), gen.slow_delays()).map(lambda t: dict(t[0], delays=t[1]))


def slow_body(case, rec):
    """The same with hours between the messages, on a loop where waiting takes no time."""
    with vtime.patient():
        body(case, rec)
    rec.label("waits of more than %s s" % max([x for x in (0, 1, 60, 3600, 10**6) if x * 1000 < max(case["delays"])] or [0]))


def refuse_case():
    return st.fixed_dictionaries(dict(role=st.sampled_from(["client", "server"]), k=gen.party(), buf=st.booleans(),
                                      sync=st.booleans(), wanted=st.booleans(), before=st.sampled_from([None, None, "done", "failed", "refused"])))


def refuse(case, rec):
    k = gen.keys(case["k"])
    ch = chan.PeerChannel(inbox=[b"\x00" * 42, b"x"])
    s = gen.client(k, ch, case["buf"], k.sig_pub if case["wanted"] else None) if case["role"] == "client" \
        else gen.server(k, ch, case["buf"])
    before = case.get("before")
    if before:
        # the same session object has been through a handshake, or tried to
        if before == "refused":
            s.enc_keypair = None
        elif before == "done":
            peer = ref.Server(gen.keys([2**41, 2**41 + 1])) if case["role"] == "client" else ref.Client(gen.keys([2**41, 2**41 + 1]))
            if case["role"] == "client":
                s.wanted_server_sig_key = b""
            ch.inbox[:] = peer.start() if case["role"] == "server" else []
            ch.on_write = chan.peer_channel(peer).on_write
        try:
            chan.run(s.handshake())
        except (SaltChannelException, ValueError):
            check(before != "done", "the handshake before failed")
        ch.inbox, ch.groups, ch.sent, ch.reads, ch.on_write = [b"\x00" * 42, b"x"], [], [], 0, None
        rec.label("handshake before: " + before)
    s.enc_keypair = None
    try:
        if case["sync"]:
            s.handshake_sync()
        else:
            chan.run(s.handshake())
    except ValueError:
        pass
    except Exception as e:
        fail("{} without encryption keys: {}", case["role"], exc_text(e))
    else:
        fail("{} without encryption keys: handshake() returned", case["role"])
    check(not ch.groups and not ch.reads, "I/O before refusing the missing key pair")
    rec.label(case["role"])
    rec.nontrivial()


CHECKS = [
    Sub("honest_handshake", case, body, quick=18000, thorough=300000),
    Sub("slow", slow_case, slow_body, quick=1500, thorough=20000),
    Sub("no_key_pair", refuse_case, refuse, quick=1200, thorough=4000),
]
