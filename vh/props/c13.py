from hypothesis import strategies as st

from saltchannel.exceptions import BadPeer, SaltChannelException, TimeException
from saltchannel.util.time import NullTimeChecker, NullTimeKeeper, TimeChecker, TimeKeeper
from vh import chan, gen, ref
from vh.core import Sub, check, exc_text, fail, short

RULE = ("Sessions with time keepers that hand out generated distinct values and recording time checkers (optionally refusing the k-th "
        "time with a generated error) run against reference peers with generated times, and several sessions run interleaved in one "
        "process; times on the wire are compared with what the keeper gave in that very operation, checker calls with the times "
        "received. Non-trivial: a checker refusal, a non-zero clock, or more than one session.")


def distinct(first, base, step, n=40):
    """Values for one keeper: distinct, spread over 32 bits, never equal to first."""
    out, v = [], base
    while len(out) < n:
        v = (v + step) % 2**32
        if v != first and v not in out:
            out.append(v)
    return out


class Clock(gen.Keeper):
    def mark(self):
        return len(self.log)

    def since(self, m, kind=None):
        return [v for k, v in self.log[m:] if kind is None or k == kind]


def clock(c):
    return Clock(c[0], distinct(c[0], c[1], c[2] * 2 + 1))


def begin(first, value, step):
    """A clock whose first ordinary time is the given one (as long as it is not the first time itself)."""
    return [first, (value - step * 2 - 1) % 2**32, step]


CLOCK = st.one_of(st.tuples(gen.U32, gen.U32, st.integers(0, 2**31 - 1)).map(list),
                  st.builds(begin, st.sampled_from([0, 1, 1, 2]), st.sampled_from([0, 0, 1, 2, 3, 255, 65536]), st.integers(0, 3)))
CALL = st.lists(gen.msg(0), min_size=1, max_size=6)


def case():
    pkt = st.tuples(st.booleans(), CALL, gen.U32).map(list)
    return st.fixed_dictionaries(dict(
        k=st.integers(0, 50), role=st.sampled_from(["client", "server"]), buf=st.booleans(), clock=CLOCK,
        peer=st.tuples(gen.U32, gen.U32).map(list), writes=st.lists(CALL, max_size=4), packets=st.lists(pkt, max_size=4),
        refuse=st.one_of(st.none(), st.integers(0, 5)), exc=st.sampled_from(["time", "bad", "base"]), sync=st.booleans(),
        nosuch=st.integers(0, 7)))


def long_cases(tier):
    """Many packets in one session, also one refused late."""
    out = []
    for k in range(16 if tier == "quick" else 64):
        n = (60, 200, 500, 900)[k // 4 % 4]
        out.append(dict(k=k, role=("client", "server")[k & 1], buf=bool(k & 2), clock=[1, 5 + k, k], peer=[1, 7], writes=[[[i % 3, i % 50]] * (1 + i % 3) for i in range(n)],
                        packets=[[bool(i % 3), [[i % 3, i % 50]] * (1 + i % 4), i * 1000003 % 2**32] for i in range(n)],
                        refuse=None if k % 3 else n - k, exc=("time", "bad", "base")[k % 3], sync=bool(k & 4), nosuch=7))
    return out


EXC = dict(time=TimeException, bad=BadPeer, base=SaltChannelException)


class Refusal(Exception):
    pass


def body(case, rec):
    ck, sk = gen.keys([case["k"], 1000]), gen.keys([case["k"] + 2000, 3000])
    role, sync, refuse = case["role"], case["sync"], case["refuse"]
    clk = clock(case["clock"])
    chk = gen.Checker(refuse, EXC[case["exc"]]("refused by the checker"))
    nosuch = case["nosuch"] == 0
    pt = case["peer"]
    if role == "client":
        peer = ref.Server(sk, pt)
        ch = chan.peer_channel(peer)
        if nosuch:
            ch.on_write = lambda m, l: [ref.m2(bytes(32), pt[0], True, True)]
        s = gen.client(ck, ch, case["buf"])
    else:
        peer = ref.Client(ck, pt, bytes(32) if nosuch else None)
        ch = chan.peer_channel(peer)
        ch.inbox.extend(peer.start())
        if nosuch:
            ch.on_write = None
        s = gen.server(sk, ch, case["buf"])
    s.time_keeper, s.time_checker = clk, chk

    def call(obj, name, *a, **kw):
        try:
            return (getattr(obj, name + "_sync")(*a, **kw) if sync else chan.run(getattr(obj, name)(*a, **kw))), None
        except SaltChannelException as e:
            return None, e

    rec.label(role, "buffered" if case["buf"] else "unbuffered", "nosuch" if nosuch else "normal")
    rec.nontrivial(any(v for _, v in [("f", case["clock"][0])]))
    _, e = call(s, "handshake")
    # what the checker must have seen
    want = [("first", pt[0])]
    if not nosuch:
        want.append(("time", pt[1]))
    if refuse is not None:
        want = want[:refuse + 1]
    check(chk.log == want, "the checker saw {} in the handshake, the peer's times are {}", chk.log, want)
    aborted = refuse is not None and refuse < len(want)
    if aborted:
        rec.label("refused in handshake: %d" % refuse)
        rec.nontrivial()
        check(e is not None, "the handshake went on although the checker refused time {}", refuse)
        if refuse == 0:
            check(len(ch.sent) == (1 if role == "client" else 0), "{} sent {} messages although the first time was refused", role, len(ch.sent))
        elif role == "client":
            check(len(ch.sent) == 1, "the client sent M4 although the time of M3 was refused")
        else:
            check(s.client_sig_key is None, "a client key is reported although the time of M4 was refused")
    # times in the handshake packets sent
    if role == "client":
        t = ref.d_m1(ch.sent[0])[1]["time"]
        check(t in clk.since(0, "first"), "M1 carries time {}, the keeper gave {}", t, clk.log)
    elif ch.sent:
        t = ref.d_m2(ch.sent[0])[1]["time"]
        check(t in clk.since(0, "first"), "M2 carries time {}, the keeper gave {}", t, clk.log)
    if aborted:
        return
    if nosuch:
        check(e is not None, "no error on NoSuchServer")
        return
    check(e is None, "handshake failed: {}", exc_text(e) if e else "")
    if role == "server":
        t = peer.m3["time"]
        given = clk.since(0) if case["buf"] else clk.since(0, "time")
        check(t in given, "M3 carries time {}, the keeper gave {}", t, clk.log)
    elif not case["buf"]:
        t = peer.m4["time"]
        check(t in clk.since(0, "time"), "M4 carries time {}, the keeper gave {}", t, clk.log)

    writes, packets = list(case["writes"]), list(case["packets"])
    first_write = True
    nrefused = 0
    while writes or packets:
        if writes:
            msgs = [gen.mk(m) for m in writes.pop(0)]
            mark = clk.mark()
            n0 = len(peer.log)
            _, e = call(s.app_channel, "write", *msgs)
            check(e is None, "write failed: {}", exc_text(e) if e else "")
            given = clk.since(mark, "time")
            for clear, _ in peer.log[n0:]:
                t = ref.d_appmsg(clear)[1]
                check(t in given, "an application packet carries time {}, in this write the keeper gave {}", t, clk.log[mark:])
            if first_write and role == "client" and case["buf"]:
                check(peer.m4["time"] in given, "buffered M4 carries time {}, in the write that sent it the keeper gave {}", peer.m4["time"], clk.log[mark:])
            first_write = False
        if packets:
            use_multi, ms, t = packets.pop(0)
            msgs = [gen.mk(m) for m in ms]
            if not use_multi:
                msgs = msgs[:1]
            if role == "client" and case["buf"] and first_write:
                pass                                   # the peer may send before it got M4; nothing forbids it here
            ch.inbox.append(peer.link.send(ref.multi(msgs, t) if use_multi else ref.app(msgs[0], t)))
            want.append(("time", t))
            r, e = call(s.app_channel, "read")
            check(chk.log == want, "the checker saw {} instead of {}", chk.log, want)
            if refuse is not None and len(want) - 1 == refuse:
                check(e is not None, "a message was delivered although the checker refused its time")
                rec.label("refused in read, %s" % ("multi" if use_multi else "app"))
                rec.nontrivial()
                nrefused += 1
                if not packets:                        # nothing of the refused packet may come later
                    r, e = call(s.app_channel, "read")
                    check(e is not None, "{} from a refused packet was delivered by the next read", short(r))
                continue
            check(e is None, "read failed: {}", exc_text(e) if e else "")
            got = [bytes(r)]
            for _ in msgs[1:]:
                r, e = call(s.app_channel, "read")
                check(e is None, "read failed: {}", exc_text(e) if e else "")
                got.append(bytes(r))
            check(got == msgs, "read {} instead of {}", short(got), short(msgs))
            check(chk.log == want, "the checker saw {} instead of {}", chk.log, want)
    check(chk.log == want, "the checker saw {} instead of {}", chk.log, want)


def default_case():
    t = st.one_of(st.integers(0, 3), gen.U32, st.integers(0, 31).map(lambda i: 1 << i), st.integers(0, 31).map(lambda i: (1 << i) + 1))
    return st.fixed_dictionaries(dict(k=st.integers(0, 50), role=st.sampled_from(["client", "server"]), first=t, other=t, app=t,
                                      sync=st.booleans()))


def default_body(case, rec):
    ck, sk = gen.keys([case["k"], 1000]), gen.keys([case["k"] + 2000, 3000])
    pt = (case["first"], case["other"])
    if case["role"] == "client":
        peer = ref.Server(sk, pt)
        ch = chan.peer_channel(peer)
        s = gen.client(ck, ch)
    else:
        peer = ref.Client(ck, pt)
        ch = chan.peer_channel(peer)
        ch.inbox.extend(peer.start())
        s = gen.server(sk, ch)
    try:
        s.handshake_sync() if case["sync"] else chan.run(s.handshake())
        e = None
    except Exception as x:
        e = x
    legal = case["first"] in (0, 1)
    if legal:
        check(e is None, "default checker: first time {} refused: {}", case["first"], exc_text(e) if e else "")
        ch.inbox.append(peer.link.send(ref.app(b"hello", case["app"])))
        check(bytes(chan.run(s.app_channel.read())) == b"hello", "message")
        chan.run(s.app_channel.write(b"x"))
        for raw_time, what in ((ref.d_appmsg(peer.log[0][0])[1], "application packet"),
                               (peer.m1["time"] if case["role"] == "client" else peer.m2["time"], "first packet"),
                               (peer.m4["time"] if case["role"] == "client" else peer.m3["time"], "M3/M4")):
            check(raw_time == 0, "{} of a session without clock carries time {}", what, raw_time)
    else:
        check(isinstance(e, BadPeer), "default checker: first time {} gave {} instead of BadPeer", case["first"], exc_text(e) if e else "success")
    # the classes themselves
    c = NullTimeChecker()
    check(isinstance(c, TimeChecker) and isinstance(NullTimeKeeper(), TimeKeeper), "wrong class")
    try:
        c.report_first_time(case["first"])
        e = None
    except Exception as x:
        e = x
    check((e is None) if legal else isinstance(e, BadPeer), "NullTimeChecker: first time {}: {}", case["first"], e)
    c.check_time(case["other"])
    check(NullTimeKeeper().get_first_time() == 0 and NullTimeKeeper().get_time() == 0, "NullTimeKeeper gives a time")
    rec.label("legal" if legal else "illegal", case["role"])
    rec.nontrivial(not legal or case["other"] > 1)


def many_case():
    one = st.fixed_dictionaries(dict(k=st.integers(0, 50), cc=CLOCK, sc=CLOCK, n=st.integers(0, 3), buf=st.tuples(st.booleans(), st.booleans()).map(list),
                                     null=st.booleans()))
    return st.fixed_dictionaries(dict(sessions=st.lists(one, min_size=2, max_size=4), delays=gen.delays()))


def many_body(case, rec):
    """Several sessions with clocks of their own, interleaved."""
    net = chan.Net(case["delays"])
    jobs, sides = [], []
    for i, x in enumerate(case["sessions"]):
        ck, sk = gen.keys([x["k"], 1000 + i]), gen.keys([x["k"] + 2000, 3000 + i])
        a, b = net.pipe()
        c, s = gen.client(ck, a, x["buf"][0]), gen.server(sk, b, x["buf"][1])
        side = []
        for sess, cl in ((c, x["cc"]), (s, x["sc"])):
            if x["null"]:
                side.append((None, None))
                continue
            kp, chk = clock(cl), gen.Checker()
            sess.time_keeper, sess.time_checker = kp, chk
            side.append((kp, chk))

        async def go(sess, n=x["n"]):
            await sess.handshake()
            for j in range(n + 1):
                await sess.app_channel.write(b"m%d" % j)
            for j in range(n + 1):
                await sess.app_channel.read()
        jobs += [go(c), go(s)]
        sides.append((side, a, b, ref.shared(ck.enc_sec, sk.enc_pub), x))
    for r in chan.run(net.gather(*jobs)):
        if isinstance(r, BaseException):
            fail("session failed: {}", exc_text(r))
    for side, a, b, key, x in sides:
        times = {}
        for name, chn, n0 in (("c", a, 1), ("s", b, 2)):
            ts = [ref.d_m1(chn.sent[0])[1]["time"] if name == "c" else ref.d_m2(chn.sent[0])[1]["time"]]
            for j, raw in enumerate(chn.sent[1:]):
                clear = ref.unseal(key, n0 + 2 * j, ref.d_enc(raw)[1]["body"])
                check(clear is not None, "packet does not decrypt")
                ts.append((ref.d_m3(clear)[1] or ref.d_m4(clear)[1] or {}).get("time") if clear[0] in (3, 4) else ref.d_appmsg(clear)[1])
            times[name] = ts
        for (kp, _), ts in zip(side, (times["c"], times["s"])):
            if kp is None:
                check(not any(ts), "times {} from a session without clock", ts)
            else:
                given = [v for _, v in kp.log]
                check(all(t in given for t in ts), "sent times {} that its keeper did not give: {}", ts, kp.log)
        if side[0][1] is not None:
            for chk, ts in ((side[0][1], times["s"]), (side[1][1], times["c"])):
                want = [("first", ts[0])] + [("time", t) for t in ts[1:]]
                check(chk.log == want, "checker saw {} instead of {}", chk.log, want)
    rec.nontrivial()
    rec.label("%d sessions" % len(case["sessions"]), *(["mixed clocks"] if len({x["null"] for x in case["sessions"]}) == 2 else []))


def user_case():
    return st.fixed_dictionaries(dict(order=st.permutations(["k1", "k2", "c1", "c2", "nk", "nc"]), a=gen.U32, b=gen.U32))


def user_body(case, rec):
    """Keepers and checkers written by users are objects of their own, in any order of creation."""
    class K1(TimeKeeper):
        def __init__(self, v):
            self.v = v

        def get_first_time(self):
            return 1

        def get_time(self):
            return self.v

    class C1(TimeChecker):
        def __init__(self):
            self.seen = []

        def report_first_time(self, time):
            self.seen.append(time)

        def check_time(self, time):
            self.seen.append(time)
    made = {}
    for o in case["order"]:
        made[o] = {"k1": lambda: K1(case["a"]), "k2": lambda: K1(case["b"]), "c1": C1, "c2": C1, "nk": NullTimeKeeper, "nc": NullTimeChecker}[o]()
    check(made["k1"] is not made["k2"] and made["c1"] is not made["c2"], "two keepers or checkers are one object")
    check(made["k1"].get_time() == case["a"] and made["k2"].get_time() == case["b"], "keepers share their state")
    made["c1"].check_time(5)
    check(made["c2"].seen == [], "checkers share their state")
    check(type(made["nk"]) is NullTimeKeeper and type(made["nc"]) is NullTimeChecker, "wrong default objects")
    rec.nontrivial(case["a"] != case["b"])


CHECKS = [
    Sub("long", None, body, quick=1, cases=long_cases, cpu=300),
    Sub("times", case, body, quick=24000, thorough=400000),
    Sub("default_checker", default_case, default_body, quick=9000, thorough=150000),
    Sub("many_sessions", many_case, many_body, quick=4500, thorough=60000),
    Sub("user_classes", user_case, user_body, quick=900, thorough=5000),
]
