import asyncio

from hypothesis import strategies as st

from vh import chan, gen, vtime
from vh.core import Sub, check, same_bytes, exc_text, fail, short

RULE = ("Per direction a list of write calls, each with 1..n messages of generated length (0 .. 200001, with mass at the "
        "packet limits), some calls marked as last, is sent by writer tasks while reader tasks read, under a generated schedule (also one with up to months between two messages, on a virtual-time loop). Non-trivial: at least "
        "two messages in total and (two or more in one call, or a length of 0 or above 65535, or traffic in both directions).")
ASSUMPTIONS = ["in-memory reliable message channel", "reads are issued by one task per direction"]


def calls(big, mx=4):
    one = st.lists(gen.msg(big), min_size=1, max_size=mx)
    return st.lists(one, max_size=6)


LASTS = st.one_of(st.just([]), st.lists(st.booleans(), max_size=5))       # which write calls are marked as last; more may follow


def case():
    return st.fixed_dictionaries(dict(
        c=st.integers(0, 50), buf=st.tuples(st.booleans(), st.booleans()).map(list), up=calls(1), down=calls(1),
        delays=gen.delays(), kind=st.sampled_from(["bytes", "bytes", "bytearray"]), lasts=LASTS))


def case_many():
    """Calls with many small messages."""
    n = st.one_of(st.integers(2, 80), st.integers(250, 260))
    one = st.tuples(n, st.integers(0, 9), st.integers(0, 5)).map(lambda t: [[(i * t[1]) % (t[2] * 7 + 1), i % 50] for i in range(t[0])])
    return st.fixed_dictionaries(dict(
        c=st.integers(0, 50), buf=st.tuples(st.booleans(), st.booleans()).map(list), up=st.lists(one, max_size=2),
        down=st.lists(one, max_size=2), delays=gen.delays(), kind=st.just("bytes"), lasts=LASTS))


def long_cases(tier):
    """Many calls in one session."""
    def some(n, k):
        return [[[(i * k + j) % 4, (i + j) % 50] for j in range(1 + (i + k) % 4)] for i in range(n)]
    return [dict(c=k, buf=[bool(k & 1), bool(k & 2)], up=some(n, k + 1), down=some(n // (1 + k % 2), k + 3), delays=[], kind=("bytes", "bytearray")[k % 2],
                 lasts=[False, True, False]) for k, n in enumerate([100, 600, 1500, 1500] if tier == "quick" else [100, 600, 1500, 1500, 6000, 12000])]


def slow_case():
    return st.tuples(case(), gen.slow_delays()).map(lambda t: dict(t[0], delays=t[1]))


def slow_transfer(case, rec):
    with vtime.patient():
        transfer(case, rec)


def transfer(case, rec):
    ck, sk = gen.keys([case["c"], case["c"] + 1000]), gen.keys([case["c"] + 2000, case["c"] + 3000])
    net = chan.Net(case["delays"])
    a, b = net.pipe()
    c, s = gen.client(ck, a, case["buf"][0]), gen.server(sk, b, case["buf"][1])
    up = [[gen.mk(m) for m in call] for call in case["up"]]
    down = [[gen.mk(m) for m in call] for call in case["down"]]
    if case["buf"][0] and not up:
        up = [[b"first"]]
    n_up, n_down = sum(map(len, up)), sum(map(len, down))
    conv = bytearray if case["kind"] == "bytearray" else bytes

    lasts = case.get("lasts") or [False]

    async def write_all(ch, calls_):
        for n, call in enumerate(calls_):
            args = [conv(m) for m in call]
            await ch.write(*args, **(dict(is_last=True) if lasts[n % len(lasts)] else {}))
            if conv is bytearray:
                for x in args:                      # the caller may reuse its buffers once write() has returned
                    x[:] = b"\xee" * len(x)

    async def read_n(ch, n):
        return [await ch.read() for _ in range(n)]

    # the outer tasks wait inside gather, so they are not counted as runnable
    async def outer():
        net.live += 2

        async def side(coro_hs, wr, rd):
            try:
                await coro_hs
            except BaseException:
                net.live -= 1
                net.stamp += 1
                net._check()
                raise
            net.live -= 1
            net.stamp += 1
            return await net.gather(wr(), rd())
        return await asyncio.gather(
            side(c.handshake(), lambda: write_all(c.app_channel, up), lambda: read_n(c.app_channel, n_down)),
            side(s.handshake(), lambda: write_all(s.app_channel, down), lambda: read_n(s.app_channel, n_up)),
            return_exceptions=True)

    rc, rs = chan.run(outer())
    for who, res, want in (("client", rc, [m for call in down for m in call]), ("server", rs, [m for call in up for m in call])):
        if isinstance(res, BaseException):
            fail("{} handshake failed: {}", who, exc_text(res))
        for what, x in zip(("write", "read"), res):
            if isinstance(x, BaseException):
                fail("{} {} failed: {}", who, what, exc_text(x))
        got = res[1]
        for i, (g, w) in enumerate(zip(got, want)):
            if not isinstance(g, (bytes, bytearray)) or bytes(g) != w:
                fail("{} read {}: expected {}, got {}", who, i, short(w), short(g))
    # nothing more may arrive
    for who, sess in (("client", c), ("server", s)):
        (x,) = chan.run(net.gather(sess.app_channel.read()))
        check(isinstance(x, chan.Starved), "{} read one message too many: {}", who, short(x))
    lens = [m[0] for call in case["up"] + case["down"] for m in call]
    if any(n > 65535 for n in lens):
        rec.label("longer than 65535")
    if any(n == 0 for n in lens):
        rec.label("empty")
    if any(len(call) > 1 for call in case["up"] + case["down"]):
        rec.label("several per call")
        if any(len(call) > 1 and max(m[0] for m in call) > 65535 for call in case["up"] + case["down"]):
            rec.label("several per call with a long one")
    if up and down:
        rec.label("both directions")
    if case["buf"][0]:
        rec.label("buffered M4")
    if True in lasts:
        rec.label("marked as last")
    rec.nontrivial(n_up + n_down >= 2 and len(rec.labels) > 0)


def lockstep_case():
    op = st.one_of(st.tuples(st.just("w"), st.integers(0, 1), st.lists(gen.msg(0), min_size=1, max_size=4), st.sampled_from([False, False, True])).map(list),
                   st.tuples(st.just("r"), st.integers(0, 1)).map(list))
    return st.fixed_dictionaries(dict(c=st.integers(0, 50), ops=st.lists(op, min_size=6, max_size=30)))


def lockstep(case, rec):
    """Any order of single writes and reads of the two sides; reads of an empty direction must not return."""
    ck, sk = gen.keys([case["c"], case["c"] + 1000]), gen.keys([case["c"] + 2000, case["c"] + 3000])
    net = chan.Net()
    a, b = net.pipe()
    c, s = gen.client(ck, a), gen.server(sk, b)
    for x in chan.run(net.gather(c.handshake(), s.handshake())):
        if isinstance(x, BaseException):
            fail("handshake failed: {}", exc_text(x))
    chs = (c.app_channel, s.app_channel)
    model = ([], [])     # what side i has still to read
    switches = reads = 0
    for op in case["ops"]:
        side = op[1]
        if op[0] == "w":
            msgs = [gen.mk(m) for m in op[2]]
            (x,) = chan.run(net.gather(chs[side].write(*msgs, is_last=op[3])))
            check(x is None, "write gave {}", short(x))
            model[1 - side].extend(msgs)
            switches += 1
        else:
            (x,) = chan.run(net.gather(chs[side].read()))
            if model[side]:
                if isinstance(x, BaseException):
                    fail("read failed: {}", exc_text(x))
                same_bytes(x, model[side].pop(0), "message read in lockstep")
                reads += 1
            else:
                check(isinstance(x, chan.Starved), "read of an empty direction gave {}", short(x))
    rec.nontrivial(reads >= 2 and switches >= 2)


def limits(tier):
    base = dict(c=1, buf=[False, False], down=[], delays=[], kind="bytes")
    out = []
    for n in ([65535, 65536] if tier == "quick" else [65534, 65535, 65536, 65537, 131073]):
        out.append(dict(base, up=[["many", n]]))
    out.append(dict(base, up=[["many", 3]], down=[["many", 300]]))
    for n in (1 << 20, 3 << 20, (1 << 24) + 1):
        out.append(dict(base, up=[[[n, 1], [0, 1], [65535, 3]]], down=[[[n, 2]]]))
    out.append(dict(base, up=[[[65535, i] for i in range(20)] + [[i, i] for i in range(5)] + [[65535, 7]]], down=[[[1, 1]] * 3000 + [[65535, i] for i in range(40)]]))
    out.append(dict(base, buf=[True, True], up=[["many", 65535]] if tier == "thorough" else [["many", 700]]))
    return out


def limits_body(case, rec):
    def ex(calls_):
        return [[[0 if i % 3 else i % 4, i % 40] for i in range(call[1])] if call and call[0] == "many" else call
                for call in calls_]
    transfer(dict(case, up=ex(case["up"]), down=ex(case["down"])), rec)
    rec.nontrivial()


CHECKS = [
    Sub("limits", None, limits_body, quick=1, cases=limits, cpu=300),
    Sub("long", None, transfer, quick=1, cases=long_cases, cpu=300),
    Sub("duplex", case, transfer, quick=6400, thorough=160000),
    Sub("slow", slow_case, slow_transfer, quick=1000, thorough=20000),
    Sub("many_per_call", case_many, transfer, quick=1000, thorough=20000),
    Sub("lockstep", lockstep_case, lockstep, quick=5000, thorough=100000),
]
