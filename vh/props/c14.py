import asyncio
import struct
import threading

from hypothesis import strategies as st

from saltchannel.channel import SocketChannel
from vh import chan, gen, stream, vtime
from vh.core import Sub, check, exc_text, fail, same_bytes, short

RULE = ("Generated message groups (empty to 200 kB, 1-5 per write call, bytes and bytearray) are written to each kind of channel; the "
        "bytes on the transport are compared with the prescribed framing, then delivered in generated fragments (single bytes, splits "
        "inside the length, several messages at once, reader flow control, up to months between two fragments on a virtual-time loop) to each kind of channel; real socket pairs carry duplex "
        "traffic as well. Non-trivial: more than one message and a fragment boundary inside a message or length.")


def groups(big):
    return st.lists(st.tuples(st.lists(gen.msg(big), min_size=1, max_size=4), st.booleans()).map(list), min_size=1, max_size=5)


CUTS = st.one_of(st.just([1]), st.just([]), st.lists(st.integers(1, 9), min_size=1, max_size=8),
                 st.lists(st.sampled_from([1, 2, 3, 4, 5, 7, 100, 1000, 4095, 4096, 65535, 65536]), min_size=1, max_size=6))


def case():
    return st.fixed_dictionaries(dict(
        groups=st.one_of(groups(0), groups(0), groups(2)), cuts=CUTS, w=st.sampled_from(["socket", "asyncio"]),
        wsync=st.booleans(), rsync=st.booleans(), high=st.sampled_from([None, None, 1, 100, 5000]), limit=st.sampled_from([1, 16, 1024, 65536]),
        late=st.booleans(), mutable=st.booleans()))


def written(case, calls):
    """Bytes on the transport after these write calls."""
    def args(msgs):
        return [bytearray(m) for m in msgs] if case["mutable"] else msgs
    if case["w"] == "socket":
        sock = chan.FakeSocket(cuts=case["cuts"])
        ch = SocketChannel(sock)
        for msgs, last in calls:
            if case["wsync"]:
                ch.write_sync(*args(msgs), is_last=last)
            else:
                chan.run(ch.write(*args(msgs), is_last=last))
        return bytes(sock.out)
    f = stream.Fake(high=case["high"])
    for msgs, last in calls:
        if case["wsync"]:
            f.channel.write_sync(*args(msgs), is_last=last)
        else:
            chan.run(f.channel.write(*args(msgs), is_last=last))
    return bytes(f.transport.out)


def read_socket(data, case, n):
    ch = SocketChannel(chan.FakeSocket(data, case["cuts"], waits=[x / 1000 for x in case.get("waits", ())]))
    return [ch.read_sync() if case["rsync"] else chan.run(ch.read()) for _ in range(n)]


def read_asyncio(data, case, n):
    f = stream.Fake(limit=case["limit"])

    async def take():
        return [await f.channel.read() for _ in range(n)]

    async def both():
        t = asyncio.ensure_future(take())
        await f.feed(data, case["cuts"], waits=case.get("waits", ()))
        return await t
    if case["late"] and len(data) < case["limit"]:        # everything is there before the first read
        chan.run(f.feed(data, case["cuts"]))
        return [f.channel.read_sync() for _ in range(n)] if case["rsync"] else chan.run(take())
    return chan.run(both())


def body(case, rec):
    calls = [([gen.mk(m) for m in ms], last) for ms, last in case["groups"]]
    msgs = [m for ms, _ in calls for m in ms]
    want = stream.frame(msgs)
    if len(want) > 20000 and case["cuts"] and max(case["cuts"]) < 100:
        case = dict(case, cuts=[c * 100 for c in case["cuts"]])
    out = written(case, calls)
    same_bytes(out, want, "bytes on the %s transport" % case["w"])
    for name, read in (("socket", read_socket), ("asyncio", read_asyncio)):
        got = read(want, case, len(msgs))
        for i, (g, m) in enumerate(zip(got, msgs)):
            check(isinstance(g, (bytes, bytearray)), "{} channel: message {} is {}", name, i, short(g))
            same_bytes(g, m, "%s channel, message %d of %d" % (name, i, len(msgs)))
    rec.label("writer " + case["w"], "multi write" if any(len(m) > 1 for m, _ in calls) else "single writes",
              *(["empty message"] if b"" in msgs else []), *(["back pressure"] if case["high"] and case["w"] == "asyncio" else []))
    rec.nontrivial(len(msgs) > 1 and bool(case["cuts"]) and min(case["cuts"]) < len(want))


def slow_case():
    return st.tuples(case(), gen.slow_delays()).map(lambda t: dict(
        t[0], groups=t[0]["groups"][:3], cuts=[max(1, x) for x in t[0]["cuts"]] or [7], late=False, waits=t[1]))


def slow_body(case, rec):
    """The fragments arrive hours apart, on a loop where waiting takes no time; a real socket waits as long as it is told to."""
    n = sum(m[0] + 4 for ms, _ in case["groups"] for m in ms)
    least = n // 40 + 1
    with vtime.patient():
        body(dict(case, cuts=[max(c, least) for c in case["cuts"]]), rec)


def splits(tier):
    """Every two-fragment and (smaller) three-fragment split of a short stream."""
    base = dict(groups=[[[[3, 1], [0, 1]], False], [[[6, 2]], True]], w="socket", wsync=True, rsync=False, high=None, limit=16, late=False,
                mutable=False)
    total = 4 + 3 + 4 + 4 + 6
    out = [dict(base, cuts=[i, total]) for i in range(1, total)]
    out += [dict(base, cuts=[i, j, total], w="asyncio", rsync=True) for i in range(1, total) for j in range(1, total - i)]
    return out


def huge(tier):
    """Long messages and many per call."""
    out = []
    base = dict(wsync=True, rsync=True, high=None, limit=65536, late=False, mutable=False)
    for w in ("socket", "asyncio"):
        for n in (1 << 20, (1 << 24) - 1, (1 << 24) + 1) if tier == "quick" else (1 << 20, (1 << 24) + 1, (1 << 26) + 7):
            out.append(dict(base, w=w, groups=[[[[3, 1], [n, 1], [1, 2]], False]], cuts=[65536]))
        for n in (255, 256, 1000, 1024, 5000):
            out.append(dict(base, w=w, groups=[[[[i % 3, i % 50] for i in range(n)], True]], cuts=[777]))
        for n in (3, 300, 1500):
            out.append(dict(base, w=w, groups=[[[[i % 3, i % 50]], False] for i in range(n)], cuts=[13]))
    return out


# ---------------------------------------------------------------- real sockets

def real_case():
    g = st.lists(st.lists(gen.msg(2), min_size=1, max_size=3), max_size=4)
    return st.fixed_dictionaries(dict(ab=g, ba=g, kinds=st.tuples(st.sampled_from(["socket", "asyncio"]), st.sampled_from(["socket", "asyncio"])).map(list),
                                      buf=st.sampled_from([None, 2048, 8192])))


def real_body(case, rec):
    """Duplex traffic over a real socket pair: every blocking socket channel gets a writer and a reader thread."""
    a, b = stream.pair(case["buf"])
    dirs = dict(ab=[[gen.mk(m) for m in g] for g in case["ab"]], ba=[[gen.mk(m) for m in g] for g in case["ba"]])
    res, threads = {}, []

    def note(name, f):
        def go():
            try:
                res[name] = f()
            except BaseException as e:
                res[name] = e
        t = threading.Thread(target=go, daemon=True)
        threads.append(t)
        t.start()

    n = {k: sum(map(len, v)) for k, v in dirs.items()}
    coros = []
    try:
        for sock, kind, out, inn in ((a, case["kinds"][0], "ab", "ba"), (b, case["kinds"][1], "ba", "ab")):
            if kind == "socket":
                sock.settimeout(60)
                ch = SocketChannel(sock)

                def wr(ch=ch, out=out):
                    for g in dirs[out]:
                        ch.write_sync(*g)

                def rd(ch=ch, inn=inn):
                    return [ch.read_sync() for _ in range(n[inn])]
                note("w" + out, wr)
                note("r" + inn, rd)
            else:
                async def go(sock=sock, out=out, inn=inn):
                    ch = await stream.real_channel(sock)

                    async def wr():
                        for g in dirs[out]:
                            await ch.write(*g)

                    async def rd():
                        return [await ch.read() for _ in range(n[inn])]
                    w, r = await asyncio.gather(wr(), rd(), return_exceptions=True)
                    res["w" + out], res["r" + inn] = w, r
                    return ch
                coros.append(go)

        async def main():
            chs = await asyncio.wait_for(asyncio.gather(*[c() for c in coros]), 60)
            for t in threads:
                while t.is_alive():
                    await asyncio.sleep(0.001)
            for ch in chs:
                ch.close()
        if coros:
            chan.run(main())
        for t in threads:
            t.join(70)
    finally:
        a.close()
        b.close()
    for d in ("ab", "ba"):
        for k in ("w", "r"):
            r = res.get(k + d, "no result")
            if isinstance(r, BaseException) or r == "no result":
                fail("{} {} {}: {}", case["kinds"], "writing" if k == "w" else "reading", d, exc_text(r) if isinstance(r, BaseException) else r)
        flat = [m for g in dirs[d] for m in g]
        got = res["r" + d]
        check(len(got) == len(flat), "{} of {} messages", len(got), len(flat))
        for g, m in zip(got, flat):
            same_bytes(g, m, "message over %s" % case["kinds"])
    rec.label("-".join(case["kinds"]))
    rec.nontrivial(n["ab"] + n["ba"] > 1)


CHECKS = [
    Sub("every_split", None, body, quick=1, cases=splits),
    Sub("huge", None, body, quick=1, cases=huge, cpu=300),
    Sub("fragments", case, body, quick=15000, thorough=200000),
    Sub("slow", slow_case, slow_body, quick=2000, thorough=30000),
    Sub("real_sockets", real_case, real_body, quick=1200, thorough=15000),
]
