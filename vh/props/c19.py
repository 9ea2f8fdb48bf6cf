import asyncio
import functools

from hypothesis import strategies as st

from saltchannel.a1a2.a1_client_session import A1ClientSession
from saltchannel.channel import SocketChannel
from saltchannel.exceptions import ComException, SaltChannelException
from vh import chan, gen, ref, stream, turns
from vh.core import Skip, Sub, check, exc_text, fail, same_bytes, short

RULE = ("Generated sets of 2-6 client/server pairs (distinct or partly shared keys, own clocks, buffering, refused servers, A1 requests) run "
        "their scripts once alone and once all together under a generated interleaving of every channel operation: bytes sent, data and "
        "errors of each session must be the same. Packets of one session are put into another one. Generated tasks write concurrently "
        "through an asyncio stream with back pressure, directly and through a session, while another task reads. Several connections get their bytes in fragments, in turns. Threads run sessions "
        "at the same time, freely and with a generated switch from thread to thread at any line of the library. Non-trivial: at least two sessions (or writers) with traffic of their own.")
ASSUMPTIONS = ["no two sessions have both encryption key pairs in common (NaCl's key agreement would give them the same key)"]


# ---------------------------------------------------------------- many sessions, one loop

def session():
    return st.fixed_dictionaries(dict(
        c=st.tuples(st.integers(0, 3), st.integers(0, 2**16)).map(list), s=st.tuples(st.integers(4, 6), st.integers(0, 2)).map(list),
        buf=st.tuples(st.booleans(), st.booleans()).map(list), kind=st.sampled_from(["talk", "talk", "talk", "talk", "a1", "wanted", "nosuch", "badtime"]),
        tc=gen.timing(), ts=gen.timing(),
        script=st.lists(st.tuples(st.booleans(), st.lists(gen.msg(0), min_size=1, max_size=3), st.booleans()).map(list), max_size=5)))


def case():
    return st.fixed_dictionaries(dict(sessions=st.lists(session(), min_size=2, max_size=6), delays=st.lists(st.integers(0, 5), min_size=1, max_size=12)))


def keys_of(i, s):
    """Client encryption keys are unique per session; servers share keys now and then."""
    return ref.Keys(gen.b32(s["c"][0]), gen.b32((i + 1) * 2**20 + s["c"][1])), ref.Keys(gen.b32(s["s"][0]), gen.b32(2**30 + s["s"][1]))


def coros(i, s, net, out):
    """The two tasks of one pair; they write down what happens."""
    ck, sk = keys_of(i, s)
    a, b = net.pipe()
    out.update(a=a, b=b, c=[], s=[])
    wanted = sk.sig_pub if s["kind"] == "wanted" else (ck.sig_pub if s["kind"] == "nosuch" else None)
    script = [(up, [gen.mk(m) for m in ms], last) for up, ms, last in s["script"]]
    if s["buf"][0] and not (script and script[0][0]):       # a buffered M4 leaves with the client's first data
        script.insert(0, (True, [b"first"], False))

    async def play(ses, client, log):
        for up, msgs, last in script:
            if up == client:
                await ses.app_channel.write(*msgs, is_last=last)
            else:
                for _ in msgs:
                    log.append(bytes(await ses.app_channel.read()))
                    await net.pause()          # others run before the rest of a multi packet is read
                log.append(bool(ses.app_channel.last))

    async def run_c():
        if s["kind"] == "a1":
            ses = A1ClientSession(a)
            await ses.do_a1a2()
            out["c"].append(bytes(ses.a2))
            return
        ses = gen.client(ck, a, s["buf"][0], wanted)
        gen.set_timing(ses, [2 + s["c"][1], [1]] if s["kind"] == "badtime" else s["tc"])
        await ses.handshake()
        out["c"].append([bytes(ses.session_key), bytes(ses.m3.ServerSigKey)])
        await play(ses, True, out["c"])

    async def run_s():
        ses = gen.server(sk, b, s["buf"][1])
        gen.set_timing(ses, s["ts"])
        await ses.handshake()
        out["s"].append(bool(ses.is_done))
        if s["kind"] == "a1":
            return
        out["s"].append([bytes(ses.session_key), bytes(ses.client_sig_key)])
        await play(ses, False, out["s"])
    return run_c(), run_s()


def outcome(out, r):
    e = [("%s" % type(x).__name__) if isinstance(x, BaseException) else "done" for x in r]
    return dict(sent_by_client=out["a"].groups, sent_by_server=out["b"].groups, client=out["c"], server=out["s"], ends=e)


def body(case, rec):
    alone = []
    for i, s in enumerate(case["sessions"]):
        out, net = {}, chan.Net()
        r = chan.run(net.gather(*coros(i, s, net, out)))
        alone.append(outcome(out, r))
    for i, (s, o) in enumerate(zip(case["sessions"], alone)):
        want = ["NoSuchServerException"] * 2 if s["kind"] == "nosuch" else ["done", "done"]
        if s["kind"] == "badtime":
            want = [o["ends"][0], "BadPeer"]         # the server refuses, the client is left without an answer
            check(o["ends"][0] != "done", "session {} alone: the client's handshake ended although the server refused it", i)
        check(o["ends"] == want, "session {} ({}) alone ended with {}", i, s["kind"], o["ends"])
    net = chan.Net(case["delays"])
    outs = [{} for _ in case["sessions"]]
    cs = []
    for i, s in enumerate(case["sessions"]):
        cs.extend(coros(i, s, net, outs[i]))
    r = chan.run(net.gather(*cs))
    for i, o in enumerate(outs):
        got = outcome(o, r[2 * i:2 * i + 2])
        for k, v in alone[i].items():
            check(got[k] == v, "session {} of {} together: {} is {}, alone {}; errors {}", i, len(outs), k, short(got[k]), short(v),
                  [exc_text(x) for x in r if isinstance(x, BaseException)])
    rec.label("%d sessions" % len(outs), *{s["kind"] for s in case["sessions"]})
    rec.nontrivial(sum(s["kind"] in ("talk", "wanted") and bool(s["script"]) for s in case["sessions"]) >= 2 and any(case["delays"]))


# ---------------------------------------------------------------- traffic of another session

def cross_case():
    return st.fixed_dictionaries(dict(client=st.booleans(), share=st.sampled_from(["none", "peer", "sig"]), pre=st.lists(gen.msg(0), max_size=3),
                                      other=st.integers(0, 4), msg=gen.msg(0), tag=st.integers(0, 2**16), at=st.sampled_from(["app", "app", "m34", "m12"])))


def cross_body(case, rec):
    """Two sessions of the code under test with reference peers; a packet meant for the second goes into the first."""
    t = case["tag"]
    role = "client" if case["client"] else "server"
    own = [ref.Keys(gen.b32(t + i), gen.b32(t + 100 + i)) for i in range(2)]
    far = [ref.Keys(gen.b32(t + 200 + i), gen.b32(t + 300 + i)) for i in range(2)]
    if case["share"] == "peer":
        far[1] = far[0]
    if case["share"] == "sig":
        own[1] = ref.Keys(gen.b32(t), gen.b32(t + 101))
        far[1] = ref.Keys(gen.b32(t + 200), gen.b32(t + 301))
    ses = []
    for i in range(2):
        if case["client"]:
            peer = ref.Server(far[i])
            ch = chan.peer_channel(peer)
            s = gen.client(own[i], ch)
        else:
            peer = ref.Client(far[i])
            ch = chan.peer_channel(peer)
            ch.inbox.extend(peer.start())
            s = gen.server(own[i], ch)
        ses.append((s, ch, peer))
    (s, ch, peer), (s2, ch2, peer2) = ses
    if case["at"] != "app":
        # during the handshake: the other session's M3/M4 (or M2 together with M3) arrives instead of the own one
        chan.run(s2.handshake())
        mine = []

        def on_write(msgs, last):
            out = []
            for m in msgs:
                out.extend(peer.feed(m, last))
            mine.extend(out)
            return []
        ch.on_write = on_write
        genuine2 = []
        if case["client"]:
            p = ref.Server(far[1])
            genuine2 = p.feed(ref.m1(own[1].enc_pub))
            ch.on_write = lambda msgs, last: [x for m in msgs for x in swap(peer.feed(m, last), genuine2, case["at"])]
        else:
            m4 = [r for r in [None]]
            p = ref.Client(far[1])
            p.start()
            q = ref.Server(own[1])
            for r in q.feed(p.m1_raw):
                m4 = p.feed(r)
            ch.on_write = lambda msgs, last: [m4[0] for m in msgs for x in peer.feed(m, last)]
        try:
            chan.run(s.handshake())
        except SaltChannelException:
            pass
        except Exception as e:
            fail("{}: handshake packet of another session gave {}", role, exc_text(e))
        else:
            fail("{}: completed a handshake with a packet of another session ({})", role, case["at"])
        rec.label(role + " " + case["at"])
        rec.nontrivial()
        return
    chan.run(s.handshake())
    chan.run(s2.handshake())
    for m in case["pre"]:
        ch.inbox.append(peer.link.send(ref.app(gen.mk(m))))
        same_bytes(chan.run(s.app_channel.read()), gen.mk(m), role + " before")
    for _ in range(case["other"]):
        raw = peer2.link.send(ref.app(gen.mk(case["msg"])))
    if not case["other"]:
        raw = ch2.sent[-1] if ch2.sent else b""
        if raw == b"":
            raise Skip()
    ch.inbox.append(raw)
    try:
        r = chan.run(s.app_channel.read())
    except SaltChannelException:
        pass
    except Exception as e:
        fail("{}: packet of another session gave {}", role, exc_text(e))
    else:
        fail("{}: accepted a packet of another session as {}", role, short(r))
    # the other session is not affected
    m = gen.mk(case["msg"])
    for _ in range(case["other"]):
        peer2.link.w -= 2
    for _ in range(max(1, case["other"])):
        ch2.inbox.append(peer2.link.send(ref.app(m)))
        same_bytes(chan.run(s2.app_channel.read()), m, "the other session's own packet")
    rec.label(role + " app", "shared " + case["share"])
    rec.nontrivial()


def swap(own, other, at):
    if at == "m12":
        return other                    # M2 and M3 of the other session
    return own[:1] + other[1:]          # own M2, other M3


# ---------------------------------------------------------------- several connections, fragments in any order

def lines_case():
    conn = st.fixed_dictionaries(dict(kind=st.sampled_from(["asyncio", "asyncio", "socket"]), msgs=st.lists(gen.msg(0), min_size=1, max_size=5)))
    return st.fixed_dictionaries(dict(conns=st.lists(conn, min_size=2, max_size=4), order=st.lists(st.tuples(st.integers(0, 3), st.one_of(st.integers(1, 6), st.integers(1, 60))).map(list), max_size=40),
                                      limit=st.sampled_from([16, 2 ** 16])))


def lines_body(case, rec):
    """Connections whose bytes arrive in turns: each gives its own messages."""
    conns = []
    for c in case["conns"]:
        msgs = [gen.mk(m) for m in c["msgs"]]
        if c["kind"] == "socket":
            sock = chan.FakeSocket(end="timeout")        # has what was let through, then times out
            conns.append([msgs, stream.frame(msgs), [], sock, SocketChannel(sock)])
        else:
            conns.append([msgs, stream.frame(msgs), [], stream.Fake(limit=case["limit"]), None])

    def take(i, m):
        msgs, _, got = conns[i][:3]
        got.append(bytes(m))
        check(len(got) <= len(msgs), "connection {} gave a message too many: {}", i, short(m))
        same_bytes(m, msgs[len(got) - 1], "message %d of connection %d" % (len(got) - 1, i))

    async def reader(i):
        for _ in conns[i][0]:
            take(i, await conns[i][3].channel.read())

    async def go():
        tasks = {i: asyncio.ensure_future(reader(i)) for i, c in enumerate(conns) if c[4] is None}
        await asyncio.sleep(0)
        order = [[i % len(conns), n] for i, n in case["order"]]
        rest = [[i, 1 << 30] for i in range(len(conns))]
        for i, n in order + rest * 3:
            c = conns[i]
            d, c[1] = c[1][:n], c[1][n:]
            if c[4] is not None:
                c[3].data += d
                while True:
                    try:
                        m = c[4].read_sync()
                    except ComException:
                        break
                    take(i, m)
            elif d:
                c[3].protocol.data_received(d)
                for _ in range(4):
                    await asyncio.sleep(0)
        for _ in range(40):
            await asyncio.sleep(0)
        for i, t in tasks.items():
            if not t.done():
                t.cancel()
            try:
                await t
            except asyncio.CancelledError:
                fail("connection {} gave {} of {} messages", i, len(conns[i][2]), len(conns[i][0]))
            except Exception as e:
                if type(e).__name__ == "Violation":
                    raise
                fail("connection {}: {}", i, exc_text(e))
        for i, c in enumerate(conns):
            check(len(c[2]) == len(c[0]), "connection {} gave {} of {} messages", i, len(c[2]), len(c[0]))
    chan.run(go())
    rec.label(*{c["kind"] for c in case["conns"]})
    rec.nontrivial(len({i % len(conns) for i, _ in case["order"]}) > 1)


# ---------------------------------------------------------------- many tasks, one stream

def tasks_case():
    few = st.tuples(st.lists(gen.msg(0), min_size=1, max_size=3), st.integers(0, 3)).map(list)
    # ["many", n, has one too long for a multi packet], pause
    many = st.tuples(st.tuples(st.just("many"), st.integers(4, 90), st.booleans()).map(list), st.integers(0, 3)).map(list)
    call = st.one_of(few, few, few, many)
    return st.fixed_dictionaries(dict(tasks=st.lists(st.lists(call, min_size=1, max_size=5), min_size=2, max_size=5),
                                      incoming=st.lists(gen.msg(0), max_size=6), cuts=st.lists(st.integers(1, 200), max_size=4),
                                      high=st.sampled_from([None, 0, 1, 10, 100, 2000]), layer=st.sampled_from(["stream", "encrypted", "session", "session buffered"]),
                                      sync=st.booleans(), client=st.booleans()))


def marked(k, j, i, m):
    """A message that tells its task, its call and its place."""
    return bytes([k, j, i]) + gen.mk(m)


def messages(ms):
    """The messages of a call as [length, tag]."""
    if ms[0] != "many":
        return ms
    return ([[65533, 1]] if ms[2] else []) + [[i % 7, i] for i in range(ms[1])]


def unframe(data):
    out, pos = [], 0
    while pos < len(data):
        n = int.from_bytes(data[pos:pos + 4], "little", signed=True)
        if n < 0 or len(data) - pos - 4 < n:
            fail("broken framing on the stream at byte {} of {}: {}", pos, len(data), data[pos:pos + 20].hex())
        out.append(data[pos + 4:pos + 4 + n])
        pos += 4 + n
    return out


def in_order(got, tasks):
    """got must be an interleaving of the tasks' own sequences."""
    pos = [0] * len(tasks)
    flat = [[marked(k, j, i, m) for j, (ms, _) in enumerate(t) for i, m in enumerate(messages(ms))] for k, t in enumerate(tasks)]
    for n, g in enumerate(got):
        k = g[0] if g and g[0] < len(tasks) else None
        check(k is not None, "message {} belongs to no task: {}", n, short(g))
        check(pos[k] < len(flat[k]), "task {}: more messages delivered than written", k)
        check(g == flat[k][pos[k]], "task {}: expected its message {}, delivered {}", k, short(flat[k][pos[k]]), short(g))
        pos[k] += 1
    for k in range(len(tasks)):
        check(pos[k] == len(flat[k]), "task {}: {} of {} messages delivered", k, pos[k], len(flat[k]))


def tasks_body(case, rec):
    layer = case["layer"]
    f = stream.Fake(high=case["high"])
    peer = None
    incoming = [gen.mk(m) for m in case["incoming"]]
    ck, sk = gen.keys([1, 2]), gen.keys([3, 4])
    done_before = 0
    if layer == "stream":
        ch = f.channel
        fed = stream.frame(incoming)
    elif layer == "encrypted":
        from saltchannel.v2.encrypted_channel_v2 import EncryptedChannelV2, Role
        key = ref.shared(ck.enc_sec, sk.enc_pub)
        ch = EncryptedChannelV2(f.channel, key, Role.CLIENT if case["client"] else Role.SERVER)
        mine, far = ref.Link(key, case["client"]), ref.Link(key, not case["client"])
        fed = stream.frame([far.send(m) for m in incoming])
    else:
        # a client session that has finished its handshake with a reference server on the fake stream
        peer = ref.Server(sk)
        s = gen.client(ck, f.channel, layer == "session buffered")

        async def shake():
            t = asyncio.ensure_future(s.handshake())
            while not f.transport.out:
                await asyncio.sleep(0)
            await f.feed(stream.frame(peer.feed(unframe(bytes(f.transport.out))[0])))
            await t
        chan.run(shake())
        done_before = 1
        ch = s.app_channel
        fed = stream.frame([peer.link.send(ref.app(m)) for m in incoming])

    async def writer(k, t):
        for j, (ms, pause) in enumerate(t):
            for _ in range(pause):
                await asyncio.sleep(0)
            await ch.write(*[marked(k, j, i, m) for i, m in enumerate(messages(ms))])

    async def reader():
        return [bytes(await ch.read()) for _ in incoming]

    async def main():
        ts = [asyncio.ensure_future(reader())] + [asyncio.ensure_future(writer(k, t)) for k, t in enumerate(case["tasks"])]
        await f.feed(fed, case["cuts"])
        return await asyncio.gather(*ts, return_exceptions=True)
    r = chan.run(main())
    for x in r:
        if isinstance(x, BaseException):
            fail("{}: {} while other tasks were active", "reader" if x is r[0] else "writer", exc_text(x))
    check(r[0] == incoming, "the reading task got {}, sent were {}", short(r[0]), short(incoming))
    frames = unframe(bytes(f.transport.out))[done_before:]
    if layer == "stream":
        got = frames
    elif layer == "encrypted":
        opened = ref.Link(mine.key, not case["client"])
        got = []
        for n, x in enumerate(frames):
            v = opened.recv(x)
            check(v is not None, "packet {} of {} on the stream is not acceptable to the peer", n, len(frames))
            got.append(v[0])
    else:
        try:
            for x in frames:
                peer.feed(x)
        except ref.ProtocolError as e:
            fail("the peer must refuse what the concurrent writers sent: {}", e)
        got = peer.app_in
    in_order(got, case["tasks"])
    rec.label(layer, "back pressure" if case["high"] is not None else "no back pressure", "%d writers" % len(case["tasks"]))
    rec.nontrivial(len(case["tasks"]) > 1 and case["high"] is not None)


# ---------------------------------------------------------------- threads

def threads_case():
    one = st.fixed_dictionaries(dict(client=st.booleans(), tag=st.integers(0, 2**12), buf=st.booleans(),
                                     script=st.lists(st.tuples(st.booleans(), st.lists(gen.msg(0), min_size=1, max_size=3)).map(list), min_size=1, max_size=6)))
    return st.fixed_dictionaries(dict(threads=st.lists(one, min_size=2, max_size=5)))


def blocking(i, t):
    """One blocking session with a reference peer; gives everything observable."""
    ck, sk = ref.Keys(gen.b32(t["tag"]), gen.b32((i + 1) * 2**20 + t["tag"])), ref.Keys(gen.b32(5), gen.b32(6 + i * 2**20))
    asyncio.set_event_loop(asyncio.new_event_loop())
    try:
        if t["client"]:
            peer = ref.Server(sk)
            ch = chan.peer_channel(peer)
            s = gen.client(ck, ch, t["buf"])
        else:
            peer = ref.Client(ck)
            ch = chan.peer_channel(peer)
            ch.inbox.extend(peer.start())
            s = gen.server(sk, ch, t["buf"])
        s.handshake_sync()
        log = []
        if t["client"] and t["buf"]:
            s.app_channel.write_sync(b"first")
        for out, ms in t["script"]:
            msgs = [gen.mk(m) for m in ms]
            if out:
                s.app_channel.write_sync(*msgs)
            else:
                ch.inbox.append(peer.link.send(ref.app(msgs[0]) if len(msgs) == 1 else ref.multi(msgs)))
                for m in msgs:
                    log.append(bytes(s.app_channel.read_sync()))
        return [ch.sent, log, peer.app_in, bytes(s.session_key)]
    finally:
        asyncio.get_event_loop().close()


def turns_case():
    return st.tuples(threads_case(), st.lists(st.one_of(st.integers(1, 6), st.integers(1, 6), st.integers(1, 80)), min_size=3, max_size=25)).map(
        lambda t: dict(threads=t[0]["threads"][:3], runs=t[1]))


def threads_body(case, rec):
    own = asyncio.get_event_loop()
    try:
        alone = [blocking(i, t) for i, t in enumerate(case["threads"])]
    finally:
        asyncio.set_event_loop(own)
    res, switched = turns.run([functools.partial(blocking, i, t) for i, t in enumerate(case["threads"])], case.get("runs"))
    for i, (a, r) in enumerate(zip(alone, res)):
        if isinstance(r, BaseException) or r is None:
            fail("session {} of {} in its own thread: {}", i, len(res), exc_text(r) if r is not None else "did not end")
        for what, x, y in zip(("bytes sent", "data received", "data at the peer", "session key"), a, r):
            check(x == y, "session {} of {} in its own thread: {} is {}, alone {}", i, len(res), what, short(y), short(x))
    rec.label("%d threads" % len(res))
    if switched and switched.free:
        rec.label("a thread had to wait for a parked one")
    rec.nontrivial(not switched or switched.switches > 10)


CHECKS = [
    Sub("sessions", case, body, quick=2500, thorough=80000),
    Sub("cross_traffic", cross_case, cross_body, quick=2500, thorough=80000),
    Sub("lines", lines_case, lines_body, quick=2500, thorough=80000),
    Sub("stream_tasks", tasks_case, tasks_body, quick=3000, thorough=120000),
    Sub("thread_turns", turns_case, threads_body, quick=700, thorough=20000),
    Sub("threads", threads_case, threads_body, quick=500, thorough=15000),
]
