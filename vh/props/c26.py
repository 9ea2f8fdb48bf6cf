import struct

from hypothesis import strategies as st

from nacl import bindings as nb
from saltchannel.exceptions import BadPeer
from saltchannel.v2.encrypted_channel_v2 import EncryptedChannelV2, Role
from vh import chan, gen, ref
from vh.core import Sub, check, exc_text, fail, same_bytes, short

RULE = ("Encrypted channels are set up directly with generated keys, roles and session nonces, beside a channel with the same key and "
        "another session nonce (session resumption), and driven by generated histories of writes (one or many messages per call, blocking "
        "or awaited, marked last or not), reads and injected packets: made under another key, another session nonce, the other direction, "
        "another position, replayed, from the neighbour channel, or altered. Oracle: NaCl boxes with the nonce counter || session nonce || "
        "8 zero bytes, made by the harness. Non-trivial: a message was delivered and, if something was injected, it differed from the next "
        "genuine packet.")
ASSUMPTIONS = ["a channel that refused a packet may refuse everything after it; the property does not say"]


def seal(key, n, sn, clear, last=False):
    return ref.encp(nb.crypto_box_afternm(clear, struct.pack("<Q", n) + sn + bytes(8), key), last)


def sn8():
    return st.one_of(st.just(bytes(8)), st.binary(min_size=8, max_size=8), st.sampled_from([b"\xff" * 8, b"\x01" + bytes(7), bytes(7) + b"\x01", bytes(7) + b"\x80"]))


def case():
    msg = st.one_of(gen.msg(0), gen.msg(0), gen.msg(1))
    op = st.one_of(
        st.tuples(st.just("w"), st.integers(0, 3), st.lists(msg, min_size=1, max_size=4), st.booleans(), st.booleans()).map(list),
        st.tuples(st.just("w"), st.integers(0, 3), st.lists(msg, min_size=1, max_size=4), st.booleans(), st.booleans()).map(list),
        st.tuples(st.just("r"), st.integers(0, 3), st.booleans()).map(list),
        st.tuples(st.just("r"), st.integers(0, 3), st.booleans()).map(list),
        st.tuples(st.just("x"), st.integers(0, 3), st.sampled_from(["key", "sn", "dir", "next", "prev", "far", "flip", "cut", "other", "sn0"]), st.integers(0, 2 ** 16), st.booleans()).map(list))
    return st.fixed_dictionaries(dict(key=gen.tag32(), sn=sn8(), sn2=sn8(), default=st.booleans(), start=st.one_of(st.just(0), st.integers(0, 200), st.sampled_from([126, 127, 32766, 32767, 65534, 65536, 2 ** 31 - 1, 2 ** 31 - 2, 2 ** 32 - 2, 2 ** 33, 2 ** 53, 2 ** 62])),
                                      ops=st.lists(op, min_size=1, max_size=24)))


def later(e, i, d):
    """Takes a channel d/2 packets further, where it keeps its counters the way it did when this was written."""
    try:
        r, w = e.read_nonce, e.write_nonce
        if (type(r.value), type(w.value)) != (int, int) or (w.value, r.value) != ((1, 2) if i % 2 == 0 else (2, 1)) or r is w:
            return False
        r.value += d
        w.value += d
        return (w.value - d, r.value - d) == ((1, 2) if i % 2 == 0 else (2, 1))
    except (AttributeError, TypeError):
        return False


def body(case, rec):
    key = gen.b32(case["key"])
    default = case["default"]
    sn, sn2 = bytes(8) if default else case["sn"], case["sn2"]
    if sn2 == sn:
        sn2 = bytes([sn[0] ^ 1]) + sn[1:]
    kw = {} if default else dict(session_nonce=sn)
    # ends 0/1: client and server of one link; 2/3: of the neighbour with another session nonce
    wires = [chan.PeerChannel() for _ in range(4)]
    ends = [EncryptedChannelV2(wires[0], key, Role.CLIENT, **kw), EncryptedChannelV2(wires[1], key, Role.SERVER, **kw),
            EncryptedChannelV2(wires[2], key, Role.CLIENT, session_nonce=sn2), EncryptedChannelV2(wires[3], key, Role.SERVER, sn2)]
    nonces = [sn, sn, sn2, sn2]
    wcount = [0] * 4                       # packets written
    rcount = [0] * 4                       # packets read
    pend = [[] for _ in range(4)]          # genuine packets on the way to each end: (clear, raw, last)
    all_raw = [[] for _ in range(4)]       # written by each end
    dead = [False] * 4
    got = bad = 0
    start = case["start"] & ~1
    if start and later(EncryptedChannelV2(chan.PeerChannel(), key, Role.CLIENT), 0, start):        # many messages later
        for i, e in enumerate(ends):
            later(e, i, start)
        wcount, rcount = [start // 2] * 4, [start // 2] * 4
    else:
        start = 0

    def num(end, i):
        return 2 * i + (1 if end % 2 == 0 else 2)

    def read(i, blocking):
        return ends[i].read_sync() if blocking else chan.run(ends[i].read())

    drain = [["r", i, bool(i & 1)] for i in range(4) for _ in range(max(100, 2 * len(case["ops"])))]
    for op in case["ops"] + drain:
        i = op[1]
        if op[0] == "w":
            msgs = [gen.mk(m) for m in op[2]]
            base = len(wires[i].sent)
            if op[4]:
                ends[i].write_sync(*msgs, is_last=op[3])
            else:
                chan.run(ends[i].write(*msgs, is_last=op[3]))
            raws = wires[i].sent[base:]
            check(len(raws) == len(msgs), "{} messages gave {} packets", len(msgs), len(raws))
            for j, (m, raw) in enumerate(zip(msgs, raws)):
                last = op[3] and j == len(msgs) - 1
                same_bytes(raw, seal(key, num(i, wcount[i]), nonces[i], m, last), "packet %d of end %d" % (wcount[i], i))
                wcount[i] += 1
                all_raw[i].append(raw)
                pend[i ^ 1].append((m, raw, last))
        elif op[0] == "r":
            if not pend[i]:
                continue
            m, raw, last = pend[i][0]
            wires[i].inbox[:] = [raw]
            try:
                r = read(i, op[2])
            except BadPeer as e:
                check(dead[i], "end {} refuses the genuine packet {}: {}", i, rcount[i], e)
                continue
            same_bytes(r, m, "message %d at end %d" % (rcount[i], i))
            check(bool(ends[i].last_flag) == last, "last flag of message {} is {}", rcount[i], ends[i].last_flag)
            pend[i].pop(0)
            rcount[i] += 1
            got += 1
        else:
            kind, v = op[2], op[3]
            n = num(i ^ 1, rcount[i])
            clear = bytes([v & 255]) * (v % 50)
            good = pend[i][0][1] if pend[i] else seal(key, n, nonces[i], clear)
            if kind == "key":
                k2 = bytearray(key)
                k2[v % 32] ^= 1 << (v // 32 % 8)
                raw = seal(bytes(k2), n, nonces[i], clear)
            elif kind == "sn":
                s = bytearray(nonces[i])
                s[v % 8] ^= 1 << (v // 8 % 8)
                raw = seal(key, n, bytes(s), clear)
            elif kind == "sn0":
                raw = seal(key, n, nonces[i][::-1] if nonces[i][::-1] != nonces[i] else b"\x02" + nonces[i][1:][::-1], clear)
                if nonces[i][::-1] == nonces[i] and b"\x02" + nonces[i][1:][::-1] == nonces[i]:
                    continue
            elif kind == "dir":
                raw = seal(key, num(i, rcount[i]), nonces[i], clear)
            elif kind == "next":
                raw = seal(key, n + 2 * (1 + v % 5), nonces[i], clear)
            elif kind == "prev":
                if n <= 2:
                    continue
                raw = seal(key, max(2 - n % 2, n - 2 * (1 + v % 5)), nonces[i], clear)
            elif kind == "far":
                raw = seal(key, (n + (1 << (v % 64))) % 2 ** 64, nonces[i], clear)
            elif kind == "other":
                src = all_raw[i ^ 1 ^ 2] or all_raw[i] or all_raw[i ^ 2]
                if not src:
                    continue
                raw = src[v % len(src)]
            elif kind == "flip":
                b = bytearray(good)
                p = 2 + v % (len(b) - 2)
                b[p] ^= 1 << (v // 3 % 8)
                raw = bytes(b)
            else:
                raw = good[:max(0, len(good) - 1 - v % 20)]
            if raw[2:] == good[2:] or (len(raw) >= 18 and ref_open(key, n, nonces[i], raw) is not None):
                continue
            wires[i].inbox[:] = [raw]
            try:
                r = read(i, op[4])
            except BadPeer:
                dead[i] = True
                bad += 1
                rec.label("refused " + kind)
            else:
                fail("end {} (position {}) delivered {} from a packet of the kind '{}'", i, rcount[i], short(r), kind)
    rec.label("default session nonce" if default else "own session nonce", *(["much later"] if start else []))
    rec.nontrivial(got > 0 and (bad > 0 or not any(o[0] == "x" for o in case["ops"])))


def ref_open(key, n, sn, raw):
    try:
        return nb.crypto_box_open_afternm(raw[2:], struct.pack("<Q", n) + sn + bytes(8), key)
    except Exception:
        return None


def guarded(case, rec):
    try:
        body(case, rec)
    except Exception as e:
        if type(e).__name__ in ("Violation", "Skip"):
            raise
        fail("failed with {}", exc_text(e))


def every(tier):
    """Every bit of key, session nonce and counter, for both roles."""
    out = []
    base = dict(key=7, sn=bytes(range(1, 9)), sn2=bytes(8), default=False, start=0)
    for role in (0, 1):
        w = ["w", role ^ 1, [[3, 1], [0, 2]], False, False]
        for kind, n in (("key", 256), ("sn", 64), ("far", 64), ("next", 5), ("flip", 200), ("cut", 20), ("dir", 1), ("sn0", 1)):
            for v in range(n):
                out.append(dict(base, ops=[w, ["x", role, kind, v, bool(v & 1)], ["r", role, False], ["x", role, kind, v, False], ["r", role, True]]))
    return out


def long_cases(tier):
    """Many messages each way, read at once or late, with a refused packet at the end."""
    out = []
    for n, late in ((140, False), (300, False), (700, False), (150, True), (700, True)):
        for default in (True, False):
            for kind in (None, "prev", "dir", "sn", "next"):
                ops = []
                for j in range(n):
                    ops.append(["w", j % 2, [[j % 40, j % 50]] * (1 + j % 3), j % 11 == 0, bool(j & 4)])
                    if j % 5 == 0:
                        ops.append(["w", 2 + j % 2, [[3, 1]], False, False])
                    if not late:
                        ops += [["r", i, bool(j & 2)] for i in range(4) for _ in range(3)]
                ops += [["r", i, False] for i in range(4) for _ in range(2 * n)] if late else []
                if kind:
                    ops += [["w", 0, [[5, 1]], False, False], ["w", 1, [[5, 1]], True, False], ["x", 0, kind, 40, False], ["x", 1, kind, 300, True]]
                out.append(dict(key=9, sn=bytes(range(9, 17)), sn2=bytes(8) if not default else b"\x01" * 8, default=default, start=0, ops=ops))
    return out


def lengths(tier):
    return [dict(n=n, kind=k, role=r, kw=w) for n in list(range(0, 130)) + [255, 256, 257, 1000, 65568] if n != 32 for k in ("bytes", "bytearray")
            for r in (0, 1) for w in (False, True)]


def bad_key(case, rec):
    key = (bytes if case["kind"] == "bytes" else bytearray)(gen.expand(case["n"], case["n"]))
    ch = chan.PeerChannel(inbox=[seal(bytes(key[:32].ljust(32, b"\0")), 2, bytes(8), b"x")])
    role = (Role.CLIENT, Role.SERVER)[case["role"]]
    try:
        EncryptedChannelV2(ch, key, role, bytes(8)) if case["kw"] else EncryptedChannelV2(ch, key, role)
    except ValueError:
        pass
    except Exception as e:
        fail("a key of {} bytes gave {}", case["n"], exc_text(e))
    else:
        fail("a key of {} bytes was taken", case["n"])
    check(not ch.groups and not ch.reads, "I/O with a bad key")
    rec.nontrivial()


CHECKS = [
    Sub("key_lengths", None, bad_key, quick=1, cases=lengths),
    Sub("every_bit", None, guarded, quick=1, cases=every),
    Sub("long", None, guarded, quick=1, cases=long_cases, cpu=300),
    Sub("histories", case, guarded, quick=18000, thorough=300000),
]
