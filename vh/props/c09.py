import functools

from hypothesis import strategies as st

from saltchannel.exceptions import BadPeer
from vh import pk, ref
from vh.core import Sub, check, exc_text, fail, short

RULE = ("Byte strings per packet type: legal packets with generated edits (bit flips, truncation, extension, field overwrites, "
        "splices with other packets), random bytes behind a right header, pure noise, other packet types; plus every truncation and "
        "every single-byte change of the fixed parts, enumerated. The reference decoder says legal / illegal / open; illegal must "
        "give BadPeer and nothing else, on fresh and on used packet objects, legal must be accepted with exactly its fields. "
        "Non-trivial: the bytes are not legal but start with the right type byte.")
ASSUMPTIONS = ["packets with reserved bits set or trailing bytes may be accepted or refused with BadPeer: the specification leaves it open"]


def edit():
    return st.one_of(
        st.tuples(st.just("flip"), st.integers(0, 120), st.integers(0, 7)).map(list),
        st.tuples(st.just("set"), st.integers(0, 12), st.sampled_from([0, 1, 2, 3, 31, 32, 33, 127, 128, 129, 254, 255])).map(list),
        st.tuples(st.just("set"), st.integers(0, 80), st.integers(0, 255)).map(list),
        st.tuples(st.just("cut"), st.integers(0, 110)).map(list),
        st.tuples(st.just("tail"), st.integers(1, 45)).map(list),
        st.tuples(st.just("add"), st.binary(min_size=1, max_size=40)).map(list),
        st.tuples(st.just("del"), st.integers(0, 60), st.integers(1, 4)).map(list),
        st.tuples(st.just("ins"), st.integers(0, 60), st.binary(min_size=1, max_size=4)).map(list),
    )


HEAD = dict(m1=b"SCv2\x01", m2=b"\x02", m3=b"\x03", m4=b"\x04", enc=b"\x06", app=b"\x05", multi=b"\x0b", a1=b"\x08", a2=b"\x09")


@functools.lru_cache(None)
def small_fields(k):
    """Like pk.fields but never huge: the bytes are printed in replays."""
    def cap(f):
        f = dict(f)
        for n in ("body", "data"):
            if n in f:
                f[n] = [min(f[n][0], 300), f[n][1]]
        if "msgs" in f:
            f["msgs"] = [[min(m[0], 300), m[1]] for m in f["msgs"][:8]]
        return f
    return pk.fields(k).map(cap)


def case():
    others = {o: st.tuples(st.just(o), small_fields(o)).map(list) for o in pk.KINDS}
    OTHER = st.sampled_from(pk.KINDS).flatmap(others.get)

    def for_kind(k):
        src = st.one_of(
            st.tuples(st.just("edit"), small_fields(k), st.lists(edit(), min_size=1, max_size=3)).map(list),
            st.tuples(st.just("edit"), small_fields(k), st.lists(edit(), min_size=1, max_size=3)).map(list),
            st.tuples(st.just("head"), st.binary(max_size=130)).map(list),
            st.tuples(st.just("noise"), st.binary(max_size=60)).map(list),
            st.tuples(st.just("other"), OTHER).map(list))
        return st.fixed_dictionaries(dict(kind=st.just(k), src=src, used=st.one_of(st.none(), small_fields(k))))
    by_kind = {k: for_kind(k) for k in pk.KINDS}
    return st.sampled_from(pk.KINDS).flatmap(by_kind.get)


def make(k, src):
    how = src[0]
    if how == "raw":
        return src[1]
    if how == "head":
        return HEAD[k] + src[1]
    if how == "noise":
        return src[1]
    if how == "other":
        return pk.wire(src[1][0], pk.norm(src[1][0], src[1][1]))
    b = bytearray(pk.wire(k, pk.norm(k, src[1])))
    for e in src[2]:
        if e[0] == "flip" and b:
            b[e[1] % len(b)] ^= 1 << e[2]
        elif e[0] == "set" and b:
            b[e[1] % len(b)] = e[2]
        elif e[0] == "cut":
            del b[e[1]:]
        elif e[0] == "tail":
            del b[max(0, len(b) - e[1]):]
        elif e[0] == "add":
            b += e[1]
        elif e[0] == "del":
            del b[e[1]:e[1] + e[2]]
        elif e[0] == "ins":
            b[e[1]:e[1]] = e[2]
    return bytes(b)


def judge(k, raw, decode, verdict, f, what):
    try:
        p = decode()
    except BadPeer:
        check(verdict != "ok", "{}: a legal packet was refused, {}: {}", k, what, short(raw))
        return
    except Exception as e:
        fail("{}: {} instead of {}, {}: {}", k, exc_text(e), "BadPeer" if verdict == "bad" else "a result", what, short(raw))
    if verdict == "bad":
        try:
            got = short(pk.read(k, p))
        except Exception as e:
            got = "an object that cannot be read"
        fail("{}: an illegal packet was accepted as {}, {}: {}", k, got, what, short(raw))
    got = pk.read(k, p)
    check(got == f, "{}: decoded as {} instead of {}, {}: {}", k, short(got), short(f), what, short(raw))


def used_object(k, raw, before):
    def decode():
        q = pk.CLS[k]()
        q.from_bytes(pk.wire(k, pk.norm(k, before)))
        q.from_bytes(raw)
        return q
    return decode


def body(case, rec):
    k = case["kind"]
    raw = make(k, case["src"])
    verdict, f = pk.DEC[k](raw)
    judge(k, raw, lambda: pk.CLS[k](src_buf=raw), verdict, f, "constructor")

    def fresh():
        q = pk.CLS[k]()
        q.from_bytes(raw)
        return q
    judge(k, raw, fresh, verdict, f, "from_bytes")
    if case["used"] is not None:
        judge(k, raw, used_object(k, raw, case["used"]), verdict, f, "from_bytes on a used object")
    rec.label(k + " " + verdict, case["src"][0])
    rec.nontrivial(verdict == "bad" and raw[:len(HEAD[k])] == HEAD[k])


SAMPLE = dict(
    m1=[dict(time=1, enc=5, wanted=None), dict(time=2**32 - 1, enc=6, wanted=7)],
    m2=[dict(time=1, enc=5, nosuch=False, last=False), dict(time=0, enc=bytes(32), nosuch=True, last=True)],
    m3=[dict(time=9, key=5, sig=[6, 7])], m4=[dict(time=9, key=5, sig=[6, 7])],
    enc=[dict(last=False, body=[16, 3]), dict(last=True, body=[40, 4])],
    app=[dict(time=3, data=[0, 1]), dict(time=3, data=[9, 1])],
    multi=[dict(time=3, msgs=[[4, 1], [0, 2], [7, 3]]), dict(time=3, msgs=[[300, 1], [2, 2]]), dict(time=0, msgs=[[1, 1]])],
    a1=[dict(atype=0, addr=None), dict(atype=1, addr=4)],
    a2=[dict(nosuch=True, prots=[]), dict(nosuch=False, prots=[[b"SCv2------", b"----------"], [b"Echo.v_1/2", b"abcdefghij"]]),
        dict(nosuch=False, prots=[])],
)


def sweep(tier):
    """Every truncation, every value of every header byte, and every byte of the rest with chosen values."""
    out = []
    for k in pk.KINDS:
        for f in SAMPLE[k]:
            w = pk.wire(k, pk.norm(k, f))
            for n in range(len(w)):
                out.append(dict(kind=k, src=["raw", w[:n]], used=f))
            for n in range(1, 45):
                out.append(dict(kind=k, src=["raw", w + bytes([n]) * n], used=f))
            for i in range(min(len(w), 44 if k == "a2" else 12)):
                for v in (range(256) if i < 6 or k == "a2" or tier == "thorough" else (0, 1, 2, 10, 45, 127, 128, 255)):
                    out.append(dict(kind=k, src=["raw", w[:i] + bytes([v]) + w[i + 1:]], used=None))
    for s in range(0, 70) if tier == "quick" else range(0, 700):
        for at in (0, 1, 2):                  # A1 address sizes
            for claim in {s, s + 1, max(0, s - 1), s + 256, 32, 0}:
                out.append(dict(kind="a1", src=["raw", b"\x08\x00" + bytes([at]) + claim.to_bytes(2, "little") + b"\x21" * s], used=None))
    for s in range(70, 1100):                 # also longer addresses
        out.append(dict(kind="a1", src=["raw", b"\x08\x00\x01" + s.to_bytes(2, "little") + b"\x21" * s], used=None))
    for s in range(32, 65536, 512 if tier == "quick" else 32):
        for at in (0, 1):
            out.append(dict(kind="a1", src=["raw", b"\x08\x00" + bytes([at]) + s.to_bytes(2, "little") + b"\x21" * s], used=None))
    for cnt in range(256):                    # A2 counts against actual numbers
        for have in {0, 1, max(0, cnt - 1), cnt, cnt + 1, cnt & 127}:
            for fl in (0x80, 0x81, 0x00) if cnt < 4 or cnt > 126 and cnt < 131 or tier == "thorough" else (0x80,):
                out.append(dict(kind="a2", src=["raw", bytes([9, fl, cnt]) + b"SCv2------" * (2 * have)], used=None))
    for cnt in (0, 1, 2, 3, 255, 256, 65535):  # multi counts and lengths
        for have in range(0, 5):
            for ln in (0, 1, 5, 65535):
                raw = bytes([11, 0, 1, 0, 0, 0]) + cnt.to_bytes(2, "little") + b"".join(
                    min(5, ln).to_bytes(2, "little") + b"x" * min(5, ln) for _ in range(have)) + (
                    b"" if ln < 65535 else b"\xff\xff" + b"y" * 20)
                out.append(dict(kind="multi", src=["raw", raw], used=None))
    for ln in (0, 1, 2, 255, 256, 257, 32767, 32768, 65534, 65535):   # one message, some bytes too short or too long
        for d in (-2, -1, 0, 1, 2):
            for more in (b"", b"\x03\x00abc"):
                if ln + d >= 0:
                    raw = bytes([11, 0, 1, 0, 0, 0, 1 + bool(more), 0]) + more + ln.to_bytes(2, "little") + b"z" * (ln + d)
                    out.append(dict(kind="multi", src=["raw", raw], used=None))
    for cnt in (100, 128, 255, 256, 257, 301, 511, 512, 1000, 1025, 4096, 32768, 65535):     # many messages, some bytes too short or too long
        for ln in (0, 1, 2):
            for d in (-3, -2, -1, 0, 1, 2):
                b = bytes([11, 0, 1, 0, 0, 0]) + cnt.to_bytes(2, "little") + (ln.to_bytes(2, "little") + b"m" * ln) * cnt
                out.append(dict(kind="multi", src=["raw", b[:d] if d < 0 else b + bytes(d)], used=None))
    for k in pk.KINDS:                        # long packets of every type
        for n in (500, 5000, 65500, 65536, 70000, 140000):
            for c in (0, 33, 255):
                out.append(dict(kind=k, src=["raw", pk.wire(k, pk.norm(k, SAMPLE[k][0])) + bytes([c]) * n], used=None))
    for at in (0, 1, 2):                      # A1 that is longer than its size field can say
        for claim in (0, 1, 31, 32, 33, 65535):
            for k in (65536, 131072, 65535):
                out.append(dict(kind="a1", src=["raw", b"\x08\x00" + bytes([at]) + claim.to_bytes(2, "little") + b"\x21" * ((claim + k) if k != 65535 else k)], used=None))
    for have in (5, 126, 127):                # one bad protocol string among many
        for i in range(2 * have):
            for j in (0, 9) if have > 5 else range(10):
                p = bytearray(b"SCv2------" * (2 * have))
                p[10 * i + j] = b"\n\0 @"[(i + j) % 4]
                out.append(dict(kind="a2", src=["raw", bytes([9, 0x80, have]) + bytes(p)], used=None))
    return out


CHECKS = [
    Sub("enumerated", None, body, quick=1, cases=sweep),
    Sub("generated", case, body, quick=80000, thorough=1500000),
]
