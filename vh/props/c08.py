from hypothesis import strategies as st

from vh import pk
from vh.core import Sub, check, same_bytes, short, exc_text, fail

RULE = ("Field values of all nine packet types are generated (extreme integers and keys, lengths at the limits, 0..127 protocols, "
        "1..65535 messages) with a history of earlier uses of the same packet object; bytes and values are compared with the "
        "reference encoder and decoder. Non-trivial: the packet object was used before, or a variable part is present, or an "
        "integer field is not 0.")


def case():
    def for_kind(k):
        return st.fixed_dictionaries(dict(kind=st.just(k), f=pk.fields(k), before=st.lists(
            st.tuples(st.sampled_from(["decode", "fill", "bad"]), pk.fields(k)).map(list), max_size=2)))
    by_kind = {k: for_kind(k) for k in pk.KINDS}
    return st.sampled_from(pk.KINDS).flatmap(by_kind.get)


def body(case, rec):
    k = case["kind"]
    n = pk.norm(k, case["f"])
    want = pk.wire(k, n)
    # encode with a fresh object, then with one used before
    p = pk.fill(k, pk.CLS[k](), n)
    same_bytes(bytes(p), want, "encoding of " + k)
    check(p.size == len(want), "size of {} is {}, encoded length {}", k, p.size, len(want))
    same_bytes(bytes(p), want, "second encoding of " + k)
    check(pk.read(k, p) == n, "fields of the filled {} are {}", k, short(pk.read(k, p)))

    used = pk.CLS[k]()
    for how, f in case["before"]:
        m = pk.norm(k, f)
        w = pk.wire(k, m)
        try:
            if how == "decode":
                used.from_bytes(w)
            elif how == "fill":
                pk.fill(k, used, m)
            else:
                used.from_bytes(w[:-1] if k != "app" else w[:5])
        except Exception as e:
            if how != "bad":
                fail("{} refused a legal packet: {}", k, exc_text(e))
    for q, what in ((pk.CLS[k](src_buf=want), "decoded by the constructor"), (used, "decoded by a used object")):
        if q is used:
            q.from_bytes(want)
        got = pk.read(k, q)
        check(got == n, "{} {}: {} instead of {}", k, what, short(got), short(n))
        same_bytes(bytes(q), want, "%s, %s, encoded again" % (k, what))
        check(q.size == len(want), "size of {} {} is {} instead of {}", k, what, q.size, len(want))
    # filling the used object again
    if case["before"]:
        again = pk.CLS[k]()
        m = pk.norm(k, case["before"][0][1])
        pk.fill(k, again, m)
        pk.fill(k, again, n)
        if not (k == "m2" and m["last"] and not n["last"]):
            same_bytes(bytes(again), want, "encoding of %s by a used object" % k)
    # two objects of one type do not share state
    other = pk.CLS[k]()
    if case["before"]:
        pk.fill(k, other, pk.norm(k, case["before"][0][1]))
        same_bytes(bytes(p), want, "%s after another object of the type was filled" % k)
        check(pk.read(k, p) == n, "{}: fields changed when another object was filled", k)
        first = pk.CLS[k](src_buf=want)
        pk.CLS[k](src_buf=pk.wire(k, pk.norm(k, case["before"][0][1])))
        check(pk.read(k, first) == n, "{}: fields changed when another packet was decoded", k)
        same_bytes(bytes(first), want, "%s after another packet was decoded" % k)
    rec.label(k, *(["used before: " + h[0] for h in case["before"]]))
    var = dict(m1="included", enc="body", app="data", multi="msgs", a1="addr", a2="prots").get(k)
    rec.nontrivial(bool(case["before"]) or bool(var and n[var]) or bool(n.get("time")))


def limits(tier):
    out = []
    for cnt in (1, 255, 256, 257, 65535):
        out.append(dict(kind="multi", f=dict(time=1, msgs=["n", cnt]), before=[]))
    for c in range(0, 128, 1 if tier == "thorough" else 3):
        out.append(dict(kind="a2", f=dict(nosuch=False, prots=["n", c]), before=[]))
    out.append(dict(kind="a2", f=dict(nosuch=False, prots=["n", 127]), before=[]))
    for n in (65535, 65536, 1 << 20):
        out.append(dict(kind="app", f=dict(time=2**32 - 1, data=[n, 4]), before=[]))
        out.append(dict(kind="enc", f=dict(last=True, body=[n, 4]), before=[]))
    for t in range(32):
        for k in ("m1", "m2", "m3", "m4", "app", "multi"):
            f = dict(m1=dict(enc=1, wanted=2), m2=dict(enc=1, nosuch=False, last=False), m3=dict(key=1, sig=[2, 3]),
                     m4=dict(key=1, sig=[2, 3]), app=dict(data=[3, 1]), multi=dict(msgs=[[1, 1], [0, 1]]))[k]
            out.append(dict(kind=k, f=dict(f, time=1 << t), before=[]))
    return out


def limits_body(case, rec):
    f = dict(case["f"])
    if f.get("msgs") and f["msgs"][0] == "n":
        f["msgs"] = [[i % 2, i % 7] for i in range(f["msgs"][1])]
    if f.get("prots") and f["prots"][0] == "n":
        f["prots"] = [[b"P%09d" % i, b"q.%08d" % (i * 7)] for i in range(f["prots"][1])]
    body(dict(case, f=f), rec)
    rec.nontrivial()


CHECKS = [
    Sub("limits", None, limits_body, quick=1, cases=limits),
    Sub("round_trip", case, body, quick=48000, thorough=800000),
]
