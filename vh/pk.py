"""Uniform access to the packet classes: build from field values, read field values back."""
import functools

from hypothesis import strategies as st

import saltchannel.util as util
from saltchannel.a1a2.packets import A1Packet, A2Packet
from saltchannel.v2.packets import AppPacket, EncryptedPacket, M1Packet, M2Packet, M3Packet, M4Packet, MultiAppPacket
from vh import gen, ref

KINDS = ["m1", "m2", "m3", "m4", "enc", "app", "multi", "a1", "a2"]
CLS = dict(m1=M1Packet, m2=M2Packet, m3=M3Packet, m4=M4Packet, enc=EncryptedPacket, app=AppPacket, multi=MultiAppPacket,
           a1=A1Packet, a2=A2Packet)
DEC = dict(m1=ref.d_m1, m2=ref.d_m2, m3=ref.d_m3, m4=ref.d_m4, enc=ref.d_enc, app=ref.d_app, multi=ref.d_multi, a1=ref.d_a1,
           a2=ref.d_a2)

PCHARS = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-./_"


def pstr(n):
    """A legal protocol string from an integer."""
    out = []
    for _ in range(10):
        n, r = divmod(n, len(PCHARS))
        out.append(PCHARS[r])
    return bytes(out)


PSTR = st.one_of(st.integers(0, len(PCHARS) ** 10 - 1).map(pstr), st.sampled_from([b"SCv2------", b"----------", b"Echo------"]))


@functools.lru_cache(None)
def fields(kind):
    b = st.binary
    if kind == "m1":
        return st.fixed_dictionaries(dict(time=gen.U32, enc=gen.tag32(), wanted=st.one_of(st.none(), gen.tag32())))
    if kind == "m2":
        return st.fixed_dictionaries(dict(time=gen.U32, enc=gen.tag32(), nosuch=st.booleans(), last=st.booleans()))
    if kind in ("m3", "m4"):
        return st.fixed_dictionaries(dict(time=gen.U32, key=gen.tag32(), sig=st.tuples(gen.tag32(), gen.tag32()).map(list)))
    if kind == "enc":
        return st.fixed_dictionaries(dict(last=st.booleans(), body=gen.msg(1).map(lambda m: [m[0] + 16, m[1]])))
    if kind == "app":
        return st.fixed_dictionaries(dict(time=gen.U32, data=gen.msg(1)))
    if kind == "multi":
        return st.fixed_dictionaries(dict(time=gen.U32, msgs=st.one_of(
            st.lists(gen.msg(0), min_size=1, max_size=6), st.lists(gen.msg(1).map(lambda m: [min(m[0], 65535), m[1]]), min_size=1, max_size=3),
            st.integers(200, 700).map(lambda n: [[i % 3, i % 9] for i in range(n)]))))
    if kind == "a1":
        return st.one_of(st.just(dict(atype=0, addr=None)), st.fixed_dictionaries(dict(atype=st.just(1), addr=gen.tag32())))
    return st.one_of(st.just(dict(nosuch=True, prots=[])), st.fixed_dictionaries(dict(nosuch=st.just(False), prots=st.one_of(
        st.lists(st.tuples(PSTR, PSTR).map(list), max_size=4),
        st.tuples(st.sampled_from([5, 12, 13, 63, 64, 126, 127]), PSTR, PSTR).map(
            lambda t: [[t[1], (b"%010d" % i)] if i % 2 else [t[2], t[1]] for i in range(t[0])])))))


def norm(kind, f):
    """Specified field values (what the reference decoder gives)."""
    b = gen.b32
    if kind == "m1":
        w = f["wanted"]
        return dict(time=f["time"], enc=b(f["enc"]), wanted=b"" if w is None else b(w), included=int(w is not None))
    if kind == "m2":
        return dict(time=f["time"], enc=b(f["enc"]), nosuch=int(f["nosuch"]), last=int(f["last"] or f["nosuch"]))
    if kind in ("m3", "m4"):
        return dict(time=f["time"], key=b(f["key"]), sig=b(f["sig"][0]) + b(f["sig"][1]))
    if kind == "enc":
        return dict(last=int(f["last"]), body=gen.mk(f["body"]))
    if kind == "app":
        return dict(time=f["time"], data=gen.mk(f["data"]))
    if kind == "multi":
        msgs = [gen.mk(m) for m in f["msgs"]]
        return dict(time=f["time"], count=len(msgs), msgs=msgs)
    if kind == "a1":
        return dict(atype=f["atype"], addr=b"" if f["addr"] is None else b(f["addr"]))
    return dict(nosuch=int(f["nosuch"]), prots=[(p, q) for p, q in f["prots"]])


def wire(kind, n):
    if kind == "m1":
        return ref.m1(n["enc"], n["time"], n["wanted"] if n["included"] else None)
    if kind == "m2":
        return ref.m2(n["enc"], n["time"], n["nosuch"], n["last"])
    if kind in ("m3", "m4"):
        return ref.m34(3 if kind == "m3" else 4, n["key"], n["sig"], n["time"])
    if kind == "enc":
        return ref.encp(n["body"], n["last"])
    if kind == "app":
        return ref.app(n["data"], n["time"])
    if kind == "multi":
        return ref.multi(n["msgs"], n["time"])
    if kind == "a1":
        return ref.a1(n["atype"], n["addr"])
    return ref.a2(n["prots"], n["nosuch"])


def fill(kind, p, n):
    """Sets the field values on a packet object, the way the sessions and the documentation of the classes do."""
    if kind == "m1":
        p.data.Header.ServerSigKeyIncluded = n["included"]
        p.data.Time = n["time"]
        p.create_opt_fields()
        p.ClientEncKey = n["enc"]
        if n["included"]:
            p.ServerSigKey = n["wanted"]
    elif kind == "m2":
        p.data.Header.NoSuchServer = n["nosuch"]
        p.data.Header.LastFlag = n["last"]
        p.data.Time = n["time"]
        p.ServerEncKey = n["enc"]
    elif kind == "m3":
        p.data.Time = n["time"]
        p.ServerSigKey = n["key"]
        p.Signature1 = n["sig"]
    elif kind == "m4":
        p.data.Time = n["time"]
        p.ClientSigKey = n["key"]
        p.Signature2 = n["sig"]
    elif kind == "enc":
        p.data.Header.LastFlag = n["last"]
        p.Body = n["body"]
    elif kind == "app":
        p.data.Time = n["time"]
        p.Data = n["data"]
    elif kind == "multi":
        p.data.Time = n["time"]
        p.data.Count = n["count"]
        p.create_opt_fields(msgs=n["msgs"])
    elif kind == "a1":
        p.data.AddressType = n["atype"]
        p.data.AddressSize = len(n["addr"])
        p.Address = n["addr"]
    else:
        p.data.Header.NoSuchServer = n["nosuch"]
        p.data.Count = len(n["prots"])
        p.create_opt_fields(prot_count=len(n["prots"]))
        for i, (a, b) in enumerate(n["prots"]):
            p.Prot[i].P1 = util.cbytes(a)
            p.Prot[i].P2 = util.cbytes(b)
    return p


def read(kind, p):
    """Field values of a packet object in the reference decoder's form."""
    d = p.data
    if kind == "m1":
        inc = int(d.Header.ServerSigKeyIncluded)
        return dict(time=int(d.Time), enc=bytes(p.ClientEncKey), wanted=bytes(p.ServerSigKey) if inc else b"", included=inc)
    if kind == "m2":
        return dict(time=int(d.Time), enc=bytes(p.ServerEncKey), nosuch=int(d.Header.NoSuchServer), last=int(d.Header.LastFlag))
    if kind == "m3":
        return dict(time=int(d.Time), key=bytes(p.ServerSigKey), sig=bytes(p.Signature1))
    if kind == "m4":
        return dict(time=int(d.Time), key=bytes(p.ClientSigKey), sig=bytes(p.Signature2))
    if kind == "enc":
        return dict(last=int(d.Header.LastFlag), body=bytes(p.Body))
    if kind == "app":
        return dict(time=int(d.Time), data=bytes(p.Data))
    if kind == "multi":
        return dict(time=int(d.Time), count=int(d.Count), msgs=[bytes(m) for m in p.opt.Message])
    if kind == "a1":
        return dict(atype=int(d.AddressType), addr=bytes(p.Address))
    return dict(nosuch=int(d.Header.NoSuchServer), prots=[(bytes(x.P1), bytes(x.P2)) for x in p.Prot] if d.Count else [])
