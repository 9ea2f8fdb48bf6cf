"""An independent implementation of the Salt Channel v2 wire format and of both handshake roles.

Uses only struct, hashlib and PyNaCl's C bindings; shares no code with the repository."""
import hashlib
import re
import struct

from nacl import bindings as nb

T_M1, T_M2, T_M3, T_M4, T_APP, T_ENC, T_A1, T_A2, T_MULTI = 1, 2, 3, 4, 5, 6, 8, 9, 11
SIG1, SIG2 = b"SC-SIG01", b"SC-SIG02"
ANY, PUBKEY = 0, 1
PROT = re.compile(rb"[A-Za-z0-9_./-]{10}\Z")

LOW_ORDER = [bytes.fromhex(x) for x in (
    "0000000000000000000000000000000000000000000000000000000000000000",
    "0100000000000000000000000000000000000000000000000000000000000000",
    "e0eb7a7c3b41b8ae1656e3faf19fc46ada098deb9c32b1fd866205165f49b800",
    "5f9c95bca3508c24b1d0b1559c83ef5b04445cc4581c8e86d8224eddd09f1157",
    "ecffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
    "edffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
    "eeffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
)]


def sha512(b):
    return hashlib.sha512(b).digest()


# ---------------------------------------------------------------- encoders

def m1(enc_pub, time=0, wanted=None):
    return b"SCv2" + struct.pack("<BBI", T_M1, 1 if wanted is not None else 0, time) + enc_pub + (wanted or b"")


def m2(enc_pub, time=0, nosuch=False, last=False):
    return struct.pack("<BBI", T_M2, (1 if nosuch else 0) | (0x80 if last else 0), time) + enc_pub


def m34(kind, sig_pub, sig, time=0):
    return struct.pack("<BBI", kind, 0, time) + sig_pub + sig


def encp(body, last=False):
    return struct.pack("<BB", T_ENC, 0x80 if last else 0) + body


def app(data, time=0):
    return struct.pack("<BBI", T_APP, 0, time) + data


def multi(msgs, time=0):
    return struct.pack("<BBIH", T_MULTI, 0, time, len(msgs)) + b"".join(struct.pack("<H", len(m)) + m for m in msgs)


def a1(atype, addr):
    return struct.pack("<BBBH", T_A1, 0, atype, len(addr)) + addr


def a2(prots, nosuch=False):
    return struct.pack("<BBB", T_A2, 0x80 | (1 if nosuch else 0), len(prots)) + b"".join(p + q for p, q in prots)


DEFAULT_PROTS = [(b"SCv2------", b"----------")]


# ---------------------------------------------------------------- decoders
# Each gives (verdict, fields). verdict: "ok" (a legal packet), "bad" (must be rejected),
# "free" (carries reserved bits or trailing bytes: the specification leaves acceptance open; fields as if accepted).

def d_m1(b):
    if len(b) < 6 or b[:4] != b"SCv2" or b[4] != T_M1:
        return "bad", None
    inc = b[5] & 1
    n = 74 if inc else 42
    if len(b) < n:
        return "bad", None
    f = dict(time=struct.unpack("<I", b[6:10])[0], enc=b[10:42], wanted=b[42:74] if inc else b"", included=inc)
    return ("ok" if len(b) == n and b[5] in (0, 1) else "free"), f


def d_m2(b):
    if len(b) < 38 or b[0] != T_M2:
        return "bad", None
    f = dict(time=struct.unpack("<I", b[2:6])[0], enc=b[6:38], nosuch=b[1] & 1, last=b[1] >> 7)
    return ("ok" if len(b) == 38 and not b[1] & 0x7e else "free"), f


def d_m34(kind, b):
    if len(b) < 102 or b[0] != kind:
        return "bad", None
    f = dict(time=struct.unpack("<I", b[2:6])[0], key=b[6:38], sig=b[38:102])
    return ("ok" if len(b) == 102 and b[1] == 0 else "free"), f


def d_m3(b):
    return d_m34(T_M3, b)


def d_m4(b):
    return d_m34(T_M4, b)


def d_enc(b):
    if len(b) < 18 or b[0] != T_ENC:
        return "bad", None
    return ("ok" if not b[1] & 0x7f else "free"), dict(last=b[1] >> 7, body=b[2:])


def d_app(b):
    if len(b) < 6 or b[0] != T_APP:
        return "bad", None
    return ("ok" if b[1] == 0 else "free"), dict(time=struct.unpack("<I", b[2:6])[0], data=b[6:])


def d_multi(b):
    if len(b) < 8 or b[0] != T_MULTI:
        return "bad", None
    time, count = struct.unpack("<IH", b[2:8])
    if not count:
        return "bad", None
    msgs, o = [], 8
    for _ in range(count):
        if o + 2 > len(b):
            return "bad", None
        n = struct.unpack("<H", b[o:o + 2])[0]
        o += 2
        if o + n > len(b):
            return "bad", None
        msgs.append(b[o:o + n])
        o += n
    return ("ok" if o == len(b) and b[1] == 0 else "free"), dict(time=time, count=count, msgs=msgs)


def d_a1(b):
    if len(b) < 5 or b[0] != T_A1:
        return "bad", None
    atype, size = struct.unpack("<BH", b[2:5])
    addr = b[5:]
    if size != len(addr) or (atype == ANY and size) or (atype == PUBKEY and size != 32) or atype not in (ANY, PUBKEY):
        return "bad", None
    return ("ok" if b[1] == 0 else "free"), dict(atype=atype, addr=addr)


def d_a2(b):
    if len(b) < 3 or b[0] != T_A2:
        return "bad", None
    count, n = b[2], (len(b) - 3) // 20
    nosuch, last = b[1] & 1, b[1] >> 7
    if not last or count > 127 or count != n or (nosuch and count):
        return "bad", None
    prots = [(b[3 + 20 * i:13 + 20 * i], b[13 + 20 * i:23 + 20 * i]) for i in range(n)]
    if not all(PROT.match(p) and PROT.match(q) for p, q in prots):
        return "bad", None
    return ("ok" if (len(b) - 3) % 20 == 0 and not b[1] & 0x7e else "free"), dict(nosuch=nosuch, prots=prots)


def d_appmsg(b):
    """What AppChannel must make of a decrypted chunk: (verdict, time, messages)."""
    v, f = d_app(b)
    if v != "bad":
        return v, f["time"], [f["data"]]
    v, f = d_multi(b)
    if v != "bad":
        return v, f["time"], f["msgs"]
    return "bad", None, None


# ---------------------------------------------------------------- keys and crypto

class Keys:
    def __init__(self, seed_sig, sec_enc):
        self.sig_pub, self.sig_sec = nb.crypto_sign_seed_keypair(seed_sig)
        self.enc_sec = sec_enc
        self.enc_pub = nb.crypto_scalarmult_base(sec_enc)


def shared(sec, pub):
    return nb.crypto_box_beforenm(pub, sec)


def nonce(n):
    return struct.pack("<Q", n) + bytes(16)


def seal(key, n, clear):
    return nb.crypto_box_afternm(clear, nonce(n), key)


def unseal(key, n, body):
    """clear bytes, or None"""
    try:
        return nb.crypto_box_open_afternm(body, nonce(n), key)
    except Exception:
        return None


def sign(sec, m):
    return nb.crypto_sign(m, sec)[:64]


def sig_ok(pub, m, sig):
    try:
        nb.crypto_sign_open(sig + m, pub)
        return True
    except Exception:
        return False


class Link:
    """One side of an established encrypted link."""

    def __init__(self, key, client):
        self.key = key
        self.w = 1 if client else 2
        self.r = 2 if client else 1

    def send(self, clear, last=False):
        raw = encp(seal(self.key, self.w, clear), last)
        self.w += 2
        return raw

    def recv(self, raw):
        """(clear, last) or None when the packet is not genuine."""
        v, f = d_enc(raw)
        if v == "bad":
            return None
        clear = unseal(self.key, self.r, f["body"])
        if clear is None:
            return None
        self.r += 2
        return clear, f["last"]


class ProtocolError(Exception):
    """The code under test sent something a conforming peer must refuse."""


class Server:
    """Reference server. feed(raw, last) -> list of groups of (raw, last) to send."""

    def __init__(self, keys, times=(0, 0), buffer_m2=False, prots=None):
        self.k = keys
        self.times = times
        self.state = "m1"
        self.app_in = []
        self.last_flags = []
        self.link = None
        self.peer_sig = None
        self.log = []

    def feed(self, raw, last=False):
        return getattr(self, "on_" + self.state)(raw)

    def on_m1(self, raw):
        v, f = d_m1(raw)
        if v == "bad":
            raise ProtocolError("not an M1: " + raw.hex())
        if v != "ok":
            raise ProtocolError("M1 with reserved bits or trailing bytes: " + raw.hex())
        self.m1, self.m1_raw = f, raw
        self.m2_raw = m2(self.k.enc_pub, self.times[0])
        self.key = shared(self.k.enc_sec, f["enc"])
        self.link = Link(self.key, client=False)
        h = sha512(raw) + sha512(self.m2_raw)
        self.transcript = h
        m3 = m34(T_M3, self.k.sig_pub, sign(self.k.sig_sec, SIG1 + h), self.times[1])
        self.state = "m4"
        return [self.m2_raw, self.link.send(m3)]

    def on_m4(self, raw):
        got = self.link.recv(raw)
        if got is None:
            raise ProtocolError("M4 does not decrypt or is not an encrypted packet")
        if raw[1] != 0:
            raise ProtocolError("M4 packet header flags %02x" % raw[1])
        v, f = d_m4(got[0])
        if v != "ok":
            raise ProtocolError("bad M4: " + got[0].hex())
        if not sig_ok(f["key"], SIG2 + self.transcript, f["sig"]):
            raise ProtocolError("bad Signature2")
        self.m4 = f
        self.peer_sig = f["key"]
        self.state = "app"
        return []

    def on_app(self, raw):
        got = self.link.recv(raw)
        if got is None:
            raise ProtocolError("application packet does not decrypt")
        v, t, msgs = d_appmsg(got[0])
        if v != "ok":
            raise ProtocolError("bad application packet: " + got[0][:64].hex())
        self.log.append((got[0], got[1]))
        self.app_in.extend(msgs)
        self.last_flags.append(got[1])
        return []


class Client:
    """Reference client. start() gives M1; feed(raw) the replies."""

    def __init__(self, keys, times=(0, 0), wanted=None):
        self.k = keys
        self.times = times
        self.wanted = wanted
        self.state = "m2"
        self.app_in = []
        self.last_flags = []
        self.log = []
        self.link = None
        self.peer_sig = None

    def start(self):
        self.m1_raw = m1(self.k.enc_pub, self.times[0], self.wanted)
        return [self.m1_raw]

    def feed(self, raw, last=False):
        return getattr(self, "on_" + self.state)(raw)

    def on_m2(self, raw):
        v, f = d_m2(raw)
        if v != "ok":
            raise ProtocolError("not an M2: " + raw.hex())
        if f["nosuch"]:
            raise ProtocolError("NoSuchServer")
        if f["last"]:
            raise ProtocolError("M2 with last flag")
        self.m2, self.m2_raw = f, raw
        self.key = shared(self.k.enc_sec, f["enc"])
        self.link = Link(self.key, client=True)
        self.transcript = sha512(self.m1_raw) + sha512(raw)
        self.state = "m3"
        return []

    def on_m3(self, raw):
        got = self.link.recv(raw)
        if got is None:
            raise ProtocolError("M3 does not decrypt or is not an encrypted packet")
        if raw[1] != 0:
            raise ProtocolError("M3 packet header flags %02x" % raw[1])
        v, f = d_m3(got[0])
        if v != "ok":
            raise ProtocolError("bad M3: " + got[0].hex())
        if not sig_ok(f["key"], SIG1 + self.transcript, f["sig"]):
            raise ProtocolError("bad Signature1")
        self.m3 = f
        self.peer_sig = f["key"]
        m4 = m34(T_M4, self.k.sig_pub, sign(self.k.sig_sec, SIG2 + self.transcript), self.times[1])
        self.state = "app"
        return [self.link.send(m4)]

    on_app = Server.on_app
