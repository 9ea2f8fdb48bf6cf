"""Strategies and session builders shared by the property modules. All cases are plain JSON-able data."""
from hypothesis import strategies as st

from saltchannel.util.key_pair import KeyPair
from saltchannel.util.time import TimeKeeper, TimeChecker
from saltchannel.v2.salt_client_session import SaltClientSession
from saltchannel.v2.salt_server_session import SaltServerSession
from vh import chan, ref
from vh.core import expand

U32 = st.one_of(st.sampled_from([0, 1, 2, 255, 256, 65535, 65536, 2**31 - 1, 2**31, 2**32 - 2, 2**32 - 1]),
                st.integers(0, 2**32 - 1))

SPECIAL32 = [bytes(32), b"\xff" * 32, bytes([9]) + bytes(31), bytes(31) + b"\x80", b"\x01" * 32]


def b32(x):
    """32 bytes from a tag (int) or the bytes themselves."""
    return expand(32, x) if isinstance(x, int) else x


# tags whose public keys begin or end with two zero bytes, two 0xff, one zero at both ends, white space at both ends
ODD_ENC = [30634, 49094, 44382, 78048, 86538, 93825, 14905, 18914, 4764, 25575]
ODD_SIG = [149025, 222600, 97323, 120322, 204357, 233301, 120914, 249059, 11723, 23142]


def tag32(odd=()):
    return st.one_of(st.integers(0, 2**20), st.integers(0, 2**20), st.integers(0, 2**20), st.sampled_from(SPECIAL32 + list(odd)),
                     st.binary(min_size=32, max_size=32))


def party():
    """[signing seed, secret encryption key]"""
    return st.tuples(tag32(ODD_SIG), tag32(ODD_ENC)).map(list)


def keys(p):
    return ref.Keys(b32(p[0]), b32(p[1]))


class Mixed:
    """Signing keys of one party, encryption keys of another."""

    def __init__(self, sig, enc):
        self.sig_sec, self.sig_pub, self.enc_sec, self.enc_pub = sig.sig_sec, sig.sig_pub, enc.enc_sec, enc.enc_pub


def sig_pair(k):
    return KeyPair(sec=k.sig_sec, pub=k.sig_pub)


def enc_pair(k):
    return KeyPair(sec=k.enc_sec, pub=k.enc_pub)


SMALL = st.integers(0, 40)
EDGE = st.sampled_from([0, 1, 2, 5, 6, 7, 15, 16, 17, 31, 32, 33, 63, 64, 65, 101, 102, 103, 255, 256, 257, 1000, 4096])
BIG = st.sampled_from([32767, 32768, 65519, 65533, 65534, 65535, 65536, 65537, 65551, 70000, 131071, 131072, 200001])


def length(big=1):
    """Message lengths; `big` in 16 are around the 64 KiB limits."""
    return st.integers(0, 15).flatmap(lambda i: BIG if i >= 16 - big else (EDGE if i >= 8 else SMALL))


def msg(big=1):
    """[length, tag]; tags below 0 are the contents in ODD."""
    return st.tuples(length(big), st.integers(-len(ODD), 60)).map(list)


ODD = [lambda n: bytes(n), lambda n: b"\xff" * n, lambda n: (bytes(3) + expand(n, 1))[:max(0, n - 2)] + bytes(min(2, n)),   # zeros at both ends
       lambda n: (b"\r\n \t" * (n // 4 + 1))[:n], lambda n: (b"\x05\x00\x00\x00\x00\x00" + expand(n, 2))[:n],       # white space, app packet
       lambda n: (b"\x0b\x00\x00\x00\x00\x00\x02\x00\x01\x00a\x01\x00b" + bytes(n))[:n],                             # multi packet
       lambda n: (b"SCv2\x01\x00" + expand(n, 3))[:n], lambda n: (b"\x06\x80" + expand(n, 4))[:n],                     # M1, encrypted packet
       lambda n: (n.to_bytes(4, "little") + expand(n, 5))[:n]]                                                        # length prefix


def mk(m):
    n, t = m
    return expand(n, t) if t >= 0 else ODD[-1 - t](n)


def delays():
    return st.lists(st.integers(0, 4), max_size=6)


MSEC = st.one_of(st.integers(100, 5000), st.integers(1000, 300000), st.sampled_from(
    [1500, 5500, 10500, 31000, 61000, 121000, 301000, 3601000, 90000000, 10**10]))


def slow_delays():
    """Delays of seconds to months, for a virtual-time loop."""
    return st.lists(st.one_of(MSEC, MSEC, st.integers(0, 2)), min_size=1, max_size=6)


class Keeper(TimeKeeper):
    """Gives generated values and writes down what it gave."""

    def __init__(self, first, rest):
        self.firsts = list(first) if isinstance(first, (list, tuple)) else [first]
        self.n = 0
        self.rest = list(rest) or [0]
        self.i = 0
        self.log = []

    def get_first_time(self):
        v = self.firsts[self.n % len(self.firsts)]
        self.n += 1
        self.log.append(("first", v))
        return v

    def get_time(self):
        v = self.rest[self.i % len(self.rest)]
        self.i += 1
        self.log.append(("time", v))
        return v


class Checker(TimeChecker):
    """Writes down what it is given; refuse_at: index of the call that raises `exc`."""

    def __init__(self, refuse_at=None, exc=None):
        self.log = []
        self.refuse_at = refuse_at
        self.exc = exc

    def _hit(self, kind, time):
        self.log.append((kind, int(time)))
        if self.refuse_at is not None and len(self.log) - 1 == self.refuse_at:
            raise self.exc

    def report_first_time(self, time):
        self._hit("first", time)

    def check_time(self, time):
        self._hit("time", time)


def timing():
    """None (defaults) or [first, [times...]]"""
    return st.one_of(st.none(), st.tuples(st.integers(0, 1), st.lists(U32, min_size=1, max_size=4)).map(list))


def timing_varied(first=None):
    """Like timing(); the first time may be another one at each call."""
    one = st.integers(0, 1) if first is None else first
    return st.one_of(st.none(), st.tuples(st.lists(one, min_size=1, max_size=3),
                                          st.lists(U32, min_size=1, max_size=4)).map(list))


def set_timing(session, t):
    if t is not None:
        session.time_keeper = Keeper(t[0], t[1])


def client(k, ch, buffer_m4=False, wanted=None, loop=None):
    s = SaltClientSession(sig_pair(k), ch, loop=loop) if loop is not None else SaltClientSession(sig_pair(k), ch)
    s.enc_keypair = enc_pair(k)
    if buffer_m4:                      # otherwise whatever a new session does
        s.buffer_M4 = True
    if wanted is not None:
        s.wanted_server_sig_key = wanted
    return s


def server(k, ch, buffer_m2=False, loop=None):
    s = SaltServerSession(sig_pair(k), ch, loop=loop) if loop is not None else SaltServerSession(sig_pair(k), ch)
    s.enc_keypair = enc_pair(k)
    if buffer_m2:
        s.buffer_m2 = True
    return s


def usable(a, b):
    """Both key agreements are defined (they are for every pair of secret keys; kept as a guard)."""
    try:
        ref.shared(a.enc_sec, b.enc_pub)
        ref.shared(b.enc_sec, a.enc_pub)
        return True
    except Exception:
        return False


def established(role, k, buf=False):
    """A session of the code under test (role) established with a reference peer: (session, channel, peer link, peer)."""
    ck, sk = keys([k, k + 1000]), keys([k + 2000, k + 3000])
    if role == "client":
        peer = ref.Server(sk)
        ch = chan.peer_channel(peer)
        s = client(ck, ch, buf)
    else:
        peer = ref.Client(ck)
        ch = chan.peer_channel(peer)
        ch.inbox.extend(peer.start())
        s = server(sk, ch, buf)
    chan.run(s.handshake())
    return s, ch, peer.link, peer


JUMPS = st.one_of(st.none(), st.tuples(st.sampled_from([7, 8, 15, 16, 17, 31, 32, 33, 47, 48, 53, 62, 63]), st.integers(-6, 3)).map(
    lambda t: 2 * max(0, 2**t[0] // 2 + t[1])), st.integers(0, 2**62).map(lambda x: 2 * x))


def jump(session, link, d):
    """Takes an established session and its reference peer d/2 packets further in both directions, as if they had been exchanged.
    Only where the session keeps its counters the way it did when this was written; gives whether it was done."""
    ec = session.enc_channel
    rn, wn = getattr(ec, "read_nonce", None), getattr(ec, "write_nonce", None)
    if not d or getattr(rn, "value", None) != link.w or getattr(wn, "value", None) != link.r:
        return False
    if type(rn.value) is not int or type(wn.value) is not int:
        return False
    try:
        rn.value += d
        wn.value += d
    except AttributeError:
        return False
    if rn.value != link.w + d or wn.value != link.r + d:
        return False
    link.w += d
    link.r += d
    return True
