import hashlib
import os
import sys

from vh import env

sys.path.append(os.path.join(env.VERIF, "vh", "stubs"))      # before the code under test is imported

from hypothesis import strategies as st
from nacl import bindings as nb

from saltchannel.saltlib import BadEncryptedDataException, BadSignatureException
from saltchannel.saltlib.saltlib import LibType, SaltLib
from saltchannel.v2.encrypted_channel_v2 import EncryptedChannelV2, Role
from saltchannel.exceptions import BadPeer
from vh import chan, gen, ref
from vh.core import Sub, check, exc_text, fail, same_bytes, short

RULE = ("Generated keys (also all-zero, all-one, clamped-equivalent), nonces and messages (empty to 3 MB) go through every back end and the "
        "facade on top of it; results are compared with NaCl's (PyNaCl bindings, hashlib), also for inputs that differ in one bit from earlier ones, and every back end opens what every other one "
        "made. Generated single-bit changes, truncations, extensions and exchanges of message, signature, box, nonce and key, and signatures made with the secret key but for one bit of R, must be "
        "refused with the documented error. Non-trivial: a non-empty message, and for refusals an input that differs from the genuine one.")
ASSUMPTIONS = ["the TweetNaCl extension is not installed here: its back end runs on a stand-in module with NaCl's functions, so that the "
               "adapter code is checked, not the extension", "libsodium as called through PyNaCl's bindings is the reference for NaCl"]

BACK = {}
for _t in (LibType.LIB_TYPE_NATIVE, LibType.LIB_TYPE_PYNACL, LibType.LIB_TYPE_TWEETNACL_EXT):
    try:
        BACK[_t.name] = SaltLib.getLib(_t)
    except Exception:
        pass
NAMES = ["LIB_TYPE_NATIVE", "LIB_TYPE_PYNACL", "LIB_TYPE_TWEETNACL_EXT"]
LT = {t.name: t for t in LibType}


def facade(name):
    """A facade on this back end (SaltLib itself is a singleton)."""
    return type.__call__(SaltLib, LT[name])


def back(name):
    if name not in BACK:
        fail("back end {} is not available although its library is installed", name)
    return BACK[name]


def case():
    name = st.sampled_from(NAMES)
    return st.fixed_dictionaries(dict(a=name, b=name, seed=gen.tag32(), sec=gen.tag32(), sec2=gen.tag32(), rawpub=st.one_of(st.none(), gen.tag32()),
                                      nonce=st.one_of(st.binary(min_size=24, max_size=24), st.integers(0, 2**64 - 1).map(lambda n: n.to_bytes(8, "little") + bytes(16))),
                                      msg=gen.msg(1), again=st.lists(st.tuples(st.integers(0, 2**20), st.integers(0, 7), st.integers(0, 31)).map(list), max_size=2)))


def nudge(b, pos, bit):
    """One bit changed; positions count from the middle."""
    b = bytearray(b)
    if b:
        b[(len(b) // 2 + pos) % len(b)] ^= 1 << bit
    return bytes(b)


def body(case, rec):
    m, nonce = gen.mk(case["msg"]), case["nonce"]
    seed, sec, sec2 = gen.b32(case["seed"]), gen.b32(case["sec"]), gen.b32(case["sec2"])
    fa = facade(case["a"])
    one(case, rec, fa, m, nonce, seed, sec, sec2)
    for pos, bit, which in case.get("again", ()):      # the same objects, an input almost the same, then the first one again
        v = [nudge(x, pos, bit) if which >> i & 1 else x for i, x in enumerate((m, nonce, seed, sec, sec2))]
        one(case, rec, fa, *v)
        one(case, rec, fa, m, nonce, seed, sec, sec2)
        rec.label("again, almost the same")


def one(case, rec, fa, m, nonce, seed, sec, sec2):
    a, b = back(case["a"]), back(case["b"])
    # hashes
    same_bytes(a.crypto_hash(m), hashlib.sha512(m).digest(), "SHA-512 by " + case["a"])
    same_bytes(fa.sha512(m), hashlib.sha512(m).digest(), "SHA-512 by the facade")
    # signatures
    pk, sk = nb.crypto_sign_seed_keypair(seed)
    r = a.crypto_sign_keypair_not_random(seed)
    check(tuple(map(bytes, r)) == (pk, sk), "signing keys of {}: {}", case["a"], short(r))
    kp = fa.create_sig_keys_from_sec(seed)
    check((bytes(kp.pub), bytes(kp.sec)) == (pk, sk), "signing keys of the facade: {}", short(kp))
    kp = fa.create_sig_keys_from_sec(sk)
    check((bytes(kp.pub), bytes(kp.sec)) == (pk, sk), "signing keys from the full secret key: {}", short(kp))
    sm = nb.crypto_sign(m, sk)
    same_bytes(a.crypto_sign(m, sk), sm, "signature by " + case["a"])
    same_bytes(fa.sign(m, sk), sm, "signature by the facade")
    same_bytes(b.crypto_sign_open(a.crypto_sign(m, sk), pk), m, "%s opens the signature of %s" % (case["b"], case["a"]))
    same_bytes(fa.sign_open(sm, pk), m, "facade opens a signature")
    # key agreement
    pub, pub2 = nb.crypto_scalarmult_base(sec), nb.crypto_scalarmult_base(sec2)
    r = a.crypto_box_keypair_not_random(sec)
    check(tuple(map(bytes, r)) == (pub, sec), "encryption keys of {}: {}", case["a"], short(r))
    kp = fa.create_enc_keys_from_sec(sec)
    check((bytes(kp.pub), bytes(kp.sec)) == (pub, sec), "encryption keys of the facade: {}", short(kp))
    k = nb.crypto_box_beforenm(pub2, sec)
    same_bytes(a.crypto_box_beforenm(pub2, sec), k, "shared key by " + case["a"])
    same_bytes(b.crypto_box_beforenm(pub, sec2), k, "shared key by %s from the other side" % case["b"])
    same_bytes(fa.compute_shared_key(sec, pub2), k, "shared key by the facade")
    if case["rawpub"] is not None:
        raw = gen.b32(case["rawpub"])
        try:
            k2 = nb.crypto_box_beforenm(raw, sec)
        except Exception:
            k2 = None
        if k2 is None:
            try:
                fa.compute_shared_key(sec, raw)
            except BadPeer:
                pass
            else:
                fail("facade accepts a low-order public key {}", raw.hex())
        else:
            same_bytes(a.crypto_box_beforenm(raw, sec), k2, "shared key by %s for %s" % (case["a"], raw.hex()))
    # boxes
    c = nb.crypto_box_afternm(m, nonce, k)
    same_bytes(a.crypto_box_afternm(m, nonce, k), c, "box by " + case["a"])
    same_bytes(fa.encrypt(k, nonce, m), c, "box by the facade")
    same_bytes(b.crypto_box_open_afternm(a.crypto_box_afternm(m, nonce, k), nonce, k), m, "%s opens the box of %s" % (case["b"], case["a"]))
    same_bytes(fa.decrypt(k, nonce, c), m, "facade opens a box")
    rec.label(case["a"] + " -> " + case["b"])
    rec.nontrivial(bool(m))


ORDER = 2**252 + 27742317777372353535851937790883648493       # of the Ed25519 group


def nearly(seed, m, i, bit):
    """A signed message made with the secret key, right but for one bit of R (which s accounts for as far as possible)."""
    pk, sk = nb.crypto_sign_seed_keypair(seed)
    h = hashlib.sha512(seed).digest()
    a = int.from_bytes(h[:32], "little") & (2**254 - 8) | 2**254
    r = int.from_bytes(hashlib.sha512(h[32:] + m).digest(), "little")
    big_r = bytearray(nb.crypto_sign(m, sk)[:32])
    if i is not None:
        big_r[i] ^= 1 << bit
    k = int.from_bytes(hashlib.sha512(bytes(big_r) + pk + m).digest(), "little")
    return bytes(big_r) + ((r + k * a) % ORDER).to_bytes(32, "little") + m


def alter():
    return st.one_of(st.tuples(st.just("flip"), st.integers(0, 10**6), st.integers(0, 7)).map(list),
                     st.tuples(st.just("cut"), st.integers(1, 100)).map(list), st.tuples(st.just("add"), st.binary(min_size=1, max_size=5)).map(list),
                     st.tuples(st.just("head"), st.integers(1, 40)).map(list), st.just(["zero"]), st.just(["empty"]), st.just(["addL"]),
                     st.tuples(st.just("swap"), st.integers(0, 10**6), st.integers(0, 10**6)).map(list))


def altered(b, e):
    b = bytearray(b)
    if e[0] == "flip" and b:
        b[e[1] % len(b)] ^= 1 << e[2]
    elif e[0] == "cut":
        del b[max(0, len(b) - e[1]):]
    elif e[0] == "add":
        b += e[1]
    elif e[0] == "head":
        del b[:e[1]]
    elif e[0] == "zero":
        b = bytearray(len(b))
    elif e[0] == "empty":
        b = bytearray()
    elif e[0] == "addL" and len(b) >= 64:       # another S with the same value modulo the group order
        b[32:64] = (int.from_bytes(b[32:64], "little") + ORDER).to_bytes(32, "little")
    elif e[0] == "swap" and b:
        i, j = e[1] % len(b), e[2] % len(b)
        b[i], b[j] = b[j], b[i]
    return bytes(b)


def refuse_case():
    return st.fixed_dictionaries(dict(a=st.sampled_from(NAMES), facade=st.booleans(), seed=gen.tag32(), key=gen.tag32(),
                                      nonce=st.binary(min_size=24, max_size=24), msg=gen.msg(0), what=st.sampled_from(["sm", "pk", "box", "nonce", "key"]),
                                      e=alter()))


def refuse_body(case, rec):
    a = back(case["a"])
    fa = facade(case["a"])
    m, nonce, key = gen.mk(case["msg"]), case["nonce"], gen.b32(case["key"])
    pk, sk = nb.crypto_sign_seed_keypair(gen.b32(case["seed"]))
    what, e = case["what"], case["e"]
    if e[0] in ("addL", "near") and what != "sm":
        e = ["flip", 7, 1]
    if what in ("pk", "nonce", "key") and e[0] not in ("flip", "zero", "swap"):
        e = ["flip", len(m) * 7 + 1, 3]
    if what in ("sm", "pk"):
        sm = nb.crypto_sign(m, sk)
        check(nearly(gen.b32(case["seed"]), m, None, 0) == sm, "harness: another signature")
        sm2, pk2 = (nearly(gen.b32(case["seed"]), m, e[1], e[2]), pk) if e[0] == "near" else (altered(sm, e), pk) if what == "sm" else (sm, altered(pk, e))
        if (sm2, pk2) == (sm, pk):
            return
        try:
            want = nb.crypto_sign_open(sm2, pk2)
        except Exception:
            want = None
        args, exc = (sm2, pk2), BadSignatureException
        f = fa.sign_open if case["facade"] else a.crypto_sign_open
    else:
        c = nb.crypto_box_afternm(m, nonce, key)
        v = dict(box=c, nonce=nonce, key=key)
        v[what] = altered(v[what], e)
        if (v["box"], v["nonce"], v["key"]) == (c, nonce, key):
            return
        try:
            want = nb.crypto_box_open_afternm(v["box"], v["nonce"], v["key"])
        except Exception:
            want = None
        exc = BadEncryptedDataException
        if case["facade"]:
            f, args = fa.decrypt, (v["key"], v["nonce"], v["box"])
        else:
            f, args = a.crypto_box_open_afternm, (v["box"], v["nonce"], v["key"])
    if want is not None:                      # NaCl itself accepts it (cannot happen for changed inputs)
        return
    try:
        r = f(*args)
    except exc:
        pass
    except Exception as x:
        fail("{} {}: altered {} gave {} instead of {}", case["a"], "facade" if case["facade"] else "", what, exc_text(x), exc.__name__)
    else:
        fail("{} {}: altered {} was opened to {}", case["a"], "facade" if case["facade"] else "", what, short(r))
    rec.label(what + " " + e[0], case["a"])
    rec.nontrivial()


def bits(tier):
    """Every bit of a signed message, a box, its nonce and key."""
    out = []
    base = dict(seed=3, key=4, nonce=bytes(range(24)), msg=[5, 1])
    for a in NAMES:
        for what, n in (("sm", 69), ("pk", 32), ("box", 21), ("nonce", 24), ("key", 32)):
            for i in range(n):
                for bit in range(8) if tier == "thorough" or what == "box" else (i % 8, 7):
                    out.append(dict(base, a=a, facade=bool((i + bit) & 1), what=what, e=["flip", i, bit]))
        for i in range(256):
            out.append(dict(base, a=a, facade=bool(i & 1), what="sm", e=["near", i // 8, i % 8]))
        for n in range(1, 70):
            for what in ("sm", "box"):
                out.append(dict(base, a=a, facade=bool(n & 1), what=what, e=["cut", n]))
    return out


def large(tier):
    ns = [2**20 - 1, 2**20, 2**20 + 1, 3000001] + ([2**22 + 5, 2**24 - 1, 2**24 + 1, 40000000] if tier == "thorough" else [])
    return [dict(a=a, b=NAMES[(i + j) % 3], seed=i, sec=i + 1, sec2=i + 2, rawpub=None, nonce=bytes([i]) * 24, msg=[n, j]) for i, n in enumerate(ns) for j, a in enumerate(NAMES)]


def lengths(tier):
    out = []
    for a in NAMES:
        for n in list(range(0, 70)) + [96, 128]:
            for what in ("seed", "sec", "mysec", "peer", "key", "fseed", "sk", "pk", "bpk", "bsk", "n", "k", "on", "ok",
                         "fsk", "fpk", "fn", "fk", "fon", "fok"):
                out.append(dict(a=a, n=n, what=what))
    return out


def length_body(case, rec):
    a, fa, n = back(case["a"]), facade(case["a"]), case["n"]
    k = gen.keys([1, 2])
    b = bytes(range(1, 33)) * 5
    b = b[:n]
    what = case["what"]
    msg, nonce, key = b"message", bytes(range(24)), bytes(range(32))
    sm, box = nb.crypto_sign(msg, k.sig_sec), nb.crypto_box_afternm(msg, nonce, key)
    # a wrong value of the right length is refused too, so that the genuine one stands for the legal length
    b = {"sk": k.sig_sec, "fsk": k.sig_sec, "pk": k.sig_pub, "fpk": k.sig_pub, "on": nonce, "fon": nonce, "ok": key, "fok": key}.get(what, b)
    b = (b + bytes(200))[:n]
    f = {"seed": lambda: a.crypto_sign_keypair_not_random(b), "sec": lambda: a.crypto_box_keypair_not_random(b),
         "mysec": lambda: fa.compute_shared_key(b, k.enc_pub), "peer": lambda: fa.compute_shared_key(k.enc_sec, b),
         "key": lambda: EncryptedChannelV2(chan.PeerChannel(), b, Role.CLIENT), "fseed": lambda: fa.create_sig_keys_from_sec(b),
         "sk": lambda: a.crypto_sign(msg, b), "pk": lambda: a.crypto_sign_open(sm, b),
         "bpk": lambda: a.crypto_box_beforenm(b, k.enc_sec), "bsk": lambda: a.crypto_box_beforenm(k.enc_pub, b),
         "n": lambda: a.crypto_box_afternm(msg, b, key), "k": lambda: a.crypto_box_afternm(msg, nonce, b),
         "on": lambda: a.crypto_box_open_afternm(box, b, key), "ok": lambda: a.crypto_box_open_afternm(box, nonce, b),
         "fsk": lambda: fa.sign(msg, b), "fpk": lambda: fa.sign_open(sm, b), "fn": lambda: fa.encrypt(key, b, msg),
         "fk": lambda: fa.encrypt(b, nonce, msg), "fon": lambda: fa.decrypt(key, b, box), "fok": lambda: fa.decrypt(b, nonce, box)}[what]
    legal = n >= 32 if what == "fseed" else n == {"sk": 64, "fsk": 64, "n": 24, "fn": 24, "on": 24, "fon": 24}.get(what, 32)
    refusals = (ValueError,) + {"pk": (BadSignatureException,), "fpk": (BadSignatureException,), "on": (BadEncryptedDataException,),
                                "ok": (BadEncryptedDataException,), "fon": (BadEncryptedDataException,), "fok": (BadEncryptedDataException,)}.get(what, ())
    try:
        f()
    except refusals as e:
        check(not legal, "{}: {} of {} bytes refused: {}", case["a"], what, n, e)
    except Exception as e:
        fail("{}: {} of {} bytes gave {} instead of {}", case["a"], what, n, exc_text(e), "a result" if legal else "ValueError")
    else:
        check(legal, "{}: {} of {} bytes accepted", case["a"], what, n)
    rec.nontrivial(not legal)


CHECKS = [
    Sub("lengths", None, length_body, quick=1, cases=lengths),
    Sub("large", None, body, quick=1, cases=large),
    Sub("every_bit", None, refuse_body, quick=1, cases=bits),
    Sub("agreement", case, body, quick=18000, thorough=300000),
    Sub("refusal", refuse_case, refuse_body, quick=24000, thorough=400000),
]
