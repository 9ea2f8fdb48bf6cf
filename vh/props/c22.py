import hashlib

from hypothesis import strategies as st
from nacl import bindings as nb

from saltchannel.saltlib import BadEncryptedDataException, BadSignatureException
from saltchannel.saltlib.pure_pynacl import tweetnacl
from saltchannel.saltlib.saltlib_pure import SaltLibPure
from vh import gen
from vh.core import Skip, Sub, check, exc_text, fail, same_bytes, short
from vh.props.c17 import ORDER, alter, altered, nearly

RULE = ("Generated keys, nonces and messages go through the pure-Python implementation and through libsodium (hashlib for SHA-512, integer "
        "arithmetic for Poly1305) and the results are compared; the pure code opens what libsodium made and refuses generated alterations "
        "(bit flips, cuts, extensions, S+L, signatures right but for one bit of R). All hash lengths 0-300 and box lengths 0-150 are enumerated, long boxes cross the block counter's "
        "first byte; public keys are also chosen by their limbs and so that the agreed point comes out next to 0 or p. Curve operations cost 0.3-2 s each here, so there are few of them. Non-trivial: a non-empty message, or extreme key, or alteration.")
ASSUMPTIONS = ["libsodium (through PyNaCl) is the reference for NaCl", "public keys are such as belong to a secret key, or any that libsodium accepts"]

PURE = SaltLibPure()


# ---------------------------------------------------------------- hashes

def hash_case():
    return st.tuples(st.one_of(st.integers(0, 600), st.sampled_from([1000, 1023, 1024, 4096])), st.integers(-2, 10**6)).map(list)


def hash_body(case, rec):
    m = gen.mk(case)
    same_bytes(PURE.crypto_hash(m), hashlib.sha512(m).digest(), "SHA-512 of %d bytes" % len(m))
    rec.nontrivial(bool(m))


def hash_lengths(tier):
    return [[n, t] for n in range(0, 301) for t in ((3,) if tier == "quick" else (3, -1, -2, 4))] + [[2**13, 1], [2**13 + 1, -2], [20000, 5]] + \
           ([[65536, 1], [2**17, 2]] if tier == "thorough" else [])


# ---------------------------------------------------------------- boxes

def box_case():
    return st.fixed_dictionaries(dict(key=gen.tag32(), nonce=st.one_of(st.binary(min_size=24, max_size=24), st.integers(0, 2**64 - 1).map(lambda n: n.to_bytes(8, "little") + bytes(16))),
                                      msg=st.tuples(st.one_of(st.integers(0, 200), st.integers(0, 200), st.integers(0, 1500)), st.integers(-2, 10**6)).map(list)))


def box_body(case, rec):
    k, n, m = gen.b32(case["key"]), case["nonce"], gen.mk(case["msg"])
    c = nb.crypto_box_afternm(m, n, k)
    same_bytes(PURE.crypto_box_afternm(m, n, k), c, "box of %d bytes" % len(m))
    same_bytes(PURE.crypto_box_open_afternm(c, n, k), m, "opened box of %d bytes" % len(m))
    rec.nontrivial(bool(m))


def box_lengths(tier):
    out = [dict(key=7, nonce=bytes([n % 251]) * 24, msg=[n, n]) for n in range(0, 151)]
    out += [dict(key=8, nonce=bytes(range(24)), msg=[n, -2]) for n in (16383 - 32, 16384 - 32, 16385 - 32, 16384, 16448, 20001, 33000)]
    if tier == "thorough":
        out += [dict(key=8, nonce=bytes(range(24)), msg=[n, n]) for n in list(range(150, 700)) + [65535, 65536, 100000, 200001]]
    return out


def open_case():
    return st.fixed_dictionaries(dict(key=gen.tag32(), nonce=st.binary(min_size=24, max_size=24), msg=st.tuples(st.integers(0, 120), st.integers(-2, 1000)).map(list),
                                      what=st.sampled_from(["box", "box", "box", "nonce", "key"]), e=alter()))


def open_body(case, rec):
    v = dict(key=gen.b32(case["key"]), nonce=case["nonce"])
    m = gen.mk(case["msg"])
    v["box"] = nb.crypto_box_afternm(m, v["nonce"], v["key"])
    e = case["e"]
    if e[0] == "addL":
        e = ["flip", len(m), 2]
    if case["what"] != "box" and e[0] not in ("flip", "zero", "swap"):
        e = ["flip", len(m) * 5 + 3, 1]
    new = altered(v[case["what"]], e)
    if new == v[case["what"]]:
        raise Skip()
    v[case["what"]] = new
    try:
        r = PURE.crypto_box_open_afternm(v["box"], v["nonce"], v["key"])
    except BadEncryptedDataException:
        pass
    except Exception as x:
        fail("altered {} gave {}", case["what"], exc_text(x))
    else:
        fail("a box with altered {} ({}) was opened to {}", case["what"], e, short(r))
    rec.label(case["what"] + " " + e[0])
    rec.nontrivial()


def open_bits(tier):
    base = dict(key=9, nonce=bytes(range(24)), msg=[9, 3])
    return [dict(base, what=w, e=["flip", i, b]) for w, n in (("box", 25), ("nonce", 24), ("key", 32)) for i in range(n) for b in range(8)] + \
           [dict(base, what="box", e=["cut", i]) for i in range(1, 26)]


# ---------------------------------------------------------------- Poly1305 on its own (chosen keys reach its reduction)

def poly(m, k):
    r = int.from_bytes(k[:16], "little") & 0x0ffffffc0ffffffc0ffffffc0fffffff
    h, p = 0, 2**130 - 5
    for i in range(0, len(m), 16):
        h = (h + int.from_bytes(m[i:i + 16] + b"\x01", "little")) * r % p
    return ((h + int.from_bytes(k[16:], "little")) & (2**128 - 1)).to_bytes(16, "little")


def poly_case():
    edge = st.tuples(st.just("edge"), st.integers(-6, 8), st.integers(1, 3)).map(list)
    return st.fixed_dictionaries(dict(k=st.one_of(st.binary(min_size=32, max_size=32), st.sampled_from([b"\xff" * 32, bytes(32), b"\xff" * 16 + bytes(16), bytes([2]) + bytes(31), bytes(16) + b"\xff" * 16])),
                                      m=st.one_of(st.binary(max_size=100), st.tuples(st.integers(0, 200), st.integers(-2, 10)).map(list), edge)))


def poly_body(case, rec):
    f = getattr(tweetnacl, "crypto_onetimeauth_poly1305_tweet", None)
    if f is None:
        raise Skip()
    k, m = case["k"], case["m"]
    if isinstance(m, list) and m[0] == "edge":
        # r = 1: the sum of the blocks comes out at p + d before the last reduction
        k = bytes([1]) + bytes(15) + k[16:]
        total = 2**130 - 5 + m[1] - 3 * 2**128
        part = total // 3
        m = part.to_bytes(16, "little") + part.to_bytes(16, "little") + (total - 2 * part).to_bytes(16, "little")
    elif isinstance(m, list):
        m = gen.mk(m)
    out = bytearray(16)
    f(out, m, len(m), k)
    same_bytes(bytes(out), poly(m, k), "Poly1305 of %s under %s" % (m.hex()[:96], k.hex()))
    rec.nontrivial(bool(m))


# ---------------------------------------------------------------- the curve

P = 2**255 - 19
TWIST = 2**253 - 55484635554744707071703875581767296995      # prime order on the twist
# results near 0 and near p (where the last reduction matters): [value, prime order of that point]
RESULTS = [[2, TWIST], [9, ORDER], [16, ORDER], [21, TWIST], [31, TWIST], [34, ORDER], [-8, TWIST], [-10, TWIST], [-16, ORDER], [-18, TWIST], [-21, TWIST], [-100, ORDER]]


def mult(k, u):
    """x(k * point with x = u), in integers"""
    x2, z2, x3, z3 = 1, 0, u, 1
    for i in reversed(range(k.bit_length())):
        if k >> i & 1:
            x2, z2, x3, z3 = x3, z3, x2, z2
        a, b, c, d = x2 + z2, x2 - z2, x3 + z3, x3 - z3
        x3, z3 = (d * a + c * b) ** 2 % P, u * (d * a - c * b) ** 2 % P
        aa, bb = a * a % P, b * b % P
        x2, z2 = aa * bb % P, (aa - bb) * (aa + 121665 * (aa - bb)) % P
        if k >> i & 1:
            x2, z2, x3, z3 = x3, z3, x2, z2
    return x2 * pow(z2, -1, P) % P


def pub_for(sec, i):
    """The public key with which sec agrees on the x coordinate RESULTS[i]"""
    u, order = RESULTS[i]
    n = int.from_bytes(sec, "little") & (2**254 - 8) | 2**254
    return mult(pow(n, -1, order), u % P).to_bytes(32, "little")


def agree_case():
    limb = st.sampled_from([0, 0, 0xffff, 0xffff, 1, 0x8000, 0x7fff, 0xfffe, 0xff00, 0xff])
    pub = st.one_of(st.none(), st.none(), st.integers(0, len(RESULTS) - 1).map(lambda i: [i]),
                    st.lists(limb, min_size=16, max_size=16).map(lambda l: b"".join(x.to_bytes(2, "little") for x in l)), gen.tag32(), st.integers(2, 40).map(lambda n: n.to_bytes(32, "little")),
                    st.integers(2, 40).map(lambda n: (2**255 - 19 - n).to_bytes(32, "little")), st.integers(0, 18).map(lambda n: (2**255 - 19 + n).to_bytes(32, "little")),
                    st.binary(min_size=32, max_size=32).map(lambda b: b[:31] + bytes([b[31] | 128])))
    return st.fixed_dictionaries(dict(sec=gen.tag32(), sec2=gen.tag32(), pub=pub, msg=st.tuples(st.integers(0, 60), st.integers(-2, 100)).map(list)))


def agree_body(case, rec):
    sec, sec2 = gen.b32(case["sec"]), gen.b32(case["sec2"])
    pub2 = nb.crypto_scalarmult_base(sec2)
    r = PURE.crypto_box_keypair_not_random(sec)
    check(tuple(map(bytes, r)) == (nb.crypto_scalarmult_base(sec), sec), "key pair from {}: {}", sec.hex(), short(r))
    p = pub2 if case["pub"] is None else pub_for(sec, case["pub"][0]) if isinstance(case["pub"], list) else gen.b32(case["pub"])
    try:
        k = nb.crypto_box_beforenm(p, sec)
    except Exception:
        rec.label("refused by libsodium")
        return
    got = PURE.crypto_box_beforenm(p, sec)
    same_bytes(got, k, "shared key of %s and %s" % (sec.hex(), p.hex()))
    m, n = gen.mk(case["msg"]), bytes(24)
    same_bytes(PURE.crypto_box_afternm(m, n, got), nb.crypto_box_afternm(m, n, k), "box under the shared key")
    if isinstance(case["pub"], list):
        check(nb.crypto_scalarmult(sec, p) == (RESULTS[case["pub"][0]][0] % P).to_bytes(32, "little"), "harness: {}", case)
    rec.label("own public key" if case["pub"] is None else "chosen result" if isinstance(case["pub"], list) else "given public key")
    rec.nontrivial()


def results(tier):
    return [dict(sec=77 * t + i, sec2=1, pub=[i], msg=[3, 1]) for t in range(1 if tier == "quick" else 20) for i in range(len(RESULTS))]


def sign_case():
    return st.fixed_dictionaries(dict(seed=gen.tag32(), msg=st.tuples(st.one_of(st.integers(0, 40), st.integers(0, 300)), st.integers(-2, 10**6)).map(list)))


def sign_body(case, rec):
    seed, m = gen.b32(case["seed"]), gen.mk(case["msg"])
    pk, sk = nb.crypto_sign_seed_keypair(seed)
    r = PURE.crypto_sign_keypair_not_random(seed)
    check(tuple(map(bytes, r)) == (pk, sk), "key pair from seed {}: {}", seed.hex(), short(r))
    sm = nb.crypto_sign(m, sk)
    same_bytes(PURE.crypto_sign(m, sk), sm, "signature")
    same_bytes(PURE.crypto_sign_open(sm, pk), m, "opened signature")
    rec.nontrivial()


def refuse_case():
    e = st.one_of(st.tuples(st.just("flip"), st.integers(0, 10**6), st.integers(0, 7)).map(list), st.just(["addL"]), st.just(["addL", 2]), alter(), alter())
    return st.fixed_dictionaries(dict(seed=gen.tag32(), msg=st.tuples(st.integers(0, 40), st.integers(-2, 1000)).map(list), what=st.sampled_from(["sm", "sm", "pk"]), e=e))


def refuse_body(case, rec):
    m = gen.mk(case["msg"])
    pk, sk = nb.crypto_sign_seed_keypair(gen.b32(case["seed"]))
    sm = nb.crypto_sign(m, sk)
    e, what = case["e"], case["what"]
    if e[0] == "addL" and what == "pk":
        e = ["flip", 7, 1]
    if what == "pk":
        if e[0] not in ("flip", "zero", "swap"):
            e = ["flip", len(m) * 7 + 1, 3]
        pk2, sm2 = altered(pk, e), sm
    elif e[0] == "addL":
        s = int.from_bytes(sm[32:64], "little") + ORDER * (e[1] if len(e) > 1 else 1)
        pk2, sm2 = pk, sm[:32] + s.to_bytes(32, "little") + sm[64:]
    elif e[0] == "near":
        pk2, sm2 = pk, nearly(gen.b32(case["seed"]), m, e[1], e[2])
    else:
        pk2, sm2 = pk, altered(sm, e)
    if (pk2, sm2) == (pk, sm):
        raise Skip()
    try:
        r = PURE.crypto_sign_open(sm2, pk2)
    except BadSignatureException:
        pass
    except Exception as x:
        fail("altered {} ({}) gave {}", what, e, exc_text(x))
    else:
        fail("a signature with altered {} ({}) was opened to {}", what, e, short(r))
    rec.label(what + " " + e[0])
    rec.nontrivial()


def refuse_parts(tier):
    """Each part of a signed message altered once or more."""
    out = []
    pos = (0, 5, 31, 32, 40, 62, 63, 64, 68) if tier == "quick" else range(69)
    for i in pos:
        for b in ((i % 8,) if tier == "quick" else (0, 3, 7)):
            out.append(dict(seed=3, msg=[5, 1], what="sm", e=["flip", i, b]))
    for i in (0, 16, 31) if tier == "quick" else range(32):
        out.append(dict(seed=3, msg=[5, 1], what="pk", e=["flip", i, 7]))
    for i in (0, 1, 62, 63, 64, 127, 128, 191, 192, 248, 254, 255) if tier == "quick" else range(256):
        out.append(dict(seed=3, msg=[5, 1], what="sm", e=["near", i // 8, i % 8]))
    for s in range(4):
        out.append(dict(seed=s, msg=[s, 1], what="sm", e=["addL"]))
    out += [dict(seed=3, msg=[5, 1], what="sm", e=["cut", n]) for n in range(1, 70, 1 if tier == "thorough" else 9)]
    out += [dict(seed=3, msg=[5, 1], what="sm", e=["cut", n]) for n in range(6, 70)]
    return out


CHECKS = [
    Sub("signatures", sign_case, sign_body, quick=40, thorough=2000),
    Sub("agreement", agree_case, agree_body, quick=104, thorough=6000),
    Sub("chosen_results", None, agree_body, quick=1, cases=results),
    Sub("refusal_parts", None, refuse_body, quick=1, cases=refuse_parts),
    Sub("refusal", refuse_case, refuse_body, quick=40, thorough=3000),
    Sub("hash_lengths", None, hash_body, quick=1, cases=hash_lengths),
    Sub("box_lengths", None, box_body, quick=1, cases=box_lengths),
    Sub("box_bits", None, open_body, quick=1, cases=open_bits),
    Sub("hashes", hash_case, hash_body, quick=600, thorough=20000),
    Sub("boxes", box_case, box_body, quick=1500, thorough=50000),
    Sub("box_refusal", open_case, open_body, quick=2000, thorough=80000),
    Sub("poly1305", poly_case, poly_body, quick=3000, thorough=100000),
]
