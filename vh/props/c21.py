import functools
import json
import os
import subprocess
import sys

from vh import env

sys.path.append(os.path.join(env.VERIF, "vh", "stubs"))      # before the code under test is imported

from hypothesis import strategies as st
from nacl import bindings as nb

from saltchannel.saltlib.saltlib import LibType, RngType, SaltLib
from saltchannel.saltlib.saltlib_pure import SaltLibPure
from saltchannel.util.crypto_test_data import CryptoTestData
from vh import gen, turns
from vh.core import Sub, check, exc_text, fail, same_bytes, short

RULE = ("Generated histories of key and random string requests (0 to 1 MB) on every back end and both random sources; every key is "
        "checked for size and against NaCl's derivation and re-created from its secret; all values of a process, of forked children, of "
        "threads (running freely, or switched at generated lines of the library) and of fresh interpreters must be distinct, and over a batch every bit must take both values and every byte value occur. "
        "Non-trivial: at least two values that must not repeat.")
ASSUMPTIONS = ["the operating system's random source is good; the chance of a false repeat or constant bit is below 2^-100",
               "the TweetNaCl extension is a stand-in with NaCl's functions"]

NAMES = ["LIB_TYPE_NATIVE", "LIB_TYPE_PYNACL", "LIB_TYPE_TWEETNACL_EXT"]
LT = {t.name: t for t in LibType}
RT = {t.name: t for t in RngType}
SEEN = {}


def facade(lib, rng):
    return type.__call__(SaltLib, LT[lib], RT[rng])


def fresh(seen, v, what):
    v = bytes(v)
    if v in seen:
        fail("{} repeats an earlier {}: {}", what, seen[v], v.hex()[:64])
    seen[v] = what


def check_enc(f, kp, what):
    check(isinstance(kp.sec, bytes) and isinstance(kp.pub, bytes), "{}: {}", what, short(kp))
    check(len(kp.sec) == 32 and len(kp.pub) == 32, "{}: sizes {}/{}", what, len(kp.sec), len(kp.pub))
    same_bytes(kp.pub, nb.crypto_scalarmult_base(kp.sec), what + ": public key of " + kp.sec.hex())
    again = f.create_enc_keys_from_sec(kp.sec)
    check((bytes(again.sec), bytes(again.pub)) == (kp.sec, kp.pub), "{}: re-created as {}", what, short(again))


def check_sig(f, kp, what):
    check(isinstance(kp.sec, bytes) and isinstance(kp.pub, bytes), "{}: {}", what, short(kp))
    check(len(kp.sec) == 64 and len(kp.pub) == 32, "{}: sizes {}/{}", what, len(kp.sec), len(kp.pub))
    check(kp.sec[32:] == kp.pub, "{}: the secret key does not end with the public key", what)
    pk, sk = nb.crypto_sign_seed_keypair(kp.sec[:32])
    check((kp.pub, kp.sec) == (pk, sk), "{}: NaCl derives {} from the seed, not {}", what, pk.hex(), kp.pub.hex())
    for src in (kp.sec, kp.sec[:32], kp.sec[:32] + bytes(32), kp.sec[:63] + bytes([kp.sec[63] ^ 1])):
        again = f.create_sig_keys_from_sec(src)
        check((bytes(again.sec), bytes(again.pub)) == (kp.sec, kp.pub), "{}: re-created from {} bytes as {}", what, len(src), short(again))


SIZE = st.one_of(st.integers(0, 70), st.integers(16, 64), st.sampled_from([255, 256, 257, 1000, 4096, 65535, 65536, 100000]))


def case():
    op = st.one_of(st.just(["enc"]), st.just(["sig"]), st.tuples(st.just("rand"), SIZE).map(list), st.tuples(st.just("api"), SIZE).map(list),
                   st.tuples(st.just("pure"), SIZE).map(list))
    return st.fixed_dictionaries(dict(lib=st.sampled_from(NAMES), rng=st.sampled_from(["RNG_URANDOM", "RNG_IMPL"]),
                                      ops=st.lists(op, min_size=1, max_size=12), rep=st.sampled_from([1, 2, 5, 20])))


def body(case, rec):
    f = facade(case["lib"], case["rng"])
    mine = {}
    for _ in range(case["rep"]):
        for op in case["ops"]:
            what = "%s/%s %s" % (case["lib"], case["rng"], op)
            if op[0] == "enc":
                kp = f.create_enc_keys()
                check_enc(f, kp, what)
                fresh(mine, kp.sec, what)
                fresh(SEEN, kp.sec, what)
            elif op[0] == "sig":
                kp = f.create_sig_keys()
                check_sig(f, kp, what)
                fresh(mine, kp.sec[:32], what)
                fresh(SEEN, kp.sec[:32], what)
            else:
                src = {"rand": f.random_bytes, "api": f.api.randombytes, "pure": SaltLibPure().randombytes}[op[0]]
                b = src(op[1])
                check(isinstance(b, (bytes, bytearray)), "{} gave {}", what, short(b))
                check(len(b) == op[1], "{} gave {} bytes", what, len(b))
                if op[1] >= 20:
                    fresh(mine, b[:40], what)
                    if op[1] >= 60:
                        fresh(mine, b[-20:], what + " (end)")
                    if len(SEEN) < 10**6:
                        fresh(SEEN, b[:40], what)
                if op[1] >= 1000:
                    check(len(set(b[i:i + 16] for i in range(0, op[1] - 15, 16))) == len(range(0, op[1] - 15, 16)), "{}: 16-byte blocks repeat", what)
                    check(op[1] < 60000 or len(set(b)) == 256, "{}: only {} different byte values", what, len(set(b)))
    rec.label(case["lib"], case["rng"], *{o[0] for o in case["ops"]})
    rec.nontrivial(len(mine) >= 2)


# ---------------------------------------------------------------- every bit varies

def bits(tier):
    out = []
    for lib in NAMES:
        for rng in ("RNG_URANDOM", "RNG_IMPL"):
            for what in ("enc", "sig", "rand32", "api32", "pure32", "rand7", "api7"):
                out.append(dict(lib=lib, rng=rng, what=what, n=400 if tier == "quick" else 20000))
    return out


def bits_body(case, rec):
    f = facade(case["lib"], case["rng"])
    make = {"enc": lambda: f.create_enc_keys().sec, "sig": lambda: f.create_sig_keys().sec[:32], "rand32": lambda: f.random_bytes(32),
            "api32": lambda: f.api.randombytes(32), "pure32": lambda: SaltLibPure().randombytes(32), "rand7": lambda: f.random_bytes(7),
            "api7": lambda: f.api.randombytes(7)}[case["what"]]
    ones, zeros, all_ = 0, 0, set()
    size = 7 if case["what"].endswith("7") else 32
    counts = [0] * (8 * size)
    for _ in range(case["n"]):
        b = bytes(make())
        check(len(b) == size, "{}: {} bytes", case["what"], len(b))
        x = int.from_bytes(b, "big")
        ones |= x
        zeros |= ~x & ((1 << 8 * size) - 1)
        all_.add(b)
        for i in range(8 * size):
            counts[i] += x >> i & 1
    full = (1 << 8 * size) - 1
    check(ones == full and zeros == full, "{} of {}/{}: {} bits never change in {} values", case["what"], case["lib"], case["rng"],
          bin(full ^ (ones & zeros)).count("1"), case["n"])
    if size >= 16:
        check(len(all_) == case["n"], "{}: {} of {} values repeat", case["what"], case["n"] - len(all_), case["n"])
    # a fair bit differs from n/2 by less than 10 standard deviations except with probability 1e-22
    lim = 10 * (case["n"] ** 0.5) / 2
    worst = max(counts, key=lambda c: abs(c - case["n"] / 2))
    check(abs(worst - case["n"] / 2) < lim, "{}: a bit is set in {} of {} values", case["what"], worst, case["n"])
    rec.nontrivial()


# ---------------------------------------------------------------- re-creation from given secrets

def derive_case():
    return st.fixed_dictionaries(dict(lib=st.sampled_from(NAMES), sec=gen.tag32()))


def derive_body(case, rec):
    f = facade(case["lib"], "RNG_URANDOM")
    b = gen.b32(case["sec"])
    kp = f.create_enc_keys_from_sec(b)
    same_bytes(kp.sec, b, "secret part")
    check_enc(f, kp, "encryption keys from " + b.hex())
    kp = f.create_sig_keys_from_sec(b)
    same_bytes(kp.sec[:32], b, "seed")
    check_sig(f, kp, "signing keys from " + b.hex())
    rec.nontrivial()


# ---------------------------------------------------------------- other processes and threads

CHILD = """
import sys, os, json
sys.path.insert(0, %r)
sys.path.append(%r)
from saltchannel.saltlib.saltlib import SaltLib, LibType, RngType
f = SaltLib(LibType[%r], RngType[%r])
out = []
for _ in range(3):
    out.append(f.create_enc_keys().sec.hex()); out.append(f.create_sig_keys().sec.hex()[:64])
    out.append(SaltLib.random_bytes(32).hex()); out.append(bytes(f.api.randombytes(32)).hex())
kp = f.create_sig_keys()
print(json.dumps(out))
"""


def process_cases(tier):
    n = 1 if tier == "quick" else 10
    return [dict(how="fresh", lib=lib, rng=rng, i=i) for lib in NAMES for rng in ("RNG_URANDOM", "RNG_IMPL") for i in range(n)] + \
           [dict(how=how, lib=lib, rng=rng, i=i) for how in ("fork", "threads") for lib in NAMES for rng in ("RNG_URANDOM", "RNG_IMPL") for i in range(3 * n)]


def some(f, n=3):
    out = []
    for _ in range(n):
        out += [f.create_enc_keys().sec.hex(), f.create_sig_keys().sec[:32].hex(), bytes(f.random_bytes(32)).hex(), bytes(f.api.randombytes(32)).hex()]
    return out


def in_threads(fns, runs=None):
    res, switched = turns.run(fns, runs)
    for r in res:
        check(isinstance(r, list), "key generation in one of {} threads: {}", len(fns), exc_text(r) if r is not None else "did not end")
    return res


# every thread derives and makes keys of its own; the turn passes on after a generated number of lines of the library

def turns_case():
    op = st.one_of(st.just(["enc"]), st.just(["sig"]), st.just(["rand"]), st.just(["api"]),
                   st.tuples(st.just("encsec"), gen.tag32()).map(list), st.tuples(st.just("sigsec"), gen.tag32()).map(list),
                   st.tuples(st.just("bad"), st.integers(0, 40)).map(list))
    return st.fixed_dictionaries(dict(
        libs=st.lists(st.sampled_from(NAMES), min_size=1, max_size=2), own=st.booleans(), rng=st.sampled_from(sorted(RT)),
        threads=st.lists(st.lists(op, min_size=2, max_size=8), min_size=2, max_size=4),
        runs=st.lists(st.one_of(st.integers(1, 4), st.integers(1, 4), st.integers(1, 30)), min_size=3, max_size=20)))


def turns_body(case, rec):
    libs = [facade(lib, case["rng"]) for lib in case["libs"]]

    def go(i, ops):
        f = facade(case["libs"][i % len(libs)], case["rng"]) if case["own"] else libs[i % len(libs)]
        out = []
        for op in ops:
            if op[0] == "enc":
                out.append((op, f.create_enc_keys()))
            elif op[0] == "sig":
                out.append((op, f.create_sig_keys()))
            elif op[0] == "rand":
                out.append((op, bytes(f.random_bytes(32))))
            elif op[0] == "api":
                out.append((op, bytes(f.api.randombytes(32))))
            elif op[0] == "encsec":
                out.append((op, f.create_enc_keys_from_sec(gen.b32(op[1]))))
            elif op[0] == "sigsec":
                out.append((op, f.create_sig_keys_from_sec(gen.b32(op[1]))))
            else:
                try:
                    f.create_enc_keys_from_sec(bytes(op[1]))
                except Exception:
                    pass
        return out

    res, switched = turns.run([functools.partial(go, i, ops) for i, ops in enumerate(case["threads"])], case["runs"])
    seen, f = {}, libs[0]
    for i, r in enumerate(res):
        check(isinstance(r, list), "thread {} of {}: {}", i, len(res), exc_text(r) if r is not None else "did not end")
        for op, v in r:
            if op[0] in ("rand", "api"):
                check(len(v) == 32, "{}: {} bytes", op[0], len(v))
                fresh(seen, v, "random string of thread %d" % i)
                continue
            (check_enc if op[0].startswith("enc") else check_sig)(f, v, "key pair %s of thread %d" % (op[0], i))
            if len(op) == 2:
                same_bytes(v.sec[:32], gen.b32(op[1]), "secret given by thread %d" % i)
            else:
                fresh(seen, v.sec[:32], "key of thread %d" % i)
    rec.label("%d threads" % len(res), *(["a thread had to wait for a parked one"] if switched.free else []))
    rec.nontrivial(switched.switches > 3)


def process_body(case, rec):
    lists = []
    if case["how"] == "fresh":
        for _ in range(2):
            r = subprocess.run([sys.executable, "-c", CHILD % (env.REPO, os.path.join(env.VERIF, "vh", "stubs"), case["lib"], case["rng"])],
                               stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=50, cwd="/")
            check(r.returncode == 0, "a fresh process cannot make keys with {}/{}: {}", case["lib"], case["rng"], r.stderr.decode()[-600:])
            lists.append(json.loads(r.stdout))
    elif case["how"] == "fork":
        f = facade(case["lib"], case["rng"])
        some(f, 1)
        for j in range(3):
            f.random_bytes(20 + 11 * (j + case["i"]))      # wherever a pool may stand
            rd, wr = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.write(wr, json.dumps(some(f)).encode())
                finally:
                    os._exit(0)
            os.close(wr)
            data = b""
            while True:
                b = os.read(rd, 65536)
                if not b:
                    break
                data += b
            os.close(rd)
            os.waitpid(pid, 0)
            check(data, "a forked process cannot make keys")
            lists.append(json.loads(data))
        lists.append(some(f))
    else:
        f = facade(case["lib"], case["rng"])
        lists = in_threads([lambda: some(f, 20)] * 6)
    flat = [x for l in lists for x in l]
    check(all(len(x) == 64 for x in flat), "sizes {}", sorted({len(x) for x in flat}))
    check(len(set(flat)) == len(flat), "{} of {} values made in different {} are the same", len(flat) - len(set(flat)), len(flat),
          "processes" if case["how"] != "threads" else "threads")
    rec.label(case["how"])
    rec.nontrivial()


def long_cases(tier):
    ns = (65537, 131072, 131073, 262144 + 17, 2**20 + 1) if tier == "quick" else (65537, 131072, 131073, 262144 + 17, 2**20 + 1, 2**24 + 5, 2**25)
    return [dict(lib=lib, rng=rng, ops=[[op, n]], rep=2) for lib in NAMES for rng in ("RNG_URANDOM", "RNG_IMPL") for op in ("rand", "api", "pure") for n in ns]


def constants(tier):
    return [dict(name=n) for n in ("aSig", "bSig", "aEnc", "bEnc")]


def constants_body(case, rec):
    """The key pairs the library ships for examples obey the same rules."""
    f = facade("LIB_TYPE_PYNACL", "RNG_URANDOM")
    kp = getattr(CryptoTestData, case["name"])
    (check_sig if case["name"].endswith("Sig") else check_enc)(f, kp, "CryptoTestData." + case["name"])
    rec.nontrivial()


CHECKS = [
    Sub("constants", None, constants_body, quick=1, cases=constants, shards=1),
    Sub("bits", None, bits_body, quick=1, cases=bits),
    Sub("long", None, body, quick=1, cases=long_cases),
    Sub("processes", None, process_body, quick=1, cases=process_cases),
    Sub("thread_turns", turns_case, turns_body, quick=1200, thorough=30000),
    Sub("histories", case, body, quick=6000, thorough=60000),
    Sub("derivation", derive_case, derive_body, quick=12000, thorough=200000),
]
