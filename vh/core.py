"""Vocabulary shared by the property modules."""
import hashlib
import json


class Violation(Exception):
    """The code under test broke the property on this case."""


class Skip(Exception):
    """The case is outside the domain (counted, not evaluated)."""


def check(cond, msg, *args):
    if not cond:
        raise Violation(msg.format(*args) if args else msg)


def fail(msg, *args):
    raise Violation(msg.format(*args) if args else msg)


def short(b, n=48):
    if isinstance(b, (bytes, bytearray)):
        h = bytes(b[:n]).hex()
        return "%s%s(%d bytes)" % (h, ".." if len(b) > n else "", len(b))
    r = repr(b)
    return r if len(r) < 200 else r[:200] + "..."


def same_bytes(got, want, what):
    """got must be a bytes-like object equal to want."""
    if not isinstance(got, (bytes, bytearray)):
        raise Violation("%s: expected bytes %s, got %s" % (what, short(want), short(got)))
    if bytes(got) != bytes(want):
        raise Violation("%s: expected %s, got %s" % (what, short(want), short(got)))


def exc_text(e):
    return "%s: %s" % (type(e).__name__, str(e)[:200])


# ---- cases are JSON-able; bytes are written as {"hex": ..}

def enc(x):
    if isinstance(x, (bytes, bytearray)):
        return {"hex": bytes(x).hex()}
    if isinstance(x, (list, tuple)):
        return [enc(i) for i in x]
    if isinstance(x, dict):
        return {k: enc(v) for k, v in x.items()}
    if x is None or isinstance(x, (int, str, bool)):
        return x
    raise TypeError("case not JSON-able: %r" % (x,))


def dec(x):
    if isinstance(x, list):
        return [dec(i) for i in x]
    if isinstance(x, dict):
        if set(x) == {"hex"}:
            return bytes.fromhex(x["hex"])
        return {k: dec(v) for k, v in x.items()}
    return x


def dumps(case):
    return json.dumps(enc(case), sort_keys=True)


def digest(case):
    return hashlib.blake2b(repr(case).encode(), digest_size=10).digest()


def expand(n, tag=0):
    """n deterministic incompressible bytes."""
    return hashlib.shake_128(b"salt%d" % tag).digest(n)


class Rec:
    """What a body reports about one case."""

    __slots__ = ("labels", "nt")

    def __init__(self):
        self.labels = []
        self.nt = False

    def label(self, *names):
        self.labels.extend(names)

    def nontrivial(self, cond=True):
        if cond:
            self.nt = True


class Sub:
    """One executable statement: body(case, rec) over cases from a Hypothesis strategy (or an explicit list)."""

    def __init__(self, name, strategy, body, quick, thorough=None, cases=None, shards=None, serial=False, cpu=60, wall=None):
        self.name = name
        self.strategy = strategy      # zero-argument callable giving the strategy
        self.body = body
        self.n = {"quick": quick, "thorough": thorough or quick * 20}
        self.cases = cases            # callable(tier) -> list of cases: enumerated instead of generated
        self.shards = shards
        self.serial = serial
        self.cpu = cpu                # CPU seconds for one case before it counts as not terminating
        self.wall = wall or cpu       # the same for elapsed time (for bodies that can block)
