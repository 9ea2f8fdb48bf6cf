import json
import os
import subprocess
import sys

from hypothesis import strategies as st

from vh import env
from vh.core import Sub, check, fail

RULE = ("For generated sets of installed crypto libraries (libsodium present, absent or found but not loadable; PyNaCl and the TweetNaCl "
        "extension present, absent or present but broken) and request sequences, a fresh interpreter imports the whole package, asks for back ends and runs a "
        "session; each answer is compared with the table the property gives. All 27 library sets are enumerated with all single requests as "
        "well. Non-trivial: at least one library is missing.")
ASSUMPTIONS = ["libraries are taken away by patching library lookup and import in a fresh interpreter, not by uninstalling them",
               "the TweetNaCl extension is a stand-in with NaCl's functions",
               "a request is getLib(..), or SaltLib(..) constructed for the first time in the process (SaltLib is a singleton by design)"]

CLASS = {"native": "SaltLibNative", "pynacl": "SaltLibPyNaCl", "tweet": "SaltLibTweetNaClExt"}
REQ = ["best", "native", "pynacl", "tweet", "default"]


def expected(case, req):
    have = dict(native=case["native"] == "ok", pynacl=case["pynacl"] is True, tweet=case["tweet"] is True)
    if req in ("best", "default"):
        for k in ("native", "pynacl", "tweet"):
            if have[k]:
                return [CLASS[k], True]
        return ["NoSuchLib"]
    return [CLASS[req], True] if have[req] else ["NoSuchLib"]


def body(case, rec):
    r = subprocess.run([sys.executable, os.path.join(env.VERIF, "vh", "selchild.py"), json.dumps(case)], stdin=subprocess.DEVNULL,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=50, cwd="/")
    text = r.stdout.decode(errors="replace")
    if "\n@@" not in text:
        if r.returncode < 0:
            fail("the interpreter died with signal {}: {}", -r.returncode, r.stderr.decode(errors="replace")[-800:])
        raise RuntimeError("child gave nothing: %s %s" % (r.returncode, r.stderr.decode(errors="replace")[-2000:]))
    out = json.loads(text.rsplit("\n@@", 1)[1])
    if out["stage"] == "arrange":
        raise RuntimeError(out.get("error"))
    check("error" not in out, "the package fails at {} with {}: {}", out["stage"], case, out.get("error"))
    if case["first"]:
        check(out["first"] == expected(case, case["first"]), "SaltLib({}) gave {} instead of {}", case["first"], out["first"], expected(case, case["first"]))
    for q, a in zip(case["requests"], out["answers"]):
        check(a == expected(case, q), "getLib({}) gave {} instead of {}", q, a, expected(case, q))
    check(out["m1"] == "53437632" "0100" "00000000" + bytes(range(32)).hex(), "M1 without crypto library: {}", out["m1"])
    if case["session"]:
        if case["native"] == "ok" or case["pynacl"] is True or case["tweet"] is True:
            check(out["session"] == ["ping", "pong"], "session with the libraries {} gave {}", case, out["session"])
        else:
            check(isinstance(out["session"], str) and out["session"].startswith("NoSuchLibException"),
                  "session without any crypto library gave {}", out["session"])
    rec.label("native " + case["native"], *["%s %s" % (x, case[x]) for x in ("pynacl", "tweet")])
    rec.nontrivial(case["native"] != "ok" or case["pynacl"] is not True or case["tweet"] is not True)


HAVE = st.sampled_from([True, True, False, "broken"])


def strategy():
    # After SaltLib(x) of an unavailable x nothing is cached, so a session then still picks the best one; after an available x sessions use x.
    return st.fixed_dictionaries(dict(native=st.sampled_from(["ok", "missing", "unloadable"]), pynacl=HAVE, tweet=HAVE,
                                      first=st.one_of(st.none(), st.sampled_from(REQ)), requests=st.lists(st.sampled_from(REQ), max_size=8),
                                      session=st.booleans()))


def table(tier):
    out = []
    for native in ("ok", "missing", "unloadable"):
        for a, pynacl in enumerate((True, False, "broken")):
            for b, tweet in enumerate((True, False, "broken")):
                for i, first in enumerate([None] + REQ):
                    if tier == "quick" and i and (i + a + b) % (2 if a < 2 and b < 2 else 3):
                        continue
                    out.append(dict(native=native, pynacl=pynacl, tweet=tweet, first=first, requests=REQ if i % 2 else REQ[::-1], session=True))
    return out


CHECKS = [Sub("table", None, body, quick=1, cases=table), Sub("requests", strategy, body, quick=480, thorough=1500)]
