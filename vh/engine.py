"""Runs the sub-checks of one property in worker processes and reports.

Exit 0: held on everything explored. Exit 1: VIOLATION line. Exit 2: error of the check."""
from vh import env  # noqa: F401  (first: sets sys.path)
import argparse
import asyncio
import collections
import ctypes
import faulthandler
import hashlib
import importlib
import json
import multiprocessing as mp
import multiprocessing.connection
import multiprocessing.sharedctypes
import os
import signal
import struct
import sys
import tempfile
import time
import traceback
import warnings

from vh.core import Violation, Skip, Rec, digest, dumps, enc, dec, exc_text

NPROC = int(os.environ.get("VERIF_PROCS", "8"))
SHRINK_S = 25.0
SCALE = float(os.environ.get("VH_SCALE", "1"))          # development aid: fewer cases, no shrinking (tools/mutate.py)
if SCALE < 1:
    SHRINK_S = 0


class StopShrink(BaseException):
    pass


class NoTermination(BaseException):
    pass


def in_repo(tb):
    """Does the traceback go through the code under test?"""
    while tb is not None:
        if os.path.abspath(tb.tb_frame.f_code.co_filename).startswith(env.REPO + os.sep):
            return True
        tb = tb.tb_next
    return False


def load(prop):
    return importlib.import_module("vh.props." + prop.lower())


def run_body(sub, case, rec):
    """Runs one case; Violation for anything the code under test did wrong."""
    signal.setitimer(signal.ITIMER_PROF, sub.cpu, 10)      # again and again: clearing up may block too
    signal.setitimer(signal.ITIMER_REAL, sub.wall, 10)
    try:
        sub.body(case, rec)
    except Violation:
        raise
    except Skip:
        raise
    except NoTermination as e:
        raise Violation("no termination within %s" % e)
    except Exception as e:
        if in_repo(e.__traceback__):
            raise Violation("unexpected exception from the code under test: %s\n%s"
                            % (exc_text(e), "".join(traceback.format_tb(e.__traceback__)[-4:])))
        if isinstance(e, (LookupError, AttributeError, TypeError, ValueError, struct.error)):
            raise Violation("what the code under test gave or did has a shape that no correct run has: %s\n%s"
                            % (exc_text(e), "".join(traceback.format_tb(e.__traceback__)[-4:])))
        raise
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.setitimer(signal.ITIMER_REAL, 0)


def _on_prof(signum, frame):
    raise NoTermination("the CPU time of one case")


def _on_alarm(signum, frame):
    raise NoTermination("the time of one case (blocked)")


def quiet_process():
    warnings.simplefilter("ignore")
    signal.signal(signal.SIGPROF, _on_prof)
    signal.signal(signal.SIGALRM, _on_alarm)
    asyncio.set_event_loop(asyncio.new_event_loop())
    import logging
    logging.getLogger("asyncio").setLevel(logging.CRITICAL)
    sys.unraisablehook = lambda *a: None


def own_group():
    """A worker leads a process group of its own, so that it can be ended with everything it started, and ends with its parent."""
    try:
        os.setpgid(0, 0)
        ctypes.CDLL(None).prctl(1, int(signal.SIGKILL))
    except (OSError, AttributeError):
        pass


def end_group(p):
    if p.exitcode is None:
        p.kill()
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass


class Stats:
    def __init__(self):
        self.evals = 0
        self.skipped = 0
        self.labels = collections.Counter()
        self.nt = set()
        self.samples = []

    def add(self, case, rec):
        self.evals += 1
        self.labels.update(set(rec.labels))
        if rec.nt:
            d = digest(case)
            if d not in self.nt:
                self.nt.add(d)
                n = len(self.nt)
                if n in (2, 17, 61, 211) and len(self.samples) < 4:
                    s = dumps(case)
                    self.samples.append(s if len(s) < 1500 else s[:1500] + "...")


def worker(prop, subname, shard, nshards, tier, seed, out, journal, beat):
    """One shard of one sub-check. Writes a pickle-able dict to out."""
    own_group()
    quiet_process()
    mod = load(prop)
    sub = {s.name: s for s in mod.CHECKS}[subname]
    st = Stats()
    fails = []      # (size, case, message)
    t_first = [None]
    jf = open(journal, "w") if journal else None

    def one(case):
        rec = Rec()
        beat.value = time.monotonic()
        if jf:
            jf.seek(0)
            jf.truncate()
            jf.write(dumps(case))
            jf.flush()
        if t_first[0] is not None and time.monotonic() - t_first[0] > SHRINK_S:
            raise StopShrink()
        try:
            run_body(sub, case, rec)
        except Skip:
            st.skipped += 1
            return
        except Violation as v:
            st.evals += 1
            if t_first[0] is None:
                t_first[0] = time.monotonic()
            fails.append((len(dumps(case)), len(fails), case, str(v)))
            raise
        st.add(case, rec)

    err = None
    try:
        if sub.cases is not None:
            for i, case in enumerate(sub.cases(tier)):
                if i % nshards == shard:
                    one(case)
        else:
            from hypothesis import given, settings, seed as hseed, HealthCheck, Phase
            if shard % 4 or nshards == 1:
                # Hypothesis spends most cases on variants of the one before in which parts are repeated; one shard in four keeps that
                from hypothesis.internal.conjecture.engine import ConjectureRunner
                ConjectureRunner.generate_mutations_from = lambda self, data: None
            total = sub.n[tier]
            n = max(1, int(total * SCALE) // nshards)
            h = int.from_bytes(hashlib.sha256(("%d/%s/%s/%d" % (seed, prop, subname, shard)).encode()).digest()[:6], "big")

            @hseed(h)
            @settings(max_examples=n, database=None, deadline=None, suppress_health_check=list(HealthCheck),
                      phases=(Phase.generate, Phase.shrink), report_multiple_bugs=False, print_blob=False,
                      derandomize=False)
            @given(sub.strategy())
            def prop_test(case):
                one(case)
            prop_test()
    except (Violation, StopShrink):
        pass
    except BaseException as e:
        if not fails:
            err = "".join(traceback.format_exception(type(e), e, e.__traceback__))
    res = dict(sub=subname, shard=shard, evals=st.evals, skipped=st.skipped, labels=dict(st.labels),
               nt=list(st.nt), samples=st.samples, err=err, fail=None)
    if fails:
        size, _, case, msg = min(fails)
        res["fail"] = dict(case=enc(case), msg=msg, shrink_steps=len(fails))
    import pickle
    with open(out + ".tmp", "wb") as f:
        pickle.dump(res, f)
    os.rename(out + ".tmp", out)
    sys.stdout.flush()
    os._exit(0)


def import_ok(prop):
    """Imports the property module in a child; (ok, is_repo_fault, text)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        text = b""
        try:
            quiet_process()
            load(prop)
        except BaseException as e:
            code = 1 if in_repo(e.__traceback__) else 2
            if isinstance(e, (ImportError, AttributeError)) and "saltchannel" in str(e):
                code = 1
            text = "".join(traceback.format_exception(type(e), e, e.__traceback__)).encode()[-3000:]
        os.write(w, text)
        os._exit(code)
    os.close(w)
    data = b""
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        data += b
    os.close(r)
    _, status = os.waitpid(pid, 0)
    return os.waitstatus_to_exitcode(status), data.decode(errors="replace")


def write_replay(prop, data):
    d = os.path.join(env.VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    body = json.dumps(data, indent=1, sort_keys=True)
    path = os.path.join(d, "%s-%s.json" % (prop, hashlib.sha1(body.encode()).hexdigest()[:10]))
    with open(path, "w") as f:
        f.write(body + "\n")
    return path


def replay(path):
    with open(path) as f:
        data = json.load(f)
    quiet_process()
    mod = load(data["property"])
    sub = {s.name: s for s in mod.CHECKS}[data["sub"]]
    rec = Rec()
    try:
        run_body(sub, dec(data["case"]), rec)
    except Skip:
        print("case is outside the domain")
        return 0
    except Violation as v:
        print("property %s, %s: %s" % (data["property"], data["sub"], v))
        print("VIOLATION property=%s replay=%s" % (data["property"], path))
        return 1
    print("the case holds now")
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--sub")
    a = ap.parse_args()
    if a.replay:
        sys.exit(replay(a.replay))
    prop = a.prop.upper()
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.monotonic()
    code, text = import_ok(prop)
    if code == 1:
        path = write_replay(prop, dict(property=prop, sub="import", case=None, message=text))
        print(text)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        sys.exit(1)
    if code != 0:
        print(text)
        print("ERROR: the check of %s could not be loaded" % prop)
        sys.exit(2)
    # The parent needs only names and sizes; load in the parent too (it never runs a case).
    mod = load(prop)
    subs = [s for s in mod.CHECKS if not a.sub or s.name == a.sub]
    jobs = []
    for s in subs:
        k = s.shards or NPROC
        if s.cases is None:
            k = max(1, min(k, s.n[tier]))
        if s.serial:
            k = 1
        for i in range(k):
            jobs.append((s.name, i, k))
    wall = {s.name: max(s.wall, s.cpu) for s in subs}
    scratch = tempfile.mkdtemp(prefix="vh-%s-" % prop)
    ctx = mp.get_context("fork")
    pending = collections.deque(jobs)
    running, hung = {}, set()
    results, failures, errors, crashed = [], [], [], []
    import pickle
    try:
        while pending or running:
            while pending and len(running) < NPROC:
                name, i, k = pending.popleft()
                out = os.path.join(scratch, "%s.%d" % (name, i))
                journal = out + ".journal" if (name, i) in crashed else None
                beat = mp.sharedctypes.RawValue("d", time.monotonic())
                p = ctx.Process(target=worker, args=(prop, name, i, k, tier, seed, out, journal, beat))
                p.start()
                running[p.sentinel] = (p, name, i, k, out, journal, beat)
            for p, name, i, k, out, journal, beat in running.values():
                if time.monotonic() - beat.value > wall[name] + 60:     # one case hangs and cannot be interrupted
                    hung.add(p.pid)
                    end_group(p)
            # a process the code under test left behind can hold a sentinel open after the worker's own end
            ready = mp.connection.wait(list(running), timeout=1)
            for s in [s for s in running if s in ready or running[s][0].exitcode is not None]:
                p, name, i, k, out, journal, _ = running.pop(s)
                if s in ready:
                    p.join(10)
                end_group(p)                  # whatever it left behind
                p.join()
                if os.path.exists(out):
                    with open(out, "rb") as f:
                        r = pickle.load(f)
                    results.append(r)
                    if r["fail"]:
                        failures.append(r)
                    elif r["err"]:
                        errors.append(r)
                elif journal is None and (p.exitcode in (-11, -6, -7, -8, -4) or p.pid in hung):
                    crashed.append((name, i))      # once more, writing each case down first
                    pending.appendleft((name, i, k))
                elif journal is not None and os.path.exists(journal) and (p.exitcode != -9 or p.pid in hung):
                    with open(journal) as f:
                        case = json.load(f)
                    failures.append(dict(sub=name, shard=i, fail=dict(case=case, msg="the interpreter died or had to be ended: signal %d"
                                                                      % -p.exitcode, shrink_steps=0)))
                else:
                    errors.append(dict(sub=name, shard=i, err="worker ended with exit code %s" % p.exitcode))
            if failures:
                break
    finally:
        for p, *_ in running.values():
            end_group(p)
            p.join()
        import shutil
        shutil.rmtree(scratch, ignore_errors=True)

    labels = collections.defaultdict(collections.Counter)
    per = {}
    nts, samples = set(), []
    for s in subs:
        rs = [r for r in results if r["sub"] == s.name]
        snt = set()
        for r in rs:
            labels[s.name].update(r["labels"])
            snt.update(r["nt"])
        per[s.name] = dict(evaluations=sum(r["evals"] for r in rs), outside_domain=sum(r["skipped"] for r in rs),
                           distinct_nontrivial=len(snt), classes=dict(sorted(labels[s.name].items())))
        nts.update((s.name, d) for d in snt)
        got = [x for r in rs for x in r["samples"]][:2]
        samples.extend({"check": s.name, "case": json.loads(x) if not x.endswith("...") else x} for x in got)
    spent = time.monotonic() - t0
    evidence = dict(property=prop, tier=tier, seed=seed, level=getattr(mod, "LEVEL", "exploration"),
                    coverage=dict(evaluations=sum(p["evaluations"] for p in per.values()),
                                  distinct_nontrivial=len(nts), rule=mod.RULE, samples=samples, checks=per),
                    assumptions=getattr(mod, "ASSUMPTIONS", []), wall_s=round(spent, 2), violations=len(failures))
    exh = [s.name for s in subs if s.cases is not None]
    if exh:
        evidence["coverage"]["enumerated_completely"] = exh
    os.makedirs(os.path.join(env.VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(env.VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
        f.write("\n")
    for name, p in per.items():
        print("%s %-28s evaluations=%d nontrivial=%d" % (prop, name, p["evaluations"], p["distinct_nontrivial"]))
    if failures:
        r = min(failures, key=lambda r: len(json.dumps(r["fail"]["case"])))
        path = write_replay(prop, dict(property=prop, sub=r["sub"], case=r["fail"]["case"], message=r["fail"]["msg"],
                                       seed=seed, tier=tier, shard=r["shard"], shrink_steps=r["fail"]["shrink_steps"]))
        print("%s: %s" % (r["sub"], r["fail"]["msg"]))
        print("case: " + json.dumps(r["fail"]["case"])[:2000])
        print("VIOLATION property=%s replay=%s" % (prop, path))
        sys.exit(1)
    if errors:
        print(errors[0]["err"])
        print("ERROR in the check of %s (%s)" % (prop, errors[0]["sub"]))
        sys.exit(2)
    print("%s held on everything explored (%.1f s)" % (prop, spent))
    sys.exit(0)


if __name__ == "__main__":
    faulthandler.enable()
    main()
