"""Runs one property: sweep, Hypothesis, fast random; shrinks, reports, writes
evidence.  Exit 0: held on everything explored; 1: violation; 2: harness error."""

import hashlib
import json
import mmap
import os
import pickle
import resource
import sys
import time
import traceback

from . import build as B
from . import lib
from .source import HypSource, RandSource

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORKERS = int(os.environ.get("PBT_WORKERS", "8"))
SCALE = float(os.environ.get("PBT_SCALE", "1"))      # a fraction of all phases, for mutation runs


class Prop:
    """Base class of the properties (pbt/props/cNN.py)."""
    id = None
    rule = ""              # how cases are made, what makes one non-trivial
    assumptions = []
    worker = 0             # which worker this is
    # tier -> (hypothesis examples, fast random cases), over all workers
    budget = {"quick": (1600, 24000), "thorough": (24000, 600000)}
    cap = {"quick": 150, "thorough": 3000}      # seconds, per phase; never a verdict

    def sweep(self, tier):
        """Enumerated cases (an iterable of case values)."""
        return ()

    def gen(self, src):
        """A random case drawn from a source of choices."""
        raise NotImplementedError

    def check(self, case, st):
        """Raise lib.Violation if the case breaks the property.  Record labels
        and non-triviality in st."""
        raise NotImplementedError

    def start(self):
        """Called once in each worker before the first case."""

    def finish(self):
        """Called once in each process that called start()."""

    def isolate(self):
        """Called before shrinking and replaying: from now on a case has to fail
        for itself, whatever ran in this process before."""

    def extra(self, tier, seed, worker, workers, st):
        """A further phase of the property's own (coverage-guided fuzzing...)."""


class Stats:
    def __init__(self):
        self.evaluations = 0
        self.nontrivial = set()
        self.labels = {}
        self.samples = []
        self.invalid = 0
        self.early = []
        self.cur_nontrivial = False

    def label(self, *names):
        for n in names:
            self.labels[n] = self.labels.get(n, 0) + 1

    def mark(self, cond=True):
        if cond:
            self.cur_nontrivial = True


def digest(case):
    return hashlib.blake2b(json.dumps(case, sort_keys=True).encode(), digest_size=8).digest()


class Failure(Exception):
    def __init__(self, case, message, phase):
        self.case, self.message, self.phase = case, message, phase


def run_case(prop, case, st):
    """None, or the message of the violation."""
    st.cur_nontrivial = False
    st.failing = case
    try:
        with lib.watchdog():
            prop.check(case, st)
    except B.Invalid:
        st.invalid += 1
        return None
    except lib.Violation as v:
        if v.case is not None:
            st.failing = v.case
        return v.message
    except lib.Hang:
        return "no result after %d s of CPU time" % lib.CPU_LIMIT
    except MemoryError:
        return "out of memory (limit %d MB)" % (MEM >> 20)
    except RecursionError as e:
        return "RecursionError: " + lib.describe(e)
    finally:
        st.evaluations += 1
    if st.cur_nontrivial:
        st.nontrivial.add(digest(case))
        n = len(st.nontrivial)
        if n in (3, 40, 400) or (n < 3 and not st.samples):
            text = json.dumps(case)
            st.samples.append(case if len(text) < 3000 else text[:3000] + "...")
    return None


MEM = 3 << 30
FOUND = mmap.mmap(-1, 1)     # set by the first worker that finds a violation


def stop():
    return FOUND[0] != 0


def worker(prop, tier, seed, i, n, pipe):
    out = {"failure": None, "error": None}
    st = Stats()
    try:
        resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
        lib.setup()
        prop.worker = i
        prop.start()
        explore(prop, tier, seed, i, n, st)
    except Failure as f:
        FOUND[0] = 1
        out["failure"] = (f.case, f.message, f.phase)
    except BaseException:       # noqa: BLE001
        out["error"] = traceback.format_exc()
    finally:
        prop.finish()
    out["stats"] = (st.evaluations, st.nontrivial, st.labels, st.samples, st.invalid, st.early)
    with os.fdopen(pipe, "wb") as f:
        pickle.dump(out, f)


def explore(prop, tier, seed, i, n, st):
    t0 = time.monotonic()
    cap = prop.cap[tier]
    stride = max(1, round(1 / SCALE))
    for j, case in enumerate(prop.sweep(tier)):
        if j % n != i or (j // n) % stride:
            continue
        msg = run_case(prop, case, st)
        if msg:
            raise Failure(st.failing, msg, "sweep")
        if stop():
            return
        if time.monotonic() - t0 > cap:
            st.early.append("sweep")
            break
    hyp, rnd = (int(v * SCALE) for v in prop.budget[tier])
    if hyp:
        hypothesis_phase(prop, "%s/%s/%d" % (seed, prop.id, i), max(1, hyp // n), cap, st)
    src = RandSource("%s/%s/%d/fast" % (seed, prop.id, i))
    t0 = time.monotonic()
    for j in range(rnd // n):
        try:
            case = prop.gen(src)
        except B.Invalid:
            st.invalid += 1
            continue
        msg = run_case(prop, case, st)
        if msg:
            raise Failure(st.failing, msg, "random")
        if stop():
            return
        if time.monotonic() - t0 > cap:
            st.early.append("random")
            break
    if not stop():
        prop.extra(tier, seed, i, n, st)


def hypothesis_phase(prop, key, examples, cap, st):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    from hypothesis import strategies as hst

    seed = int.from_bytes(hashlib.sha256(key.encode()).digest()[:8], "big")
    t0 = time.monotonic()
    first, best, end = [], [], [1e9]

    @hst.composite
    def cases(draw):
        try:
            return prop.gen(HypSource(draw))
        except B.Invalid:
            hypothesis.reject()

    class Found(Exception):
        pass

    @hypothesis.seed(seed)
    @settings(max_examples=examples, database=None, deadline=None, derandomize=False,
              suppress_health_check=list(HealthCheck), print_blob=False,
              phases=(Phase.generate, Phase.shrink), report_multiple_bugs=False)
    @given(cases())
    def prop_test(case):
        now = time.monotonic() - t0
        if now > cap and not first:
            if "hypothesis" not in st.early:
                st.early.append("hypothesis")
            return
        if now > end[0] or (stop() and not first):
            return
        msg = run_case(prop, case, st)
        if msg:
            if not first:
                first.append((st.failing, msg))
                end[0] = now + SHRINK
                prop.isolate()
            best[:] = [(st.failing, msg)]
            raise Found(msg)

    try:
        prop_test()
    except BaseException as e:      # noqa: BLE001
        if not first:
            raise
        if isinstance(e, (KeyboardInterrupt, SystemExit)):
            raise
        case, msg = best[0]
        raise Failure(case, msg, "hypothesis") from None
    if first:       # failed once, but Hypothesis could not reproduce it
        raise Failure(first[0][0], first[0][1] + " (depends on earlier calls)", "hypothesis")


# ------------------------------------------------------------------- shrinking

def candidates(v):
    """Simpler variants of a JSON value, big steps first."""
    if isinstance(v, dict):
        for k in v:
            for c in candidates(v[k]):
                yield {**v, k: c}
        return
    if isinstance(v, list):
        n = len(v)
        step = n
        while step:
            for a in range(0, n, step):
                yield v[:a] + v[a + step:]
            step //= 2
        for i in range(n):
            for c in candidates(v[i]):
                yield v[:i] + [c] + v[i + 1:]
        return
    if isinstance(v, bool):
        if v:
            yield False
        return
    if isinstance(v, int):
        for c in (0, 1, v // 2, v - 1 if v > 0 else v + 1):
            if abs(c) < abs(v) or (v < 0 <= c):
                yield c
        return
    if isinstance(v, str) and v:
        n = len(v)
        if all(c in "0123456789abcdef" for c in v) and n % 2 == 0:
            step = n // 2
            while step >= 2:
                step -= step % 2
                if n > 64 and step < 8:
                    break
                for a in range(0, n, step):
                    yield v[:a] + v[a + step:]
                step //= 2
            if v.strip("0"):
                yield "0" * n
                yield ("4100" * n)[:n] if n % 4 == 0 else ("41" * n)[:n]


SHRINK = 30 if SCALE >= 1 else 0       # seconds


def shrink(prop, case, msg, seconds=SHRINK):
    end = time.monotonic() + seconds
    st = Stats()
    prop.start()
    prop.isolate()
    if run_case(prop, case, st) is None:
        return case, msg + " (depends on earlier calls)"
    changed = True
    while changed:
        changed = False
        for c in candidates(case):
            if time.monotonic() > end:
                return case, msg
            try:
                m = run_case(prop, c, st)
            except Exception:   # noqa: BLE001  a candidate outside the grammar
                continue
            if m:
                case, msg, changed = c, m, True
                break
    return case, msg


# ------------------------------------------------------------------------ main

def save_replay(prop, case, msg, phase, seed):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s.json" % (prop.id, digest(case).hex()))
    with open(path, "w") as f:
        json.dump({"property": prop.id, "phase": phase, "seed": seed, "message": msg,
                   "case": case}, f, indent=1)
        f.write("\n")
    return path


def main(prop, tier, seed):
    t0 = time.monotonic()
    lib.setup()          # fails early (exit 2) if the package cannot be imported
    kids = []
    for i in range(WORKERS):
        r, w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            code = 0
            try:
                worker(prop, tier, seed, i, WORKERS, w)
            except BaseException:       # noqa: BLE001
                traceback.print_exc()
                code = 3
            sys.stdout.flush()
            os._exit(code)
        os.close(w)
        kids.append((pid, r))
    total = Stats()
    failures, errors = [], []
    for i, (pid, r) in enumerate(kids):
        with os.fdopen(r, "rb") as f:
            blob = f.read()
        _, status = os.waitpid(pid, 0)
        if not blob:
            errors.append("worker %d died (status %d)" % (i, status))
            continue
        out = pickle.loads(blob)
        ev, nt, labels, samples, invalid, early = out["stats"]
        total.evaluations += ev
        total.nontrivial |= nt
        for k, v in labels.items():
            total.labels[k] = total.labels.get(k, 0) + v
        total.samples += samples
        total.invalid += invalid
        total.early += ["worker %d: %s" % (i, e) for e in early]
        if out["failure"]:
            failures.append(out["failure"])
        if out["error"]:
            errors.append(out["error"])
    status = 0
    if failures:
        failures.sort(key=lambda f: (f[2] != "hypothesis", len(json.dumps(f[0]))))
        case, msg, phase = failures[0]
        if phase != "hypothesis":
            case, msg = shrink(prop, case, msg)
            prop.finish()
        path = save_replay(prop, case, msg, phase, seed)
        print("%s: %s" % (prop.id, msg))
        print("case: %s" % json.dumps(case)[:2000])
        print("VIOLATION property=%s replay=%s" % (prop.id, path))
        status = 1
    elif errors:
        print("harness error in %s:\n%s" % (prop.id, errors[0]), file=sys.stderr)
        status = 2
    wall = time.monotonic() - t0
    ev = {"property": prop.id, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": total.evaluations,
                       "distinct_nontrivial": len(total.nontrivial),
                       "rule": prop.rule, "samples": total.samples[:6],
                       "labels": dict(sorted(total.labels.items())),
                       "discarded_as_outside_the_grammar": total.invalid,
                       "phases_ended_early_by_time_cap": total.early},
          "assumptions": prop.assumptions, "wall_s": round(wall, 2),
          "violations": len(failures)}
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, ".%s.tmp%d" % (prop.id, os.getpid()))
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    os.replace(tmp, os.path.join(d, prop.id + ".json"))
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %.1f s%s" % (
        prop.id, tier, seed, total.evaluations, len(total.nontrivial), wall,
        "" if not total.early else " (ended early: %s)" % ", ".join(total.early)))
    return status


def replay(prop, path):
    with open(path) as f:
        d = json.load(f)
    lib.setup()
    prop.start()
    prop.isolate()
    msg = run_case(prop, d["case"], Stats())
    prop.finish()
    if msg:
        print("%s: %s" % (prop.id, msg))
        print("VIOLATION property=%s replay=%s" % (prop.id, path))
        return 1
    print("%s: the case passes" % prop.id)
    return 0
