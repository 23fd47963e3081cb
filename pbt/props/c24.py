import io
import os
import pickle
import resource
import sys
import threading

from .. import damage
from .common import *   # noqa: F403
from .c17 import freeze, rich

OPS = ["get_json(True)", "get_json(False)", "print_json(True)", "print_json(False)", "print_lnk_file(True)",
       "print_shortcut_target()", "size"]
DIRECT = {
    "get_json(True)": lambda f: f.get_json(True),
    "get_json(False)": lambda f: f.get_json(False),
    "print_json(True)": lambda f: f.print_json(True),
    "print_json(False)": lambda f: f.print_json(False),
    "print_lnk_file(True)": lambda f: f.print_lnk_file(True),
    "print_shortcut_target()": lambda f: f.print_shortcut_target(),
    "size": lambda f: f.size,
}


class Streams:
    """A stdout with a buffer for each thread."""

    def __init__(self):
        self.local = threading.local()

    def open(self):
        self.local.raw = io.BytesIO()
        self.local.out = io.TextIOWrapper(self.local.raw, encoding="utf-8", newline="")

    def take(self):
        self.local.out.flush()
        v = self.local.raw.getvalue().decode("utf-8")
        self.open()
        return v

    def __getattr__(self, name):
        return getattr(self.local.out, name)


class Schedule:
    """Lets one thread at a time run, for the given numbers of steps (lines or
    operations of the package) in turn."""

    def __init__(self, n, runs):
        self.turns = [threading.Semaphore(0) for _ in range(n)]
        self.live = list(range(n))
        self.runs, self.at = runs, 0
        self.steps = self.switches = 0
        self.free = self.abort = False
        self.left = 0
        self.next_run()

    def next_run(self):
        # after its end the schedule is repeated with longer and longer runs
        k, i = divmod(self.at, len(self.runs))
        self.at += 1
        self.left = max(1, self.runs[i]) << min(k // 4, 20)

    def step(self, me):
        self.steps += 1
        if self.free:
            if self.abort:
                raise SystemExit
            return
        self.left -= 1
        if self.left <= 0:
            self.next_run()
            if len(self.live) > 1:
                self.switches += 1
                other = self.live[(self.live.index(me) + 1) % len(self.live)]
                self.turns[other].release()
                self.wait(me)

    def wait(self, me):
        while not self.free:
            before = self.steps
            if self.turns[me].acquire(timeout=3):
                return
            if before == self.steps:        # the running thread waits for something else
                self.release()

    def release(self):
        self.free = True
        for t in self.turns:
            t.release()

    def end(self, me):
        i = self.live.index(me)
        self.live.remove(me)
        if self.live:
            self.turns[self.live[i % len(self.live)]].release()


def perform(jobs, objs, stream):
    """One thread: its jobs one after another -> their results"""
    out = []
    for data, cp, allow, shared, ops in jobs:
        try:
            f = objs[shared] if shared is not None else lib.lnk.lnk_file(indata=data, cp=cp, allow_terminal_blocks=allow)
        except Exception as e:      # noqa: BLE001
            out.append(("raised", type(e).__name__))
            continue
        for op in ops:
            try:
                v = freeze(DIRECT[op](f))
            except Exception as e:      # noqa: BLE001   (C01 judges whether it may be raised)
                v = ("raised", type(e).__name__)
            out.append((op, v, stream.take()))
    return out


def shared_objects(threads):
    objs = {}
    for jobs in threads:
        for data, cp, allow, shared, _ in jobs:
            if shared is not None and shared not in objs:
                objs[shared] = lib.lnk.lnk_file(indata=data, cp=cp, allow_terminal_blocks=allow)
    return objs


def run(threads, runs, opcodes):
    """-> (serial results, concurrent results, serial warnings, concurrent warnings, switches)"""
    stream = Streams()
    stdout, sys.stdout = sys.stdout, stream
    try:
        stream.open()
        with lib.observed() as w1:
            objs = shared_objects(threads)
            serial = [perform(jobs, objs, stream) for jobs in threads]
        with lib.observed() as w2:
            objs = shared_objects(threads)
            sched = Schedule(len(threads), runs)
            results = [None] * len(threads)
            home = package()

            def body(i):
                def local(frame, event, arg):
                    if event == ("opcode" if opcodes else "line"):
                        sched.step(i)
                    return local

                def tracer(frame, event, arg):
                    if not frame.f_code.co_filename.startswith(home):
                        return None
                    frame.f_trace_opcodes = opcodes
                    return local
                stream.open()
                sched.wait(i)
                sys.settrace(tracer)
                try:
                    results[i] = perform(threads[i], objs, stream)
                finally:
                    sys.settrace(None)
                    sched.end(i)
            pool = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(len(threads))]
            try:
                for t in pool:
                    t.start()
                sched.turns[0].release()
                for t in pool:
                    t.join()
            except BaseException:
                sched.abort = True
                sched.release()
                raise
    finally:
        sys.stdout = stdout
    return serial, results, sorted(w1), sorted(w2), sched.switches, sched.free


def package():
    return os.path.dirname(os.path.abspath(lib.lnk.__file__)) + os.sep


def traced(job, objs, stream, step, opcodes):
    """Perform a job, calling step(code, place) before each line (or operation) of the package until it returns True."""
    home = package()
    what = "opcode" if opcodes else "line"
    off = False

    def local(frame, event, arg):
        nonlocal off
        if off:
            return None
        if event == what and step(frame.f_code, frame.f_lasti if opcodes else frame.f_lineno):
            off = True
            sys.settrace(None)
            return None
        return local

    def tracer(frame, event, arg):
        if off or not frame.f_code.co_filename.startswith(home):
            return None
        frame.f_trace_opcodes = opcodes
        return local
    sys.settrace(tracer)
    try:
        return perform([job], objs, stream)
    finally:
        sys.settrace(None)


def points(job, objs, stream, opcodes):
    """-> the steps before the first and the last time each line (or operation) is run"""
    seen = {}
    n = 0

    def step(code, line):
        nonlocal n
        seen.setdefault((code, line), [n, n])[1] = n
        n += 1
    traced(job, objs, stream, step, opcodes)
    first = sorted(a for a, _ in seen.values())
    return first + sorted({b for _, b in seen.values()} - set(first))


def pause(a, b, at, slot, of, opcodes):
    """Job a is stopped at one step, job b is run in another thread, a goes on; for each of the chosen steps.
    -> (steps tried, step, serial results, results)"""
    stream = Streams()
    stdout, sys.stdout = sys.stdout, stream
    try:
        stream.open()
        with lib.observed():
            objs = shared_objects([[a, b]])
            serial = perform([a], objs, stream), perform([b], objs, stream)
            todo = [at]
            if at is None:
                perform([a], shared_objects([[a]]), stream)
                todo = points(a, shared_objects([[a]]), stream, opcodes)[slot::of]
            for k in todo:
                objs = shared_objects([[a, b]])
                got = [None, None]
                n = 0

                def other():
                    stream.open()
                    got[1] = perform([b], objs, stream)
                t = threading.Thread(target=other, daemon=True)

                def step(code, line):
                    nonlocal n
                    n += 1
                    if n <= k:
                        return False
                    t.start()
                    t.join(timeout=3)       # it may wait for something that the first has
                    return True
                got[0] = traced(a, objs, stream, step, opcodes)
                if n <= k:
                    t.start()
                t.join()
                if tuple(got) != serial:
                    return len(todo), k, serial, tuple(got)
    finally:
        sys.stdout = stdout
    return len(todo), None, None, None


class C24(Prop):
    id = "C24"
    rule = ("Two or three threads, each parsing one or two files (well-formed, damaged, samples; different code pages "
            "and settings) and calling outputs, on objects of their own or on an object made before; the threads are "
            "interleaved after generated numbers of lines or bytecode operations of the package (deterministically, by "
            "sys.settrace and a baton). Each result, text and the warnings against the same work done serially. "
            "Sweep: pairs of samples at several rhythms; a link stopped before each line of the package it runs, while another "
            "is done in a second thread. Non-trivial: at least 5 switches.")
    assumptions = ["Threads are switched at lines and bytecode operations of the package, not within its callees."]
    budget = {"quick": (300, 3000), "thorough": (8000, 160000)}
    isolated = False

    def isolate(self):
        self.isolated = True

    def sweep(self, tier):
        of = 40
        pairs = [(0, 0), (0, 1), (2, 3), (3, 2), (4, 4), (5, 5), (4, 0), (1, 0)]
        for slot in range(of):
            for i, ops in enumerate(pairs):
                for v in range(i % 2, 4, 3 if i else 2) if tier == "quick" else range(12):
                    yield {"pause": [{"rich": v}, {"rich": (v + 1 + i) % 7}], "ops": list(ops), "slot": slot, "of": of,
                           "shared": (i + v) % 4 == 3, "opcodes": tier != "quick" and v < 2}
        names = sorted(damage.samples())
        runs = [[1], [7], [40, 1, 13], [300], [97, 350]]
        for i, n in enumerate(names):
            for j in range(4 if tier == "quick" else len(names)):
                m = names[(i + 1 + j) % len(names)]
                yield {"files": [{"sample": n, "edits": [], "cp": None, "allow": True},
                                 {"sample": m, "edits": [], "cp": "cp1250", "allow": True}],
                       "threads": [[[0, False, [0]]], [[1, False, [0]]]], "runs": runs[(i + j) % len(runs)],
                       "opcodes": False}
            yield {"files": [{"sample": n, "edits": [], "cp": None, "allow": True}],
                   "threads": [[[0, True, [0, 1]]], [[0, True, [0, 1]]]], "runs": runs[i % len(runs)], "opcodes": False}

    def gen(self, src):
        if src.flag(0.25):
            return {"pause": [damage.gen(src, 0.7), damage.gen(src, 0.7) if src.flag() else {"rich": src.int(0, 6)}],
                    "ops": [src.int(0, len(OPS) - 1), src.int(0, len(OPS) - 1)], "of": 200, "slot": src.int(0, 199),
                    "shared": src.flag(0.3), "opcodes": src.flag(0.3)}
        files = [damage.gen(src, 0.7) for _ in range(src.int(1, 3))]
        if src.flag(0.3) and "file" in files[0]:      # the same bytes under another code page
            files.append({"file": dict(files[0]["file"], cp=src.pick(("cp1252", "cp437", "utf-8", "cp932"))),
                          "edits": files[0]["edits"]})
        threads = []
        for _ in range(src.int(2, 3)):
            threads.append([[src.int(0, len(files) - 1), src.flag(0.25),
                             [src.int(0, len(OPS) - 1) for _ in range(src.int(1, 2))]] for _ in range(src.int(1, 2))])
        top = src.pick((3, 12, 50, 200, 600))
        return {"files": files, "threads": threads, "runs": [src.int(1, top) for _ in range(src.int(1, 24))],
                "opcodes": src.flag(0.2)}

    def check(self, case, st):
        if "pause" in case:
            self.pausing(case, st)
            return
        files = []
        for c in case["files"]:
            data, cp, allow, _ = damage.realise(c)
            files.append((data, cp, allow))
        B.need(files and len(case["threads"]) > 1 and case["runs"])
        with lib.observed():
            refused = set()
            for i, (data, cp, allow) in enumerate(files):
                try:
                    lib.lnk.lnk_file(indata=data, cp=cp, allow_terminal_blocks=allow)
                except Exception:      # noqa: BLE001
                    refused.add(i)
        threads = []
        for jobs in case["threads"]:
            B.need(all(i < len(files) for i, _, _ in jobs))
            threads.append([files[i] + (i if shared and i not in refused else None, [OPS[o] for o in ops])
                            for i, shared, ops in jobs])
        args = threads, case["runs"], bool(case["opcodes"])
        serial, got, w1, w2, switches, free = self.fork(args) if self.isolated else run(*args)
        for i, (a, b) in enumerate(zip(serial, got)):
            if b is None:
                raise Violation("thread %d ended without a result" % i)
            for x, y in zip(a, b):
                if x != y:
                    raise Violation("thread %d, %s: concurrently %s, serially %s" % ((i, x[0]) + tell(y, x)))
        if w1 != w2:
            raise Violation("warnings: concurrently %s, serially %s" % tell(w2, w1))
        st.label("%d threads" % len(threads), "opcodes" if case["opcodes"] else "lines",
                 "shared object" if any(j[3] is not None for t in threads for j in t) else "own objects",
                 "switches 10^%d" % (len(str(switches)) - 1), *["ran free"] * free)
        st.mark(switches >= 5)

    def pausing(self, case, st):
        B.need(len(case["pause"]) == 2 and 0 <= case["slot"] < case["of"] and all(0 <= i < len(OPS) for i in case["ops"]))
        B.need(case.get("at") is None or 0 <= case["at"] < 1000000)
        files = []
        for c, cp in zip(case["pause"], ("cp1252", "cp437")):
            if "rich" in c:
                files.append((B.build(rich(c["rich"])).data, cp, True))
            else:
                files.append(damage.realise(c)[:3])
        if case["shared"]:
            files[1] = files[0]
            with lib.observed():
                try:
                    lib.lnk.lnk_file(indata=files[0][0], cp=files[0][1], allow_terminal_blocks=files[0][2])
                except Exception:      # noqa: BLE001
                    raise B.Invalid("refused") from None
        a, b = [f + (0 if case["shared"] else None, [OPS[i]]) for f, i in zip(files, case["ops"])]
        args = a, b, case.get("at"), case["slot"], case["of"], bool(case["opcodes"])
        n, at, want, got = self.fork(args, pause) if self.isolated else pause(*args)
        if at is not None:
            for who, x, y in zip(("the first", "the second"), want, got):
                for p, q in zip(x, y):
                    if p != q:
                        raise Violation("step %d of the first link: %s, %s: concurrently %s, serially %s" % (
                            (at, who, p[0]) + tell(q, p)), dict(case, at=at))
            raise Violation("step %d: other results" % at, dict(case, at=at))
        st.label("second link between two lines of the first", *["shared object"] * case["shared"])
        st.mark(n > 0)

    @staticmethod
    def fork(args, run=run):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            resource.setrlimit(resource.RLIMIT_CPU, (200, 200))
            try:
                blob = pickle.dumps(run(*args))
            except BaseException:       # noqa: BLE001
                blob = b""
            with os.fdopen(w, "wb") as f:
                f.write(blob)
            os._exit(0)
        os.close(w)
        with os.fdopen(r, "rb") as f:
            blob = f.read()
        os.waitpid(pid, 0)
        if not blob:
            raise Violation("the process died")
        return pickle.loads(blob)


def tell(a, b, n=150):
    a, b = repr(a), repr(b)
    i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    i = max(0, i - 40)
    return "..." + a[i:i + n], "..." + b[i:i + n]


PROP = C24()
