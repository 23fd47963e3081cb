import io
import json
import os
import pickle
import resource
import socket

from .. import damage
from ..source import RandSource
from .common import *   # noqa: F403

OPS = ["get_json(True)", "get_json(False)", "get_json()", "print_json(True)", "print_json(False)",
       "print_lnk_file(True)", "print_lnk_file(False)", "print_shortcut_target()",
       "print_shortcut_target(True)", "size"]


def freeze(v):
    """A comparable value: types, values, time zones; not the order of entries."""
    if isinstance(v, dict):
        return ("dict", tuple(sorted(((k, freeze(x)) for k, x in v.items()), key=lambda p: repr(p[0]))))
    if isinstance(v, (list, tuple)):
        return ("list", tuple(freeze(x) for x in v))
    return (type(v).__name__, repr(v))


def result(f, op):
    try:
        v = lib.OUTPUTS[op](f)
    except Exception as e:      # noqa: BLE001   (C01 judges whether it may be raised)
        return ("raised", type(e).__name__), None
    return freeze(v), v


def construct(data, cp, allow, how):
    """-> (object or the name of the exception, the buffer handed over)"""
    try:
        if how == "handle":
            return lib.lnk.lnk_file(io.BytesIO(data), cp=cp, allow_terminal_blocks=allow), None
        buf = bytearray(data) if how == "bytearray" else data
        return lib.lnk.lnk_file(indata=buf, cp=cp, allow_terminal_blocks=allow), buf
    except Exception as e:      # noqa: BLE001
        return ("raised", type(e).__name__), None


def fresh(req):
    data, cp, allow, op = req
    with lib.observed():
        f, _ = construct(data, cp, allow, "buffer")
        return f if isinstance(f, tuple) else result(f, op)[0]


def answer(q):
    if isinstance(q, str):
        try:
            return execute(json.loads(q))
        except (B.Invalid, KeyError, TypeError, ValueError, IndexError):      # no history
            return None
    return fresh(q)


class Pristine:
    """Answers what a first call gives, each in a process of its own in which
    nothing else was ever parsed."""

    def __init__(self):
        self.memo = {}      # of the last questions
        self.sock, other = socket.socketpair()
        if os.fork() == 0:
            self.sock.close()
            try:
                self.serve(other)
            finally:
                os._exit(0)
        other.close()
        self.rd = self.sock.makefile("rb")

    @staticmethod
    def serve(sock):
        rd = sock.makefile("rb")
        while True:
            try:
                reqs = pickle.load(rd)
            except EOFError:
                return
            for q in reqs:
                r, w = os.pipe()
                pid = os.fork()
                if pid == 0:
                    os.close(r)
                    resource.setrlimit(resource.RLIMIT_CPU, (60, 60))
                    with os.fdopen(w, "wb") as f:
                        pickle.dump(answer(q), f)
                    os._exit(0)
                os.close(w)
                with os.fdopen(r, "rb") as f:
                    out = f.read()
                os.waitpid(pid, 0)
                sock.sendall(len(out).to_bytes(8, "little") + out)

    def ask(self, reqs):
        known = {q: self.memo[q] for q in reqs if q in self.memo}
        reqs = list(dict.fromkeys(q for q in reqs if q not in known))
        self.sock.sendall(pickle.dumps(reqs))
        out = {}
        for q in reqs:
            n = int.from_bytes(self.rd.read(8), "little")
            if not n:
                raise Violation("no answer within 60 s of CPU time, or the process died")
            out[q] = pickle.loads(self.rd.read(n))
            if not isinstance(q, str):
                self.memo[q] = out[q]
        while len(self.memo) > 40:
            del self.memo[next(iter(self.memo))]
        return {**known, **out}

    def run(self, case):
        """The outputs of a history in a process of its own."""
        q = json.dumps(case)
        log = self.ask([q])[q]
        if log is None:
            raise B.Invalid("history")
        return log


def destroy(v, depth=0):
    """Modify everything reachable in a returned value."""
    if isinstance(v, dict):
        for x in list(v.values()):
            destroy(x, depth + 1)
        if depth % 2:
            v.clear()
        v["pbt"] = "modified"
    elif isinstance(v, list):
        for x in v:
            destroy(x, depth + 1)
        v.reverse()
        v.append("pbt")


class C17(Prop):
    id = "C17"
    rule = ("Histories of 2-16 steps over 1-3 files (well-formed, sample, damaged), code pages and terminal-block "
            "settings: construct from bytes, a bytearray or a file handle, any output of any object made so far, "
            "destroying a dictionary returned earlier. Each output is compared with a first call on the same bytes "
            "and options in a separate process in which nothing else was parsed. Sweep: every ordered pair of "
            "outputs on one object and on two objects of different files, for 6 files; files that differ in one byte, for "
            "each byte of a file of everything, one after the other. "
            "Non-trivial: at least two outputs.")
    budget = {"quick": (500, 6000), "thorough": (8000, 150000)}

    def start(self):
        self.ref = Pristine()
        self.alone = False
        self.past = []

    def sweep(self, tier):
        src = RandSource("c17 files")
        files = [damage.gen(src, 1.0) for _ in range(4 if tier == "quick" else 12)]
        files.append({"file": rich(), "edits": []})
        for n, f in enumerate(files):
            for a in OPS:
                for b in OPS:
                    yield {"files": [f], "steps": [["new", 0, "buffer"], ["out", 0, a], ["out", 0, b]]}
                    yield {"files": [f, files[n - 1]], "steps": [["new", 0, "buffer"], ["new", 1, "handle"],
                                                                ["out", 0, a], ["out", 1, b], ["out", 0, b]]}
            for a in OPS[:3]:
                for b in OPS:
                    yield {"files": [f], "steps": [["new", 0, "bytearray"], ["out", 0, a], ["destroy", 0, ""],
                                                   ["out", 0, b], ["new", 0, "buffer"], ["out", 1, b]]}

        # copies of a file that differ from it in one byte, in a process that has seen nothing else
        for n in range(2 if tier == "quick" else 6):
            f = rich(n)
            data = B.build(f).data
            masks = [1, 1 << n % 7 + 1] if tier == "quick" else [1 << i for i in range(8)]
            near = [{"file": f, "edits": [["set", 0, i, "%02x" % (b ^ m)]]} for m in masks for i, b in enumerate(data)]
            for i in range(0, len(near), NEAR):
                files = [{"file": f, "edits": []}] + near[i:i + NEAR]
                steps = []
                for j in range(len(files)):
                    steps += [["new", j, "buffer"], ["out", j, "get_json(True)"]]
                yield {"files": files, "steps": steps, "alone": True}

    def gen(self, src):
        files = [damage.gen(src, 0.7) for _ in range(src.int(1, 3))]
        if src.flag(0.3):      # the same bytes with other options
            files.append(dict(files[0]))
            if "file" in files[-1]:
                files[-1]["file"] = dict(files[0]["file"], cp=src.pick(T.CODEPAGES), allow=src.flag())
        if src.flag(0.3):      # a slightly different copy
            f = src.pick(files)
            if "edits" in f:
                files.append(dict(f, edits=f["edits"] + damage.edits(src, 1, 1)))
        steps = [["new", src.int(0, len(files) - 1), src.pick(["buffer", "handle", "bytearray"])]]
        objs, outs = 1, 0
        for _ in range(src.int(1, 14)):
            m = src.int(0, 9)
            if m <= 1:
                steps.append(["new", src.int(0, len(files) - 1), src.pick(["buffer", "handle", "bytearray"])])
                objs += 1
            elif m == 2 and outs:
                steps.append(["destroy", src.int(0, outs - 1), ""])
            else:
                steps.append(["out", src.int(0, objs - 1), src.pick(OPS)])
                outs += 1
        return {"files": files, "steps": steps}

    def check(self, case, st):
        if self.alone or case.get("alone"):
            self.verdict(case, self.ref.run(case), st)
            return
        try:
            self.verdict(case, execute(case), st)
        except Violation as v:
            # report a history that fails for itself, in a process of its own
            before = [c for c in self.past if c is not case]
            for n in [0] + [1 << k for k in range(len(before).bit_length())] + [len(before)]:
                alone = dict(case, before=before[len(before) - n:]) if n else case
                try:
                    self.verdict(alone, self.ref.run(alone), st)
                except Violation as w:
                    raise Violation(w.message, alone) from None
            raise Violation(v.message + " (after many other histories)") from None
        self.past.append(case)
        del self.past[:-PAST]

    def isolate(self):
        self.alone = True

    def verdict(self, case, log, st):
        want = self.ref.ask([q for q, _ in log if q]) if log else {}
        for i, (q, frozen) in enumerate(log):
            if not q:
                raise Violation(frozen)
            if want[q] != frozen:
                raise Violation("output %d, %s (cp %s): differs from a first call: %s" % (
                    i + 1, q[3], q[1], where(want[q], frozen)))
        for k in {s[0] for s in case["steps"]}:
            st.label("with " + k)
        st.label("%d files" % len(case["files"]))
        st.mark(len(log) >= 2)


PAST = 200
NEAR = 8


def execute(case):
    """-> [(question, what it gave)] of the outputs of a history"""
    for c in case.get("before", ()):
        execute(c)
    files = [damage.realise(f)[:3] for f in case["files"]]
    B.need(files)
    objs, log, outs = [], [], []
    with lib.observed():
        for kind, n, arg in case["steps"]:
            if kind == "new":
                B.need(0 <= n < len(files))
                obj, buf = construct(*files[n], arg)
                objs.append((obj, buf, files[n]))
            elif kind == "out":
                B.need(0 <= n < len(objs) and arg in OPS)
                obj, buf, opts = objs[n]
                if isinstance(obj, tuple):
                    frozen, v = obj, None
                else:
                    frozen, v = result(obj, arg)
                log.append((opts + (arg,), frozen))
                outs.append(v)
            elif kind == "destroy":
                B.need(0 <= n < len(outs))
                destroy(outs[n])
            else:
                raise B.Invalid(kind)
    for obj, buf, opts in objs:
        if buf is not None and bytes(buf) != opts[0]:
            log.append((None, "the input buffer was modified"))
    return log


def where(a, b, path=""):
    if a[0] == b[0] == "dict":
        da, db = dict(a[1]), dict(b[1])
        for k in list(da) + list(db):
            if k not in da or k not in db:
                return "%s: entry %r only in %s" % (path or "report", k, "the first call" if k in da else "the later call")
            if da[k] != db[k]:
                return where(da[k], db[k], "%s.%s" % (path, k))
    if a[0] == b[0] == "list":
        if len(a[1]) != len(b[1]):
            return "%s: %d entries instead of %d" % (path, len(b[1]), len(a[1]))
        for i, (x, y) in enumerate(zip(a[1], b[1])):
            if x != y:
                return where(x, y, "%s[%d]" % (path, i))
    return "%s %s instead of %s" % (path, B.short(b[1], 300), B.short(a[1], 300))


def rich(variant=0):
    """One file with every kind of item and block."""
    src = RandSource("c17 rich" + ("" if not variant else " %d" % variant))
    g = Gen(src, clean=True)
    g.start(cp=None)

    def item(k, test):
        return next(i for i in iter(lambda: g.item([k]), None) if test(i))
    items = [g.item([k]) for k in g.KINDS] + [
        item("vol", lambda i: i["type"] & 1), item("vol", lambda i: not i["type"] & 1),
        item("fs", lambda i: not i["type"] & 4), item("fs", lambda i: i["type"] & 4 and i["term"]),
        item("cpl", lambda i: i["uni"] and i["has_comm"]), item("cpl", lambda i: not i["uni"] and i["has_comm"]),
        item("net", lambda i: True), item("users", lambda i: i["fe"]["term"])]
    blocks = [g.block(k) for k in g.BLOCKS]
    for b in blocks:
        if b["k"] == "meta":
            prop = g.prop()
            props = [dict(prop, type=T.VT_LPWSTR, id=g.u32()), dict(prop, type=T.VT_I2, id=g.u32(), int=g.i16())]
            b["stores"] = [{"fmt": f, "version": 0x53505331, "props": props, "tail": ""} for f in (T.NAMED_FORMAT, g.guid())]
        elif b["k"] == "shellitem":
            b["items"] = items[:4]
    return g.file(cp=None, unicode=not variant % 2, force=False, terminal=0, appended="4141", header=g.header(),
                  targets={"items": items, "term": True, "pad": ""}, info=g.info(("network" if variant % 2 else "local",)),
                  strings={k: g.string(n, not variant % 2) for k, _, n in T.STRINGS}, extras=blocks)


PROP = C17()
