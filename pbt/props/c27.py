import gc
import io
import os
import pickle
import resource
import sys
import tracemalloc
import warnings

from .. import damage, world
from ..texts import fill, put_texts
from .common import *   # noqa: F403
from .c17 import OPS, rich

MARK = "@@pbt@@"        # replaced by a number in each copy of a file
ROUNDS = 5
LINKS = 40              # per round
# bytes that may stay per link in each of the last rounds, and on average (caches of the interpreter fill up)
EACH, MEAN = 40, 130
# the same with outputs that leave nothing behind in json and yaml
STRICT = 4
CLEAN = (0, 1, 2, 7, 8, 9)


def marks(src):
    return [MARK, "C:\\%s\\x" % MARK, "%s %s" % (MARK, MARK), MARK * 6]


def faulty(i):
    """A file many of whose parts cannot be read or hold what gives warnings."""
    f = rich()
    f["appended"] = ""
    f["extras"] = f["extras"][:i]
    for j, b in enumerate(f["targets"]["items"]):
        if j % 2 == i % 2:
            f["targets"]["items"][j] = {"k": "raw", "type": b.get("type", 0), "data": "01" * i}
    f["header"]["ctime"] = B.MAX_TICKS + 5
    fill(f, "x")
    if i % 2:
        f["strings"]["command_line_arguments"]["raw"] = "00d841"  + "00"
    data = B.build(f).data[:-4]
    for sig in T.SIG.values():
        data += B.u32(9 + i) + B.u32(sig) + b"\1" * (i + 1)
    return {"raw": (data + B.u32(0)).hex(), "cp": None, "allow": True}


class C27(Prop):
    id = "C27"
    rule = ("Batches of hundreds of different links, made from 1-3 well-formed, damaged or sample files by numbering "
            "their texts, times and identifiers; each is parsed, asked for 1-3 outputs and dropped. Oracle: over "
            "five rounds of 40 links (and, if it does, six of 400) the memory in use (tracemalloc, after a collection) does not keep growing, and no "
            "file descriptor, thread, temporary file or garbage that cannot be collected is left. "
            "Sweep: each output on the samples and on a file with all kinds of parts; the same refused, faulty or rich file "
            "again and again. Non-trivial: the links are not "
            "refused.")
    assumptions = ["Memory of C libraries that is not allocated through Python is not seen.",
                   "Python's own registry of warnings that were already shown is off (filter 'always')."]
    budget = {"quick": (24, 200), "thorough": (800, 8000)}

    def start(self):
        world.preload()

    def sweep(self, tier):
        for i, op in enumerate(OPS):
            for how in ("buffer", "handle"):
                yield {"files": [{"file": fill(rich(), MARK), "edits": []}], "ops": [i], "how": how, "vary": []}
        for op in (0, 8):     # undecodable texts
            for v in range(2):
                yield {"files": [{"file": fill(rich(v), "\x81\ud800" + MARK), "edits": []}], "ops": [op], "how": "buffer",
                       "vary": []}
        short = B.build(spec_of()).data
        for raw in (b"", short[:10], short[:70], short[:75], b"\x05" + short[1:], B.u32(0xffffffff) + short[4:]):
            for how in ("buffer", "handle"):
                yield {"files": [{"raw": raw.hex(), "cp": None, "allow": True}], "ops": [1], "how": how, "vary": [],
                       "same": True}
        for i in CLEAN:
            yield {"files": [{"file": rich(), "edits": []}], "ops": [i], "how": "buffer", "vary": [], "same": True}
        for i in range(6):
            yield {"files": [faulty(i)], "ops": [CLEAN[i % len(CLEAN)]], "how": "buffer", "vary": [], "same": True}
        names = sorted(damage.samples())
        for i, n in enumerate(names):
            yield {"files": [{"sample": n, "edits": [], "cp": None, "allow": True}], "ops": [5 if i % 4 == 0 else i % 5], "how": "buffer",
                   "vary": [200 + 7 * i, 400 + 11 * i, 990 - 5 * i, 940]}

    def gen(self, src):
        files = [damage.gen(src, 0.6) for _ in range(src.int(1, 3))]
        for c in files:
            if "file" in c:
                put_texts(c["file"], src, marks(src))
        if src.flag(0.15):
            return {"files": files, "ops": [src.pick(CLEAN)], "how": src.pick(["buffer", "handle"]), "same": True, "vary": []}
        return {"files": files, "ops": [src.pick((0, 1, 2, 3, 4, 7, 8, 9, 5 + src.int(0, 1))) for _ in range(src.int(1, 2))],
                "how": src.pick(["buffer", "handle"]), "vary": [src.int(0, 1000) for _ in range(src.int(0, 8))]}

    def check(self, case, st):
        B.need(case["files"] and case["ops"] and all(0 <= v <= 1000 for v in case["vary"]))
        files = [damage.realise(c) for c in case["files"]]
        B.need(all(len(d) < 20000 for d, _, _, _ in files))
        spots = [[n * len(d) // 1000 for n in case["vary"]] for d, _, _, _ in files]
        spots = [[p for p in s if p >= 76] for s in spots]
        out = self.fork([f[:3] for f in files], spots, [OPS[i % len(OPS)] for i in case["ops"]], case["how"],
                        bool(case.get("same")))
        use, grows, left, refused = out
        mean = max(0, use[4] - use[1]) // 3 // LINKS
        st.label("growth < %d bytes per link" % (1 << mean.bit_length()), *["more rounds"] * (len(use) > ROUNDS))
        if grows:
            raise Violation("memory in use after rounds of %d and 400 links: %s bytes" % (LINKS, use))
        if left:
            raise Violation("left behind: %s" % "; ".join(left[:3]))
        st.label("%d files" % len(files), *["the same files again and again"] * bool(case.get("same")), *["refused"] * refused)
        st.mark(not refused)

    @staticmethod
    def fork(*args):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            resource.setrlimit(resource.RLIMIT_CPU, (400, 400))
            try:
                out = run(*args)
            except BaseException:        # noqa: BLE001
                import traceback
                out = traceback.format_exc()
            with os.fdopen(w, "wb") as f:
                pickle.dump(out, f)
            os._exit(0)
        os.close(w)
        with os.fdopen(r, "rb") as f:
            blob = f.read()
        os.waitpid(pid, 0)
        if not blob:
            raise Violation("the process died, or needed more than 400 s of CPU time")
        out = pickle.loads(blob)
        if isinstance(out, str):
            raise RuntimeError(out)
        return out


WIDE, NARROW = MARK.encode("utf-16-le"), MARK.encode("ascii")


def copy(data, n, spots=()):
    """The n-th variant of a file."""
    t = "%07d" % n
    data = data.replace(WIDE, t.encode("utf-16-le")).replace(NARROW, t.encode())
    if len(data) >= 76:     # times and sizes of the header
        data = bytearray(data)
        for i, at in enumerate((28, 36, 44)):
            data[at:at + 8] = (128000000000000000 + (n * 3 + i) * 10000019).to_bytes(8, "little")
        data[52:56] = n.to_bytes(4, "little")
        for at in spots:
            if at + 3 <= len(data):
                for k in range(3):
                    data[at + k] ^= n >> 8 * k & 255
        data = bytes(data)
    return data


class Sink(io.TextIOBase):
    def write(self, s):
        return len(s)


def run(files, spots, ops, how, same):
    sys.stdout = Sink()
    warnings.resetwarnings()
    warnings.simplefilter("always")
    warnings.showwarning = lambda *a, **k: None
    direct = {"get_json(True)": lambda f: f.get_json(True), "get_json(False)": lambda f: f.get_json(False),
              "get_json()": lambda f: f.get_json(),
              "print_json(True)": lambda f: f.print_json(True), "print_json(False)": lambda f: f.print_json(False),
              "print_lnk_file(True)": lambda f: f.print_lnk_file(True),
              "print_lnk_file(False)": lambda f: f.print_lnk_file(False),
              "print_shortcut_target()": lambda f: f.print_shortcut_target(),
              "print_shortcut_target(True)": lambda f: f.print_shortcut_target(True), "size": lambda f: f.size}
    n = 0
    refused = 0

    def one():
        nonlocal n, refused
        data, cp, allow = files[n % len(files)]
        if not same:
            data = copy(data, n, spots[n % len(files)])
        n += 1
        try:
            if how == "handle":
                f = lib.lnk.lnk_file(io.BytesIO(data), cp=cp, allow_terminal_blocks=allow)
            else:
                f = lib.lnk.lnk_file(indata=data, cp=cp, allow_terminal_blocks=allow)
            for op in ops:
                direct[op](f)
        except Exception:       # noqa: BLE001     (C01 judges whether it may be raised)
            refused += 1
    for _ in range(3):
        one()
    gc.collect()
    before = world.descriptors()
    import threading
    threads = threading.active_count()
    tracemalloc.start(1)
    use = []

    def turn(links):
        for _ in range(links):
            one()
        gc.collect()
        return tracemalloc.get_traced_memory()[0]
    strict = all(OPS.index(op) in CLEAN for op in ops)
    if strict:
        turn(LINKS)
    use = [turn(LINKS) for _ in range(ROUNDS)]
    grows = growing(use, LINKS, strict)
    if grows:           # a bounded cache that fills up stops growing at some point
        use += [turn(400) for _ in range(6)]
        grows = growing(use[-4:], 400, strict)
    tracemalloc.stop()
    left = []
    after = world.descriptors()
    if len(after) > len(before):
        left.append("file descriptors %s" % [d for d in after if d not in before][:4])
    if threading.active_count() > threads:
        left.append("%d threads" % (threading.active_count() - threads))
    if gc.garbage:
        left.append("garbage: %d objects" % len(gc.garbage))
    return use, grows, left, refused == n


def growing(use, links, strict):
    late = [b - a for a, b in zip(use, use[1:])][-3:]
    if strict:
        return all(g > links * STRICT for g in late)
    return all(g > links * EACH for g in late) and sum(late) > links * MEAN * len(late)


PROP = C27()
