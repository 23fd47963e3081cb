import os
import subprocess
import sys
import tempfile

from .. import damage, engine
from ..texts import fill
from .c09 import C09
from .c17 import rich
from .common import *   # noqa: F403

MON = 3
# A link of n bytes may cost this many loop iterations and function calls inside
# the package, per parse with all outputs.  At least five times what is needed.
COST_BASE, COST_BYTE = 40000, 300


class Cost:
    """Counts function entries, jumps and branches within the package."""

    def __init__(self):
        self.n = 0
        self.root = os.path.realpath(lib.REPO) + os.sep

    def __enter__(self):
        m = sys.monitoring
        m.use_tool_id(MON, "pbt")
        m.restart_events()
        ev = m.events
        for e in (ev.PY_START, ev.JUMP, ev.BRANCH):
            m.register_callback(MON, e, self.fast)
        m.set_events(MON, ev.PY_START | ev.JUMP | ev.BRANCH)
        self.seen = {}
        return self

    def fast(self, code, *_):
        own = self.seen.get(code)
        if own is None:
            own = self.seen[code] = os.path.realpath(code.co_filename).startswith(self.root)
        if not own:
            return sys.monitoring.DISABLE
        self.n += 1
        return None

    def __exit__(self, *_):
        sys.monitoring.set_events(MON, 0)
        sys.monitoring.free_tool_id(MON)


def run_all(data, cp, allow, handle, names):
    """Parse and produce the outputs; the permitted refusal gives None."""
    import io
    try:
        if handle:
            f = lib.lnk.lnk_file(io.BytesIO(data), cp=cp, allow_terminal_blocks=allow)
        else:
            f = lib.lnk.lnk_file(indata=data, cp=cp, allow_terminal_blocks=allow)
    except lib.Refused as e:
        if len(data) >= 76 and int.from_bytes(data[:4], "little") >= 76:
            raise Violation("a file with a complete header was refused: %s" % lib.describe(e)) from e
        return None
    except Exception as e:      # noqa: BLE001
        raise Violation("parsing raised %s" % lib.describe(e)) from e
    for n in names:
        lib.call(n, lib.OUTPUTS[n], f)
    return f


def big(kind, n, cut=0):
    """Large files of many small or nested parts."""
    item = {"k": "plain", "type": 0x52, "data": ""}
    if kind == "items":
        s = spec_of(targets={"items": [item] * min(n, 21000), "term": True, "pad": ""})
    elif kind == "vista":
        s = spec_of(extras=[{"k": "shellitem", "items": [item] * min(n, 21000), "term": True}])
    elif kind == "stores":
        s = spec_of(extras=[{"k": "meta", "ext": "", "stores": [
            {"fmt": "00" * 16, "version": 0, "props": [], "tail": ""}] * n}])
    elif kind in ("props", "named"):
        p = {"type": T.VT_LPWSTR, "pad": 0, "id": 1, "res": 0, "name": "6e00", "int": 0, "text": "", "val": ""}
        s = spec_of(extras=[{"k": "meta", "ext": "", "stores": [
            {"fmt": T.NAMED_FORMAT if kind == "named" else "00" * 16, "version": 0, "props": [p] * n,
             "tail": ""}]}])
    elif kind == "blocks":
        s = spec_of(extras=[{"k": "unknown", "sig": 1, "data": "", "ext": ""}] * n)
    elif kind == "same":
        s = spec_of(extras=[C09.default("codepage")] * n)
    elif kind == "strings":
        s = spec_of(unicode=True, strings={k: {"raw": "e900" * (min(n, lim or 65535)), "over": 0}
                                           for k, _, lim in T.STRINGS})
    elif kind == "appended":
        s = spec_of(appended="5a" * n)
    elif kind == "info":
        from .c06 import INFO
        s = spec_of(info=dict(INFO, base="41" * n, suffix="42" * n, tail="43" * n))
    elif kind == "cpl":
        s = spec_of(targets={"items": [{"k": "plain", "type": 0x52, "data": "41" * min(n, 65000)}], "term": True,
                             "pad": ""})
    else:
        raise AssertionError(kind)
    return s


def build_big(kind, n, cut):
    if kind == "same":      # a repeated known block is outside the oracle, not outside this property
        one = B.build(spec_of(extras=[C09.default("codepage")]))
        a, e = [(a, e) for k, _, a, e in one.layout if k == "block"][0]
        data = one.data[:a] + one.data[a:e] * n + one.data[e:]
    else:
        data = B.build(big(kind, n)).data
    return data[: len(data) - cut] if cut else data


NEST_TYPES = (0, 1, 0x1F, 0x2F, 0x32, 0x36, 0x4D, 0x52, 0x61, 0x71, 0x72, 0x73, 0x74, 0x99)


def nest(case):
    """A long item whose content is, at each step, the beginning of another item."""
    B.need(2 < case["step"] < 100 and 2 < case["size"] < 1 << 16 and 0 <= case["nest"] < 256)
    unit = B.u16(case["size"]) + B.u8(case["nest"]) + bytes(case["step"] - 3)
    data = unit * (40000 // len(unit))
    if case["where"] == "vista":
        return B.build(spec_of(extras=[])).data[:-4] + B.u32(len(data) + 8) + B.u32(0xA000000C) + data + B.u32(0)
    head = bytearray(B.build(spec_of(extras=[])).data[:-4])
    head[20] |= 1
    return bytes(head) + B.u16(len(data)) + data + B.u32(0)


REPEATED = list("aA0 \\/.,:;%$~-_+*?|&#@!'\"`()[]{}<>=^\t\n\x7f") + [
    "a ", " a", "a.", ".\\", "..\\", "%a%", "$a", "\\\\", "//", "a\\", "ab", "0 ", "- ", ": ", "(a", "a)", "''", '""', "\r\n", "\\a "]
FEW = ["get_json(False)", "print_json(True)", "print_lnk_file(True)", "print_shortcut_target(True)"]
KINDS = ["items", "vista", "stores", "props", "named", "blocks", "same", "strings", "appended", "info", "cpl"]


class C01(Prop):
    id = "C01"
    rule = ("Well-formed files, the 34 sample files and structured files with uninterpretable items, left intact or "
            "damaged by up to 6 edits (fields set to boundary values relative to a section, bytes deleted, "
            "inserted, duplicated, cut), and arbitrary bytes, as a buffer or a file handle; all outputs in a "
            "random order; part of the cases under a limit of function calls and loop iterations linear in the "
            "length. Sweep: every prefix of each sample file, every byte of the small samples replaced by 0, 1, 0x7F, 0xFF, every text made of one repeated character or pair, items nested in items, files "
            "of many small parts. Thorough: coverage-guided fuzzing (Atheris) of the same oracle. "
            "Non-trivial: at least 77 bytes and not refused.")
    budget = {"quick": (1200, 16000), "thorough": (24000, 600000)}

    def sweep(self, tier):
        names = sorted(damage.samples())
        for n in names:
            size = len(damage.samples()[n])
            step = 1 if tier == "thorough" else max(1, size // 60)
            for c in range(0, size, step):
                yield {"sample": n, "edits": [["cut", 0, c, ""]], "cp": None, "allow": bool(c & 1)}
        for n in names if tier == "thorough" else names[:0]:
            for p in range(min(1600, len(damage.samples()[n]))):
                for v in ("00", "01", "7f", "ff"):
                    yield {"sample": n, "edits": [["set", 0, p, v]], "cp": None, "allow": True}
        for hs in list(range(0, 80)) + [0xFFFF, 0x7FFFFFFF, 0xFFFFFFFF]:
            for size in (0, 1, 3, 4, 20, 75, 76, 77, 78, 100):
                yield {"raw": (B.u32(hs) + b"\xff" * 100)[:size].hex(), "cp": None, "allow": True}
        for t in NEST_TYPES:        # items within items, as deep as the list has room
            for p in range(3, 25):
                for where in ("targets", "vista"):
                    yield {"nest": t, "step": p, "where": where, "size": (40000, 24)[p % 2]}
        for t in REPEATED:          # the same characters in every text
            for n in (24, 60, 2000):
                for end in ("", "!"):
                    for v in range(2):
                        yield {"text": t, "n": n, "end": end, "variant": v}
        ns = (40, 300, 1500) if tier == "quick" else (40, 300, 1500, 10000, 60000)
        for k in KINDS:
            for n in ns:
                if n > 10000 and k in ("named", "props", "stores", "blocks"):
                    n = 20000
                for cut in (0, 5):
                    yield {"big": k, "n": n, "cut": cut, "cost": True}

    def gen(self, src):
        case = damage.gen(src)
        case["handle"] = src.flag(0.2)
        case["cost"] = src.flag(0.1)
        case["order"] = src.int(0, 1 << 30)
        return case

    def check(self, case, st):
        if "text" in case:
            B.need(0 <= case["n"] <= 3000)
            o = B.build(fill(dict(rich(case["variant"]), cp=None), (case["text"] * case["n"])[:case["n"]] + case["end"]))
            data, cp, allow, intact = o.data, o.cp, o.allow, True
        elif "nest" in case:
            data, cp, allow, intact = nest(case), None, True, False
        elif "big" in case:
            B.need(0 <= case["n"] <= 100000)
            data, cp, allow, intact = build_big(case["big"], case["n"], case["cut"]), None, True, False
        else:
            data, cp, allow, intact = damage.realise(case)
        names = FEW if case.get("few") else list(lib.OUTPUTS)
        import random
        names = random.Random(case.get("order", 0)).sample(names, len(names))
        with lib.observed():
            if case.get("cost"):
                with Cost() as c:
                    f = run_all(data, cp, allow, case.get("handle"), names)
                limit = COST_BASE + COST_BYTE * len(data)
                st.worst = max(getattr(st, "worst", 0), c.n / (limit))
                if c.n > limit:
                    raise Violation("%d function calls, jumps and branches for a file of %d bytes (limit %d)" % (
                        c.n, len(data), limit))
                st.label("cost measured")
            else:
                f = run_all(data, cp, allow, case.get("handle"), names)
        st.label("refused" if f is None else "reported",
                 "big" if "big" in case else "raw" if "raw" in case else "sample" if "sample" in case else "file",
                 "intact" if intact else "damaged")
        st.mark(f is not None and len(data) > 76)

    # ------------------------------------------------------- coverage guided
    def extra(self, tier, seed, worker, workers, st):
        if tier != "thorough":
            return
        runs = int(os.environ.get("PBT_FUZZ_RUNS", "400000"))
        with tempfile.TemporaryDirectory(prefix="c01fuzz") as d:
            corpus = os.path.join(d, "corpus")
            os.mkdir(corpus)
            for n, b in damage.samples().items():
                with open(os.path.join(corpus, n), "wb") as f:
                    f.write(b"\0" + b)
            src = engine.RandSource("%s/fuzz/%d" % (seed, worker))
            for i in range(150):
                with open(os.path.join(corpus, "g%d" % i), "wb") as f:
                    f.write(bytes([i & 255]) + damage.realise(damage.gen(src, 0.7))[0])
            art = os.path.join(d, "crash-")
            p = subprocess.run(
                [sys.executable, "-m", "pbt.fuzz_c01", "-seed=%d" % (seed * 1000 + worker + 1), "-runs=%d" % runs,
                 "-max_len=4096", "-rss_limit_mb=3000", "-timeout=60", "-artifact_prefix=" + art,
                 "-max_total_time=%d" % self.cap[tier], corpus],
                cwd=engine.VERIF, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                stderr=subprocess.PIPE, text=True, errors="replace")
            found = [n for n in os.listdir(d) if n.startswith("crash-")]
            for n in found:
                with open(os.path.join(d, n), "rb") as f:
                    blob = f.read()
                from .. import fuzz_c01
                case = fuzz_c01.case_of(blob)
                msg = engine.run_case(self, case, st)
                if msg:
                    raise engine.Failure(case, msg, "fuzz")
            tail = p.stderr[-1500:]
            if p.returncode and not found:
                raise RuntimeError("the fuzzer failed: " + tail)
            import re
            done = re.findall(r"^#(\d+)", p.stderr, re.M)
            n = max([int(x) for x in done] or [0])
            st.evaluations += n
            st.labels["coverage-guided executions"] = st.labels.get("coverage-guided executions", 0) + n


PROP = C01()
