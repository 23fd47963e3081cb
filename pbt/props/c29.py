import hashlib

from .. import engine
from .c15 import C15
from .common import *   # noqa: F403

# code pages that give every byte a character of its own, so that half a text is half of its characters
SIMPLE = ["latin-1", "cp437", "cp850", "cp866", "koi8-r", "koi8-u", "iso8859-5", "cp1256", "cp852"]


def invented(part, full, path, free):
    """The first value of a cut file's report that is not one of the whole file's."""
    if isinstance(part, dict):
        if not isinstance(full, dict):
            return "%s: got entries, the whole file has %s" % (path, B.short(full))
        for k, v in part.items():
            p = "%s.%s" % (path, k)
            if k == "size" and path.endswith("TERMINAL_BLOCK"):
                continue        # not a stored size
            if k not in full:
                return "%s: got %s, the whole file has no such entry" % (p, B.short(v))
            d = invented(v, full[k], p, free)
            if d:
                return d
        return None
    if isinstance(part, list):
        if not isinstance(full, list) or len(part) > len(full):
            return "%s: got %d entries, the whole file has %s" % (
                path, len(part), len(full) if isinstance(full, list) else B.short(full))
        for i, (a, b) in enumerate(zip(part, full)):
            d = invented(a, b, "%s[%d]" % (path, i), free)
            if d:
                return d
        return None
    if part is None or part == "" and full is None or type(part) is type(full) and part == full:
        return None
    if isinstance(part, str):
        if path.endswith("_sha256") or path.endswith(".sha256"):
            if part in free:
                return None
        elif isinstance(full, str) and full.startswith(part[:-1] if part.endswith("\ufffd") else part):
            return None
    return "%s: got %s, the whole file has %s" % (path, B.short(part), B.short(full))


def cpls(f):
    """Unicode control panel items: cut off early they look like the ANSI form, with other fields at these bytes"""
    items = list((f["targets"] or {"items": ()})["items"])
    for b in f["extras"]:
        items += b.get("items", ())
    return [it for it in items if it["k"] == "cpl" and it["uni"]]


class C29(Prop):
    id = "C29"
    rule = ("Well-formed files under code pages that define every byte, and up to 8 cut points each, on and next to "
            "section borders and anywhere behind the header; sweep: every prefix of 24 generated files, and the borders "
            "of files with one large structure. Every value of the prefix's report is looked up in the report of the "
            "whole file. Non-trivial: the cut removes something, and it is inside a section.")
    assumptions = ["The report of the whole file itself is judged by C02-C14 and C22, here it is the reference.",
                   "The bytes of Unicode control panel items that are to be zero are zero."]
    budget = {"quick": (1200, 20000), "thorough": (24000, 600000)}

    def sweep(self, tier):
        for case in large(tier):
            o = B.build(case)
            ends = sorted({e for _, _, _, e in o.layout if 76 <= e < len(o.data)})
            case["cp"] = "latin-1"
            yield {"file": case, "cuts": [c for e in ends for c in (e - 1, e, e + 1, e + 3, e + 4, e + 5) if 76 <= c <= len(o.data)]}
        src = engine.RandSource("c29 files")
        n = 24 if tier == "quick" else 150
        for i in range(n):
            case = self.file(src)
            size = len(B.build(case).data)
            for a in range(76, size, 40):
                yield {"file": case, "cuts": list(range(a, min(a + 40, size)))}

    def file(self, src):
        g = Gen(src)
        f = g.file(**g.start(cp=src.pick(SIMPLE)))
        for it in cpls(f):
            it["unk"] = "00" * 12
        return f

    gen = C15.gen

    def check(self, case, st):
        B.need(case["file"]["cp"] in SIMPLE)
        B.need(not any(it["unk"].strip("0") for it in cpls(case["file"])))
        o = B.build(case["file"])
        full, _, _ = lib.report(o.data, o.cp, o.allow)
        for cut in case["cuts"]:
            B.need(76 <= cut <= len(o.data))
            part, _, _ = lib.report(o.data[:cut], o.cp, o.allow)
            free = {hashlib.sha256(o.data[a + 4:cut]).hexdigest() for k, _, a, b in o.layout
                    if k in ("block", "terminal") and a < cut}
            part = dict(part, size=None)
            d = invented(part, full, "report", free)
            if d:
                raise Violation("first %d of %d bytes: %s" % (cut, len(o.data), d))
            at = {k for k, _, a, b in o.layout if a < cut < b}
            st.label(*(["cut in " + k for k in at] or ["cut between"]))
            st.mark(at)


PROP = C29()
