from .. import engine
from .common import *   # noqa: F403


def section(rep, kind, ident, nth=None):
    """The part of a report that describes one section of the file."""
    if kind == "item":
        items = sub(rep, "target", "items")
        return items[ident] if isinstance(items, list) and len(items) > ident else MISSING
    if kind == "info":
        return rep.get("link_info", MISSING)
    if kind == "string":
        d = rep.get("data")
        return d[ident] if isinstance(d, dict) and ident in d else MISSING
    if kind == "block":
        name, n = ident
        v = sub(rep, "extra", name)
        if n is None:
            return v if v is not None else MISSING
        return v[n] if isinstance(v, list) and len(v) > n else MISSING
    raise AssertionError(kind)


class _Missing:
    def __repr__(self):
        return "nothing"


MISSING = _Missing()


def same(a, b, what):
    if a is MISSING and b is MISSING:
        return
    if a is MISSING or b is MISSING or lib.canon(a) != lib.canon(b):
        d = None if MISSING in (a, b) else B.diff(a, b, what)
        raise Violation(d or "%s: got %s, expected %s" % (what, B.short(b), B.short(a)))


class C15(Prop):
    id = "C15"
    rule = ("Well-formed files (with items of any content) and up to 8 cut points each, on and next to section "
            "borders and anywhere behind the header; sweep: every prefix of 24 generated files with all kinds of "
            "sections. Each section that lies completely inside the prefix is compared with the report of the full "
            "file. Non-trivial: the cut removes something and at least one section survives it.")
    budget = {"quick": (1200, 16000), "thorough": (24000, 500000)}
    assumptions = ["The report of the full file itself is judged by C02-C14 and C22, here it is the reference."]

    def sweep(self, tier):
        for case in large(tier):
            o = B.build(case)
            ends = sorted({e for _, _, _, e in o.layout if 76 <= e <= len(o.data)})
            yield {"file": case, "cuts": [c for c in ends + [e - 1 for e in ends if e > 76]]}
        src = engine.RandSource("c15 files")
        n = 24 if tier == "quick" else 150
        for i in range(n):
            case = self.file(src)
            size = len(B.build(case).data)
            for a in range(76, size, 40):
                yield {"file": case, "cuts": list(range(a, min(a + 40, size)))}

    def file(self, src):
        g = Gen(src)
        f = g.start()
        if src.flag(0.3):
            f["targets"] = g.targets(0, 6, g.KINDS + ["raw"] * 3)
        return g.file(**f)

    def gen(self, src):
        case = self.file(src)
        o = B.build(case)
        n = len(o.data)
        cuts = []
        for _ in range(src.int(1, 8)):
            if src.flag(0.6):
                _, _, a, b = o.layout[src.int(0, len(o.layout) - 1)]
                c = src.pick([a, b]) + src.int(-4, 12)
            else:
                c = src.int(76, n)
            cuts.append(min(max(76, c), n))
        return {"file": case, "cuts": cuts}

    def check(self, case, st):
        o = B.build(case["file"])
        full, _, _ = lib.report(o.data, o.cp, o.allow)
        hs = len(o.data) if not o.layout else o.layout[0][3]
        for cut in case["cuts"]:
            B.need(76 <= cut <= len(o.data))
            part, _, f = lib.report(o.data[:cut], o.cp, o.allow)
            what = "first %d of %d bytes: " % (cut, len(o.data))
            same(full.get("header", MISSING), part.get("header", MISSING), what + "header")
            inside = [(k, i, a, b) for k, i, a, b in o.layout
                      if b <= cut and k in ("item", "info", "string", "block")]
            for k, i, a, b in inside:
                same(section(full, k, i), section(part, k, i), what + "%s %s" % (k, i if k != "info" else ""))
            for k, i, a, b in o.layout:
                if b > cut >= b - 1 or a < cut < b:
                    st.label("cut in " + k)
            st.mark(inside and cut < len(o.data))
        with lib.observed():
            for n in ("get_json(False)", "print_json(False)", "print_lnk_file(True)", "print_shortcut_target()"):
                lib.call(n + " of a prefix", lib.OUTPUTS[n], f)



PROP = C15()
