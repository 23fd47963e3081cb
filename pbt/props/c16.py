from .. import engine
from .c15 import MISSING, same, section
from .common import *   # noqa: F403

FRAMING = {"item": 2, "info": 4, "string": 2, "block": 8}
# header entries that a damaged header field may change
HEADER_KEYS = {name: [name] for name, _, _ in B.HEADER_FIELDS if name != "link_flags"}
HEADER_KEYS["file_flags"].append("r_file_flags")
HEADER_KEYS["hotkey"].append("r_hotkey")


def parts(o):
    """[(kind, id, first, end)]: what may be overwritten."""
    out = [("header", name, a, b) for name, a, b in B.HEADER_FIELDS if name in HEADER_KEYS]
    for k, i, a, b in o.layout:
        if k in FRAMING and b > a + FRAMING[k]:
            out.append((k, i, a + FRAMING[k], b))
    return out


class C16(Prop):
    id = "C16"
    rule = ("Well-formed files with bytes overwritten (random, boundary values of fields, all 0 or 0xFF) in one "
            "section behind its framing or in one header field; everything else in the report is compared with the "
            "report of the undamaged file. Sweep: for 16 generated files each section is overwritten "
            "with 0, 0xFF and 0x41, completely and per position. Non-trivial: the bytes differ and another section is present.")
    budget = {"quick": (1600, 24000), "thorough": (24000, 700000)}
    assumptions = ["The report of the undamaged file itself is judged by C02-C14 and C22, here it is the reference."]

    def sweep(self, tier):
        src = engine.RandSource("c16 files")
        for i in range(16 if tier == "quick" else 120):
            case = self.file(src)
            for n, (_, _, a, b) in enumerate(parts(B.build(case))):
                for v in ("00", "ff", "41"):
                    yield {"file": case, "part": n, "sets": [[0, v * (b - a)]]}
                    for p in range(0, b - a, 1 if b - a < 80 or tier != "quick" else 7):
                        yield {"file": case, "part": n, "sets": [[p, v]]}

    def file(self, src):
        g = Gen(src)
        f = g.start()
        f["force"] = False
        if src.flag(0.7):
            f["targets"] = g.targets(*((1, 5) if src.flag(0.85) else (6, 14)), g.KINDS + ["raw"] * 2)
        return g.file(**f)

    def gen(self, src):
        case = self.file(src)
        ps = parts(B.build(case))
        kind = src.pick(sorted({p[0] for p in ps}))
        n = src.pick([i for i, p in enumerate(ps) if p[0] == kind])
        size = ps[n][3] - ps[n][2]
        sets = []
        for _ in range(src.int(1, 4)):
            p = src.int(0, min(size - 1, 40)) if src.flag(0.7) else src.int(0, size - 1)
            m = src.int(0, 3)
            if m == 0:
                v = src.pick(["00000000", "ffffffff", "04000000", "0000", "ffff", "00", "ff", "00010000", "14000000"])
            elif m == 1:
                v = src.bytes(1, 30).hex()
            else:
                v = src.bytes(1, 4).hex()
            sets.append([p, v])
        return {"file": case, "part": n, "sets": sets}

    def check(self, case, st):
        o = B.build(case["file"])
        B.need(not case["file"]["force"])
        ps = parts(o)
        B.need(0 <= case["part"] < len(ps))
        kind, ident, lo, hi = ps[case["part"]]
        data = bytearray(o.data)
        for p, v in case["sets"]:
            b = B.hx(v)
            B.need(p >= 0 and b)
            b = b[: max(0, hi - lo - p)]
            data[lo + p:lo + p + len(b)] = b
        changed = bytes(data) != o.data
        before, _, _ = lib.report(o.data, o.cp, o.allow)
        after, _, f = lib.report(bytes(data), o.cp, o.allow)
        what = "%s %s damaged, " % (kind, ident if ident is not None else "")
        for n in ("size",):
            same(before.get(n, MISSING), after.get(n, MISSING), what + n)
        hb, ha = dict(get(before, "header")), dict(get(after, "header"))
        if kind == "header":
            for k in HEADER_KEYS[ident]:
                hb.pop(k, None), ha.pop(k, None)
        same(hb, ha, what + "header")
        tb, ta = before.get("target"), after.get("target")
        if tb is not None:
            if not isinstance(ta, dict):
                raise Violation(what + "target list is gone")
            same({k: v for k, v in tb.items() if k != "items"}, {k: v for k, v in ta.items() if k != "items"},
                 what + "target")
            if len(tb["items"]) != len(ta.get("items", ())):
                raise Violation("%s%d items, %d before" % (what, len(ta.get("items", ())), len(tb["items"])))
        elif ta is not None:
            raise Violation(what + "a target list appears")
        seen = {"data": set(), "extra": set()}
        others = 0
        for k, i, a, b in o.layout:
            if k == "string":
                seen["data"].add(i)
            elif k == "block":
                seen["extra"].add(i[0])
            elif k == "terminal":
                seen["extra"].add("TERMINAL_BLOCK")
                same(sub(before, "extra", "TERMINAL_BLOCK"), sub(after, "extra", "TERMINAL_BLOCK"),
                     what + "terminal block")
            if k in FRAMING and (k, i) != (kind, ident):
                others += 1
                same(section(before, k, i), section(after, k, i), what + "%s %s" % (k, i if i is not None else ""))
        if not any(k == "info" for k, _, _, _ in o.layout):
            same(before.get("link_info"), after.get("link_info"), what + "link_info")
        for k in seen:
            new = set(get(after, k)) - seen[k]
            if new:
                raise Violation("%s%s has new entries %s" % (what, k, sorted(new)))
        ub, ua = (sub(r, "extra", "UNKNOWN_BLOCK") or [] for r in (before, after))
        if len(ub) != len(ua):
            raise Violation("%s%d unknown blocks, %d before" % (what, len(ua), len(ub)))
        st.label("damaged " + kind, "changed" if changed else "unchanged")
        st.mark(changed and others > 0)



PROP = C16()
