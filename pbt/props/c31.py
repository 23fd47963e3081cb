from .. import engine
from .c15 import MISSING, same
from .common import *   # noqa: F403

# where the LinkInfo header keeps the offset of a part, and what is reported of the part
AT = {"vol": 12, "base": 16, "cnrl": 20, "suffix": 24, "ubase": 28, "usuffix": 32}
KEYS = {"vol": ["volume_id_offset"], "cnrl": ["common_network_relative_link_offset"],
        "base": ["local_base_path", "local_base_path_offset"],
        "suffix": ["common_path_suffix", "common_path_suffix_offset"],
        "ubase": ["local_base_path_unicode", "local_base_path_offset_unicode"],
        "usuffix": ["common_path_suffix_unicode", "common_path_suffix_offset_unicode"]}


class C31(Prop):
    id = "C31"
    rule = ("Well-formed files with a LinkInfo in any layout, a Vista ID list block, or both, of which up to 4 places "
            "(a part of the LinkInfo, the offset that leads to it, an item behind its size) are overwritten and / or "
            "which are cut off behind the header of the LinkInfo or of the block. Sweep: for 30 generated "
            "files every part and offset with 0, 0xFF, 0x41, beyond the file, at the last byte, and every cut. "
            "Non-trivial: bytes were changed or cut, and another part is left.")
    budget = {"quick": (1200, 24000), "thorough": (24000, 700000)}
    assumptions = ["The report of the undamaged file itself is judged by C05-C07 and C09, here it is the reference."]

    def file(self, src):
        g = Gen(src)
        f = g.start()
        f["force"] = False
        m = src.int(0, 3)
        if m < 3:
            f["info"] = g.info()
        f = g.file(**f)
        if m > 1:
            f["extras"] = [b for b in f["extras"] if b["k"] != "shellitem"][:src.int(0, 2)] + [
                {"k": "shellitem", "items": g.items(1, 5 if src.flag(0.8) else 14, g.KINDS + ["raw"]), "ext": "",
                 "term": src.flag(0.9)}]
        return f

    def places(self, o):
        """[(name, first, end)]: what may be overwritten"""
        out = [(n, a, b) for n, (a, b) in sorted(o.parts.items())]
        if o.parts:
            lo = self.info(o)[0]
            hs = int.from_bytes(o.data[lo + 4:lo + 8], "little")
            out += [(n, lo + at, lo + at + 4) for n, at in AT.items() if at < 28 or hs >= 36]
        return out + [(i, a + 2, b) for i, (a, b) in enumerate(o.vista) if b > a + 2]

    def info(self, o):
        return [(a, b) for k, _, a, b in o.layout if k == "info"][0]

    def first_cut(self, o):
        """from here on a file may be cut"""
        if o.parts:
            lo = self.info(o)[0]
            return lo + max(28, min(36, int.from_bytes(o.data[lo + 4:lo + 8], "little")))
        return min(a for k, i, a, b in o.layout if k == "block" and i[0] == T.BLOCK_NAME["shellitem"]) + 8

    def sweep(self, tier):
        src = engine.RandSource("c31 files")
        for i in range(30 if tier == "quick" else 200):
            case = self.file(src)
            o = B.build(case)
            if not o.parts and not o.vista:
                continue
            for n, (_, a, b) in enumerate(self.places(o)):
                for v in ("00", "ff", "41"):
                    yield {"file": case, "hits": [[n, 0, v * (b - a)]], "cut": None}
                for v in (1, 4, 20, 27, len(o.data) - 1, len(o.data), len(o.data) + 1, 0x7FFFFFFF, 0x80000000):
                    yield {"file": case, "hits": [[n, 0, v.to_bytes(4, "little").hex()]], "cut": None}
            lo = self.first_cut(o)
            hi = max([b for a, b in o.vista] + [b for a, b in o.parts.values()])
            for c in range(lo, hi + 1) if hi - lo < 400 or tier != "quick" else range(lo, hi + 1, (hi - lo) // 200):
                yield {"file": case, "hits": [], "cut": c}

    def gen(self, src):
        case = self.file(src)
        o = B.build(case)
        ps = self.places(o)
        hits = []
        for _ in range(src.int(0, 4) if ps else 0):
            n = src.int(0, len(ps) - 1)
            size = ps[n][2] - ps[n][1]
            if size == 4 and src.flag(0.6):
                hits.append([n, 0, src.pick([0, 1, 20, 27, 28, 36, len(o.data), len(o.data) - 1, src.int(0, len(o.data)),
                                             0xFFFFFFFF, src.int(0, (1 << 32) - 1)]).to_bytes(4, "little").hex()])
            else:
                hits.append([n, src.int(0, min(size - 1, 40)), src.bytes(1, 12).hex() if src.flag() else
                             src.pick(["00000000", "ffffffff", "ff", "00", "10", "14000000", "15000000"])])
        cut = None
        if (not hits or src.flag(0.2)) and (o.parts or o.vista):
            lo = self.first_cut(o)
            border = src.pick([b for _, a, b in ps for b in (a, b)] + [lo]) + src.int(-3, 3) if src.flag() else 0
            cut = max(lo, min(len(o.data), border or src.int(lo, len(o.data))))
        return {"file": case, "hits": hits, "cut": cut}

    def check(self, case, st):
        B.need(not case["file"]["force"])
        o = B.build(case["file"])
        B.need(o.parts or o.vista)
        ps = self.places(o)
        data = bytearray(o.data)
        hurt = set()
        for n, p, v in case["hits"]:
            B.need(0 <= n < len(ps) and p >= 0)
            name, lo, hi = ps[n]
            b = B.hx(v)[:max(0, hi - lo - p)]
            data[lo + p:lo + p + len(b)] = b
            hurt.add(name)
            hurt |= {k for k, (x, y) in o.parts.items() if x < lo + p + len(b) and y > lo + p}
        cut = case["cut"]
        if cut is not None:
            B.need(self.first_cut(o) <= cut <= len(o.data))
            data = data[:cut]
            hurt |= {k for k, (a, b) in o.parts.items() if b > cut}
            hurt |= {k for k, (a, b) in enumerate(o.vista) if b > cut}
        changed = bytes(data) != o.data
        before, _, _ = lib.report(o.data, o.cp, o.allow)
        after, _, f = lib.report(bytes(data), o.cp, o.allow)
        what = "%s damaged%s, " % (sorted(map(str, hurt)), "" if cut is None else ", cut at %d" % cut)
        left = 0
        if o.parts:
            b, a = dict(get(before, "link_info")), dict(get(after, "link_info"))
            local = case["file"]["info"]["kind"] != "network"
            for n in hurt:
                if n in KEYS:
                    drop = list(KEYS[n])
                    if n == ("vol" if local else "cnrl"):
                        drop.append("location_info")
                    for k in drop:
                        b.pop(k, None), a.pop(k, None)
            for k in sorted(set(a) | set(b)):
                same(b.get(k, MISSING), a.get(k, MISSING), what + "link_info." + k)
            left += len(set(o.parts) - hurt)
        name = T.BLOCK_NAME["shellitem"]
        start = min((a for k, i, a, b in o.layout if k == "block" and i[0] == name), default=0)
        if o.vista and (cut is None or cut >= start + 8):
            b, a = (sub(r, "extra", name, "id_list") for r in (before, after))
            if not isinstance(b, list) or len(b) != len(o.vista):
                raise Violation("the undamaged ID list block of %d items is reported as %s" % (len(o.vista), B.short(b)))
            for i, x in enumerate(b):
                if i not in hurt:
                    if not isinstance(a, list) or len(a) <= i:
                        raise Violation("%sitem %d of the ID list block is gone" % (what, i))
                    same(x, a[i], what + "id_list[%d]" % i)
                    left += 1
        with lib.observed():
            for n in ("get_json(False)", "print_json(False)", "print_lnk_file(True)"):
                lib.call(n + " of a damaged file", lib.OUTPUTS[n], f)
        st.label(*["damaged " + (n if isinstance(n, str) else "item") for n in hurt], *(["cut"] if cut is not None else []))
        st.mark(changed and left)


PROP = C31()
