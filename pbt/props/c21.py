from ..source import RandSource
from .c06 import INFO
from .c09 import C09
from .c14 import ANSI_AT, WIDE_AT, place
from .common import *   # noqa: F403

SECTION_MIN = {"idlist": 2, "string": 2, "info": 12}
UNKNOWN_SORT = [v for v in range(256) if v not in T.SORT_INDEX]

# the bytes that hold the fixed fields of an item (with its size), by type and class
MIN_ITEM = {"Root Folder": 20, "File entry": 14, "Network location": 5, "Control panel": 32, "Control panel category": 12,
            "Control panel CPL file": 12, "Users files folder": 32}
SHORT_TYPES = [(t, MIN_ITEM[T.item_class(t)]) for t in range(256) if T.item_class(t) in MIN_ITEM]
SHORT_TYPES += [(t, 20) for t in range(0, 256, 2) if T.item_class(t) == "Volume Item"]
# blocks that begin with fixed fields: up to where
MIN_BLOCK = {"console": 140, "tracker": 96, "codepage": 12, "special": 16, "darwin": 268, "known": 28, "meta": 40}


def deviate(spec, dev):
    """Put one deviation into a clean file description."""
    kind, n = dev[0], dev[1]
    spec = dict(spec, header=dict(spec["header"]))
    h = spec["header"]
    if kind == "hsize":
        B.need(77 <= n <= 4096)
        h["hsize"] = n
    elif kind == "guid":
        B.need(n != B.LNK_CLSID)
        h["guid"] = n
    elif kind in ("res0", "res1", "res2"):
        B.need(n)
        h[kind] = n
    elif kind in ("ctime", "atime", "wtime"):
        B.need(n >= B.MAX_TICKS)
        h[kind] = n
    elif kind in ("item", "vista item", "only item"):
        item = n
        if kind == "vista item":
            spec["extras"] = [b for b in spec["extras"] if b["k"] != "shellitem"] + [
                {"k": "shellitem", "items": [item], "term": True}]
        else:
            t = spec["targets"] or {"items": [], "term": True, "pad": ""}
            spec["targets"] = dict(t, items=[item] if kind == "only item" else t["items"] + [item])
    elif kind == "tail":
        t = spec["targets"] or {"items": []}
        spec["targets"] = dict(t, term=False, pad=n)
    elif kind in ("short item", "short vista item"):
        t, data = n
        B.need(any(t == u and 3 + len(B.hx(data)) < m for u, m in SHORT_TYPES))
        return deviate(spec, [kind.split(" ", 1)[1], {"k": "raw", "type": t, "data": data}])
    elif kind == "vista tail":
        B.need(len(B.hx(n)) == 1 or len(B.hx(n)) == 2 and any(B.hx(n)))
        b = [b for b in spec["extras"] if b["k"] == "shellitem"] or [{"k": "shellitem", "items": []}]
        spec["extras"] = [b for b in spec["extras"] if b["k"] != "shellitem"] + [dict(b[0], term=False)]
    elif kind == "data tail":
        B.need(1 <= len(B.hx(n)) <= 7)
        B.need(len(B.hx(n)) < 4 or int.from_bytes(B.hx(n)[:4], "little") > 3)
        spec["terminal"], spec["appended"] = None, ""
    elif kind == "short block":
        spec["extras"] = [b for b in spec["extras"] if b["k"] != n] + [C09.default(n)]
    elif kind == "beyond":
        B.need(spec["info"] is not None and spec["info"]["kind"] in ("local", "both", "network") and not spec["force"])
        B.need(0x1000000 <= n < 1 << 32)
    elif kind == "tracker":
        spec["extras"] = [b for b in spec["extras"] if b["k"] != "tracker"] + [n]
    else:
        raise B.Invalid(kind)
    return spec


def hurt(spec, o, dev):
    """What the description of a file cannot express: bytes of the file with the deviation."""
    kind, n = dev[0], dev[1]
    data = o.data
    if kind in ("vista tail", "short block"):
        a, b = [(a, b) for k, _, a, b in o.layout if k == "block"][-1]
        if kind == "short block":
            B.need(8 <= dev[2] < min(b - a, MIN_BLOCK[n]))
            block = data[a + 4:a + dev[2]]
        else:
            block = data[a + 4:b] + B.hx(n)
        data = data[:a] + (len(block) + 4).to_bytes(4, "little") + block + data[b:]
    elif kind == "data tail":
        data += B.hx(n)
    elif kind == "beyond":
        a = [a for k, _, a, b in o.layout if k == "info"][0] + (20 if spec["info"]["kind"] == "network" else 12)
        data = data[:a] + n.to_bytes(4, "little") + data[a + 4:]
    else:
        return data, []
    return data, [kind]


class C21(Prop):
    id = "C21"
    rule = ("Clean files of all sections (no warning may appear, for any output), clean files with exactly one "
            "deviation, files with any number of deviations (at least one warning for each), undecodable text at each "
            "of %d places, and files cut off where a flagged section would start. Sweep: every unknown item type, sort "
            "index, the kinds 0x30/0xB0, 40 categories, each header field, tracker lengths and versions, "
            "items, blocks and lists that end inside a fixed field, offsets beyond the file. "
            "Non-trivial: a deviation or a section besides the header." % (len(ANSI_AT) + len(WIDE_AT)))
    budget = {"quick": (2000, 30000), "thorough": (40000, 900000)}

    def sweep(self, tier):
        base = B.base()
        src = RandSource("c21")
        g = Gen(src, clean=True)
        g.start(cp=None)
        fe = g.file_entry()
        trk = g.block("tracker")
        devs = [["hsize", n] for n in (77, 78, 80, 100, 255, 256, 1000)]
        devs += [["guid", x] for x in ("00" * 16, "ff" * 16, "011402" + B.LNK_CLSID[6:][:26], B.LNK_CLSID[:-2] + "47")
                 if x != B.LNK_CLSID]
        for r, bits in (("res0", 16), ("res1", 32), ("res2", 32)):
            devs += [[r, 1 << i] for i in range(bits)]
        for t in ("ctime", "atime", "wtime"):
            devs += [[t, v] for v in (B.MAX_TICKS, B.MAX_TICKS + 10, 1 << 63, (1 << 64) - 1, B.MAX_TICKS * 2)]
        for where in ("item", "vista item", "only item"):
            devs += [[where, {"k": "unknown", "type": t, "data": "00" * 20}] for t in UNKNOWN_TYPES]
            devs += [[where, {"k": "root", "type": 0x1F, "sort": v, "guid": "00" * 16, "ext": ""}] for v in UNKNOWN_SORT]
            devs += [[where, dict(fe, type=t)] for t in (0x30, 0x38, 0xB0, 0xB8)]
            devs += [[where, {"k": "category", "type": 1, "unk": 0, "sig": 0x39DE2184, "id": v, "ext": ""}]
                     for v in list(range(12, 40)) + [0xFF, 0x100, 0x10000, 0xFFFFFFFF]]
            devs += [[where, dict(fe, type=0x31, dos=v)] for v in (1, 0x20, 0xFFFFFFFF, 0x0000FFFF, 0xC0002821,
                                                                   0x002821 & ~31, 0x2800 | 13 << 5 | 1, 0x1E | 0x2821 << 0 | 30 << 16)]
        devs += [["tail", v] for v in ("00", "03", "ff", "0300", "0001", "ffff", "1400")]
        devs += [["vista tail", v] for v in ("00", "03", "ff", "0300", "0001", "ffff", "1400")]
        devs += [["data tail", v] for v in ("00", "03", "ff", "0300", "0001", "ffff", "1400", "000000", "ffffff", "0c0000", "04000000",
                                             "0400000000", "08000000a000", "0c0000000400a0", "ffffffff")]
        for t, m in SHORT_TYPES:
            for n in range(3, m):
                for where in ("short item", "short vista item"):
                    devs.append([where, [t, "41" * (n - 3)]])
        for k, m in MIN_BLOCK.items():
            devs += [["short block", k, n] for n in range(8, m)]
        devs += [["tracker", dict(trk, length=v)] for v in (0, 0x57, 0x59, 0x60, 0x58000000)]
        devs += [["tracker", dict(trk, version=v)] for v in (1, 2, 0xFFFFFFFF)]
        for d in devs:
            yield {"file": base, "dev": d}
        for kind in ("local", "both", "network"):
            for n in (0x1000000, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF):
                yield {"file": dict(base, info=dict(INFO, kind=kind)), "dev": ["beyond", n]}
        for at in ANSI_AT:
            for cp, raw in ((None, "61819d"), ("ascii", "ff"), ("cp1251", "98ff"), ("cp932", "8181ff"), ("utf-8", "c3")):
                yield {"at": at, "raw": raw, "cp": cp, "wide": False}
        for at in WIDE_AT:
            for raw in ("00d8", "00dc", "410000dc", "00d84100", "00dc00d8"):
                yield {"at": at, "raw": raw, "cp": None, "wide": True}

    def gen(self, src):
        m = src.int(0, 9)
        if m <= 3:
            case = {"file": self.clean(src)}
            if m >= 1:
                case["dev"] = self.deviation(src)
            if m == 3 and case["file"]["info"] and case["file"]["info"]["kind"] != "none" and src.flag(0.3):
                case["file"]["force"] = False
                case["dev"] = ["beyond", src.int(0x1000000, (1 << 32) - 1)]
            return case
        if m <= 5:
            return {"file": Gen(src).file()}
        if m == 6:
            g = Gen(src)
            g.start()
            wide = src.flag(0.4)
            return {"at": src.pick(WIDE_AT if wide else ANSI_AT), "raw": (g.wide(30) if wide else g.ansi(30)).hex(),
                    "cp": g.cp, "wide": wide}
        spec = self.clean(src)
        o = B.build(spec)
        secs = [i for i, (k, _, _, _) in enumerate(o.layout) if k in SECTION_MIN]
        if not secs:
            return {"file": spec}
        i = src.pick(secs)
        return {"file": spec, "cut": [i, src.int(0, SECTION_MIN[o.layout[i][0]] - 1)]}

    def clean(self, src):
        return Gen(src, clean=True).file()

    def deviation(self, src):
        g = Gen(src, clean=True)
        g.start(cp=None)
        k = src.pick(["hsize", "guid", "res0", "res1", "res2", "ctime", "atime", "wtime", "item", "vista item",
                      "only item", "tracker", "tail", "vista tail", "data tail", "short item", "short vista item",
                      "short block"])
        if k == "data tail":
            if src.flag():
                return [k, src.bytes(1, 3).hex()]
            return [k, (src.int(4, (1 << 32) - 1).to_bytes(4, "little") + src.bytes(0, 3)).hex()]
        if k == "short block":
            b = src.pick(sorted(MIN_BLOCK))
            return [k, b, src.int(8, MIN_BLOCK[b] - 1)]
        if k.startswith("short"):
            t, m = src.pick(SHORT_TYPES)
            return [k, [t, src.bytes(0, m - 4).hex()]]
        if k.endswith("tail"):
            return [k, src.pick(["%02x" % src.int(0, 255), "%02x%02x" % (src.int(1, 255), src.int(0, 255))])]
        if k == "hsize":
            return [k, src.int(77, 300)]
        if k == "guid":
            b = bytearray(bytes.fromhex(B.LNK_CLSID))
            b[src.int(0, 15)] ^= 1 << src.int(0, 7)
            return [k, b.hex()]
        if k == "res0":
            return [k, max(1, g.u16())]
        if k.startswith("res"):
            return [k, max(1, g.u32())]
        if k.endswith("time"):
            return [k, src.int(B.MAX_TICKS, (1 << 64) - 1)]
        if k == "tracker":
            b = g.block("tracker")
            if src.flag():
                b["length"] = 0x58 ^ 1 << src.int(0, 31)
            else:
                b["version"] = max(1, g.u32())
            return [k, b]
        m = src.int(0, 3)
        if m == 0:
            return [k, {"k": "unknown", "type": src.pick(UNKNOWN_TYPES), "data": src.bytes(0, 30).hex()}]
        if m == 1:
            return [k, dict(g.item(["root"]), sort=src.pick(UNKNOWN_SORT))]
        if m == 2:
            return [k, dict(g.item(["category"]), id=max(12, g.u32()))]
        if m == 3 and src.flag():
            return [k, {"k": "fs", "type": src.pick([0x30, 0x38, 0xB0, 0xB8]), "unk": 0, "size": g.u32(), "dos": 0,
                        "attr": 0, "name": "61", "term": True, "ext": ""}]
        return [k, dict(g.item(["fs"]), dos=src.pick([1, 13 << 5 | 1, 0xFFFF0021]))]

    def check(self, case, st):
        if "at" in case:
            spec = place(case["at"], B.hx(case["raw"], even=case["wide"]), case["wide"], case["cp"])
        else:
            spec = case["file"]
            if "dev" in case:
                spec = deviate(spec, case["dev"])
        o = B.build(spec)
        data, devs = hurt(spec, o, case["dev"]) if "dev" in case else (o.data, [])
        devs = o.dev + devs
        if "dev" in case and case["dev"][0].startswith("short ") and not devs:
            devs = case["dev"][:1]
        missing = None
        if "cut" in case:
            i, n = case["cut"]
            B.need(0 <= i < len(o.layout))
            kind, ident, a, b = o.layout[i]
            B.need(kind in SECTION_MIN and 0 <= n < SECTION_MIN[kind] and n < b - a)
            data = data[:a + n]
            missing = "%s %s" % (kind, ident or "")
        with lib.observed() as made:
            f = lib.parse(data, o.cp, o.allow)
            lib.call("get_json(True)", f.get_json, True)
        if missing:
            if not made:
                raise Violation("no warning, although the file ends %d bytes after the start of the flagged section %s"
                                % (n, missing))
            st.label("cut before " + kind)
            st.mark()
            return
        if o.maybe_warn:
            st.label("time at the limit")
        elif not devs:
            with lib.observed() as more:
                for name, out in lib.OUTPUTS.items():
                    lib.call(name, out, f)
            if made or more:
                raise Violation("clean file, but: %s" % (made + more)[0])
            st.label("clean")
        if len(made) < len(devs):
            raise Violation("%d deviations, %d warnings: %s / %s" % (len(devs), len(made), devs[:6], made[:6]))
        st.label("%s deviations" % min(len(devs), 5), *{"deviation: " + d.split(":")[0] for d in devs})
        st.mark(devs or len(data) > 80)


PROP = C21()
