from .common import *   # noqa: F403


def lists(rep, o):
    """[(name, expected entries, reported entries)]"""
    out = []
    if "target" in o.report:
        out.append(("target.items", o.report["target"]["items"], get(get(rep, "target"), "items")))
    name = "SHELL_ITEM_IDENTIFIER_BLOCK"
    if name in o.report["extra"]:
        out.append((name, o.report["extra"][name]["id_list"],
                    get(get(get(rep, "extra"), name), "id_list")))
    return out


def simple(t, n=33):
    return {"k": "raw", "type": t, "data": ("%02x" % (t ^ 0x5A)) * n}


LONG = (100, 127, 128, 129, 256, 257, 300, 511, 512, 513, 600, 999, 1000, 1001, 1024, 1025, 1100, 2000, 2047, 2048,
        2049, 3000, 4095, 4096, 4097, 5000)


class C04(FileProp):
    id = "C04"
    rule = ("ID lists of 0-12 items of all classes (well-formed, too short to be interpreted, or of "
            "unknown type, in any mix), in the target list and in the Vista ID-list block; sweep: all "
            "256 type bytes x data lengths 0-40 between two good items, in both places, and list "
            "lengths up to 21800 (the most that fit) and 70000 in the block. Non-trivial: at least two items, of which two of different type bytes.")
    budget = {"quick": (3200, 80000), "thorough": (40000, 1200000)}

    def sweep(self, tier):
        good = {"k": "root", "type": 0x1F, "sort": 0x50, "guid": "e04fd020ea3a6910a2d808002b30309d",
                "ext": ""}
        last = {"k": "fs", "type": 0x32, "unk": 0, "size": 7, "dos": 0, "attr": 32, "name": "6162",
                "term": True, "ext": ""}
        for t in range(256):
            for n in (0, 1, 2, 5, 9, 11, 12, 17, 18, 21, 22, 29, 30, 40):
                items = [good, simple(t, n), last]
                yield spec_of(targets={"items": items, "term": True, "pad": ""})
                if n in (0, 11, 40):
                    yield spec_of(extras=[{"k": "shellitem", "items": items, "term": True}])
                    yield spec_of(targets={"items": [simple(t, n)] * 2, "term": True, "pad": "0000aa"})
        for n in range(0, 256, 5):
            yield spec_of(targets={"items": [good, last] * (n // 2) + [good] * (n % 2),
                                   "term": True, "pad": ""})
        few = [simple(0x10, 0), simple(0x61, 0), simple(0x7F, 1)]
        for n in LONG:
            for items in ([good] * n, (few * (n // 3 + 1))[:n], [few[0]] * (n - 1) + [last]):
                room = sum({"raw": 3 + len(i.get("data", "")) // 2}.get(i["k"], 20 if i is good else 32) for i in items)
                if room < 65500:
                    yield spec_of(targets={"items": items, "term": True, "pad": ""})
                    yield spec_of(targets={"items": items, "term": False, "pad": ""})
                yield spec_of(extras=[{"k": "shellitem", "items": items, "term": True}])
        for n in (21800, 65535, 65536, 70000):
            items = (few[:2] * n)[:n]
            if n < 21801:
                yield spec_of(targets={"items": items, "term": True, "pad": ""})
            yield spec_of(extras=[{"k": "shellitem", "items": items, "term": True}])
        for n in (124, 125, 252, 253, 32763, 32764, 32765, 32766, 40000, 65470):
            for t in (0x10, 0x61, 0x1F, 0x2F, 0x32):
                items = [good, {"k": "raw", "type": t, "data": "61" * n}, last]
                yield spec_of(targets={"items": items, "term": True, "pad": ""})
                yield spec_of(extras=[{"k": "shellitem", "items": items * 2, "term": True}])
                yield spec_of(targets={"items": items[:2], "term": False, "pad": ""})
                yield spec_of(extras=[{"k": "shellitem", "items": items[:2], "term": False}])
        big = {"k": "unknown", "type": 0x10, "data": "ab" * 30000}
        yield spec_of(targets={"items": [big, last, big, good], "term": True, "pad": ""})

    def gen(self, src):
        g = Gen(src)
        kinds = g.KINDS + ["raw", "raw", "unknown"]
        f = dict(g.start(), strings={}, info=None, extras=[])
        if src.flag(0.15):
            f = g.start()
        where = src.int(0, 2)
        f["targets"] = g.targets(0, 12, kinds) if where != 1 else None
        if where:
            b = g.block("shellitem")
            b["items"] = g.items(0, 12, kinds)
            f["extras"] = [b] if src.flag(0.5) else [g.block("unknown"), b, g.block("tracker")]
        return g.file(**f)

    def compare(self, case, o, rep, warns, st):
        types = set()
        n = 0
        for name, exp, got in lists(rep, o):
            if not isinstance(got, list):
                raise Violation("%s: got %s" % (name, B.short(got)))
            want = [e.name if isinstance(e, B.Cls) else e["class"] for e in exp]
            have = [e.get("class") if isinstance(e, dict) else e for e in got]
            expect(want, have, name + " classes")
            for i, (e, g) in enumerate(zip(exp, got)):
                if want[i] == "Unknown":
                    expect(e, g, "%s[%d]" % (name, i))
        if "target" in o.report:
            expect(o.report["target"]["size"], get(get(rep, "target"), "size"), "target.size")
        elif "target" in rep:
            raise Violation("a target is reported, but there is no ID list")
        unknown = [d for d in o.dev if d.startswith("unknown item type")]
        # one warning for each unknown item (there may be more for other deviations)
        if len(warns) < len(unknown):
            raise Violation("%d unknown items, but only %d warnings" % (len(unknown), len(warns)))
        for items in ([case["targets"]["items"]] if case["targets"] else []) + \
                [b["items"] for b in case["extras"] if b["k"] == "shellitem"]:
            n = max(n, len(items))
            types |= {i["type"] for i in items}
            st.label(*["kind " + i["k"] for i in items])
        st.mark(n >= 2 and len(types) >= 2)


PROP = C04()
