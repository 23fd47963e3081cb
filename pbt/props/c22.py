import struct

from .c06 import INFO
from .c09 import C09
from .common import *   # noqa: F403

ITEM = {"k": "root", "type": 0x1F, "sort": 0x50, "guid": "e04fd020ea3a6910a2d808002b30309d", "ext": ""}


CLAIMS = [1, 2, 4, 1000, 0x8000, 0xFFFF, 0x10000, 0x10050, 0x7FFFFFFF, 0x80000000, 0x80000050, 0x80001000, 0xFFFFFFFC, 0xFFFFFFFF]


class C22(FileProp):
    id = "C22"
    rule = ("Full files, some without a terminal block, with any combination of sections, LinkInfo of every kind (local, network, "
            "neither) marked as ignored or not, padding after the ID list and inside LinkInfo, and all "
            "other flag bits; sweep: all 512 combinations of the section flags x all four kinds of "
            "LinkInfo, the same with empty lists and strings and with or without a terminal block, and each structure at the limits of narrower size fields, "
            "and sizes of the ID list or of LinkInfo that reach beyond the file (up to 4 GiB). Non-trivial: at least two sections after the header.")
    budget = {"quick": (3200, 48000), "thorough": (40000, 800000)}

    def sweep(self, tier):
        yield from large(tier)
        for mask in range(512):
            uni = bool(mask & 0x80)
            strings = {}
            for i, (k, _, _) in enumerate(T.STRINGS):
                if mask >> (i + 2) & 1:
                    strings[k] = {"raw": k.encode("utf-16-le" if uni else "ascii").hex(), "over": 0}
            for kind in ("local", "network", "both", "none") if mask & 2 else (None,):
                info = None
                if kind == "none":
                    info = {"kind": kind, "hsize": 28, "xflags": 0, "data": "00" * 16}
                elif kind:
                    info = dict(INFO, kind=kind, tail="6666" * (mask % 3))
                yield spec_of(unicode=uni, force=bool(mask & 0x100), strings=strings, info=info,
                              targets={"items": [ITEM] * (mask % 3), "term": True, "pad": "77" * (mask % 5)}
                              if mask & 1 else None,
                              extras=[C09.default("codepage")] if mask % 7 else [])
            for term in (None, 0):
                yield spec_of(unicode=uni, terminal=term, force=bool(mask & 0x100), info=INFO if mask & 2 else None,
                              targets={"items": [], "term": True, "pad": ""} if mask & 1 else None,
                              strings={k: {"raw": "", "over": 0} for k in strings})

        # sizes that reach beyond the file: nothing can come after them
        strings = {k: {"raw": 6, "over": 0} for k, _, _ in T.STRINGS}
        for uni in (False, True):
            ids = {"items": [ITEM], "term": True, "pad": ""}
            for by in CLAIMS:
                for info in (INFO, dict(INFO, kind="network"), {"kind": "none", "hsize": 28, "xflags": 0, "data": "00" * 16}):
                    spec = spec_of(unicode=uni, strings=strings, info=info, targets=ids, extras=[C09.default("codepage")])
                    yield dict(spec, claim={"what": "info", "size": by})
                    yield dict(spec, claim={"what": "info", "size": by}, force=True)
            for by in (1, 2, 100, 0x7000, 0xF000):
                spec = spec_of(unicode=uni, strings=strings, info=INFO, targets=ids, extras=[C09.default("codepage")])
                yield dict(spec, claim={"what": "idlist", "size": by})

    def gen(self, src):
        g = Gen(src)
        f = g.start()
        f["header"] = g.header()
        f["force"] = src.flag(0.3)
        if src.flag(0.7):
            f["info"] = g.info(("local", "network", "both", "none"))
        case = g.file(**f)
        if src.flag(0.15):
            claim = {"what": src.pick(["info", "idlist"]), "size": src.pick([src.int(1, 64), src.int(1, 0xFFFF), src.int(1, 0xFFFFFFFF)] + CLAIMS)}
            if claim["what"] == "idlist":
                claim["size"] &= 0x7FFF
            if case["info" if claim["what"] == "info" else "targets"] is not None:
                case["claim"] = claim
        return case

    def check(self, case, st):
        if "claim" not in case:
            return super().check(case, st)
        o = B.build({k: v for k, v in case.items() if k != "claim"})
        what, by = case["claim"]["what"], case["claim"]["size"]
        B.need(by > 0)
        at = [x[2] for x in o.layout if x[0] == what]
        B.need(len(at) == 1)
        at, form = (at[0], "<I") if what == "info" else (at[0], "<H")
        have = len(o.data) - at - (2 if what == "idlist" else 0)
        # whatever is asked for below 2**32 (2**16), but more than there is
        size = max(by, have + 1)
        B.need(size < 1 << (32 if what == "info" else 16))
        data = bytearray(o.data)
        struct.pack_into(form, data, at, size)
        rep, warns, lnk = lib.report(bytes(data), o.cp, o.allow)
        expect({}, get(rep, "data"), "%s claims %d bytes of %d, but data" % (what, size, have))
        expect({}, get(rep, "extra"), "%s claims %d bytes of %d, but extra" % (what, size, have))
        if what == "idlist":
            expect({}, get(rep, "link_info"), "idlist claims %d bytes of %d, but link_info" % (size, have))
            if case["targets"]["term"]:
                expect(o.report["target"]["items"], get(get(rep, "target"), "items"), "target.items")
        elif case["targets"] is not None:
            expect(o.report["target"], get(rep, "target"), "target")
        st.label(what + " claims more than there is")
        st.mark(bool(case["strings"] or case["extras"]))

    def compare(self, case, o, rep, warns, st):
        exp = {k: v for k, v in o.report.items() if k != "header"}
        got = dict(rep)
        hdr = get(rep, "header")
        expect(o.report["header"]["link_flags"], get(hdr, "link_flags"), "header.link_flags")
        got.pop("header")
        expect(exp, got, "report")
        label_sections(case, st)
        n = (case["targets"] is not None) + (case["info"] is not None) + len(case["strings"]) \
            + len(case["extras"])
        if case["info"] is not None:
            st.label("info " + case["info"]["kind"] + (", ignored" if case["force"] else ""))
        st.mark(n >= 2)


PROP = C22()
