from .common import *   # noqa: F403


class C03(FileProp):
    id = "C03"
    rule = ("One header time or the DOS time of a file entry (in the target list, nested in a users "
            "files item, or in the Vista ID list) per case, the others zero; sweep: boundaries of the "
            "FILETIME range, the first and last tick of every year 1601-9999, all DOS dates of selected "
            "years, all DOS times in steps and every single bit. Non-trivial: the value is not zero.")
    budget = {"quick": (3200, 120000), "thorough": (40000, 2000000)}

    def sweep(self, tier):
        import datetime as dt
        ticks = [0, 1, 9, 10, 11, 99999, 10**7, B.MAX_TICKS - 10**7, B.MAX_TICKS - 10**4, B.MAX_TICKS,
                 B.MAX_TICKS + 1, (1 << 63) - 1, 1 << 63, (1 << 64) - 1, 116444736000000000,
                 116444736000000000 - 1, 116444736000000000 + 1]
        ticks += [1 << i for i in range(64)]
        for y in range(1601, 10000):
            t = (dt.datetime(y, 1, 1, tzinfo=B.UTC) - B.EPOCH) // dt.timedelta(microseconds=1) * 10
            ticks.append(t)
            if y % 4 == 0:
                d = dt.datetime(y, 2, 28, 23, 59, 59, tzinfo=B.UTC) - B.EPOCH
                ticks.append(d // dt.timedelta(microseconds=1) * 10 + 10**7)
        for i, t in enumerate(ticks):
            yield {"at": ("ctime", "atime", "wtime")[i % 3], "v": t}
        for t in ticks[:20]:
            for at in ("ctime", "atime", "wtime"):
                yield {"at": at, "v": t}
        good = 40 << 9 | 6 << 5 | 15 | (13 << 11 | 31 << 5 | 7) << 16
        for y in (0, 20, 40, 44, 60, 120, 126, 127):
            for md in range(512):
                yield {"at": "item", "v": (good & ~0xFFFF) | y << 9 | md}
        for t in range(0, 1 << 16, 1 if tier == "thorough" else 7):
            yield {"at": "item", "v": (good & 0xFFFF) | t << 16}
        for i in range(32):
            for at in ("item", "nested", "vista"):
                yield {"at": at, "v": good ^ 1 << i}
                yield {"at": at, "v": 1 << i}

    def gen(self, src):
        g = Gen(src)
        at = src.pick(["ctime", "atime", "wtime", "item", "nested", "vista"])
        return {"at": at, "v": g.ticks() if at.endswith("time") else g.dos()}

    def check(self, case, st):
        at, v = case["at"], case["v"]
        fe = {"k": "fs", "type": 0x32, "unk": 0, "size": 0, "dos": 0 if at.endswith("time") else v,
              "attr": 0, "name": "61", "term": True, "ext": ""}
        f = {}
        if at.endswith("time"):
            f["header"] = {at: v}
        elif at == "item":
            f["targets"] = {"items": [fe], "term": True, "pad": ""}
        elif at == "nested":
            u = {"k": "users", "type": 0x74, "unk": 0, "sig": "43465346", "fe": fe, "pad": "",
                 "g1": "00" * 16, "g2": "00" * 16, "ext": ""}
            f["targets"] = {"items": [u], "term": True, "pad": ""}
        else:
            f["extras"] = [{"k": "shellitem", "items": [fe], "term": True}]
        o = B.build(spec_of(**f))
        rep, warns, _ = lib.report(o.data)
        if at.endswith("time"):
            keys = ("creation_time", "accessed_time", "modified_time")
            exp = {k: o.report["header"][k] for k in keys}
            expect(exp, {k: get(get(rep, "header"), k) for k in keys}, "header")
            none = v == 0 or v >= B.MAX_TICKS
        else:
            where = ("target", "items") if at != "vista" else \
                ("extra", "SHELL_ITEM_IDENTIFIER_BLOCK", "id_list")
            e, g = sub(o.report, *where), sub(rep, *where)
            if not isinstance(g, list) or len(g) != 1:
                raise Violation("expected one item, got %s" % B.short(g))
            e, g = e[0], g[0]
            if at == "nested":
                e, g = e["file_entry"], get(g, "file_entry", "item")
            expect(e["modification_time"], get(g, "modification_time", "item"), "modification_time")
            none = e["modification_time"] is None
        if not o.maybe_warn:
            if bool(o.dev) != bool(warns):
                raise Violation("%s: expected %s, got %s" % (
                    case, "a warning" if o.dev else "no warning", warns or "none"))
        st.mark(v != 0)
        st.label(at, "None" if none else "time", "warned" if warns else "silent")


PROP = C03()
