from .common import *   # noqa: F403


class C02(FileProp):
    id = "C02"
    rule = ("A link file with an arbitrary header (raw fields uniformly, at boundaries and at table "
            "values), most without and some with further sections; sweep: all 65536 hot keys, each "
            "single bit of link and file flags, show commands 0-255 and boundaries, boundary values "
            "of each field. Non-trivial: at least three header fields differ from the "
            "smallest header.")
    budget = {"quick": (3200, 120000), "thorough": (40000, 2000000)}

    def sweep(self, tier):
        for v in range(1 << 16):
            yield {"hotkey": v}
        for i in range(32):
            yield {"attrs": 1 << i}
            yield {"attrs": (1 << 32) - 1 - (1 << i)}
            if i > 8:
                yield {"flags": 1 << i}
        yield {"flags": ((1 << 32) - 1) & ~T.SECTION_BITS}
        edge = [0, 1, 2, 3, 7, 127, 128, 255, 256, 32767, 32768, 65535, 65536, (1 << 31) - 1, 1 << 31,
                (1 << 32) - 1]
        for v in edge + list(range(256)) + [3 << 8, 7 << 16, 0x10003, 0x80000003]:
            yield {"show": v}
        for v in edge:
            yield {"size": v}
            yield {"res1": v}
            yield {"res2": v}
            if v < 65536:
                yield {"res0": v}
            yield {"icon": v - (1 << 31)}
        for i in range(16):
            for b in (0, 1, 0x7F, 0x80, 0xFF):
                g = bytearray(bytes.fromhex(B.LNK_CLSID))
                g[i] = b
                yield {"guid": g.hex()}

    def gen(self, src):
        g = Gen(src)
        if src.flag(0.8):
            return g.header()
        return g.file(header=g.header())

    def check(self, case, st):
        if "header" not in case:        # header fields only
            case = spec_of(header=case)
        super().check(case, st)

    def compare(self, case, o, rep, warns, st):
        got = dict(get(rep, "header"))
        exp = dict(o.report["header"])
        for k in ("creation_time", "accessed_time", "modified_time"):   # C03
            exp.pop(k)
            got.pop(k, None)
        expect(exp, got, "header")
        base = B.base()["header"]
        n = sum(case["header"][k] != base[k] for k in base)
        st.mark(n >= 3)
        st.label("%d fields set" % n)


PROP = C02()
