from .c09 import C09
from .common import *   # noqa: F403


class C12(FileProp):
    id = "C12"
    rule = ("Sequences of 0-8 blocks with 0-8 unknown ones of arbitrary signatures, sizes and contents "
            "(among them empty ones, duplicates and ones without room for a signature), or a last block that claims more than the "
            "file has, a terminal value 0-3, appended data of 0-200 bytes "
            "(among them data that looks like blocks or terminals), both settings; sweep: signatures "
            "one bit away from known ones and all 0xA0000000-0xA00000FF, data lengths 0-300, appended "
            "lengths 0-40 for all terminal values and settings, and lengths up to 17 MiB. Non-trivial: an unknown block or "
            "appended data.")
    budget = {"quick": (3200, 80000), "thorough": (40000, 1200000)}

    def sweep(self, tier):
        known = set(T.SIG.values())
        sigs = {s ^ 1 << i for s in known for i in range(32)} | set(range(0xA0000000, 0xA0000100))
        sigs |= {0, 1, 2, 3, 4, 0xFFFFFFFF, 0x0A000001, 0x010000A0, 0xA000000A, 0xA00000010 >> 4}
        u = {"k": "unknown", "data": "00", "sig": 0xA000000A}
        for s in sorted(sigs - known):
            yield spec_of(extras=[dict(u, sig=s, data="01020304"), C09.default("codepage")])
        for n in range(0, 301):
            yield spec_of(extras=[dict(u, data="5a" * n), dict(u, data="5a" * n, sig=7), C09.default("special")])
        for n in range(0, 12):
            yield spec_of(extras=[dict(u, data="%02x" % i) for i in range(n)] + [C09.default("shim")])
            yield spec_of(extras=[C09.default("known")] + [dict(u, data="", sig=5)] * n)
        for term in range(4):
            for allow in (True, False):
                for n in range(0, 41):
                    for fill in ("00", "ff", "01"):
                        yield spec_of(terminal=term, allow=allow, appended=fill * n,
                                      extras=[u] if n % 2 else [])
                yield spec_of(terminal=term, allow=allow, appended="0c000000040000a0e4040000" + "00" * 4)
                yield spec_of(terminal=term, allow=allow, appended="41" * 70000, strings={
                    "relative_path": {"raw": "6100", "over": 0}})

        for n in (254, 255, 256, 4095, 4096, 32767, 32768, 65535, 65536, 70001, 1 << 20, (1 << 20) + 1, 3 << 20, 17 << 20):
            yield spec_of(extras=[dict(u, data=n), dict(u, data="5a")], appended="5a")
            yield spec_of(extras=[u], appended=n)
            yield spec_of(extras=[u], appended=n, allow=False)
        for n in range(4):
            for term in range(4):
                for sig in (0, 0xA0000002, 0xFFFFFFFF, 0x10203040):
                    stub = dict(u, sig=sig, stub=n)
                    yield spec_of(extras=[stub], terminal=term, appended="5a" * n)
                    yield spec_of(extras=[stub, u], terminal=term)
                    yield spec_of(extras=[C09.default("codepage"), stub, stub, C09.default("special"), stub], terminal=term)
        for v in (1000, 65535, 65536, (1 << 24) - 1, (1 << 31) - 1, 1 << 31, 0x80000008, (1 << 32) - 4, (1 << 32) - 1):
            for allow in (True, False):
                for k in list(T.SIG) + ["unknown"]:
                    b = dict(C09.default(k), claim=v)
                    yield spec_of(extras=[u, b], terminal=None, allow=allow)
                    yield spec_of(extras=[b], terminal=None, allow=allow)
        for n in (50, 127, 128, 129, 255, 256, 257, 300, 512, 513, 999, 1000, 1001, 1024, 1025, 2000, 3000, 4097, 5000, 10000, 70000):
            yield spec_of(extras=[C09.default("known")] + [dict(u, data="", sig=n)] * n + [C09.default("shim")], appended="5a")
            if n > 10000:
                continue
            yield spec_of(extras=[dict(u, data="%04x" % i) for i in range(n)])

    def gen(self, src):
        g = Gen(src)
        f = dict(g.start(), info=None, targets=None, strings={})
        if src.flag(0.25):
            f = g.start()
        ks = [k for k in g.BLOCKS if src.flag(0.15)] + ["unknown"] * src.int(0, 6)
        f["extras"] = [g.block(k) for k in src.shuffle(ks)]
        f["extras"] = [dict(b, stub=src.int(0, 3)) if b["k"] == "unknown" and src.flag(0.1) else b for b in f["extras"]]
        if f["extras"] and src.flag(0.12) and "stub" not in f["extras"][-1]:
            b = f["extras"][-1] = dict(f["extras"][-1])
            b["claim"] = src.pick([src.int(4000, 70000), src.int(1 << 16, 1 << 31), src.int(1 << 31, (1 << 32) - 1),
                                   (1 << 31) - 1, 1 << 31, (1 << 32) - 1])
            return g.file(**dict(f, terminal=None, appended="", allow=src.flag()))
        f["terminal"] = src.int(0, 3)
        m = src.int(0, 3)
        f["appended"] = [b"", src.bytes(0, 60), src.bytes(0, 8) * src.int(0, 25),
                         bytes(4) * src.int(0, 5) + b"\x0c\0\0\0\x04\0\0\xa0" + src.bytes(0, 9)][m].hex()
        f["allow"] = src.flag(0.7)
        return g.file(**f)

    def compare(self, case, o, rep, warns, st):
        got = get(rep, "extra")
        for k in ("UNKNOWN_BLOCK", "TERMINAL_BLOCK"):
            if k in o.report["extra"]:
                expect(o.report["extra"][k], get(got, k, "extra"), k)
            elif k in got:
                raise Violation("unexpected %s: %s" % (k, B.short(got[k])))
        if case["extras"] and "claim" in case["extras"][-1]:
            k = T.BLOCK_NAME[case["extras"][-1]["k"]]
            expect(o.report["extra"][k], get(got, k, "extra"), k + " of more bytes than there are")
            st.label("more claimed than there is")
        if any("stub" in b for b in case["extras"]):
            st.label("no room for a signature")
        n = len(o.report["extra"].get("UNKNOWN_BLOCK", ()))
        st.label("%d unknown" % min(n, 9), "appended" if case["appended"] else "nothing appended",
                 "allowed" if case["allow"] else "disallowed")
        st.mark(n or case["appended"])


PROP = C12()
