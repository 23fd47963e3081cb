from .common import *   # noqa: F403

FIXED = ["env", "console", "tracker", "codepage", "special", "darwin", "icon", "shim", "known"]


class C09(FileProp):
    id = "C09"
    rule = ("1-12 distinct extra blocks in any order, with arbitrary field values, full-width and "
            "terminated strings, bytes after terminators and after the fixed part, unknown blocks in "
            "between; sweep: every field of every block at boundary values, each pair of block types "
            "in both orders. Non-trivial: at least one fixed-layout block and two blocks.")
    budget = {"quick": (3200, 40000), "thorough": (40000, 600000)}

    @staticmethod
    def default(k):
        z16, z = "00" * 16, {"k": k, "ext": ""}
        if k in ("env", "icon", "darwin"):
            z.update(ansi="61" * 3 + "00" * 257)
        if k in ("env", "icon"):
            z.update(wide="6200" * 3 + "00" * 514)
        if k == "darwin":
            z.update(product="00112233445566778899aabbccddeeff", component=z16, feature="4600", fill="")
        if k == "console":
            z.update({n: i * 257 + 1 for i, (n, e) in enumerate(B.CONSOLE)})
            z.update(face_name="4100" * 2 + "00" * 60, colors=[i * 0x111 + 5 for i in range(16)])
        if k == "tracker":
            z.update(length=0x58, version=0, machine="6d" + "00" * 15)
            for i, n in enumerate(("droid_volume_identifier", "droid_file_identifier",
                                   "birth_droid_volume_identifier", "birth_droid_file_identifier")):
                z[n] = ("%02x" % (i + 1)) * 16
        if k == "codepage":
            z.update(cp=932)
        if k == "special":
            z.update(id=37, offset=221)
        if k == "known":
            z.update(guid="0123456789abcdef0123456789abcdef", offset=221)
        if k == "shim":
            z.update(name="570069006e00", term=True)
        if k == "meta":
            z.update(stores=[{"fmt": z16, "version": 0x53505331, "props": [], "tail": ""}])
        if k == "shellitem":
            z.update(items=[{"k": "plain", "type": 0x72, "data": "01"}], term=True)
        if k == "unknown":
            z.update(sig=0xA000000A, data="0102")
        return z

    def sweep(self, tier):
        ks = list(T.SIG) + ["unknown"]
        for a in ks:
            yield spec_of(extras=[self.default(a)])
            for b in ks:
                if a != b or a == "unknown":
                    yield spec_of(extras=[self.default(a), self.default(b)])
        edge = [0, 1, 127, 128, 255, 256, 32767, 32768, 65535, 65536, (1 << 31) - 1, 1 << 31,
                (1 << 32) - 1, -1, -2, -32768, -128]
        for name, enc in B.CONSOLE:
            if enc is None:
                continue
            lo, hi = {B.u16: (0, 65535), B.i16: (-32768, 32767), B.u32: (0, (1 << 32) - 1)}[enc]
            for v in edge:
                if lo <= v <= hi:
                    yield spec_of(extras=[dict(self.default("console"), **{name: v})])
        for i in range(16):
            c = [0] * 16
            c[i] = (1 << 32) - 1
            yield spec_of(extras=[dict(self.default("console"), colors=c)])
        for k, keys in (("tracker", ("length", "version")), ("codepage", ("cp",)),
                        ("special", ("id", "offset")), ("known", ("offset",))):
            for key in keys:
                for v in [v for v in edge if v >= 0] + [1 << i for i in range(32)]:
                    yield spec_of(extras=[dict(self.default(k), **{key: v})])
        for k in ("env", "icon", "darwin"):
            for n in (0, 1, 2, 127, 128, 258, 259, 260):
                a = ("61" * n + "00" + "7a" * 260)[:520]
                d = dict(self.default(k), ansi=a)
                if k != "darwin":
                    d["wide"] = ("6200" * n + "0000" + "7a79" * 260)[:1040]
                yield spec_of(extras=[d, self.default("codepage")])
        for e in ("", "4100", "41004200"):      # full-width descriptors, and bytes behind the block's fields
            d = dict(self.default("darwin"), ext=e)
            yield spec_of(extras=[dict(d, feature="6600" * 219), self.default("codepage")])
            yield spec_of(extras=[dict(d, feature="6600" * 239, component=None), self.default("codepage")])
        for n in range(0, 33):
            yield spec_of(extras=[dict(self.default("console"),
                                       face_name=("4100" * n + "0000" + "5a5a" * 32)[:128])])
        for n in range(0, 17):
            yield spec_of(extras=[dict(self.default("tracker"), machine=("6d" * n + "00" + "5a" * 16)[:32])])
        for n in (0, 1, 2, 127, 128, 129, 260, 1000, 32768):
            for term in (True, False):
                yield spec_of(extras=[dict(self.default("shim"), name="4c00" * n, term=term), self.default("codepage")])

        ks = list(T.SIG)
        for i in range(len(ks)):        # all blocks at once
            for order in (ks[i:] + ks[:i], ks[i::-1] + ks[:i:-1]):
                some = [self.default(k) for k in order]
                for j in (0, len(some), i):
                    yield spec_of(extras=some[:j] + [{"k": "unknown", "sig": 7, "data": "00"}] * min(j, 1) + some[j:])

    def gen(self, src):
        g = Gen(src)
        f = dict(g.start(), info=None, targets=None, strings={})
        if src.flag(0.25):
            f = g.start()
        if src.flag(0.5):
            ks = [src.pick(FIXED)]
            ks += [k for k in g.BLOCKS if k not in ks and src.flag(0.1)]
            ks = src.shuffle(ks + ["unknown"] * src.int(0, 2))
        else:
            p = src.pick([0.35, 0.35, 0.7, 1.0])
            ks = src.shuffle([k for k in g.BLOCKS if src.flag(p)] + ["unknown"] * src.int(0, 2))
        f["extras"] = [g.block(k) for k in ks]
        return g.file(**f)

    def compare(self, case, o, rep, warns, st):
        exp = dict(o.report["extra"])
        got = dict(get(rep, "extra"))
        for k in ("UNKNOWN_BLOCK", "TERMINAL_BLOCK"):       # C12
            exp.pop(k, None)
            got.pop(k, None)
        for k in ("METADATA_PROPERTIES_BLOCK", "SHELL_ITEM_IDENTIFIER_BLOCK"):   # C10, C05: the size only
            if k in exp:
                exp[k] = {"size": exp[k]["size"]}
                got[k] = {"size": get(get(got, k), "size")}
        expect(exp, got, "extra")
        ks = [b["k"] for b in case["extras"]]
        st.label(*["block " + k for k in ks])
        st.mark(len(ks) >= 2 and any(k in FIXED for k in ks))


PROP = C09()
