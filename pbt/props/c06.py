from .common import *   # noqa: F403

VOL = {"drive": 3, "serial": 0x307A8A81, "wide": False, "label": "4c61624c", "gap": "", "size": None}
CNRL = {"provider": 0x20000, "nettype": True, "xflags": 0, "uni": False, "net": "5c5c735c78",
        "dev": "5a3a", "unet": "5c005c00", "udev": "5a003a00", "gap": "", "gap2": "", "size": None}
INFO = {"kind": "local", "hsize": 28, "xflags": 0, "vol": VOL, "base": "433a5c61", "ubase": "43003a00",
        "suffix": "625c63", "usuffix": "62006300", "cnrl": CNRL, "order": [0] * 6, "gaps": [""] * 6,
        "hpad": "", "tail": ""}


def sizes(tier):
    return [0, 1, 2, 3, 15, 16, 17, 255, 256, 259, 260, 261, 511, 1024, 4096] + \
        ([32766, 32767, 32768, 40000] if tier == "thorough" else [32768])


class LinkInfoProp(FileProp):
    kinds = ()

    def gen(self, src):
        g = Gen(src, big=True)
        f = dict(g.start(), strings={}, targets=None, extras=[])
        if src.flag(0.25):
            f = g.start()
        f["info"] = g.info(self.kinds)
        f["force"] = False
        return g.file(**f)

    def compare(self, case, o, rep, warns, st):
        exp = o.report["link_info"]
        expect(exp, get(rep, "link_info"), "link_info")
        i = case["info"]
        st.label(i["kind"], "wide header" if i["hsize"] >= 36 else "narrow header",
                 "wide label" if i["vol"]["wide"] else "ansi label",
                 "unicode names" if i["cnrl"]["uni"] else "ansi names",
                 "permuted" if any(i["order"]) else "in order")
        st.mark(any(v for k, v in exp.items() if k.startswith(("local_base_path", "common_path_suffix"))
                    and isinstance(v, str)))


class C06(LinkInfoProp):
    id = "C06"
    kinds = ("local", "local", "both")
    rule = ("A local LinkInfo (also with a network link beside it): arbitrary header size >= 28, part "
            "order, gaps, padding, flags, drive type, serial, ANSI or Unicode label, ANSI and Unicode "
            "paths, most alone and some within full files; sweep: all permutations of the parts, drive "
            "types 0-300 and boundaries, serials with every bit, header sizes 28-80, text lengths. "
            "Non-trivial: at least one reported path is not empty.")
    budget = {"quick": (3200, 120000), "thorough": (40000, 1600000)}

    def sweep(self, tier):
        import itertools
        for perm in itertools.permutations(range(5)):
            for wide in (False, True):
                for hs in (28, 36):
                    yield spec_of(info=dict(INFO, hsize=hs, order=list(perm) + [9],
                                            vol=dict(VOL, wide=wide, label="4c006c00" if wide else "4c61"),
                                            gaps=["", "ff", "", "eeee", "", ""]))
        for v in list(range(300)) + [1 << i for i in range(32)] + [(1 << 32) - 1, 0xFFFFFFFE]:
            yield spec_of(info=dict(INFO, vol=dict(VOL, drive=v)))
            yield spec_of(info=dict(INFO, vol=dict(VOL, serial=v)))
            yield spec_of(info=dict(INFO, vol=dict(VOL, size=v)))
        for hs in range(28, 81):
            for k in ("local", "both"):
                yield spec_of(info=dict(INFO, kind=k, hsize=hs, hpad="aabb"))
                yield spec_of(info=dict(INFO, kind=k, hsize=hs, ubase=None, usuffix=None))
        for i in range(2, 32):
            yield spec_of(info=dict(INFO, xflags=1 << i))
        for hs, kind in ((28, "local"), (36, "local"), (36, "both")):
            for perm in itertools.permutations(range(5)):
                shared = dict(INFO, kind=kind, hsize=hs, share=True, order=list(perm) + [9], suffix="5c61", usuffix="3a00")
                yield spec_of(info=shared)
                yield spec_of(info=dict(shared, suffix="", usuffix=""))
        for n in (200, 255, 256, 65535, 65536, 70000):
            for i in range(5):
                yield spec_of(info=dict(INFO, kind="both", hsize=36, gaps=[n if i == j else "" for j in range(6)]))
        for n in sizes(tier):
            for key in ("base", "suffix", "ubase", "usuffix"):
                yield spec_of(info=dict(INFO, hsize=36, **{key: "6100" * n if key[0] == "u" else "61" * n}))
            for wide in (False, True):
                yield spec_of(info=dict(INFO, vol=dict(VOL, wide=wide, label=("6c00" if wide else "6c") * n)))
                yield spec_of(info=dict(INFO, vol=dict(VOL, wide=wide, label="6c00", gap="55" * n)
                                        if wide else dict(VOL, gap="55" * n)))


PROP = C06()
