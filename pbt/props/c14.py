from .c06 import CNRL, INFO, VOL
from .c09 import C09
from .common import *   # noqa: F403

ALIASES = ["windows-1251", "1252", "CP1252", "utf8", "cp65001", "latin1", "sjis"]
ANSI_AT = ["description", "relative_path", "working_directory", "command_line_arguments", "icon_location",
           "volume item", "file entry", "location", "net description", "net comments", "cpl path", "cpl name",
           "cpl comments", "nested file entry", "vista file entry", "label", "base", "suffix", "net name",
           "device name", "env", "icon", "darwin", "machine"]
WIDE_AT = ["description", "relative_path", "working_directory", "command_line_arguments", "icon_location",
           "file entry", "cpl path", "cpl name", "cpl comments", "nested file entry", "vista file entry",
           "label", "ubase", "usuffix", "net name", "device name", "env", "icon", "face", "shim", "prop name",
           "prop value"]


def fixed(b, n, wide):
    b = (b + (b"\0\0" if wide else b"\0"))[:n]
    return (b + b"\x90" * n)[:n].hex()


def place(at, b, wide, cp):
    """A file with the bytes b (without terminator) at the given place."""
    B.need(at in (WIDE_AT if wide else ANSI_AT))
    w = 2 if wide else 1
    b = B.cut00(b) if wide else B.cut0(b)
    h = b.hex()
    f = {"cp": cp, "unicode": wide}
    keys = [k for k, _, _ in T.STRINGS]
    fe = {"k": "fs", "type": 0x36 if wide else 0x32, "unk": 0, "size": 0, "dos": 0, "attr": 0, "name": h,
          "term": True, "ext": "8f8f"}
    item = None
    if at in keys:
        B.need(len(b) // w <= (65535 if at in ("command_line_arguments", "icon_location") else 260))
        f["strings"] = {at: {"raw": h, "over": 0}}
    elif at == "volume item":
        item = {"k": "vol", "type": 0x2F, "name": fixed(b[:20], 20, False), "ext": ""}
    elif at in ("file entry", "vista file entry"):
        item = fe
    elif at == "nested file entry":
        item = {"k": "users", "type": 0x74, "unk": 0, "sig": "43465346", "fe": fe, "pad": "",
                "g1": "00" * 16, "g2": "00" * 16, "ext": ""}
    elif at in ("location", "net description", "net comments"):
        item = {"k": "net", "type": 0x42, "unk": 0, "cflags": 0xC0, "loc": "6c", "desc": "64", "comm": "63",
                "term": True, "ext": "9d"}
        item[{"location": "loc", "net description": "desc", "net comments": "comm"}[at]] = h
    elif at.startswith("cpl"):
        item = {"k": "cpl", "type": 0, "uni": wide, "unk0": 0, "sig": 0, "unk": "00" * 12, "path": "70" + "00" * (w - 1),
                "name": "", "comm": "", "has_comm": True, "gap": "", "term": True, "ext": ""}
        item[{"cpl path": "path", "cpl name": "name", "cpl comments": "comm"}[at]] = h
    elif at in ("label", "base", "suffix", "ubase", "usuffix"):
        f["info"] = dict(INFO, hsize=36)
        if at == "label":
            f["info"]["vol"] = dict(VOL, wide=wide, label=h)
        else:
            f["info"][at] = h
    elif at in ("net name", "device name"):
        k = ("u" if wide else "") + at[:3]
        f["info"] = dict(INFO, kind="network", cnrl=dict(CNRL, uni=wide, **{k: h}))
    elif at in ("env", "icon"):
        d = C09.default(at)
        d["wide" if wide else "ansi"] = fixed(b, 520 if wide else 260, wide)
        f["extras"] = [d]
    elif at == "darwin":
        f["extras"] = [dict(C09.default("darwin"), ansi=fixed(b, 260, False))]
    elif at == "machine":
        f["extras"] = [dict(C09.default("tracker"), machine=fixed(b, 16, False))]
    elif at == "face":
        f["extras"] = [dict(C09.default("console"), face_name=fixed(b, 64, True))]
    elif at == "shim":
        f["extras"] = [dict(C09.default("shim"), name=h)]
    elif at.startswith("prop"):
        p = {"type": T.VT_LPWSTR, "pad": 0, "id": 1, "res": 0, "name": h if at == "prop name" else "6e00",
             "int": 0, "text": h if at == "prop value" else "7600", "val": ""}
        f["extras"] = [{"k": "meta", "ext": "", "stores": [
            {"fmt": T.NAMED_FORMAT, "version": 1, "props": [p], "tail": ""}]}]
    else:
        raise AssertionError(at)
    if item:
        if at == "vista file entry":
            f["extras"] = [{"k": "shellitem", "items": [item], "term": True}]
        else:
            f["targets"] = {"items": [item], "term": True, "pad": ""}
    return spec_of(**f)


class C14(FileProp):
    id = "C14"
    rule = ("One text of arbitrary bytes (encodable, UTF-8, undecodable, multi-byte lead bytes, "
            "surrogates) at one of the 24 ANSI or 22 Unicode places under one of %d code page names, or "
            "a full file of such texts; sweep: each of the 255 byte values alone and in a short text for "
            "every code page, every place with a decodable, a UTF-8 and an undecodable text, all "
            "surrogate combinations at every Unicode place, long texts up to 60000 characters with one special character "
            "at either end. Non-trivial: the text holds a byte above "
            "0x7F." % len(T.CODEPAGES + ALIASES))
    budget = {"quick": (3200, 100000), "thorough": (40000, 1600000)}

    def sweep(self, tier):
        cps = [None] + T.CODEPAGES + ALIASES
        n = 0
        for cp in cps:
            for v in range(1, 256):
                n += 1
                yield {"at": ANSI_AT[n % len(ANSI_AT)], "raw": "%02x" % v, "cp": cp, "wide": False}
                if tier == "thorough" or v > 0x7E:
                    yield {"at": ANSI_AT[n * 7 % len(ANSI_AT)], "raw": "61%02x5c" % v, "cp": cp, "wide": False}
        texts = [t.encode().hex() for t in ("é", "漢字", "abc", "\\\\x~", "😀", "Ω")]
        texts += ["81", "ff", "8190", "9d8d", "e4", "c3", "c3a9ff", "8140", "7e7b", "a1a1", "8f", "5c7e"]
        for at in ANSI_AT:
            for cp in (None, "cp1251", "cp932", "utf-8", "ascii", "cp437", "gb18030", "cp1255"):
                for t in texts:
                    yield {"at": at, "raw": t, "cp": cp, "wide": False}
        # long texts, the byte that matters at either end
        at = ["command_line_arguments", "icon_location", "base", "suffix", "net name", "label", "file entry", "cpl path"]
        for n in (127, 255, 256, 511, 1023, 1024, 2047, 4095, 4096, 8192, 32767, 60000):
            for t, cp in (("c3a9", None), ("8d", "cp1252"), ("c3a9", "ascii"), ("ff", "ascii"), ("e9", "cp1251")):
                for raw in ("61" * n + t, t + "61" * n, t * min(n, 4100)):
                    yield {"at": at[n % 7 if n < 60000 else n % 4], "raw": raw, "cp": cp, "wide": False}
                    yield {"at": at[(n + 3) % 4], "raw": raw, "cp": cp, "wide": False}
            for t in ("00d8", "e900", "41d8", "00dc"):
                for raw in ("6100" * n + t, t + "6100" * n):
                    for w in ("command_line_arguments", "icon_location", "ubase", "prop value", "net name"):
                        yield {"at": w, "raw": raw, "cp": None, "wide": True}
        units = [0x41, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xFEFF, 0xFFFE, 0xFFFF, 0x100, 0x4100, 0xE9, 0x2028]
        for at in WIDE_AT:
            for a in units:
                for b in units:
                    yield {"at": at, "raw": (B.u16(a) + B.u16(b)).hex(), "cp": None if a & 1 else "cp932", "wide": True}
                yield {"at": at, "raw": B.u16(a).hex(), "cp": "ascii", "wide": True}

    def gen(self, src):
        g = Gen(src)
        if src.flag(0.15):
            return g.file()
        g.cp = src.pick([None] + T.CODEPAGES + ALIASES)
        wide = src.flag(0.3)
        raw = g.wide(40) if wide else g.ansi(40)
        return {"at": src.pick(WIDE_AT if wide else ANSI_AT), "raw": raw.hex(), "cp": g.cp, "wide": wide}

    def check(self, case, st):
        if "at" not in case:
            st.label("full file")
            o_case = case
            nt = True
        else:
            raw = B.hx(case["raw"], even=case["wide"])
            o_case = place(case["at"], raw, case["wide"], case["cp"])
            nt = any(v > 0x7F for v in raw)
            st.label("unicode" if case["wide"] else "ansi", "at " + case["at"])
        super().check(o_case, st)
        st.mark(nt)

    def compare(self, case, o, rep, warns, st):
        for k in ("data", "link_info", "extra"):
            expect(o.report[k], get(rep, k), k)
        if "target" in o.report:
            expect(o.report["target"]["items"], sub(rep, "target", "items"), "target.items")
        bad = [d for d in o.dev if d.startswith("undecodable")]
        st.label("undecodable" if bad else "decodable")
        if len(warns) < len(bad):
            raise Violation("no warning for undecodable text: %s, warnings: %s" % (bad[:3], warns[:3]))
        if not o.dev and not o.maybe_warn and warns:
            raise Violation("unexpected warning: %s" % warns[0])


PROP = C14()
