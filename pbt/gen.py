"""Generators of link file descriptions (see build.py) over a source of choices.

`o` (options) narrows a generator: clean=True gives only text, times and
identifiers that raise no warning."""

from . import build as B
from . import tables as T

PATHS = [rb"C:\Windows\System32\cmd.exe", rb"D:\a b\c.txt", rb"..\..\x", rb"\\srv\share", rb"%windir%\notepad.exe",
         b"a", b"", b" ", b"~1", b"'\"", b"- x: [1, {2}]", b"#c", b"EMPTY_LINE_PLACEHOLDER", b"\x85\xa0",
         b"line\r\nnext", b"\tq", b"100%", b"null", b"true", b"0x1F", b"1e3", b"2020-01-01", b": ", b"&a *a !t |", b"\x7f\x81"]
WORDS = ["C:\\Windows", "Ω≈ç√", "привет", "漢字テスト", "שלום", "😀🎉", "é", "\u2028x\u2029", "\ufeffbom",
         "a\nb", "\r\n", "\t", "'", '"', "\\", " lead", "trail ", "EMPTY_LINE_PLACEHOLDER", "\x01\x1f",
         "%ProgramFiles%\\X", "-c \"a b\"", "ß" * 3, "\u0301", "\ud7ff\ue000", "- a", "? b", "#", "\x7f", "\u200f\u202e"]


class Gen:
    def __init__(self, src, clean=False, big=False, deep=True):
        self.s, self.clean, self.big = src, clean, big
        self.cp = None

    # ------------------------------------------------------------- scalars
    def u8(self):
        return self.s.int(0, 255)

    def u16(self):
        return self.s.int(0, 65535)

    def i16(self):
        return self.s.int(-32768, 32767)

    def u32(self):
        return self.s.int(0, (1 << 32) - 1)

    def i32(self):
        return self.s.int(-(1 << 31), (1 << 31) - 1)

    def guid(self):
        if self.s.flag(0.15):
            return self.s.pick(["00" * 16, "ff" * 16, "000102030405060708090a0b0c0d0e0f",
                                "0000000000000000000000000000000a", T.NAMED_FORMAT, B.LNK_CLSID])
        return self.s.bytes(16, 16).hex()

    def ext(self, hi=40):
        if self.s.flag(0.004):      # beyond the range of a narrower field
            return self.s.pick([127, 128, 250, 255, 256, 300, 32700, 32768, 40000, 65536, 70000])
        return self.s.bytes(0, hi).hex() if self.s.flag(0.3) else ""

    def ticks(self):
        s = self.s
        m = s.int(0, 5 if not self.clean else 2)
        if m == 0:
            return 0
        if m <= 2:      # everyday dates, with all sub-second parts
            return s.int(116444736000000000, 160000000000000000)
        if m == 3:      # any representable date
            return s.int(1, B.MAX_TICKS - 1 if not self.clean else B.MAX_TICKS - 10**7)
        if m == 4:      # around the limits
            return s.pick([1, 2, 9, 10, 11, 19, 10**7 - 1, 116444735999999999, 116444736000000000,
                           116444736000000001, B.MAX_TICKS - 1, B.MAX_TICKS, B.MAX_TICKS + 1,
                           (1 << 63) - 1, 1 << 63, (1 << 64) - 1])
        return s.int(0, (1 << 64) - 1)

    def dos(self):
        s = self.s
        if s.flag(0.15):
            return 0
        v = (s.int(0, 127) << 9 | s.int(1, 12) << 5 | s.int(1, 28)
             | (s.int(0, 23) << 11 | s.int(0, 59) << 5 | s.int(0, 29)) << 16)
        if not self.clean and s.flag(0.25):
            v = self.u32()
        return v

    # ---------------------------------------------------------------- text
    def count(self, hi):
        s = self.s
        if self.big and s.flag(0.1):
            return min(hi, s.pick([259, 260, 261, 511, 512, 1023, 4096]))
        return s.size(0, min(hi, 60))

    def ansi(self, hi=60, lo=0, nul=False):
        """Bytes without NUL (unless nul), of at most hi bytes."""
        s = self.s
        m = s.int(0, 5)
        if m == 0:
            b = s.pick(PATHS)
        elif m == 1:
            b = s.bytes(0, self.count(hi))
        elif m == 2:
            b = "".join(s.pick(WORDS) for _ in range(s.int(0, 3))).encode("utf-8")
        elif m == 3:
            b = "".join(s.pick(WORDS) for _ in range(s.int(0, 3))).encode(self.cp or "cp1252", "ignore")
        elif m == 4:
            b = bytes(s.int(32, 126) for _ in range(self.count(min(hi, 12))))
        else:
            b = bytes([s.int(0, 255)]) * self.count(hi)
        if nul and s.flag(0.3):
            b = b + b"\0" + s.bytes(0, 12)
        elif not nul:
            b = b.replace(b"\0", b"\x01")
        b = b[:hi]
        if self.clean and B.dec_ansi(b, self.cp)[1]:
            b = b"clean"[:hi]
        if len(b) < lo:
            b = b + b"x" * (lo - len(b))
        return b

    def wide(self, hi=60, nul=False):
        """UTF-16LE code units (bytes) without a NUL unit (unless nul)."""
        s = self.s
        m = s.int(0, 5)
        if m == 0:
            b = s.pick(PATHS).decode("latin-1").encode("utf-16-le")
        elif m in (1, 2):
            b = "".join(s.pick(WORDS) for _ in range(s.int(0, 4))).encode("utf-16-le")
        elif m == 3:
            b = b"".join(B.u16(s.int(1, 0xFFFF)) for _ in range(self.count(min(hi, 16))))
        elif m == 4:     # code points of all planes
            b = "".join(chr(self.scalar()) for _ in range(self.count(min(hi, 10)))).encode("utf-16-le")
        else:
            b = B.u16(s.int(1, 0xD7FF)) * self.count(hi)
        if nul and s.flag(0.3):
            b = b + b"\0\0" + s.bytes(0, 6) * 2
        b = b[: 2 * hi]
        if not nul:
            b = b.replace(b"\0\0", b"\x01\0") if B.cut00(b) != b else b
            if B.cut00(b) != b:
                b = B.cut00(b)
        if self.clean and B.dec_u16(b)[1]:
            b = "clean".encode("utf-16-le")[: 2 * hi]
        return b

    def scalar(self):
        v = self.s.int(1, 0x10FFFF - 0x800)
        return v if v < 0xD800 else v + 0x800

    def fixed(self, n, wide=False):
        """A fixed-width field: full, or terminated and followed by anything."""
        b = self.wide(n // 2) if wide else self.ansi(n)
        if self.s.flag(0.1):            # full width, no terminator
            unit = b or (b"\x41\0" if wide else b"A")
            b = (unit * (n // len(unit) + 1))[:n]
            if self.clean and (B.dec_u16(b) if wide else B.dec_ansi(b, self.cp))[1]:
                b = (b"A\0" if wide else b"A") * (n // (2 if wide else 1))
            return b.hex()
        if len(b) >= n:
            return b[:n].hex()
        b += b"\0\0" if wide else b"\0"
        b = b[:n]
        junk = self.s.bytes(0, 8) if self.s.flag(0.5) else b""
        if junk:
            b += (junk * (n // len(junk) + 1))
        return (b + b"\0" * n)[:n].hex()

    # --------------------------------------------------------------- items
    KINDS = ["root", "vol", "fs", "net", "cpanel", "category", "cpl", "users", "plain", "unknown"]

    def file_entry(self, lo=0x30):
        s = self.s
        t = s.pick([0x31, 0x32, 0x35, 0x36]) if s.flag(0.5) else s.pick([0x30, 0xB0]) + s.int(0, 15)
        if self.clean and t & 7 == 0:
            t |= 1
        name = (self.wide() if t & 4 else self.ansi())
        term = s.flag(0.8)
        d = {"k": "fs", "type": t, "unk": self.u8(), "size": self.u32(), "dos": self.dos(),
             "attr": self.u16(), "name": name.hex(), "term": term,
             "ext": self.ext() if term else ""}
        if t & 4 and not term and not self.clean and s.flag(0.3):
            d["half"] = "%02x" % s.int(0, 255)
        return d

    def item(self, kinds=None):
        s = self.s
        k = s.pick(kinds or self.KINDS)
        if k == "root":
            sort = s.pick(sorted(T.SORT_INDEX)) if self.clean or s.flag(0.6) else self.u8()
            return {"k": k, "type": s.pick([0x1E, 0x1F]), "sort": sort, "guid": self.guid(),
                    "ext": self.ext()}
        if k == "vol":
            return {"k": k, "type": s.pick([0x20, 0xA0]) + s.int(0, 15), "name": self.fixed(20),
                    "unk": self.u8(), "guid": self.guid(), "ext": self.ext()}
        if k == "fs":
            return self.file_entry()
        if k == "net":
            t = s.pick([0x40, 0xC0]) + s.int(0, 15)
            if self.clean and t & 7 == 0:
                t |= 2
            term = s.flag(0.8)
            return {"k": k, "type": t, "unk": self.u8(), "cflags": self.u8(),
                    "loc": self.ansi().hex(), "desc": self.ansi().hex(), "comm": self.ansi().hex(),
                    "term": term, "ext": self.ext() if term else ""}
        if k == "cpanel":
            return {"k": k, "type": s.pick([0x70, 0x71]), "unk": s.bytes(13, 13).hex(),
                    "guid": self.guid(), "ext": self.ext()}
        if k == "category":
            cid = s.int(0, 11) if self.clean or s.flag(0.7) else self.u32()
            return {"k": k, "type": 1, "unk": self.u8(), "sig": s.pick([0x39DE2184, self.u32()]),
                    "id": cid, "ext": self.ext()}
        if k == "cpl":
            uni = s.flag()
            str_ = self.wide if uni else self.ansi
            path = str_()
            if not uni and not path:
                path = b"x.cpl"
            unk = bytearray(s.bytes(12, 12) if s.flag() else 12)
            unk[4] = 0
            it = {"k": k, "type": 0, "uni": uni, "unk0": self.u8(), "sig": self.u32(),
                  "unk": bytes(unk).hex(), "path": path.hex(), "name": str_().hex(),
                  "comm": str_().hex(), "has_comm": s.flag(0.7),
                  "gap": (s.bytes(0, 4) * 2).hex() if s.flag(0.2) else "",
                  "term": s.flag(0.8), "ext": ""}
            if not self.clean and s.flag(0.2):
                it["share"] = s.int(0, len(path) // (2 if uni else 1))
                if s.flag():
                    it["comm"] = it["name"]
            return it
        if k == "users":
            sig = s.pick([b"CFSF", s.bytes(4, 4)])
            return {"k": k, "type": 0x74, "unk": self.u8(), "sig": sig.hex(),
                    "fe": self.file_entry(), "pad": self.ext(12), "g1": self.guid(),
                    "g2": self.guid(), "ext": self.ext()}
        if k == "plain":
            return {"k": k, "type": s.pick([0x52, 0x61, 0x72, 0x73]), "data": s.bytes(0, 30).hex()}
        if k == "unknown":
            if self.clean:
                return self.item(["root", "vol", "fs", "net", "cpanel", "cpl", "plain"])
            return {"k": k, "type": s.pick(UNKNOWN_TYPES), "data": s.bytes(0, 30).hex()}
        if k == "raw":       # often too short to be interpreted
            t = s.pick([0, 1, 0x1E, 0x1F, 0x2E, 0x2F, 0x31, 0x32, 0x36, 0x41, 0xC3, 0x70, 0x71, 0x74,
                        0xB1]) if s.flag(0.8) else self.u8()
            return {"k": k, "type": t, "data": s.bytes(0, 36).hex()}
        raise AssertionError(k)

    def items(self, lo=0, hi=6, kinds=None):
        return [self.item(kinds) for _ in range(self.s.int(lo, hi))]

    def targets(self, lo=0, hi=5, kinds=None):
        s = self.s
        term = s.flag(0.95)
        return {"items": self.items(lo, hi, kinds), "term": term,
                "pad": self.ext(12) if term and s.flag(0.3) else ""}

    # ------------------------------------------------------------ LinkInfo
    def info(self, kinds=("local", "network", "both")):
        s = self.s
        kind = s.pick(list(kinds))
        hs = s.pick([28, 28, 36, 36, 29, 32, 35, 37, 40, s.int(28, 80)])
        d = {"kind": kind, "hsize": hs, "xflags": 0 if s.flag(0.8) else self.u32() & ~3}
        if kind == "none":
            d["data"] = s.bytes(0, 60).hex()
            return d
        label_wide = s.flag(0.4)
        d["vol"] = {"drive": s.int(0, 6) if s.flag(0.7) else self.u32(), "serial": self.u32(),
                    "wide": label_wide, "label": (self.wide(20) if label_wide else self.ansi(20)).hex(),
                    "gap": self.ext(12), "size": None if s.flag(0.9) else self.u32()}
        d["base"] = self.ansi(300 if self.big else 60).hex()
        d["ubase"] = self.wide().hex() if s.flag(0.8) else None
        d["suffix"] = self.ansi().hex()
        d["usuffix"] = self.wide().hex() if s.flag(0.8) else None
        prov = s.pick(sorted(T.PROVIDERS)) if s.flag(0.7) else self.u32()
        d["cnrl"] = {"provider": prov, "nettype": s.flag(0.8), "xflags": 0 if s.flag(0.8) else self.u32() & ~3,
                     "uni": s.flag(0.4), "net": self.shown().hex(),
                     "dev": self.shown().hex() if s.flag(0.6) else None,
                     "unet": self.wide().hex(), "udev": self.wide().hex() if s.flag(0.6) else None,
                     "gap": self.ext(6), "gap2": self.ext(6), "size": None if s.flag(0.9) else self.u32()}
        d["order"] = [s.int(0, 99) for _ in range(6)] if s.flag(0.6) else [0] * 6
        d["gaps"] = [self.ext(6) for _ in range(6)] if s.flag(0.4) else [""] * 6
        if s.flag(0.1):       # texts that are the tail of others share their bytes
            d["share"] = True
            d["suffix"] = self.tail(d["base"])
            d["cnrl"]["dev"] = self.tail(d["cnrl"]["net"]) or d["cnrl"]["net"]
            d["cnrl"]["udev"] = self.tail(d["cnrl"]["unet"], 2)
            if d["ubase"] is not None:
                d["usuffix"] = self.tail(d["ubase"], 2)
            if B.dec_ansi(bytes.fromhex(d["cnrl"]["dev"]), self.cp)[0] == "":
                d["cnrl"]["dev"] = d["cnrl"]["net"]
        d["hpad"] = self.ext(8)
        d["tail"] = self.ext(10)
        return d

    def tail(self, h, width=1):
        """The tail of a text (and of its bytes); may be empty."""
        n = len(h) // 2 // width
        t = h[2 * width * self.s.int(0, min(n, 12)):]
        raw = bytes.fromhex(t)
        if self.clean and (B.dec_u16(raw) if width == 2 else B.dec_ansi(raw, self.cp))[1]:
            return h
        return t

    def shown(self):
        b = self.ansi(lo=1)
        return b if B.dec_ansi(b, self.cp)[0] else b"x"

    # -------------------------------------------------------------- strings
    def string(self, limit, unicode, hi=80):
        s = self.s
        raw = self.wide(hi, nul=True) if unicode else self.ansi(hi, nul=True)
        w = 2 if unicode else 1
        over = 0
        if limit and (s.flag(0.12)):     # longer than the limit
            unit = raw or (b"P\0" if unicode else b"P")
            raw = (unit * (limit * w // len(unit) + 1))[: limit * w]
            over = s.pick([0, 1, 2, 100, 65535 - limit])
        elif s.flag(0.1):
            n = s.pick([255, 256, 257, 259, 260] if limit else [259, 260, 261, 262, 521, 1000, 2049])
            unit = raw or (b"P\0" if unicode else b"P")
            raw = (unit * (n * w // len(unit) + 1))[: n * w]
        if self.clean and (B.dec_u16(raw) if unicode else B.dec_ansi(raw, self.cp))[1]:
            raw = (b"q\0" if unicode else b"q") * (len(raw) // w)
        return {"raw": raw.hex(), "over": over}

    def strings(self, unicode, p=0.5):
        out = {}
        for key, _, limit in T.STRINGS:
            if self.s.flag(p):
                out[key] = self.string(limit, unicode)
        return out

    # --------------------------------------------------------------- blocks
    BLOCKS = list(T.SIG)

    def block(self, k):
        s = self.s
        b = {"k": k, "ext": self.ext(24)}
        if k in ("env", "icon"):
            b["ansi"], b["wide"] = self.fixed(260), self.fixed(520, True)
        elif k == "darwin":
            b["ansi"] = self.fixed(260)
            b["product"] = self.guid()
            b["component"] = self.guid() if s.flag(0.7) else None
            b["feature"] = self.feature(b["component"] is None).hex()
            b["fill"] = self.ext(8)
        elif k == "console":
            for name, enc in B.CONSOLE:
                if name == "face_name":
                    b[name] = self.fixed(64, True)
                else:
                    b[name] = {B.u16: self.u16, B.i16: self.i16, B.u32: self.u32}[enc]()
            b["colors"] = [self.u32() for _ in range(16)] if s.flag(0.5) else \
                [0, 0x800000] * 7 + [self.u32(), 0xFFFFFF]
        elif k == "tracker":
            b["length"] = 0x58 if self.clean or s.flag(0.8) else self.u32()
            b["version"] = 0 if self.clean or s.flag(0.8) else self.u32()
            b["machine"] = self.fixed(16)
            for n in ("droid_volume_identifier", "droid_file_identifier",
                      "birth_droid_volume_identifier", "birth_droid_file_identifier"):
                b[n] = self.guid()
        elif k == "codepage":
            b["cp"] = s.pick([437, 932, 1252, 65001, self.u32()])
        elif k == "special":
            b["id"], b["offset"] = self.u32(), self.u32()
        elif k == "known":
            b["guid"], b["offset"] = self.guid(), self.u32()
        elif k == "shim":
            b["name"], b["term"] = self.wide().hex(), s.flag(0.8)
            if not b["term"] and not self.clean and s.flag(0.3):
                b["half"] = "%02x" % s.int(0, 255)
        elif k == "meta":
            b["stores"] = self.stores()
        elif k == "shellitem":
            b["items"] = self.items(0, 4)
            b["term"] = s.flag(0.9)
        elif k == "unknown":
            b["data"] = s.bytes(0, 40).hex()
            b["sig"] = self.sig()
            b["ext"] = ""
        return b

    def feature(self, none=False):
        if self.s.flag(0.05):       # the descriptor fills its field
            return "f\0".encode() * (239 if none else 219)
        b = self.wide(self.s.pick([0, 1, 8, 38, 60, 200]))
        text = B.dec_u16(b)[0]
        if "<" in text or ">" in text or B.dec_u16(b)[1]:
            return "Feature".encode("utf-16-le")
        return b

    def sig(self):
        s = self.s
        v = s.pick([0, 1, 0xA0000000, 0xA000000A, 0xA000000D, 0xA00000FF, 0x53505331, self.u32(),
                    0xA0000001 ^ (1 << s.int(8, 31)), 0x0A000001])
        return v if v not in T.SIG.values() else 0xA000000A

    def stores(self, lo=0, hi=3):
        s = self.s
        out = []
        for _ in range(s.int(lo, hi)):
            fmt = T.NAMED_FORMAT if s.flag(0.35) else self.guid()
            out.append({"fmt": fmt, "version": 0x53505331 if s.flag(0.8) else self.u32(),
                        "props": [self.prop() for _ in range(s.int(0, 4))], "tail": self.ext(8)})
        return out

    def prop(self):
        s = self.s
        t = s.pick([T.VT_LPWSTR, T.VT_I2]) if s.flag(0.6) else s.pick(sorted(T.PROP_TYPES))
        return {"type": t, "pad": 0 if s.flag(0.85) else self.u16(), "id": self.u32(),
                "res": self.u8() if s.flag(0.2) else 0, "name": self.wide(20, nul=True).hex(),
                "int": self.i16(), "text": self.wide(40, nul=True).hex(),
                "val": s.bytes(0, 16).hex() if s.flag(0.6) else ""}

    def extras(self, p=0.25, kinds=None):
        s = self.s
        ks = [k for k in (kinds or self.BLOCKS) if s.flag(p)]
        for _ in range(s.size(0, 3) if kinds is None else 0):
            ks.append("unknown")
        ks = s.shuffle(ks)
        return [self.block(k) for k in ks]

    # --------------------------------------------------------------- header
    def header(self):
        s = self.s
        h = B.base()["header"]
        h["flags"] = self.u32() & ~T.SECTION_BITS
        h["attrs"] = self.u32() if s.flag(0.5) else 1 << s.int(0, 31)
        h["ctime"], h["atime"], h["wtime"] = self.ticks(), self.ticks(), self.ticks()
        h["size"], h["icon"] = self.u32(), self.i32()
        h["show"] = s.int(0, 12) if s.flag(0.7) else self.u32()
        h["hotkey"] = self.u16() if s.flag(0.5) else s.pick(sorted(T.HOT_KEY)) | s.int(0, 4) << 8
        if not self.clean:
            if s.flag(0.15):
                h["guid"] = self.guid()
            if s.flag(0.1):
                h["res0"], h["res1"], h["res2"] = self.u16(), self.u32(), self.u32()
        return h

    # ----------------------------------------------------------------- file
    def codepage(self):
        s = self.s
        if s.flag(0.4):
            return None
        return s.pick(T.CODEPAGES)

    def start(self, cp=False):
        """Choose the code page first, for generators used before file()."""
        self.cp = self.codepage() if cp is False else cp
        return {"cp": self.cp}

    def file(self, **f):
        """A whole link file; keyword arguments replace sections or their generators."""
        s = self.s
        spec = B.base()
        self.cp = spec["cp"] = f["cp"] if "cp" in f else self.codepage()
        spec["allow"] = f.get("allow", True if s.flag(0.6) else False)
        spec["unicode"] = f.get("unicode", True if s.flag(0.6) else False)
        spec["header"] = f["header"] if "header" in f else (
            self.header() if s.flag(0.5) else B.base()["header"])
        spec["force"] = f.get("force", s.flag(0.05))
        if "targets" in f:
            spec["targets"] = f["targets"]
        elif s.flag(0.7):
            spec["targets"] = self.targets()
        if "info" in f:
            spec["info"] = f["info"]
        elif s.flag(0.6):
            spec["info"] = self.info()
        spec["strings"] = f["strings"] if "strings" in f else self.strings(spec["unicode"])
        spec["extras"] = f["extras"] if "extras" in f else self.extras()
        spec["terminal"] = f.get("terminal", s.int(0, 3) if s.flag(0.3) else 0)
        spec["appended"] = f["appended"] if "appended" in f else (
            s.bytes(0, 40).hex() if s.flag(0.25) else "")
        if "terminal" not in f and not spec["appended"] and s.flag(0.08):
            spec["terminal"] = None         # some writers leave it out
        return spec


UNKNOWN_TYPES = [t for t in range(256) if T.item_class(t) == "Unknown"]
