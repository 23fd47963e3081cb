import json
import tracemalloc
import warnings

from .. import damage
from .common import *   # noqa: F403

# Above these (per byte of the file) the same structure with a quarter of the units is looked at, too.
PEAK, TEXT = 500, 120
GROWTH = 7              # four times the file: linear is 4, quadratic 16
SLACK_PEAK, SLACK_TEXT = 1 << 20, 40000
# Damaged files have no smaller version; nothing linear comes near these.
FAR_PEAK, FAR_TEXT = 4000, 1000

WHERE = ("items", "vista", "blocks", "stores", "props", "named", "info", "string", "tail", "one item", "one block")


def u(n, v):
    return (v & (1 << 8 * n) - 1).to_bytes(n, "little")


def fill(units, n):
    """About n bytes of whole units."""
    one = b"".join(units)
    B.need(one)
    return one * max(1, n // len(one))


def make(case, quarter=False):
    """A file that consists of one repeated structure."""
    n = case["n"] // 4 if quarter else case["n"]
    units = [B.hx(h) for h in case["units"]]
    k = case["where"]
    bare = case.get("bare")         # the units have no size fields
    flags, body = 0, b""
    if k == "items":
        B.need(n <= 65000)
        b = fill([x if bare else u(2, len(x) + 2) + x for x in units], n)
        flags, body = 1, u(2, len(b) + 2) + b + b"\0\0" + u(4, 0)
    elif k == "one item":
        B.need(n <= 65000)
        head = B.hx(case["head"])
        b = head + fill(units, n)
        B.need(b)
        flags, body = 1, u(2, len(b) + 4) + u(2, len(b) + 2) + b + b"\0\0" + u(4, 0)
    elif k == "vista":
        b = fill([x if bare else u(2, len(x) + 2) + x for x in units], n) + b"\0\0"
        body = u(4, len(b) + 8) + u(4, 0xA000000C) + b + u(4, 0)
    elif k == "blocks":
        body = fill([x if bare else u(4, len(x) + 4) + x for x in units], n) + u(4, 0)
    elif k == "one block":
        b = fill(units, n)
        body = u(4, len(b) + 8) + u(4, case["sig"]) + b + u(4, 0)
    elif k in ("stores", "props", "named"):
        b = fill([x if bare else u(4, len(x) + 4) + x for x in units], n) + u(4, 0)
        if k != "stores":
            fmt = bytes(16) if k == "props" else B.hx(T.NAMED_FORMAT)
            b = u(4, len(b) + 24) + b"1SPS" + fmt + b + u(4, 0)
        body = u(4, len(b) + 8) + u(4, 0xA0000009) + b + u(4, 0)
    elif k == "info":
        b = fill(units, n)
        offs = [(o % 100 + 28 if o < 1000 else o * len(b) // 10000) for o in case["offs"]]
        B.need(len(offs) == 6)
        h = u(4, case["hsize"]) + u(4, case["kind"]) + b"".join(u(4, o) for o in offs)
        flags, body = 2, u(4, len(h) + 4 + len(b)) + h + b + u(4, 0)
    elif k == "string":
        B.need(n <= 130000)
        s = fill(units, n)
        s += b"\0" * (len(s) % 2)
        for bit in (2, 3, 4, 5, 6):
            flags |= 1 << bit
            body += u(2, len(s) // 2 if case["wide"] else min(len(s), 65535)) + (s if case["wide"] else s[:65535])
        flags |= 128 if case["wide"] else 0
        body += u(4, 0)
    elif k == "tail":
        body = u(4, 0) + fill(units, n)
    else:
        raise B.Invalid(k)
    return u(4, 76) + B.hx(B.LNK_CLSID) + u(4, flags) + bytes(52) + body


def measure(data, cp, allow, readable=True):
    """-> (highest use of memory, length of the longest output, refused)"""
    peak = size = 0
    refused = False
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter("always")
        for show in ("print_json", "print_lnk_file")[:1 + readable]:
            tracemalloc.start(1)
            try:
                f = lib.lnk.lnk_file(indata=data, cp=cp, allow_terminal_blocks=allow)
                f.get_json(True)
                out = lib.printed(getattr(f, show), True)
                size = max(size, len(out))
                del f, out
            except lib.Refused:
                refused = True
            except MemoryError:
                raise Violation("a file of %d bytes needs more than 3 GB of memory" % len(data)) from None
            except Exception:       # noqa: BLE001     (C01 judges whether it may be raised)
                refused = True
            finally:
                peak = max(peak, tracemalloc.get_traced_memory()[1])
                tracemalloc.stop()
            said = sum(len(str(w.message)) for w in rec)
            size = max(size, said)
            del rec[:]
            if refused:
                break
    return peak, size, refused


def length(where, units):
    """Enough for a quadratic use of memory to stand out."""
    if where in ("items", "vista", "blocks", "stores", "props", "named"):
        return 10000 + 1500 * (sum(len(x) // 2 for x in units) // len(units) + 3)
    return 20000


class C32(Prop):
    id = "C32"
    rule = ("Files of one structure (items in either list, blocks, property storages, properties, LinkInfo parts that "
            "overlap, strings, one large item or block, appended data) repeated as often as the file has room, with "
            "1-3 different units of 0-60 bytes, with or without size fields of their own, and damaged files with claimed sizes. Oracle: memory in use at its highest "
            "(tracemalloc) and the length of each output and of the warnings stay below a fixed number per byte, or "
            "grow with the number of units no faster than proportionally (a file of a quarter of the units is the "
            "reference). Non-trivial: the file has at least 1000 units, or a damaged size that exceeds the file.")
    assumptions = ["Memory that is not allocated through Python is not seen."]
    budget = {"quick": (100, 1000), "thorough": (3000, 60000)}

    def start(self):
        for n in sorted(damage.samples()):
            measure(damage.samples()[n], None, True)

    def sweep(self, tier):
        cases = []

        def add(where, units, **k):
            cases.append(dict({"where": where, "units": units, "n": length(where, units), "cp": None, "allow": True,
                              "readable": len(cases) % 5 == 0}, **k))
        for t in sorted({0, 1, 0x1E, 0x1F, 0x23, 0x2F, 0x31, 0x32, 0x36, 0x42, 0x4D, 0x52, 0x61, 0x70, 0x71, 0x72, 0x73,
                         0x74, 0x99}):
            b = bytes([t])
            for body in (b, b + b"\0", b + bytes(4), b + b"\x80C:\\\0", b + b"\xc0\xc0a\0b\0c\0\0", b + bytes(21)):
                add("items", [body.hex()])
                add("vista", [body.hex()])
            for rest in ("41", "4100", "00", "e4"):
                add("one item", [rest], head=(b + bytes(11)).hex())
                add("one item", [rest], head=b.hex())
                add("one item", [rest], head=(b + b"\xff" * 21).hex())
        for sig in list(T.SIG.values()) + [7]:
            for m in (0, 4, 20):
                add("blocks", [(u(4, sig) + bytes(m)).hex()])
            for x in ("41", "00", "4100", "ff"):
                add("one block", [x], sig=sig)
        for x in ("01", "0100", "0200", "010001", "ff01", "0100000001", "04", "05", "0400000005", "ffff", "ffff0000"):
            for k in ("items", "vista", "blocks", "stores", "props", "named"):
                add(k, [x], bare=True)
        for x in ("", "00", "0000"):
            add("items", [x])
            add("vista", [x])
            add("blocks", [x])
            add("stores", [x])
            add("props", [x])
            add("named", [x])
        add("stores", [(b"1SPS" + bytes(20)).hex()])
        for v in ("1f000000" + "01000000" + "4100", "02000000" + "0100", "0000" + "0000", "1f000000" + "ffffffff" + "41",
                  "1f000000" + "00000000"):
            add("props", ["0200000000" + v])
            for m in (0, 2, 0xFFFFFFFF):
                add("named", [u(4, m).hex() + "00" + "4100" * (m == 2) + v])
        for kind in range(4):
            for hsize in (28, 36):
                for offs in ([4, 4, 4, 4, 4, 4], [0, 4, 9000, 4, 4, 4], [8, 8, 8, 8, 8, 8], [1000] * 6,
                             [0, 10, 20, 30, 40, 50]):
                    for x in ("41", "41000000", "20000000", "24000000ff", "14000000"):
                        add("info", [x], kind=kind, hsize=hsize, offs=offs)
        for wide in (False, True):
            for x in ("41", "4100", "00", "ff", "00d8"):
                add("string", [x], wide=wide)
        for x in ("41", "00", "08000000", "0c000000040000a0e4040000"):
            add("tail", [x])
            add("tail", [x], allow=False)
        return cases

    def gen(self, src):
        g = Gen(src)
        if src.flag(0.25):
            c = damage.gen(src, 0)
            if "file" in c and src.flag(0.7):   # sizes that claim much, but not too much to be had
                c["edits"] = c["edits"][:2] + [["set", src.int(0, 40), src.int(0, 9) * 4 if src.flag() else src.int(0, 60),
                                                u(4, src.pick([1 << 23, 1 << 25, 100 << 20, 200 << 20])).hex()]]
            return c
        k = src.pick(WHERE)
        c = {"where": k, "units": [], "n": 0, "cp": g.codepage(), "allow": src.flag(0.9), "readable": src.flag(0.15)}
        for _ in range(src.int(1, 3) if src.flag(0.3) else 1):
            if k in ("items", "vista"):
                t = src.pick([0, 1, 0x1F, 0x2F, 0x23, 0x32, 0x36, 0x4D, 0x52, 0x61, 0x71, 0x72, 0x73, 0x74, 0x99, src.int(0, 255)])
                if src.flag(0.4):
                    x = B.item_bytes(g.item(), B.Ctx(None), "")[0]
                else:
                    x = bytes([t]) + src.bytes(0, 24)
                x = x[:60]
            elif k == "blocks":
                x = u(4, src.pick(list(T.SIG.values()) + [7])) + src.bytes(0, 30)
                x = x[:src.int(0, len(x))] if src.flag(0.3) else x
            elif k == "stores":
                x = b"1SPS" + (B.hx(T.NAMED_FORMAT) if src.flag(0.3) else src.bytes(16, 16)) + src.bytes(0, 20)
                x = x[:src.int(0, len(x))] if src.flag(0.2) else x
            elif k in ("props", "named"):
                x = src.bytes(5, 5) if k == "props" else u(4, src.pick([0, 2, 4, 3, 1 << 20])) + b"\0" + src.bytes(0, 4)
                x += src.pick([b"\x1f\0\0\0", b"\2\0\0\0", bytes(4), src.bytes(0, 4)]) + src.bytes(0, 16)
            else:
                x = src.bytes(1, 8) if src.flag() else src.pick([b"A", b"A\0", b"\0", b"\xe4", b"\x14\0\0\0", b"\x20\0\0\0"])
            c["units"].append(x.hex())
        if src.flag(0.15):
            c["bare"] = True
            c["units"] = [src.bytes(1, 6).hex() for _ in c["units"]]
        c["n"] = length(k, c["units"])
        if k == "one item":
            c["head"] = (bytes([src.pick([0, 1, 0x1F, 0x2E, 0x2F, 0x36, 0x32, 0x4D, 0x74, src.int(0, 255)])]) + src.bytes(0, 24)).hex()
        if k == "one block":
            c["sig"] = src.pick(list(T.SIG.values()) + [7])
        if k == "info":
            c.update(kind=src.int(0, 3), hsize=src.pick([28, 36, g.u32() % 200000]),
                     offs=[src.int(0, 99) if src.flag(0.7) else src.int(1000, 11000) for _ in range(6)])
        if k == "string":
            c["wide"] = src.flag()
        return c

    def check(self, case, st):
        if "where" not in case:
            data, cp, allow, _ = damage.realise(case)
            B.need(len(data) < 200000)
            peak, size, refused = measure(data, cp, allow, len(case.get("edits", ())) % 2)
            self.over(peak > FAR_PEAK * len(data) + SLACK_PEAK, "memory", len(data), peak)
            self.over(size > FAR_TEXT * len(data) + SLACK_TEXT, "text", len(data), size)
            st.label("damaged file", *["refused"] * refused)
            st.mark(any(e[0] == "set" and len(e[3]) == 8 and int.from_bytes(B.hx(e[3]), "little") > len(data)
                        for e in case.get("edits", ())))
            return
        B.need(0 < case["n"] <= 600000)
        data = make(case)
        B.need(len(data) <= 800000)
        peak, size, refused = measure(data, case["cp"], case["allow"], case["readable"])
        n = len(data)
        high = peak > PEAK * n + SLACK_PEAK
        long = size > TEXT * n + SLACK_TEXT
        st.label(case["where"], "memory < %d per byte" % (1 << (peak // n).bit_length()),
                 "text < %d per byte" % (1 << (size // n).bit_length()), *["refused"] * refused)
        if high or long:
            st.label("compared with a quarter")
            small = make(case, True)
            p, s, _ = measure(small, case["cp"], case["allow"], case["readable"])
            ratio = n / len(small)
            self.over(high and peak - SLACK_PEAK / 3 > GROWTH / 4 * ratio * p, "memory", n, peak, len(small), p)
            self.over(long and size - SLACK_TEXT / 4 > GROWTH / 4 * ratio * s, "text", n, size, len(small), s)
        st.mark(case["n"] // max(1, sum(len(x) // 2 for x in case["units"]) / len(case["units"]) + 2) >= 1000)

    @staticmethod
    def over(bad, what, n, got, small=0, had=0):
        if bad:
            unit = "bytes of memory" if what == "memory" else "characters"
            raise Violation("a file of %d bytes leads to %d %s" % (n, got, unit)
                            + (", one of %d bytes to %d" % (small, had) if small else ""))


PROP = C32()
