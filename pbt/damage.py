"""Damaging files: byte-level edits described by JSON values.

An edit is [kind, section, offset, payload]: the position is relative to a
section of the file's layout, so that size, count and offset fields are hit."""

import os

from . import build as B
from .gen import Gen

CORPUS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "corpus")
_samples = {}


def samples():
    if not _samples:
        for n in sorted(os.listdir(CORPUS)):
            with open(os.path.join(CORPUS, n), "rb") as f:
                _samples[n] = f.read()
    return _samples


def apply(data, layout, edits):
    data = bytearray(data)
    for kind, sec, off, payload in edits:
        n = len(data)
        if layout:
            _, _, a, b = layout[sec % len(layout)]
        else:
            a, b = 0, n
        pos = min(a + off, n)
        if kind == "cut":
            del data[pos:]
        elif kind == "set":
            b = B.hx(payload)
            data[pos:pos + len(b)] = b
        elif kind == "ins":
            data[pos:pos] = B.hx(payload)
        elif kind == "del":
            del data[pos:pos + int(payload, 16)]
        elif kind == "dup":
            data[pos:pos] = data[pos:pos + int(payload, 16)]
        elif kind == "link":    # a distance, modulo 2^32, from here to another place in the section
            data[pos:pos + 4] = ((a + int(payload, 16) - pos) & 0xffffffff).to_bytes(4, "little")
        elif kind == "app":
            data += B.hx(payload)
        else:
            raise B.Invalid(kind)
    return bytes(data)


NUM16 = ["0000", "0100", "0200", "0300", "0400", "ffff", "ff7f", "0080", "1400", "feff"]
NUM32 = ["00000000", "01000000", "02000000", "03000000", "04000000", "05000000", "07000000", "08000000",
         "ffffffff", "ffffff7f", "00000080", "14000000", "15000000", "24000000", "1c000000", "ffff0000",
         "00000100", "fcffffff", "13000000"]


def edits(src, lo=0, hi=5):
    out = []
    for _ in range(src.int(lo, hi)):
        m = src.int(0, 9)
        sec = src.int(0, 40)
        off = src.int(0, 40) if src.flag(0.8) else src.int(0, 1200)
        if m <= 2:
            out.append(["set", sec, off, src.pick(NUM32)])
        elif m == 3:
            out.append(["set", sec, off, src.pick(NUM16)])
        elif m == 4:
            out.append(["set", sec, off, src.bytes(1, 8).hex()])
        elif m == 5:
            out.append(["set", sec, off, "%02x" % src.int(0, 255)])
        elif m == 6:
            out.append(["del", sec, off, "%x" % src.int(1, 40)])
        elif m == 7:
            out.append(["ins", sec, off, src.bytes(1, 12).hex()])
        elif m == 8:
            out.append(["dup", sec, off, "%x" % src.int(1, 200)])
        else:
            out.append(["cut", sec, off, ""])
    return out


def gen(src, intact=0.3):
    """A file that is well-formed (with probability `intact`), damaged, or arbitrary bytes."""
    g = Gen(src)
    m = src.int(0, 19)
    if m == 0:
        return {"raw": src.bytes(0, 400).hex(), "cp": g.codepage(), "allow": src.flag()}
    if m <= 2:
        names = sorted(samples())
        return {"sample": src.pick(names), "edits": edits(src, 0, 6), "cp": g.codepage(),
                "allow": src.flag()}
    g2 = g.file()
    if m == 3 and src.flag():
        # sizes in a property store block that lead around in a circle
        g2["extras"] = g2["extras"][:src.int(0, 1)] + [dict(g.block("meta"), stores=g.stores(1, 3))]
        spots = [8] if src.flag() else [src.int(3, 14) * 4]
        while len(spots) < 3 and (len(spots) < 2 or src.flag(0.3)):
            spots.append(32 if src.flag(0.3) else src.int(3, 30) * 4)
        if src.flag():
            spots = [32] + [src.int(9, 24) * 4 for _ in spots[1:]]
        e = [["link", -2, p, "%x" % q] for p, q in zip(spots, spots[1:] + spots[:1])]
        return {"file": g2, "edits": e + (edits(src, 1, 1) if src.flag(0.1) else [])}
    if src.flag(0.3):      # items that may be too short
        g2["targets"] = g.targets(0, 6, g.KINDS + ["raw"] * 5)
    return {"file": g2, "edits": [] if src.flag(intact) else edits(src, 1, 5)}


def realise(case):
    """-> (bytes, code page, allow, intact)"""
    if "raw" in case:
        return B.hx(case["raw"]), case["cp"], case["allow"], False
    if "sample" in case:
        B.need(case["sample"] in samples())
        data = samples()[case["sample"]]
        return apply(data, None, case["edits"]), case["cp"], case["allow"], not case["edits"]
    o = B.build(case["file"])
    return apply(o.data, o.layout, case["edits"]), o.cp, o.allow, not case["edits"]
