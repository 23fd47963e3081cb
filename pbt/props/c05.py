from .c04 import lists
from .common import *   # noqa: F403


class C05(FileProp):
    id = "C05"
    rule = ("1-6 well-formed items with arbitrary field values, encodings, terminators and extension "
            "data, in the target list, the Vista ID-list block or both, followed by arbitrary bytes of "
            "other structures; sweep: all types of volume, file entry and network items, all sort "
            "indexes, content flags and categories, boundary values of numeric fields, both CPL "
            "layouts with all offset classes. Non-trivial: some item is reported with a field beyond "
            "its class.")
    budget = {"quick": (4800, 120000), "thorough": (60000, 2000000)}

    def sweep(self, tier):
        def one(it):
            return spec_of(targets={"items": [it, it], "term": True, "pad": "1122"},
                           extras=[{"k": "shellitem", "items": [it], "term": False}],
                           strings={"command_line_arguments": {"raw": "58" * 8, "over": 0}},
                           unicode=False)
        g = "00112233445566778899aabbccddeeff"
        for v in range(256):
            yield one({"k": "root", "type": 0x1E + v % 2, "sort": v, "guid": g, "ext": ""})
            yield one({"k": "net", "type": 0x41, "unk": 0, "cflags": v, "loc": "6c6f63", "desc": "64",
                       "comm": "63", "term": bool(v % 2), "ext": ""})
            yield one({"k": "category", "type": 1, "unk": v, "sig": 0, "id": v, "ext": ""})
        for hi in (0x20, 0xA0, 0x30, 0xB0, 0x40, 0xC0):
            for t in range(hi, hi + 16):
                for term in (True, False):
                    if hi & 0x70 == 0x20:
                        yield one({"k": "vol", "type": t, "name": "433a5c" + "00" * 17 if term else "41" * 20,
                                   "unk": 9, "guid": g, "ext": "" if term else "6162"})
                    elif hi & 0x70 == 0x30:
                        yield one({"k": "fs", "type": t, "unk": 1, "size": 0x01020304, "dos": 0x58A758A7,
                                   "attr": 0x8001, "name": "41006200", "term": term, "ext": "7a7a" if term else ""}
                                  if t & 4 else
                                  {"k": "fs", "type": t, "unk": 1, "size": 0xFFFFFFFE, "dos": 0x58A758A7,
                                   "attr": 0xFFFF, "name": "416263", "term": term, "ext": "7a" if term else ""})
                    else:
                        for cf in (0, 0x40, 0x80, 0xC0):
                            yield one({"k": "net", "type": t, "unk": 0, "cflags": cf, "loc": "5c5c73",
                                       "desc": "", "comm": "6363", "term": term, "ext": "6565" if term else ""})
        for uni in (True, False):
            w = (lambda s: s.encode("utf-16-le").hex()) if uni else (lambda s: s.encode().hex())
            for n in (0, 1, 2, 3, 10, 12, 13, 300):
                for hc in (True, False):
                    for term in (True, False):
                        yield one({"k": "cpl", "type": 0, "uni": uni, "unk0": 0, "sig": 0xFFFFFF36, "unk": "00" * 12,
                                   "path": w("p" * max(n, 1)), "name": w("name" * (n % 4)), "comm": w("c" * n),
                                   "has_comm": hc, "gap": "41420000" if n % 2 else "", "term": term, "ext": ""})

        # items at the limits of narrower numbers
        fs = {"k": "fs", "type": 0x32, "unk": 1, "size": 7, "dos": 0x58A758A7, "attr": 32, "name": 6, "term": True, "ext": ""}
        cpl = {"k": "cpl", "type": 0, "unk0": 0, "sig": 0xFFFFFF36, "unk": "00" * 12, "name": 4, "comm": 6,
               "has_comm": True, "gap": "", "term": True, "ext": ""}
        net = {"k": "net", "type": 0x41, "unk": 0, "cflags": 0xC0, "loc": 3, "desc": 5, "comm": 7, "term": True, "ext": ""}
        users = {"k": "users", "type": 0x74, "unk": 0, "sig": b"CFSF".hex(), "fe": fs, "pad": 3, "g1": g, "g2": "ff" * 16, "ext": ""}

        def alone(it):
            spec = spec_of(unicode=False, strings={"command_line_arguments": {"raw": 8, "over": 0}},
                           targets={"items": [it], "term": True, "pad": ""})
            vista = spec_of(unicode=False, strings={}, extras=[{"k": "shellitem", "items": [it], "term": False}])
            return spec, vista
        for n in (120, 128, 244, 250, 256, 258, 1000, 32700, 32750, 32768, 33000, 65000):
            many = [dict(fs, name=n), dict(fs, type=0x36, name=n), dict(fs, ext=n), dict(cpl, uni=False, path=n),
                    dict(cpl, uni=False, path=n, share=n - 5), dict(cpl, uni=False, path=8, name=n), dict(cpl, uni=False, path=8, gap=n),
                    dict(cpl, uni=True, path=n), dict(cpl, uni=True, path=8, name=n), dict(cpl, uni=True, path=8, gap=n),
                    dict(net, loc=n), dict(net, desc=n), dict(net, comm=n), dict(users, pad=n), dict(users, fe=dict(fs, name=n)),
                    {"k": "vol", "type": 0x2E, "name": 20, "unk": 9, "guid": g, "ext": n},
                    {"k": "root", "type": 0x1F, "sort": 0x50, "guid": g, "ext": n},
                    {"k": "category", "type": 1, "unk": 5, "sig": 0, "id": 3, "ext": n}]
            for it in many:
                yield from alone(it)

    def gen(self, src):
        g = Gen(src, big=True)
        f = dict(g.start(), strings={}, info=None, extras=[])
        if src.flag(0.2):
            f = g.start()
        where = src.int(0, 2)
        f["targets"] = g.targets(1, 5) if where != 1 else None
        if where:
            b = g.block("shellitem")
            b["items"] = g.items(1, 4)
            f["extras"] = [b] if src.flag(0.6) else [g.block("unknown"), b, g.block("known")]
        g2 = g.file(**f)
        # names must suit the code page of the file
        return g2

    def compare(self, case, o, rep, warns, st):
        rich = False
        for name, exp, got in lists(rep, o):
            expect(exp, got, name)
            rich |= any(isinstance(e, dict) and len(e) > 1 for e in exp)
            for e in exp:
                st.label("class " + e["class"])
        st.mark(rich)


PROP = C05()
