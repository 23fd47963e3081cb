from .common import *   # noqa: F403

Z16 = "00112233445566778899aabbccddee0f"


class C10(FileProp):
    id = "C10"
    rule = ("A property store of 0-3 storages with 0-4 properties each, integer- or string-named, of "
            "any listed type, with zero or other padding, values with trailing bytes, texts with NULs "
            "and invalid UTF-16, surrounded by other blocks; sweep: all property types in both kinds "
            "of storage, all boundary 16-bit integers, text lengths, storage and property counts. "
            "Non-trivial: at least one property.")
    budget = {"quick": (3200, 80000), "thorough": (40000, 1200000)}

    def prop(self, **k):
        d = {"type": T.VT_LPWSTR, "pad": 0, "id": 10, "res": 0, "name": "6e006d00", "int": -2,
             "text": "740065000000", "val": ""}
        d.update(k)
        return d

    def sweep(self, tier):
        def one(props, **k):
            return spec_of(extras=[{"k": "meta", "ext": "", "stores": [
                dict({"fmt": Z16, "version": 0x53505331, "props": props, "tail": ""}, **k)]}])
        p = self.prop
        for t in sorted(T.PROP_TYPES):
            for fmt in (Z16, T.NAMED_FORMAT):
                for pad in (0, 1, 0x100, 0xFFFF):
                    for val in ("", "01000000ffff"):
                        yield one([p(), p(type=t, pad=pad, val=val), p(id=11)], fmt=fmt)
        for v in [0, 1, -1, 127, 128, -128, -129, 255, 256, 32767, -32768, 0x1234]:
            for val in ("", "0000", "ffff", "00ff"):
                yield one([p(type=T.VT_I2, int=v, val=val)])
                yield one([p(type=T.VT_I2, int=v, val=val)], fmt=T.NAMED_FORMAT)
        for n in (0, 1, 2, 3, 127, 128, 255, 256, 260, 261, 4096, 20000):
            for fmt in (Z16, T.NAMED_FORMAT):
                yield one([p(text="7400" * n), p(text="7400" * n + "0000", name="6e00" * (n % 300)),
                           p(id=0xFFFFFFFF)], fmt=fmt)
        for n in (32767, 32768, 65534, 65535, 65536, 65537, 70000, 131072):
            yield one([p(text="7400" * n + "0000"), p(id=11)])
            yield one([p(name="6e00" * (n // 2), text="7400" * (n // 3)), p(id=11)], fmt=T.NAMED_FORMAT)
            yield one([p(text="7400"), p(id=11, val="ab" * n)], tail="cd" * n)
        for n in [*range(0, 40), 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 512, 513, 1000, 1024, 1025, 2000,
                  4097, 5000]:
            yield one([p(name="%02x00" % (i % 90 + 33) * 3, text="%02x00" % (i % 26 + 65)) for i in range(n)],
                      fmt=T.NAMED_FORMAT)
            yield one([p(id=i, text="%02x00" % (i % 100 + 65)) for i in range(n)])
            yield spec_of(extras=[{"k": "meta", "ext": "aa" * (n % 3), "stores": [
                {"fmt": T.NAMED_FORMAT if i % 3 == 0 else "%02x" % (i % 256) * 16, "version": i, "tail": "bb" * (i % 2),
                 "props": [p(id=i)] * (i % 3)} for i in range(n)]}])
        for i in range(16):     # formats that differ from the named one in one bit
            b = bytearray.fromhex(T.NAMED_FORMAT)
            b[i] ^= 1
            yield one([p(id=2, name="7a00")], fmt=b.hex())
        for v in (0, 1, 0xFF, 1 << 31, (1 << 32) - 1):
            yield one([p(id=v)], version=v)
            yield one([p(res=v & 0xFF)], version=v, fmt=T.NAMED_FORMAT)

    def gen(self, src):
        g = Gen(src)
        f = dict(g.start(), info=None, targets=None, strings={})
        ks = src.shuffle(["meta"] + [k for k in ("codepage", "unknown", "shim") if src.flag(0.2)])
        f["extras"] = [g.block(k) for k in ks]
        return g.file(**f)

    def compare(self, case, o, rep, warns, st):
        name = "METADATA_PROPERTIES_BLOCK"
        expect(o.report["extra"].get(name), sub(rep, "extra", name), name)
        n = 0
        for b in case["extras"]:
            if b["k"] == "meta":
                for s in b["stores"]:
                    n += len(s["props"])
                    st.label("string-named" if s["fmt"] == T.NAMED_FORMAT else "integer-named")
                    st.label(*[T.PROP_TYPES[p["type"]] for p in s["props"]
                               if p["type"] in (T.VT_I2, T.VT_LPWSTR)])
        st.mark(n > 0)


PROP = C10()
