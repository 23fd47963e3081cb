from .c09 import C09
from .common import *   # noqa: F403

PLACES = ["header", "root", "vol", "cpanel", "users1", "users2", "droid_volume_identifier",
          "droid_file_identifier", "birth_droid_volume_identifier", "birth_droid_file_identifier",
          "known", "format", "darwin product", "darwin component"]
A = "a0a1a2a3a4a5a6a7a8a9aaabacadaeaf"


def unpacked(text):
    """The GUID of a packed identifier, or None if it is none."""
    if len(text) < 20:
        return None
    out = b""
    for i in range(0, 20, 5):
        v = 0
        for c in reversed(text[i:i + 5]):
            if c not in B.B85:
                return None
            v = v * 85 + B.B85.index(c)
        if v >= 1 << 32:
            return None
        out += v.to_bytes(4, "little")
    return B.guid_text(out)


def packed(src):
    """Twenty characters that may be a packed identifier, or fewer."""
    n = 20 if src.flag(0.7) else src.int(0, 19)
    t = [B.B85[src.int(0, 84)] for _ in range(n)]
    for i in range(4, n, 5):
        if src.flag(0.8):
            t[i] = B.B85[src.int(0, 81)]
    if src.flag(0.15):      # twenty digits with something before, between or behind them
        t.insert(src.int(0, max(0, n - 1)), src.pick(NODIGIT + ["\t", "\n"]))
    if t and src.flag(0.4):
        t[src.int(0, len(t) - 1)] = src.pick(NODIGIT)
    return "".join(t)


NODIGIT = list(' "#/;:\\|\x7f\x01\xe9') + ["\u0130", "\uff21", "\u2028", "\uffff"]


class C11(Prop):
    id = "C11"
    rule = ("A GUID in one of the 14 places one is stored (some in both the target list and the Vista "
            "block), or a Darwin descriptor of arbitrary product code, feature and component; sweep: "
            "every byte position x every byte value in each place, every base-85 digit position and "
            "value, feature names of length 0-239, packed identifiers that are too short, hold a character that "
            "is no digit at each position or a number above 2^32-1. Non-trivial: the GUID is not all zeros.")
    budget = {"quick": (3200, 120000), "thorough": (40000, 2000000)}

    def sweep(self, tier):
        for at in PLACES:
            for i in range(16):
                for v in range(256):
                    b = bytearray.fromhex(A)
                    b[i] = v
                    if tier == "thorough" or v % 5 == i % 5 or v in (0, 1, 15, 16, 255):
                        yield {"at": at, "guid": b.hex(), "feature": "4600" * (v % 3)}
            yield {"at": at, "guid": "00" * 16, "feature": ""}
            yield {"at": at, "guid": "ff" * 16, "feature": ""}
        for q in range(4):       # every base-85 digit
            for d in range(5):
                for v in range(85):
                    n = v * 85 ** d
                    if n < 1 << 32:
                        g = "00" * (4 * q) + n.to_bytes(4, "little").hex() + "00" * (12 - 4 * q)
                        yield {"at": PLACES[12 + v % 2], "guid": g, "feature": "5800" * (v % 4)}
        good = "!" * 20
        bad = ["!" * n for n in range(20)] + [good[:i] + c + good[i + 1:] for i in range(20) for c in NODIGIT]
        for i in range(4, 20, 5):       # 2^32 - 1, 2^32, 2^32 + 1 and the largest number
            bad += [good[:i - 4] + t + good[i + 1:] for t in ("~~~~~", "!!!!~", "!!!!{", "!!!!}")]
            for v in ((1 << 32) - 1, 1 << 32, (1 << 32) + 1, (1 << 32) + 85, 85 ** 5 - 1):
                bad.append(good[:i - 4] + "".join(B.B85[v // 85 ** k % 85] for k in range(5)) + good[i + 1:])
        bad += [c + good for c in NODIGIT] + [good[:7] + c + good[7:] for c in NODIGIT]
        for t in bad:
            if len(t) == 20:
                yield {"darwin": [t, "Feature", good]}
                yield {"darwin": [t, "", None]}
            yield {"darwin": [good, "", t]}
            yield {"darwin": [good, "Feature", t]}
        for n in range(0, 240):       # up to the full width of the field
            for at in PLACES[12:] + ["darwin none"]:
                if n <= 219 or at == "darwin none":
                    yield {"at": at, "guid": A, "feature": "6600" * n}

    def gen(self, src):
        g = Gen(src)
        if src.flag(0.1):
            return {"darwin": [(packed(src) + "!" * 20)[:20], "Feature"[:src.int(0, 7)], packed(src) if src.flag(0.7) else None]}
        at = src.pick(PLACES + ["darwin product", "darwin component", "darwin none"])
        return {"at": at, "guid": src.bytes(16, 16).hex() if src.flag(0.8) else g.guid(),
                "feature": g.feature().hex() if at.startswith("darwin") else ""}

    def darwin(self, case, st):
        """Identifiers that are none are not made up."""
        product, feature, component = case["darwin"]
        B.need(not any(set(t or "") & set("<>\0") for t in case["darwin"]))
        B.need(len(product) == 20 and len(feature) < 100 and len(component or "") <= 40)
        text = product + feature + ("<" if component is None else ">" + component)
        wide = (text.encode("utf-16-le") + bytes(520))[:520]
        o = B.build(spec_of(extras=[C09.default("darwin")]))
        at = [a for k, _, a, _ in o.layout if k == "block"][0] + 268
        rep, warns, _ = lib.report(o.data[:at] + wide + o.data[at + 520:])
        got = sub(rep, "extra", "DARWIN_BLOCK")
        ids = [unpacked(product), unpacked(component) if component is not None else None]
        for k, v in (("product_code_id", ids[0]), ("feature_name", feature or None), ("component_id", ids[1])):
            expect(v, get(got, k, "DARWIN_BLOCK"), "DARWIN_BLOCK." + k)
        bad = ids[0] is None or component is not None and ids[1] is None
        if bad and not warns:
            raise Violation("no warning for a packed identifier that is none in %r" % text)
        st.label("packed identifier that is none" if bad else "packed identifier")
        st.mark()

    def check(self, case, st):
        if "darwin" in case:
            return self.darwin(case, st)
        at, h = case["at"], case["guid"]
        want = B.guid_text(B.hx(h, 16))
        item = None
        f = {}
        if at == "header":
            f["header"] = {"guid": h}
        elif at == "root":
            item, key = {"k": "root", "type": 0x1F, "sort": 0x50, "guid": h, "ext": ""}, "guid"
        elif at == "vol":
            item, key = {"k": "vol", "type": 0x2E, "unk": 0, "guid": h, "ext": ""}, "volume_identifier"
        elif at == "cpanel":
            item, key = {"k": "cpanel", "type": 0x71, "unk": "00" * 13, "guid": h, "ext": ""}, "item_identifier"
        elif at.startswith("users"):
            fe = {"k": "fs", "type": 0x32, "unk": 0, "size": 0, "dos": 0, "attr": 0, "name": "61",
                  "term": True, "ext": ""}
            item = {"k": "users", "type": 0x74, "unk": 0, "sig": "43465346", "fe": fe, "pad": "",
                    "g1": h if at == "users1" else A, "g2": h if at == "users2" else A, "ext": ""}
            key = "delegate_class_id" if at == "users1" else "delegate_folder_id"
        elif at.endswith("identifier"):
            f["extras"] = [dict(C09.default("tracker"), **{at: h})]
            path = ("DISTRIBUTED_LINK_TRACKER_BLOCK", at)
        elif at == "known":
            f["extras"] = [dict(C09.default("known"), guid=h)]
            path = ("KNOWN_FOLDER_LOCATION_BLOCK", "known_folder_id")
        elif at == "format":
            f["extras"] = [{"k": "meta", "ext": "", "stores": [
                {"fmt": h, "version": 1, "props": [], "tail": ""}]}]
        else:
            comp = None if at == "darwin none" else h if at == "darwin component" else A
            f["extras"] = [dict(C09.default("darwin"), product=A if at == "darwin component" else h,
                                component=comp, feature=case["feature"])]
        if item:
            f["targets"] = {"items": [item], "term": True, "pad": ""}
            f["extras"] = [{"k": "shellitem", "items": [item], "term": True}]
        o = B.build(spec_of(**f))
        rep, _, _ = lib.report(o.data)
        if at == "header":
            expect(want, sub(rep, "header", "guid"), "header.guid")
        elif item:
            for items in (sub(rep, "target", "items"),
                          sub(rep, "extra", "SHELL_ITEM_IDENTIFIER_BLOCK", "id_list")):
                if not items or not isinstance(items[0], dict):
                    raise Violation("no item is reported: %s" % B.short(items))
                expect(want, items[0].get(key), "item " + key)
        elif at == "format":
            s = sub(rep, "extra", "METADATA_PROPERTIES_BLOCK", "property_store")
            if not s:
                raise Violation("no property storage is reported")
            expect(want, s[0].get("format_id"), "format_id")
        elif at.startswith("darwin"):
            e = o.report["extra"]["DARWIN_BLOCK"]
            got = sub(rep, "extra", "DARWIN_BLOCK")
            for k in ("product_code_id", "feature_name", "component_id"):
                expect(e[k], get(got, k, "DARWIN_BLOCK"), "DARWIN_BLOCK." + k)
        else:
            expect(want, sub(rep, "extra", *path), ".".join(path))
        st.label(at)
        st.mark(h != "00" * 16)


PROP = C11()
