import datetime
import itertools
import re

from .. import damage
from .common import *   # noqa: F403

GUID = re.compile(r"[0-9A-F]{8}-[0-9A-F]{4}-[0-9A-F]{4}-[0-9A-F]{4}-[0-9A-F]{12}\Z")
SHA = re.compile(r"[0-9a-f]{64}\Z")
HEX = re.compile(r"0x[0-9a-f]+\Z", re.I)


class Type:
    def __init__(self, name, test):
        self.name, self.test = name, test


def num(bits, low=0):
    return Type("integer of %d bits" % bits, lambda v: type(v) is int and low <= v < 1 << bits)


def text(v):
    if type(v) is not str:
        return False
    try:
        v.encode("utf-8")
    except UnicodeEncodeError:
        return False
    return True


U8, U16, U32 = num(8), num(16), num(32)
I32 = num(31, -(1 << 31))
I16 = num(15, -(1 << 15))
SIZE = Type("size", lambda v: type(v) is int and v >= 0)
RAW = Type("text", text)
TEXT = Type("text without NUL", lambda v: text(v) and "\0" not in v)
NONE = Type("None", lambda v: v is None)
TIME = Type("UTC time", lambda v: type(v) is datetime.datetime and v.utcoffset() == datetime.timedelta(0))
UUID = Type("GUID", lambda v: text(v) and bool(GUID.match(v)))
DIGEST = Type("SHA-256", lambda v: text(v) and bool(SHA.match(v)))
NUMBER = Type("hexadecimal number", lambda v: text(v) and bool(HEX.match(v)))


def one(*names):
    return Type("one of %s" % (names,), lambda v: type(v) is str and v in names)


class Or:
    def __init__(self, *alts):
        self.alts = alts


class List:
    def __init__(self, of):
        self.of = of


class Dict:
    """Entries; names ending in ? may be missing."""

    def __init__(self, **entries):
        self.must = {k: v for k, v in entries.items() if not k.endswith("_opt")}
        self.may = {k[:-4]: v for k, v in entries.items() if k.endswith("_opt")}


class Items:
    """A shell item, by its class."""


def opt(t):
    return Or(t, NONE)


FILE = Dict(flags=TEXT, file_size=U32, modification_time=opt(TIME), file_attribute_flags=U16, primary_name=TEXT,
            **{"class": one("File entry")})
ITEMS = {
    "Root Folder": [Dict(sort_index=TEXT, sort_index_value=U8, guid=UUID)],
    "Volume Item": [Dict(flags=NUMBER, volume_name=TEXT), Dict(flags=NUMBER, volume_identifier=UUID)],
    "File entry": [FILE],
    "Network location": [Dict(flags=TEXT, content_flags=U8, location=TEXT, description=opt(TEXT), comments=opt(TEXT))],
    "Control panel": [Dict(item_identifier=UUID)],
    "Control panel category": [Dict(category=TEXT, category_id=U32)],
    "Control panel CPL file": [Dict(signature=NUMBER, cpl_file_path=TEXT, name=TEXT, comments=TEXT)],
    "Users files folder": [Dict(signature=RAW, file_entry=FILE, delegate_class_id=UUID, delegate_folder_id=UUID)],
    "Unknown": [Dict(size=U16)],
}

HEADER = dict(
    guid=UUID, r_link_flags=U32, r_file_flags=U32, creation_time=opt(TIME), accessed_time=opt(TIME),
    modified_time=opt(TIME), file_size=U32, icon_index=I32,
    windowstyle=one("SW_SHOWNORMAL", "SW_SHOWMAXIMIZED", "SW_SHOWMINNOACTIVE"), hotkey=TEXT, r_hotkey=U16,
    link_flags=List(TEXT), file_flags=List(TEXT), header_size=U32, reserved0=U16, reserved1=U32, reserved2=U32)
LOCAL = Dict(volume_id_size=U32, r_drive_type=U32, volume_label_offset=U32, drive_serial_number=NUMBER,
             drive_type=opt(TEXT), volume_label=opt(TEXT), common_network_relative_link_opt=opt(TEXT),
             volume_label_unicode_offset_opt=U32, volume_label_unicode_opt=TEXT)
NETWORK = Dict(common_network_relative_link_size=U32, common_network_relative_link_flags=U32, net_name_offset=U32,
               device_name_offset=U32, r_network_provider_type=NUMBER, network_provider_type_opt=TEXT,
               net_name_opt=TEXT, device_name_opt=TEXT, net_name_offset_unicode_opt=U32, net_name_unicode_opt=TEXT,
               device_name_offset_unicode_opt=U32, device_name_unicode_opt=TEXT)
INFO = Dict(link_info_size=U32, link_info_header_size=U32, link_info_flags=U32, volume_id_offset=U32,
            local_base_path_offset=U32, common_network_relative_link_offset=U32, common_path_suffix_offset=U32,
            local_base_path_opt=TEXT, common_path_suffix_opt=TEXT, local_base_path_offset_unicode_opt=U32,
            local_base_path_unicode_opt=TEXT, common_path_suffix_offset_unicode_opt=U32,
            common_path_suffix_unicode_opt=TEXT, location_opt=one("Local", "Network"),
            location_info_opt=Or(Dict(), LOCAL, NETWORK))


for _k, _alts in ITEMS.items():
    for _a in _alts:
        _a.must["class"] = one(_k)
CLASSES = {T.item_class(t) for t in range(256)}
ITEM = Items()
BLOCKS = {
    "env": dict(target_ansi=TEXT, target_unicode=TEXT),
    "icon": dict(target_ansi=TEXT, target_unicode=TEXT),
    "console": dict({n: {B.u16: U16, B.i16: I16, B.u32: U32, None: TEXT}[e] for n, e in B.CONSOLE
                     if not n.startswith("unused")}, color_table=U32),
    "tracker": dict(length=U32, version=U32, machine_identifier=TEXT, droid_volume_identifier=UUID,
                    droid_file_identifier=UUID, birth_droid_volume_identifier=UUID, birth_droid_file_identifier=UUID),
    "codepage": dict(code_page=U32),
    "special": dict(special_folder_id=U32, offset=U32),
    "darwin": dict(darwin_data_ansi=TEXT, darwin_data_unicode=TEXT, product_code_id=opt(UUID), feature_name=opt(TEXT),
                   component_id=opt(UUID)),
    "shim": dict(layer_name=TEXT),
    "meta": dict(property_store=List(Dict(
        storage_size=U32, version=NUMBER, format_id=UUID,
        serialized_property_values=List(Or(
            Dict(value_size=U32, id=U32, value=Or(NONE, I16, TEXT), value_type=one(*T.PROP_TYPES.values())),
            Dict(value_size=U32, name_size=U32, name=TEXT, value=Or(NONE, I16, TEXT),
                 value_type=one(*T.PROP_TYPES.values()))))))),
    "known": dict(known_folder_id=UUID, offset=U32),
    "shellitem": dict(id_list=List(ITEM)),
}
EXTRA = {T.BLOCK_NAME[k]: Dict(size=U32, **v) for k, v in BLOCKS.items()}
EXTRA["UNKNOWN_BLOCK"] = List(Dict(size=U32, extra_data_sha256=DIGEST))
EXTRA["TERMINAL_BLOCK"] = Dict(size=SIZE, appended_data_sha256=DIGEST)
REPORT = Dict(
    size=SIZE, header=Dict(**HEADER), target_opt=Dict(size=U16, index=SIZE, items=List(ITEM)),
    link_info=Or(Dict(), INFO), data=Dict(**{n + "_opt": TEXT for n, _, _ in T.STRINGS}),
    extra=Dict(**{n + "_opt": t for n, t in EXTRA.items()}))


def fit(t, v, path):
    """None, or why the value has not the shape."""
    if isinstance(t, Type):
        return None if t.test(v) else "%s is %s, not: %s" % (path, B.short(v, 80), t.name)
    if isinstance(t, Or):
        whys = [fit(a, v, path) for a in t.alts]
        return None if None in whys else max(whys, key=lambda w: (path + "." in w, w))
    if isinstance(t, List):
        if type(v) is not list:
            return "%s is no list: %s" % (path, B.short(v, 80))
        return next(filter(None, (fit(t.of, x, "%s[%d]" % (path, i)) for i, x in enumerate(v))), None)
    if isinstance(t, Items):
        return fit_item(v, path)
    if type(v) is not dict:
        return "%s is no dictionary: %s" % (path, B.short(v, 80))
    for k in v:
        if k not in t.must and k not in t.may:
            return "%s has an entry %r" % (path, k)
    for k in t.must:
        if k not in v:
            return "%s has no entry %r" % (path, k)
    return next(filter(None, (fit(t.must.get(k) or t.may[k], x, "%s.%s" % (path, k)) for k, x in v.items())), None)


def fit_item(v, path):
    if type(v) is not dict or v.get("class") not in CLASSES:
        return "%s is no shell item: %s" % (path, B.short(v, 80))
    if len(v) == 1:
        return None
    alts = ITEMS.get(v["class"])
    if not alts:
        return "%s (%s) has more than its class: %s" % (path, v["class"], sorted(v))
    return fit(Or(*alts) if len(alts) > 1 else alts[0], v, path)


def rules(rep):
    """What the report says about the same value in two ways: (path, said, implied)"""
    h = rep["header"]
    yield "header.link_flags", h["link_flags"], B.bits(h["r_link_flags"], T.LINK_FLAGS)
    yield "header.file_flags", h["file_flags"], B.bits(h["r_file_flags"], T.FILE_FLAGS)
    yield "header.hotkey", h["hotkey"], B.hotkey_text(h["r_hotkey"])
    if "target" in rep:
        yield "target flagged", bool(h["r_link_flags"] & T.LF["HasTargetIDList"]), True
    info = rep["link_info"]
    if not h["r_link_flags"] & T.LF["HasLinkInfo"] or h["r_link_flags"] & T.LF["ForceNoLinkInfo"]:
        yield "link_info", info, {}
    for n, flag, _ in T.STRINGS:
        if not h["r_link_flags"] & T.LF[flag]:
            yield "data." + n, rep["data"].get(n), None
    loc = info.get("location_info")
    where = info.get("location")
    if where:
        yield "link_info.location", where, "Local" if info["link_info_flags"] & 1 else "Network"
    for k in ("local_base_path", "common_path_suffix"):
        if k in info:
            yield "link_info." + k, bool(info[k + "_offset"]), True
        if k + "_unicode" in info:
            yield "link_info." + k + "_unicode", bool(info[k + "_offset_unicode"]), True
            yield "link_info_header_size of Unicode paths", info["link_info_header_size"] >= 36, True
    if loc and where == "Local":
        d = loc["r_drive_type"]
        yield "drive_type", loc["drive_type"], T.DRIVE_TYPES[d] if d < len(T.DRIVE_TYPES) else None
        uni = loc["volume_label_offset"] == 20
        yield "volume_label present", loc["volume_label"] is None, uni
        if "volume_label_unicode" in loc:
            yield "volume_label_unicode present", uni, True
    if loc and where == "Network":
        p = int(loc["r_network_provider_type"], 16)
        want = T.PROVIDERS.get(p) if loc["common_network_relative_link_flags"] & 2 else None
        yield "network_provider_type", loc.get("network_provider_type"), want
        uni = loc["net_name_offset"] > 20
        for k in ("net_name", "device_name"):
            yield k + " present", k in loc and uni, False
            yield k + "_unicode present", k + "_unicode" in loc and not uni, False
    items = list(rep["target"]["items"]) if "target" in rep else []
    b = rep["extra"].get("SHELL_ITEM_IDENTIFIER_BLOCK")
    items += b["id_list"] if b else []
    for it in items:
        if len(it) > 1:
            yield from item_rules(it)
    b = rep["extra"].get("DARWIN_BLOCK")
    if b:
        text = b["darwin_data_unicode"]
        if ">" not in text:
            yield "component_id without >", b["component_id"], None
        if len(text) < 20:
            yield "product_code_id of a short text", b["product_code_id"], None
        if b["feature_name"]:
            yield "feature_name in the text", b["feature_name"] in text, True
    b = rep["extra"].get("METADATA_PROPERTIES_BLOCK")
    for s in b["property_store"] if b else ():
        named = s["format_id"] == "D5CDD505-2E9C-101B-9397-08002B2CF9AE"
        for v in s["serialized_property_values"]:
            yield "named property", "name" in v, named
            kind = {"VT_I2": int, "VT_LPWSTR": str}.get(v["value_type"])
            yield "type of a %s" % v["value_type"], v["value"] is None or type(v["value"]) is kind, True


def item_rules(it):
    c = it["class"]
    if c == "Root Folder":
        yield "sort_index", it["sort_index"], T.SORT_INDEX.get(it["sort_index_value"], "Unknown")
    elif c == "Control panel category":
        i = it["category_id"]
        yield "category", it["category"], T.CATEGORIES[i] if i < len(T.CATEGORIES) else "Unknown"
    elif c == "Volume Item":
        yield "volume name", "volume_name" in it, bool(int(it["flags"], 16) & 1)
        yield "volume flags", int(it["flags"], 16) < 16, True
    elif c == "Network location":
        yield "location flags", it["flags"] in T.KIND.values(), True
        for k, bit in (("description", 0x80), ("comments", 0x40)):
            if not it["content_flags"] & bit:
                yield k, it[k], None
    elif c == "File entry":
        yield "entry flags", it["flags"] in T.KIND.values(), True


# without these bytes an item has not the fields of its class
LEAST = {"Root Folder": 20, "File entry": 14, "Volume Item": 20, "Network location": 5, "Control panel": 32,
         "Control panel category": 12, "Control panel CPL file": 12, "Users files folder": 38}
LEAST_BLOCK = {"console": 144, "tracker": 96, "codepage": 12, "special": 16, "known": 28, "meta": 12}


def frame(data):
    """The items of the list as far as they are well framed: (class, size)"""
    pos = int.from_bytes(data[:4], "little")
    end = min(len(data), pos + 2 + int.from_bytes(data[pos:pos + 2], "little"))
    pos += 2
    while end - pos >= 3:
        n = int.from_bytes(data[pos:pos + 2], "little")
        if not 3 <= n <= end - pos:
            return
        yield T.item_class(data[pos + 2]), n
        pos += n


def facts(rep, data):
    """What the report says about the framing: (path, said, implied)"""
    n = len(data)
    yield "header.header_size", rep["header"]["header_size"], int.from_bytes(data[:4], "little")
    if "target" in rep:
        pos = rep["header"]["header_size"]
        yield "target.size", rep["target"]["size"], int.from_bytes(data[pos:pos + 2], "little")
        items = rep["target"]["items"]
        for i, (cls, size) in enumerate(frame(data)):
            yield "number of items > %d" % i, len(items) > i, True
            it = items[i]
            yield "class of item %d" % i, it["class"], cls
            if len(it) > 1:
                least = LEAST.get(cls, 3) if "volume_name" not in it else 3
                yield "fields of item %d of %d bytes" % (i, size), size < least, False
                if cls == "Unknown":
                    yield "size of item %d" % i, it["size"], size
    loc = rep["link_info"].get("location_info")
    if loc:
        start = rep["link_info"]["volume_id_offset" if "drive_type" in loc else "common_network_relative_link_offset"]
        yield "location fields at %d of %d bytes" % (start, n), start + 16 <= n, True
    for k, least in LEAST_BLOCK.items():
        b = rep["extra"].get(T.BLOCK_NAME[k])
        if b:
            yield "fields of a %s of %d bytes" % (T.BLOCK_NAME[k], b["size"]), b["size"] >= least and n >= least + 76, True


def judge(rep, data, path="report"):
    why = fit(REPORT, rep, path)
    if why:
        raise Violation(why)
    for what, said, implied in itertools.chain(rules(rep), facts(rep, data)):
        if said != implied:
            raise Violation("%s: reported %s, the values reported with it imply %s" % (
                what, B.short(said), B.short(implied)))


class C25(Prop):
    id = "C25"
    rule = ("Damaged files (four in five), well-formed ones, the samples and arbitrary bytes, with every item, block "
            "and location kind; descriptors of arbitrary text. The full report is matched against a schema typed in "
            "here (every entry, its presence, type and range), and values which are reported twice (raw and decoded) "
            "against each other. "
            "Non-trivial: damaged, and the report has a target, a location, texts or blocks.")
    budget = {"quick": (3200, 80000), "thorough": (40000, 1200000)}

    def sweep(self, tier):
        for n in sorted(damage.samples()):
            yield {"sample": n, "edits": [], "cp": None, "allow": True}
            size = len(damage.samples()[n])
            step = 1 if tier == "thorough" else max(1, size // 150)
            for off in range(0, size, step):
                for b in ("00", "ff", "41"):
                    yield {"sample": n, "edits": [["set", 0, off, b]], "cp": None, "allow": True}

    def gen(self, src):
        case = damage.gen(src, 0.2)
        if "file" in case and src.flag(0.15):
            f = case["file"]
            text = "".join(chr(src.pick((src.int(33, 126), 60, 62, src.int(32, 0x2FF)))) for _ in range(src.int(0, 60)))
            wide = text.encode("utf-16-le").hex()
            block = {"k": "env", "ansi": "", "wide": (wide + "00" * 520)[:1040], "ext": ""}
            block["ansi"] = (src.bytes(0, 20).hex() + "00" * 260)[:520]
            f["extras"] = [block]
            case["darwin"] = True
        return case

    def check(self, case, st):
        data, cp, allow, intact = damage.realise(case)
        if case.get("darwin"):
            data = data.replace(b"\x01\0\0\xa0", b"\x06\0\0\xa0")
            intact = False
        with lib.observed():
            try:
                f = lib.lnk.lnk_file(indata=data, cp=cp, allow_terminal_blocks=allow)
            except lib.Refused:
                st.label("refused")
                return
            rep = lib.call("get_json(True)", f.get_json, True)
        judge(rep, data)
        if not allow and "TERMINAL_BLOCK" in rep["extra"]:
            raise Violation("a terminal block is reported although none is allowed")
        st.label("intact" if intact else "damaged", *rep["extra"])
        for it in rep.get("target", {}).get("items", ()):
            st.label("item %s%s" % (it["class"], "" if len(it) > 1 else " alone"))
        if rep["link_info"]:
            st.label("location " + str(rep["link_info"].get("location")))
        st.mark(not intact and (rep["extra"] or rep["data"] or rep["link_info"] or rep.get("target")))


PROP = C25()
