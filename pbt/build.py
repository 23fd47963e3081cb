"""The oracle: an encoder of link files.

build(spec) turns a JSON-able description of a link file into its bytes, the
report those bytes must give (get_json(True)), the deviations that must be
warned about, and the layout.  It is written from MS-SHLLINK, MS-OLEPS and the
libfwsi documentation and shares nothing with /repo."""

import datetime as dt
import hashlib
import struct
import uuid

from . import tables as T

UTC = dt.timezone.utc


class Invalid(Exception):
    """The description is outside the grammar (only reached while shrinking)."""


def need(cond, why=""):
    if not cond:
        raise Invalid(why)


def u8(v):
    need(isinstance(v, int) and 0 <= v < 256)
    return struct.pack("<B", v)


def u16(v):
    need(isinstance(v, int) and 0 <= v < 1 << 16)
    return struct.pack("<H", v)


def i16(v):
    need(isinstance(v, int) and -(1 << 15) <= v < 1 << 15)
    return struct.pack("<h", v)


def u32(v):
    need(isinstance(v, int) and 0 <= v < 1 << 32)
    return struct.pack("<I", v)


def i32(v):
    need(isinstance(v, int) and -(1 << 31) <= v < 1 << 31)
    return struct.pack("<i", v)


def u64(v):
    need(isinstance(v, int) and 0 <= v < 1 << 64)
    return struct.pack("<Q", v)


def hx(s, size=None, even=False):
    """The bytes of a description: hexadecimal text, or a number of letters a."""
    if isinstance(s, int) and not isinstance(s, bool):
        need(0 <= s <= 1 << 25 and size in (None, s) and not (even and s % 2))
        return b"a" * s
    need(isinstance(s, str))
    try:
        b = bytes.fromhex(s)
    except ValueError:
        raise Invalid("hex") from None
    need(size is None or len(b) == size, "size")
    need(not even or len(b) % 2 == 0, "even")
    return b


# --------------------------------------------------------------------- values

def guid_text(b):
    need(len(b) == 16)
    return str(uuid.UUID(bytes_le=bytes(b))).upper()


class FT:
    """Expected FILETIME: an instant with a tolerance, possibly also None."""

    def __init__(self, when, tol, none_ok=False):
        self.when, self.tol, self.none_ok = when, tol, none_ok

    def diff(self, got):
        if got is None:
            return None if self.none_ok else "got None, expected %s" % self.when
        if not isinstance(got, dt.datetime) or got.utcoffset() != dt.timedelta(0):
            return "got %r, expected the UTC time %s" % (got, self.when)
        if abs(got - self.when) > dt.timedelta(microseconds=self.tol):
            return "got %r, expected %s" % (got, self.when)
        return None

    def __repr__(self):
        return "FT(%s)" % self.when


class Cls:
    """Expected item: any dictionary of this class (content not interpretable)."""

    def __init__(self, name):
        self.name = name

    def diff(self, got):
        if not isinstance(got, dict) or got.get("class") != self.name:
            return "got %r, expected an item of class %r" % (got, self.name)
        return None

    def __repr__(self):
        return "Cls(%r)" % self.name


EPOCH = dt.datetime(1601, 1, 1, tzinfo=UTC)
MAX_TICKS = 2650467744000000000          # 10000-01-01


def filetime(ticks):
    """-> (expected, deviation)"""
    if ticks == 0:
        return None, False
    if ticks >= MAX_TICKS:
        return None, True
    when = EPOCH + dt.timedelta(microseconds=ticks // 10)
    tol = 2 if when.year < 2300 else 20
    if ticks >= MAX_TICKS - 2000:        # may round up to the year 10000
        return FT(when, 200, True), None
    return FT(when, tol), False


def dostime(v):
    if v == 0:
        return None, False
    date, time = v & 0xFFFF, v >> 16
    try:
        return dt.datetime(1980 + (date >> 9), (date >> 5) & 15, date & 31, time >> 11,
                           (time >> 5) & 63, (time & 31) * 2, tzinfo=UTC), False
    except ValueError:
        return None, True


def cut0(b):
    i = b.find(0)
    return b if i < 0 else b[:i]


def cut00(b):
    for i in range(0, len(b) - 1, 2):
        if b[i] == 0 and b[i + 1] == 0:
            return b[:i]
    return b


def dec_ansi(b, cp):
    """-> (text, deviation) of the bytes before the first NUL."""
    b = cut0(b)
    cp = cp or "cp1252"
    try:
        return b.decode(cp), False
    except UnicodeDecodeError:
        pass
    try:
        return b.decode("utf-8"), False
    except UnicodeDecodeError:
        return b.decode(cp, "replace"), True


def dec_u16(b):
    b = cut00(b)
    try:
        return b.decode("utf-16-le"), False
    except UnicodeDecodeError:
        return b.decode("utf-16-le", "replace"), True


B85 = "!$%&'()*+,-.0123456789=?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[]^_`abcdefghijklmnopqrstuvwxyz{}~"


def pack_guid(b):
    """Windows Installer's 20-character packing of a GUID."""
    need(len(b) == 16)
    out = ""
    for v in struct.unpack("<4I", b):
        for _ in range(5):
            out += B85[v % 85]
            v //= 85
    return out


# -------------------------------------------------------------------- builder

class Ctx:
    def __init__(self, cp):
        self.cp = cp
        self.dev = []          # deviations that must be warned about
        self.texts = 0

    def ansi(self, b, where):
        text, bad = dec_ansi(b, self.cp)
        self.texts += 1
        if bad:
            self.dev.append("undecodable text: " + where)
        return text

    def wide(self, b, where):
        text, bad = dec_u16(b)
        self.texts += 1
        if bad:
            self.dev.append("undecodable text: " + where)
        return text

    def note(self, bad, what):
        if bad:
            self.dev.append(what)


# ---------------------------------------------------------------- shell items

def item_bytes(it, cx, where):
    """-> (bytes of the item after ItemIDSize, expected entry)"""
    k = it["k"]
    t = it["type"]
    cls = T.item_class(t)
    exp = {"class": cls}
    tb = u8(t)
    if k == "raw":                       # content that need not be interpretable
        data = tb + hx(it["data"])
        if cls == "Unknown":
            return item_unknown(data, exp, cx, where)
        return data, Cls(cls)
    if k == "unknown":
        need(cls == "Unknown")
        return item_unknown(tb + hx(it["data"]), exp, cx, where)
    if k == "plain":
        need(cls in ("Printers", "Common places folder", "Compressed folder", "Internet"))
        return tb + hx(it["data"]), exp
    if k == "root":
        need(cls == "Root Folder")
        s = it["sort"]
        g = hx(it["guid"], 16)
        exp["sort_index_value"] = s
        exp["sort_index"] = T.SORT_INDEX.get(s, "Unknown")
        cx.note(s not in T.SORT_INDEX, "unknown sort index: " + where)
        exp["guid"] = guid_text(g)
        return tb + u8(s) + g + hx(it["ext"]), exp
    if k == "vol":
        need(cls == "Volume Item")
        exp["flags"] = hex(t & 0x0F)
        if t & 1:
            name = hx(it["name"], 20)
            exp["volume_name"] = cx.ansi(name, where + " volume name")
            return tb + name + hx(it["ext"]), exp
        g = hx(it["guid"], 16)
        exp["volume_identifier"] = guid_text(g)
        return tb + u8(it["unk"]) + g + hx(it["ext"]), exp
    if k == "fs":
        need(cls == "File entry")
        body, e = file_entry(it, cx, where)
        exp.update(e)
        return body, exp
    if k == "net":
        need(cls == "Network location")
        exp["flags"] = T.KIND[t & 7]
        cx.note(t & 7 == 0, "unknown kind: " + where)
        cf = it["cflags"]
        exp["content_flags"] = cf
        strs = [it["loc"]]
        if cf & 0x80:
            strs.append(it["desc"])
        if cf & 0x40:
            strs.append(it["comm"])
        raw = [hx(s) for s in strs]
        need(all(0 not in b for b in raw))
        texts = [cx.ansi(b, where + " string %d" % i) for i, b in enumerate(raw)]
        exp["location"] = texts.pop(0)
        exp["description"] = texts.pop(0) if cf & 0x80 else None
        exp["comments"] = texts.pop(0) if cf & 0x40 else None
        body = b"\0".join(raw)
        if it["term"]:
            body += b"\0" + hx(it["ext"])
        return tb + u8(it["unk"]) + u8(cf) + body, exp
    if k == "cpanel":
        need(cls == "Control panel")
        g = hx(it["guid"], 16)
        exp["item_identifier"] = guid_text(g)
        return tb + hx(it["unk"], 13) + g + hx(it["ext"]), exp
    if k == "category":
        need(cls == "Control panel category")
        c = it["id"]
        exp["category_id"] = c
        exp["category"] = T.CATEGORIES[c] if c < len(T.CATEGORIES) else "Unknown"
        cx.note(c >= len(T.CATEGORIES), "unknown category: " + where)
        return tb + u8(it["unk"]) + u32(it["sig"]) + u32(c) + hx(it["ext"]), exp
    if k == "cpl":
        need(cls == "Control panel CPL file")
        exp["signature"] = "0x%08X" % it["sig"]
        uni = it["uni"]
        w = 2 if uni else 1
        path, name, comm = (hx(it[f], even=uni) for f in ("path", "name", "comm"))
        for b in (path, name, comm):
            need((cut00(b) if uni else cut0(b)) == b)
        gap = hx(it["gap"], even=uni)
        nul = b"\0" * w
        area = path + nul + gap
        noff = len(area) // w
        share = it.get("share")
        if share is not None:            # the name is the end of the path
            need(0 <= share <= len(path) // w)
            noff, name = share, path[share * w:]
        else:
            area += name + nul
        if it["has_comm"] and it["comm"] == it["name"] and share is not None and noff:
            coff = noff
            comm = name
        elif it["has_comm"]:
            coff = len(area) // w
            area += comm + nul
        else:
            coff = 0
        if not it["term"] and not it["ext"]:
            area = area[:-w]             # the last string ends with the item
        dec = cx.wide if uni else cx.ansi
        exp["cpl_file_path"] = dec(path, where + " path")
        exp["name"] = dec(name, where + " name")
        exp["comments"] = dec(comm, where + " comments") if it["has_comm"] else ""
        if uni:
            unk = hx(it["unk"], 12)
            need(unk[4] == 0)            # how the two layouts are told apart
            head = u32(it["sig"]) + unk + u16(noff) + u16(coff)
        else:
            need(len(path) > 0)          # an ANSI path is not empty
            head = u32(it["sig"]) + u16(noff) + u16(coff)
        return tb + u8(it["unk0"]) + head + area + hx(it["ext"]), exp
    if k == "users":
        need(cls == "Users files folder")
        sig = hx(it["sig"], 4)
        exp["signature"] = sig.decode("ascii", "replace")
        need(T.item_class(it["fe"]["type"]) == "File entry")
        fe, fexp = file_entry(it["fe"], cx, where + " file entry")
        fexp["class"] = "File entry"
        exp["file_entry"] = fexp
        fe = u16(len(fe) + 2) + fe
        inner = sig + fe + hx(it["pad"])
        g1, g2 = hx(it["g1"], 16), hx(it["g2"], 16)
        exp["delegate_class_id"] = guid_text(g1)
        exp["delegate_folder_id"] = guid_text(g2)
        return tb + u8(it["unk"]) + u16(len(inner)) + inner + g1 + g2 + hx(it["ext"]), exp
    raise Invalid(k)


def item_unknown(data, exp, cx, where):
    exp["size"] = len(data) + 2
    cx.note(True, "unknown item type: " + where)
    return data, exp


def file_entry(it, cx, where):
    t = it["type"]
    wide = bool(t & 4)
    exp = {"flags": T.KIND[t & 7], "file_size": it["size"], "file_attribute_flags": it["attr"]}
    cx.note(t & 7 == 0, "unknown kind: " + where)
    exp["modification_time"], bad = dostime(it["dos"])
    cx.note(bad, "invalid time: " + where)
    name = hx(it["name"], even=wide)
    need((cut00(name) if wide else cut0(name)) == name)
    if it.get("half"):                  # ends with half a character
        need(wide and not it["term"])
        name += hx(it["half"], 1)
    exp["primary_name"] = (cx.wide if wide else cx.ansi)(name, where + " name")
    body = u8(t) + u8(it["unk"]) + u32(it["size"]) + u32(it["dos"]) + u16(it["attr"]) + name
    if it["term"]:
        body += (b"\0\0" if wide else b"\0") + hx(it["ext"])
    return body, exp


def id_list(items, cx, where):
    """-> (bytes, expected entries, [(start, end)])"""
    out, exps, spans = b"", [], []
    for i, it in enumerate(items):
        b, e = item_bytes(it, cx, "%s[%d]" % (where, i))
        need(len(b) + 2 < 1 << 16)
        spans.append((len(out), len(out) + len(b) + 2))
        out += u16(len(b) + 2) + b
        exps.append(e)
    return out, exps, spans


# ------------------------------------------------------------------- LinkInfo

def link_info(s, cx):
    """-> (bytes, expected link_info or None when there is nothing to report)"""
    hs = s["hsize"]
    need(hs >= 28 and hs < 1 << 17)
    kind = s["kind"]
    need(s["xflags"] & 3 == 0)
    flags = {"local": 1, "network": 2, "both": 3, "none": 0}[kind] | s["xflags"]
    if kind == "none":
        body = u32(hs) + u32(flags) + hx(s["data"])
        return u32(len(body) + 4) + body, None
    wide = hs >= 36
    parts = {}
    if kind in ("local", "both"):
        parts["vol"] = None
        parts["base"] = strz(s["base"])
        if wide and s["ubase"] is not None:
            parts["ubase"] = strzz(s["ubase"])
    if kind in ("network", "both"):
        parts["cnrl"] = None
    parts["suffix"] = strz(s["suffix"])
    if wide and s["usuffix"] is not None:
        parts["usuffix"] = strzz(s["usuffix"])
    loc = {}
    exp = {"link_info_header_size": hs, "link_info_flags": flags, "location_info": loc}
    if "vol" in parts:
        v = s["vol"]
        label = strzz(v["label"]) if v["wide"] else strz(v["label"])
        gap = hx(v["gap"])
        first = 20 if v["wide"] else 16
        off = first + len(gap)
        if not v["wide"] and off == 0x14:   # 0x14 announces the Unicode label
            gap += b"\x2a"
            off += 1
        vb = u32(v["drive"]) + u32(v["serial"])
        vb += (u32(0x14) + u32(off)) if v["wide"] else u32(off)
        vb += gap + label
        vsize = len(vb) + 4 if v["size"] is None else v["size"]
        parts["vol"] = u32(vsize) + vb
        if kind in ("local", "both"):
            loc.update({"volume_id_size": vsize, "r_drive_type": v["drive"],
                        "drive_type": T.DRIVE_TYPES[v["drive"]] if v["drive"] < 7 else None,
                        "drive_serial_number": "0x%x" % v["serial"],
                        "volume_label_offset": 0x14 if v["wide"] else off})
            if v["wide"]:
                loc["volume_label"] = None
                loc["volume_label_unicode_offset"] = off
                loc["volume_label_unicode"] = cx.wide(hx(v["label"], even=True), "volume label")
            else:
                loc["volume_label"] = cx.ansi(hx(v["label"]), "volume label")
    if "cnrl" in parts:
        c = s["cnrl"]
        cflags = (1 if c["dev"] is not None else 0) | (2 if c["nettype"] else 0) | c["xflags"]
        need(c["xflags"] & 3 == 0)
        uni = c["uni"]
        first = 28 if uni else 20
        gap = hx(c["gap"]) if uni else b""
        blob = gap
        netoff = first + len(blob)
        blob += strz(c["net"])
        gap2 = hx(c["gap2"])
        blob += gap2
        devoff = 0
        share = s.get("share")

        def place(text):
            """-> its offset; with `share` it can be (the tail of) another text"""
            nonlocal blob
            if share and text in blob:
                return first + blob.index(text)
            blob += text
            return first + len(blob) - len(text)

        if c["dev"] is not None:
            devoff = place(strz(c["dev"]))
        unet = udev = 0
        if uni:
            unet = place(strzz(c["unet"]))
            if c["udev"] is not None:
                udev = place(strzz(c["udev"]))
            blob = u32(unet) + u32(udev) + blob
        cb = u32(cflags) + u32(netoff) + u32(devoff) + u32(c["provider"]) + blob
        csize = len(cb) + 4 if c["size"] is None else c["size"]
        parts["cnrl"] = u32(csize) + cb
        if kind == "network":
            loc.update({"common_network_relative_link_size": csize,
                        "common_network_relative_link_flags": cflags,
                        "net_name_offset": netoff, "device_name_offset": devoff,
                        "r_network_provider_type": "0x%x" % c["provider"]})
            if c["nettype"] and c["provider"] in T.PROVIDERS:
                loc["network_provider_type"] = T.PROVIDERS[c["provider"]]
            if uni:
                loc["net_name_offset_unicode"] = unet
                loc["net_name_unicode"] = cx.wide(hx(c["unet"], even=True), "net name")
                if c["udev"] is not None:
                    loc["device_name_offset_unicode"] = udev
                    loc["device_name_unicode"] = cx.wide(hx(c["udev"], even=True), "device name")
            else:
                loc["net_name"] = cx.ansi(hx(c["net"]), "net name")
                need(loc["net_name"])
                if c["dev"] is not None:
                    loc["device_name"] = cx.ansi(hx(c["dev"]), "device name")
                    need(loc["device_name"])
    # lay the parts out in the given order with the given gaps
    names = sorted(parts)
    order = s["order"]
    need(len(order) >= len(names))
    names = [n for _, n in sorted(zip(order, names))]
    gaps = s["gaps"]
    need(len(gaps) >= len(names))
    off, body = {}, b""
    for g, n in zip(gaps, names):
        if s.get("share") and n not in ("vol", "cnrl") and parts[n] in body:
            # the text is there already, as (the tail of) another one
            off[n] = hs + body.index(parts[n])
            continue
        body += hx(g)
        off[n] = hs + len(body)
        body += parts[n]
    body += hx(s["tail"])
    cx.parts = {n: (off[n], off[n] + len(parts[n])) for n in names}
    exp["volume_id_offset"] = off.get("vol", 0)
    exp["local_base_path_offset"] = off.get("base", 0)
    exp["common_network_relative_link_offset"] = off.get("cnrl", 0)
    exp["common_path_suffix_offset"] = off["suffix"]
    exp["common_path_suffix"] = cx.ansi(hx(s["suffix"]), "path suffix")
    if "base" in parts:
        exp["local_base_path"] = cx.ansi(hx(s["base"]), "base path")
    if "ubase" in parts:
        exp["local_base_path_offset_unicode"] = off["ubase"]
        exp["local_base_path_unicode"] = cx.wide(hx(s["ubase"], even=True), "base path unicode")
    if "usuffix" in parts:
        exp["common_path_suffix_offset_unicode"] = off["usuffix"]
        exp["common_path_suffix_unicode"] = cx.wide(hx(s["usuffix"], even=True), "suffix unicode")
    exp["location"] = "Network" if kind == "network" else "Local"
    head = u32(flags) + u32(exp["volume_id_offset"]) + u32(exp["local_base_path_offset"])
    head += u32(exp["common_network_relative_link_offset"]) + u32(off["suffix"])
    if wide:
        head += u32(off.get("ubase", 0)) + u32(off.get("usuffix", 0))
    head = u32(hs) + head
    fill = hs - 4 - len(head)
    need(fill >= 0)
    head += (hx(s["hpad"]) + b"\xEE" * fill)[:fill]
    total = 4 + len(head) + len(body)
    exp["link_info_size"] = total
    return u32(total) + head + body, exp


def strz(h):
    b = hx(h)
    need(0 not in b)
    return b + b"\0"


def strzz(h):
    b = hx(h, even=True)
    need(cut00(b) == b)
    return b + b"\0\0"


# ----------------------------------------------------------------- extra data

CONSOLE = [("fill_attributes", u16), ("popup_fill_attributes", u16),
           ("screen_buffer_size_x", i16), ("screen_buffer_size_y", i16),
           ("window_size_x", i16), ("window_size_y", i16),
           ("window_origin_x", i16), ("window_origin_y", i16),
           ("unused1", u32), ("unused2", u32),
           ("font_size", u32), ("font_family", u32), ("font_weight", u32), ("face_name", None),
           ("cursor_size", u32), ("full_screen", u32), ("quick_edit", u32),
           ("insert_mode", u32), ("auto_position", u32), ("history_buffer_size", u32),
           ("number_of_history_buffers", u32), ("history_no_dup", u32)]


def block(b, cx, where):
    """-> (block bytes, expected entry)"""
    k = b["k"]
    ext = hx(b.get("ext", ""))
    exp = {}
    spans = None
    if k == "unknown":
        sig = b["sig"]
        need(sig not in T.SIG.values())
        body = hx(b["data"])
        exp["extra_data_sha256"] = hashlib.sha256(u32(sig) + body).hexdigest()
        ext = b""
    else:
        sig = T.SIG[k]
    if k in ("env", "icon"):
        a, w = hx(b["ansi"], 260), hx(b["wide"], 520)
        exp["target_ansi"] = cx.ansi(a, where + " ansi")
        exp["target_unicode"] = cx.wide(w, where + " unicode")
        body = a + w
    elif k == "darwin":
        a = hx(b["ansi"], 260)
        prod = hx(b["product"], 16)
        feat = hx(b["feature"], even=True)
        need(cut00(feat) == feat)
        ftext, bad = dec_u16(feat)
        need(not bad and "<" not in ftext and ">" not in ftext)
        desc = pack_guid(prod).encode("utf-16-le") + feat
        exp["product_code_id"] = guid_text(prod)
        exp["feature_name"] = ftext or None
        if b["component"] is None:
            desc += "<".encode("utf-16-le")
            exp["component_id"] = None
        else:
            comp = hx(b["component"], 16)
            desc += (">" + pack_guid(comp)).encode("utf-16-le")
            exp["component_id"] = guid_text(comp)
        need(len(desc) <= 520)
        exp["darwin_data_ansi"] = cx.ansi(a, where + " ansi")
        exp["darwin_data_unicode"] = cx.wide(desc, where + " unicode")
        if len(desc) < 520:
            fill = hx(b["fill"])
            desc += b"\0\0" + (fill + b"\x41" * 520)
            desc = desc[:520]
        body = a + desc
    elif k == "console":
        body = b""
        for name, enc in CONSOLE:
            if name == "face_name":
                f = hx(b["face_name"], 64)
                body += f
                exp["face_name"] = cx.wide(f, where + " face name")
                continue
            body += enc(b[name])
            if not name.startswith("unused"):
                exp[name] = b[name]
        colors = b["colors"]
        need(len(colors) == 16)
        body += b"".join(u32(c) for c in colors)
        exp["color_table"] = colors[0]
    elif k == "tracker":
        exp["length"], exp["version"] = b["length"], b["version"]
        cx.note(b["length"] != 0x58, "tracker length: " + where)
        cx.note(b["version"] != 0, "tracker version: " + where)
        m = hx(b["machine"], 16)
        exp["machine_identifier"] = cx.ansi(m, where + " machine")
        body = u32(b["length"]) + u32(b["version"]) + m
        for n in ("droid_volume_identifier", "droid_file_identifier",
                  "birth_droid_volume_identifier", "birth_droid_file_identifier"):
            g = hx(b[n], 16)
            exp[n] = guid_text(g)
            body += g
    elif k == "codepage":
        exp["code_page"] = b["cp"]
        body = u32(b["cp"])
    elif k == "special":
        exp["special_folder_id"], exp["offset"] = b["id"], b["offset"]
        body = u32(b["id"]) + u32(b["offset"])
    elif k == "known":
        g = hx(b["guid"], 16)
        exp["known_folder_id"], exp["offset"] = guid_text(g), b["offset"]
        body = g + u32(b["offset"])
    elif k == "shim":
        w = hx(b["name"], even=True)
        need(cut00(w) == w)
        if b.get("half"):
            need(not b["term"])
            w += hx(b["half"], 1)
        exp["layer_name"] = cx.wide(w, where + " layer")
        body = w
        if b["term"]:
            body += b"\0\0"
        else:
            ext = b""
    elif k == "meta":
        body, exp["property_store"] = prop_store(b["stores"], cx, where)
    elif k == "shellitem":
        body, exp["id_list"], sp = id_list(b["items"], cx, where)
        spans = [(s + 8, e + 8) for s, e in sp]
        if b["term"]:
            body += b"\0\0"
        else:
            ext = b""
    elif k != "unknown":
        raise Invalid(k)
    out = u32(sig) + body + ext
    if "stub" in b:                     # only so many bytes of the signature
        need(k == "unknown" and 0 <= b["stub"] < 4 and "claim" not in b)
        out = out[:b["stub"]]
        exp["extra_data_sha256"] = hashlib.sha256(out).hexdigest()
    exp["size"] = len(out) + 4
    if "claim" in b:                    # the block is said to be larger than the file
        need(exp["size"] < b["claim"])
        exp["size"] = b["claim"]
    return u32(exp["size"]) + out, exp, spans


def prop_store(stores, cx, where):
    out, exps = b"", []
    for si, s in enumerate(stores):
        fmt = hx(s["fmt"], 16)
        named = fmt.hex() == T.NAMED_FORMAT
        body, vals = b"", []
        for pi, p in enumerate(s["props"]):
            w = "%s[%d][%d]" % (where, si, pi)
            e = {"value_type": T.PROP_TYPES[p["type"]], "value": None}
            v = hx(p["val"])
            if p["type"] == T.VT_LPWSTR:
                text = hx(p["text"], even=True)
                v = u32(len(text) // 2) + text + v
                if p["pad"] == 0:
                    e["value"] = cx.wide(text, w + " value")
            elif p["type"] == T.VT_I2:
                v = i16(p["int"]) + v
                if p["pad"] == 0:
                    e["value"] = p["int"]
            if named:
                name = hx(p["name"], even=True)
                e["name_size"] = len(name)
                e["name"] = cx.wide(name, w + " name")
                key = u32(len(name)) + u8(p["res"]) + name
            else:
                e["id"] = p["id"]
                key = u32(p["id"]) + u8(p["res"])
            pb = key + u16(p["type"]) + u16(p["pad"]) + v
            e["value_size"] = len(pb) + 4
            body += u32(len(pb) + 4) + pb
            vals.append(e)
        sb = u32(s["version"]) + fmt + body + u32(0) + hx(s["tail"])
        exps.append({"storage_size": len(sb) + 4, "version": hex(s["version"]),
                     "format_id": guid_text(fmt), "serialized_property_values": vals})
        out += u32(len(sb) + 4) + sb
    return out + u32(0), exps


# ------------------------------------------------------------------ whole file

LNK_CLSID = "0114020000000000c000000000000046"


def base():
    """The smallest well-formed link file."""
    return {"cp": None, "allow": True,
            "header": {"guid": LNK_CLSID, "flags": 0, "attrs": 0, "ctime": 0, "atime": 0,
                       "wtime": 0, "size": 0, "icon": 0, "show": 1, "hotkey": 0,
                       "res0": 0, "res1": 0, "res2": 0, "hsize": 76},
            "force": False, "unicode": True, "targets": None, "info": None, "strings": {},
            "extras": [], "terminal": 0, "appended": ""}


class Built:
    parts = {}      # LinkInfo: part -> (first byte, end)
    vista = ()      # the same for the items of the Vista block


HEADER_FIELDS = [("guid", 4, 20), ("link_flags", 20, 24), ("file_flags", 24, 28),
                 ("creation_time", 28, 36), ("accessed_time", 36, 44), ("modified_time", 44, 52),
                 ("file_size", 52, 56), ("icon_index", 56, 60), ("windowstyle", 60, 64),
                 ("hotkey", 64, 66), ("reserved0", 66, 68), ("reserved1", 68, 72),
                 ("reserved2", 72, 76)]


def hotkey_text(v):
    lo, hi = v & 0xFF, v >> 8
    raw = "%02x%02x" % (lo, hi)
    if hi in T.HOT_MOD and lo in T.HOT_KEY:
        return "%s - %s {0x%s}" % (T.HOT_MOD[hi], T.HOT_KEY[lo], raw)
    return raw


def bits(v, names):
    return [n for i, n in enumerate(names) if v >> i & 1]


def section_flags(spec):
    f = 0
    if spec["targets"] is not None:
        f |= T.LF["HasTargetIDList"]
    if spec["info"] is not None:
        f |= T.LF["HasLinkInfo"]
    for key, flag, _ in T.STRINGS:
        if key in spec["strings"]:
            f |= T.LF[flag]
    if spec["unicode"]:
        f |= T.LF["IsUnicode"]
    if spec["force"]:
        f |= T.LF["ForceNoLinkInfo"]
    return f


def build(spec):
    cx = Ctx(spec["cp"])
    o = Built()
    o.layout = []                 # (kind, id, start, end)
    h = spec["header"]
    need(h["flags"] & T.SECTION_BITS == 0)
    flags = h["flags"] | section_flags(spec)
    g = hx(h["guid"], 16)
    hs = h["hsize"]
    need(76 <= hs < 1 << 18)
    head = u32(hs) + g + u32(flags) + u32(h["attrs"])
    eh = {"guid": guid_text(g), "r_link_flags": flags, "r_file_flags": h["attrs"],
          "link_flags": bits(flags, T.LINK_FLAGS), "file_flags": bits(h["attrs"], T.FILE_FLAGS)}
    cx.note(h["guid"] != LNK_CLSID, "class identifier")
    cx.note(hs != 76, "header size")
    o.maybe_warn = False
    for name, key in (("creation_time", "ctime"), ("accessed_time", "atime"),
                      ("modified_time", "wtime")):
        head += u64(h[key])
        eh[name], bad = filetime(h[key])
        cx.note(bad, "invalid time: " + name)
        o.maybe_warn |= bad is None
    head += u32(h["size"]) + i32(h["icon"]) + u32(h["show"]) + u16(h["hotkey"])
    head += u16(h["res0"]) + u32(h["res1"]) + u32(h["res2"])
    for r in ("res0", "res1", "res2"):
        cx.note(h[r] != 0, "reserved field " + r)
    head += b"\xAA" * (hs - 76)
    eh.update({"file_size": h["size"], "icon_index": h["icon"],
               "windowstyle": T.SHOW.get(h["show"], "SW_SHOWNORMAL"),
               "hotkey": hotkey_text(h["hotkey"]), "r_hotkey": h["hotkey"],
               "header_size": hs, "reserved0": h["res0"], "reserved1": h["res1"],
               "reserved2": h["res2"]})
    rep = {"header": eh, "link_info": {}, "data": {}, "extra": {}}
    data = head
    o.layout.append(("header", None, 0, hs))
    # target ID list
    t = spec["targets"]
    if t is not None:
        body, exps, spans = id_list(t["items"], cx, "item")
        base_off = len(data) + 2
        for i, (a, e) in enumerate(spans):
            o.layout.append(("item", i, base_off + a, base_off + e))
        body += b"\0\0" if t["term"] else b""
        if not t["term"] and t["pad"]:      # the list ends within the size or type of an item
            need(len(hx(t["pad"])) == 1 or len(hx(t["pad"])) == 2 and any(hx(t["pad"])))
            cx.dev.append("list tail")
        body += hx(t["pad"])
        rep["target"] = {"size": len(body), "items": exps, "index": len(data) + 2}
        o.layout.append(("idlist", None, len(data), base_off + len(body)))
        data += u16(len(body)) + body
    # LinkInfo
    if spec["info"] is not None:
        sub = Ctx(spec["cp"])
        b, e = link_info(spec["info"], sub)
        if e is not None and not spec["force"]:
            rep["link_info"] = e
            cx.dev += sub.dev
        o.layout.append(("info", None, len(data), len(data) + len(b)))
        o.parts = {n: (len(data) + x, len(data) + y) for n, (x, y) in getattr(sub, "parts", {}).items()}
        data += b
    # string data
    need(set(spec["strings"]) <= {k for k, _, _ in T.STRINGS})
    for key, _, limit in T.STRINGS:
        if key not in spec["strings"]:
            continue
        s = spec["strings"][key]
        raw = hx(s["raw"], even=spec["unicode"])
        n = len(raw) // 2 if spec["unicode"] else len(raw)
        count = n + s["over"]           # characters that are announced, but not stored
        need(s["over"] == 0 or (limit and n == limit))
        need(not limit or n <= limit)
        rep["data"][key] = (cx.wide if spec["unicode"] else cx.ansi)(raw, key)
        o.layout.append(("string", key, len(data), len(data) + 2 + len(raw)))
        data += u16(count) + raw
    # extra data
    seen = set()
    nth = 0
    for i, b in enumerate(spec["extras"]):
        k = b["k"]
        need(k == "unknown" or k not in seen, "duplicate block")
        seen.add(k)
        raw, e, spans = block(b, cx, "block %s" % k)
        if spans is not None:
            o.vista = [(len(data) + x, len(data) + y) for x, y in spans]
        name = T.BLOCK_NAME[k]
        if k == "unknown":
            rep["extra"].setdefault(name, []).append(e)
            bid = (name, nth)
            nth += 1
        else:
            rep["extra"][name] = e
            bid = (name, None)
        o.layout.append(("block", bid, len(data), len(data) + len(raw)))
        data += raw
    term = spec["terminal"]
    app = hx(spec["appended"])
    o.end_of_blocks = len(data)
    stubs = [o.layout[n][2] for n in range(-len(spec["extras"]), 0) if "stub" in spec["extras"][n]]
    need(all("claim" not in b for b in spec["extras"][:-1]))
    need(term is None or not spec["extras"] or "claim" not in spec["extras"][-1])
    if term is not None:
        need(0 <= term < 4)
        data += u32(term)
        o.size = len(data)
        data += app
        if app and spec["allow"]:
            rep["extra"]["TERMINAL_BLOCK"] = {
                "size": 4 + len(app), "appended_data_sha256": hashlib.sha256(app).hexdigest()}
            o.layout.append(("terminal", None, o.size - 4, len(data)))
            o.size = len(data)
    else:
        need(not app)
        o.size = len(data)
    for a in stubs:                     # what stands in the place of the signature is none
        need(len(data) >= a + 8 and int.from_bytes(data[a + 4:a + 8], "little") not in T.SIG.values())
    rep["size"] = o.size
    o.data, o.report, o.dev, o.texts = data, rep, cx.dev, cx.texts
    o.cp, o.allow = spec["cp"], spec["allow"]
    return o


# ------------------------------------------------------------------ comparison

def diff(exp, got, path="report"):
    """None, or a description of the first difference between what is expected
    and what is reported."""
    if isinstance(exp, (FT, Cls)):
        d = exp.diff(got)
        return d and "%s: %s" % (path, d)
    if isinstance(exp, dict):
        if not isinstance(got, dict):
            return "%s: got %r, expected a dictionary" % (path, got)
        for k in exp:
            if k not in got:
                return "%s: no entry %r (expected %r)" % (path, k, exp[k])
        for k in got:
            if k not in exp:
                return "%s: unexpected entry %r: %r" % (path, k, got[k])
        for k in exp:
            d = diff(exp[k], got[k], "%s.%s" % (path, k))
            if d:
                return d
        return None
    if isinstance(exp, list):
        if not isinstance(got, (list, tuple)):
            return "%s: got %r, expected a list" % (path, got)
        for i, (a, b) in enumerate(zip(exp, got)):
            d = diff(a, b, "%s[%d]" % (path, i))
            if d:
                return d
        if len(exp) != len(got):
            return "%s: got %d entries, expected %d" % (path, len(got), len(exp))
        return None
    if isinstance(exp, dt.datetime):
        if not isinstance(got, dt.datetime) or got.tzinfo is None or got != exp \
                or got.utcoffset() != dt.timedelta(0):
            return "%s: got %r, expected %r" % (path, got, exp)
        return None
    if exp is None or isinstance(exp, str):
        ok = type(got) is type(exp) and got == exp
    else:
        ok = isinstance(got, int) and not isinstance(got, bool) and got == exp
    if ok:
        return None
    return "%s: got %s, expected %s" % (path, short(got), short(exp))


def short(v, n=200):
    r = repr(v)
    return r if len(r) <= n else r[:n] + "...(%d chars)" % len(r)
