import io

from .. import damage
from .common import *   # noqa: F403
from .c17 import freeze

# accessor of the link object -> link flag
FLAGS = {"has_target_id_list": 0, "has_link_info": 1, "has_name": 2, "has_relative_path": 3, "has_working_dir": 4,
         "has_arguments": 5, "has_icon_location": 6, "is_unicode": 7, "force_no_link_info": 8}
# accessor of the header -> entry of the report
HEADER = {"link_cls_id": "guid", "guid": "guid", "r_link_flags": "r_link_flags", "r_file_flags": "r_file_flags",
          "link_flags": "link_flags", "file_flags": "file_flags", "creation_time": "creation_time",
          "access_time": "accessed_time", "write_time": "modified_time", "file_size": "file_size",
          "icon_index": "icon_index", "window_style": "windowstyle", "hot_key": "hotkey", "raw_hot_key": "r_hotkey",
          "size": "header_size", "reserved0": "reserved0", "reserved1": "reserved1", "reserved2": "reserved2"}
STRINGS = ["description", "relative_path", "working_directory", "command_line_arguments", "icon_location"]
CALLS = 12


def constructed(n, data, cp, allow):
    """The n-th way to make the object that parses data."""
    new = lib.lnk.lnk_file
    if n == 0:
        return new(indata=data, cp=cp, allow_terminal_blocks=allow)
    if n == 1:
        return new(None, data, cp, allow)
    if n == 2:
        return new(io.BytesIO(data), None, cp, allow)
    if n == 3:
        return new(fhandle=io.BytesIO(data), cp=cp, allow_terminal_blocks=allow)
    if n == 4:
        return new(io.BytesIO(data), cp=cp, allow_terminal_blocks=allow)
    if n == 5:
        return new(allow_terminal_blocks=allow, cp=cp, indata=data)
    if n == 6:      # the names from the two modules are the same
        return lib.mod.LnkFile(None, data, cp, allow)
    if n == 7:      # a handle wins over bytes
        return new(io.BytesIO(data), b"", cp, allow)
    if n == 8:      # terminal blocks are allowed by default
        return new(indata=data, cp=cp) if allow else new(None, data, cp, False)
    if n == 9:      # no code page is Windows-1252
        return new(indata=data, cp="cp1252" if cp is None else cp, allow_terminal_blocks=allow)
    if n == 10:
        return new(indata=data, allow_terminal_blocks=allow) if cp in (None, "cp1252") else new(None, data, cp, allow)
    return new(io.BytesIO(data)) if cp in (None, "cp1252") and allow else new(io.BytesIO(data), None, cp, allow)


def same(a, b):
    return freeze(a) == freeze(b)


class C28(Prop):
    id = "C28"
    rule = ("Well-formed, damaged and sample files; the object made in 12 ways (handle or bytes, by position, by keyword, "
            "defaults), asked before or after outputs, twice, in a generated order. Oracle: the nine flag questions "
            "against the stored bits; the texts of the flags against the tables; header, string, item and block "
            "accessors against the entries of the full report; every way to make the object gives the same report. "
            "Sweep: each combination of the nine flags; each way for each sample. Non-trivial: not refused.")
    assumptions = ["Only accessors that exist are judged, except those of the link object itself."]
    budget = {"quick": (2400, 32000), "thorough": (16000, 400000)}

    def sweep(self, tier):
        for v in range(512):
            yield {"raw": (B.u32(76) + bytes.fromhex(B.LNK_CLSID) + B.u32(v) + bytes(52)).hex(), "cp": None, "allow": True,
                   "way": v % CALLS, "order": v, "after": bool(v & 1)}
        for v in range(32):
            yield {"raw": (B.u32(76) + bytes.fromhex(B.LNK_CLSID) + B.u32(1 << v) + B.u32(1 << v) + bytes(48)).hex(),
                   "cp": None, "allow": True, "way": 0, "order": v, "after": False}
        for n in sorted(damage.samples()):
            for w in range(CALLS):
                for cp, allow in ((None, True), ("cp1252", False), ("cp1250", True)):
                    yield {"sample": n, "edits": [], "cp": cp, "allow": allow, "way": w, "order": w, "after": bool(w & 1)}

    def gen(self, src):
        case = damage.gen(src, 0.5)
        case["way"] = src.int(0, CALLS - 1)
        case["order"] = src.int(0, 1 << 20)
        case["after"] = src.flag()
        return case

    def check(self, case, st):
        import random
        data, cp, allow, intact = damage.realise(case)
        B.need(0 <= case["way"] < CALLS)
        with lib.observed():
            try:
                ref = lib.lnk.lnk_file(indata=data, cp=cp, allow_terminal_blocks=allow)
            except Exception as e:      # noqa: BLE001    (C01 judges whether it may be raised)
                ref = e
            try:
                f = constructed(case["way"], data, cp, allow)
            except Exception as e:      # noqa: BLE001
                if type(e) is not type(ref):
                    raise Violation("made in way %d: %s" % (case["way"], lib.describe(e))) from e
                st.label("refused")
                return
            if isinstance(ref, Exception):
                raise Violation("made in way %d it is parsed, from bytes by keyword: %s" % (case["way"], lib.describe(ref)))
            rng = random.Random(case["order"])
            if case["after"]:
                for n in rng.sample(list(lib.OUTPUTS), 3):
                    lib.call(n, lib.OUTPUTS[n], f)
            want = lib.call("get_json(True)", ref.get_json, True)
            jobs = [self.flags, self.header, self.strings, self.parts, self.texts]
            rng.shuffle(jobs)
            for j in jobs + jobs[:1]:
                j(f, want, data)
            got = lib.call("get_json(True)", f.get_json, True)
            if not same(want, got):
                raise Violation("made in way %d, the report differs: %s" % (
                    case["way"], "; ".join(B.diff(want, got)[:3])))
            if not same(lib.call("lnk_command", lambda: ref.lnk_command), lib.call("lnk_command", lambda: f.lnk_command)):
                raise Violation("made in way %d, lnk_command differs" % case["way"])
        st.label("way %d" % case["way"], "intact" if intact else "damaged")
        st.mark(len(data) > 76)

    @staticmethod
    def flags(f, want, data):
        stored = int.from_bytes(data[20:24], "little")
        for name, bit in FLAGS.items():
            v = lib.call(name, getattr(f, name))
            if v is not bool(stored >> bit & 1):
                raise Violation("%s() is %r, the link flags are 0x%x" % (name, v, stored))

    @staticmethod
    def texts(f, want, data):
        for name, at, table in (("format_linkFlags", 20, T.LINK_FLAGS), ("format_fileFlags", 24, T.FILE_FLAGS)):
            raw = int.from_bytes(data[at:at + 4], "little")
            names = B.bits(raw, table)
            exp = " | ".join(names) + (" - (%d)" % raw if raw else "(0)")
            v = lib.call(name, getattr(f, name))
            if v != exp:
                raise Violation("%s() is %r instead of %r" % (name, v, exp))
        if f.size != want["size"] or type(f.size) is not int:
            raise Violation("size is %r, in the report %r" % (f.size, want["size"]))

    @staticmethod
    def header(f, want, data):
        for name, entry in HEADER.items():
            fn = getattr(getattr(f, "header", None), name, None)
            if callable(fn):
                v = lib.call("header." + name, fn)
                if not same(v, want["header"][entry]):
                    raise Violation("header.%s() is %s, in the report %s" % (name, B.short(v), B.short(want["header"][entry])))

    @staticmethod
    def strings(f, want, data):
        s = getattr(f, "string_data", None)
        for name in STRINGS:
            fn = getattr(s, name, None)
            if callable(fn):
                v = lib.call("string_data." + name, fn)
                if not same(v, want["data"].get(name)):
                    raise Violation("string_data.%s() is %s, in the report %s" % (name, B.short(v),
                                                                                  B.short(want["data"].get(name))))
        if callable(getattr(s, "as_dict", None)) and not same(lib.call("string_data.as_dict", s.as_dict), want["data"]):
            raise Violation("string_data.as_dict() differs from the report")

    @staticmethod
    def parts(f, want, data):
        t = getattr(f, "targets", None)
        if (t is not None) != ("target" in want):
            raise Violation("targets is %r, the report has %s target" % (type(t).__name__, "a" if "target" in want else "no"))
        if t is not None:
            for name, v in (("as_list", want["target"]["items"]), ("id_list_size", want["target"]["size"])):
                fn = getattr(t, name, None)
                if callable(fn) and not same(lib.call("targets." + name, fn), v):
                    raise Violation("targets.%s() differs from the report" % name)
        x = getattr(getattr(f, "extras", None), "as_dict", None)
        if callable(x) and not same(lib.call("extras.as_dict", x), want["extra"]):
            raise Violation("extras.as_dict() differs from the report")
        i = getattr(f, "info", None)
        if i is None and want["link_info"]:
            raise Violation("info is None, the report has a LinkInfo")
        for name, entry in (("size", "link_info_size"), ("header_size", "link_info_header_size"), ("flags", "link_info_flags"),
                            ("location", "location"), ("local_base_path", "local_base_path"),
                            ("common_path_suffix", "common_path_suffix"),
                            ("local_base_path_unicode", "local_base_path_unicode"),
                            ("common_path_suffix_unicode", "common_path_suffix_unicode")):
            fn = getattr(i, name, None)
            if callable(fn) and entry in want["link_info"]:
                v = lib.call("info." + name, fn)
                if not same(v, want["link_info"][entry]):
                    raise Violation("info.%s() is %s, in the report %s" % (name, B.short(v), B.short(want["link_info"][entry])))


PROP = C28()
