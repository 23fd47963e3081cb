import copy

from .. import damage
from ..source import RandSource
from .common import *   # noqa: F403

REMOVED = {
    "header": ["header_size", "reserved0", "reserved1", "reserved2"],
    "link_info": ["link_info_size", "link_info_header_size", "volume_id_offset", "local_base_path_offset",
                  "common_network_relative_link_offset", "common_path_suffix_offset"],
    "Local": ["volume_id_size", "volume_label_offset"],
    "Network": ["common_network_relative_link_size", "net_name_offset", "device_name_offset"],
    "target": ["index", "size"],
}


def reduced(full):
    """What the default report must be, from the full one; and what was removed."""
    r = copy.deepcopy(full)
    gone = []

    def drop(d, keys):
        for k in keys:
            if isinstance(d, dict) and k in d:
                del d[k]
                gone.append(k)
    drop(r.get("header"), REMOVED["header"])
    info = r.get("link_info")
    drop(info, REMOVED["link_info"])
    if isinstance(info, dict) and info.get("location") in ("Local", "Network"):
        drop(info.get("location_info"), REMOVED[info["location"]])
    if "target" in r:
        drop(r["target"], REMOVED["target"])
        for item in r["target"].get("items", ()):
            drop(item, ["modification_time"])
    return r, gone


class C18(Prop):
    id = "C18"
    rule = ("Well-formed, sample and damaged files; get_json(False), get_json() on a fresh object and on one that has "
            "given the full report (and the other way round) against get_json(True) with the documented entries "
            "removed. Sweep: the samples and one file per item and block kind. "
            "Non-trivial: entries besides those of the header are removed.")
    budget = {"quick": (1600, 24000), "thorough": (40000, 800000)}

    def sweep(self, tier):
        for n in sorted(damage.samples()):
            yield {"sample": n, "edits": [], "cp": None, "allow": True, "order": 0}
        src = RandSource("c18")
        for i in range(10):
            for k in Gen.KINDS:
                g = Gen(src)
                f = g.start()
                f["targets"] = {"items": [g.item([k]) for _ in range(1 + i % 3)], "term": True, "pad": ""}
                f["extras"] = [{"k": "shellitem", "items": [g.item([k])], "term": True}]
                yield {"file": g.file(**f), "edits": [], "order": i}

    def gen(self, src):
        case = damage.gen(src, 0.7)
        case["order"] = src.int(0, 3)
        return case

    # the short forms of the calls that print
    FORMS = [
        ("print_json()", "print_json(False)", lambda f: lib.printed(f.print_json), lambda f: lib.printed(f.print_json, False)),
        ("print_lnk_file()", "print_lnk_file(False)", lambda f: lib.printed(f.print_lnk_file),
         lambda f: lib.printed(f.print_lnk_file, False)),
        ("print_json(print_all=True)", "print_json(True)", lambda f: lib.printed(f.print_json, print_all=True),
         lambda f: lib.printed(f.print_json, True)),
        ("print_lnk_file(print_all=True)", "print_lnk_file(True)", lambda f: lib.printed(f.print_lnk_file, print_all=True),
         lambda f: lib.printed(f.print_lnk_file, True)),
        ("print_shortcut_target()", "print_shortcut_target(False)", lambda f: lib.printed(f.print_shortcut_target),
         lambda f: lib.printed(f.print_shortcut_target, False)),
        ("print_shortcut_target(pjson=True)", "print_shortcut_target(True)",
         lambda f: lib.printed(f.print_shortcut_target, pjson=True), lambda f: lib.printed(f.print_shortcut_target, True)),
    ]

    def check(self, case, st):
        data, cp, allow, intact = damage.realise(case)
        with lib.observed():
            try:
                f = lib.lnk.lnk_file(indata=data, cp=cp, allow_terminal_blocks=allow)
                g = lib.lnk.lnk_file(indata=data, cp=cp, allow_terminal_blocks=allow)
            except lib.Refused:
                st.label("refused")
                return
            order = case.get("order", 0)
            if order & 1:
                short = lib.call("get_json(False)", f.get_json, False)
                full = lib.call("get_json(True)", f.get_json, True)
            else:
                full = lib.call("get_json(True)", f.get_json, True)
                short = lib.call("get_json(False)", f.get_json, False)
            default = lib.call("get_json()", g.get_json)
            if order & 2:
                short2 = lib.call("get_json(get_all=False)", g.get_json, get_all=False)
                full2 = lib.call("get_json(get_all=True)", g.get_json, get_all=True)
            texts = [(name, given, lib.call(name, out, f), lib.call(given, same, f))
                     for name, given, out, same in self.FORMS[order % 2::2]]
        want, gone = reduced(full)
        expect(want, short, "get_json(False)")
        expect(want, default, "get_json()")
        if order & 2:
            expect(want, short2, "get_json(get_all=False)")
            expect(full, full2, "get_json(get_all=True)")
        for name, given, a, b in texts:
            if a != b:
                raise Violation("%s prints %s, %s prints %s" % (name, B.short(a), given, B.short(b)))
        header = set(REMOVED["header"]) - set(gone)
        if intact and header:
            raise Violation("get_json(True) has no %s" % sorted(header))
        if intact and "file" in case:       # the entries are removed from something
            o = B.build(case["file"])
            for k in ("link_info", "target"):
                e = o.report.get(k) or {}
                for n in REMOVED[k]:
                    if n in e and n not in full.get(k, {}):
                        raise Violation("get_json(True) has no %s.%s" % (k, n))
        st.label("intact" if intact else "damaged", *["removed " + k for k in set(gone) - set(REMOVED["header"])])
        st.mark(set(gone) - set(REMOVED["header"]))



PROP = C18()
