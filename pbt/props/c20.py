import json

from .. import damage
from ..source import RandSource
from .common import *   # noqa: F403


def argv(text):
    """The arguments in a command line tail, by the rules of the Microsoft C runtime
    (backslashes are literal unless they precede a double quote)."""
    args, cur, quoted, i = [], None, False, 0
    while i < len(text):
        c = text[i]
        if c in " \t" and not quoted:
            if cur is not None:
                args.append(cur)
                cur = None
            i += 1
            continue
        cur = cur if cur is not None else ""
        if c == "\\":
            n = 0
            while i < len(text) and text[i] == "\\":
                n, i = n + 1, i + 1
            if i < len(text) and text[i] == '"':
                cur += "\\" * (n // 2)
                if n % 2:
                    cur += '"'
                    i += 1
            else:
                cur += "\\" * n
            continue
        if c == '"':
            if quoted and text[i + 1:i + 2] == '"':
                cur += '"'
                i += 1
            else:
                quoted = not quoted
            i += 1
            continue
        cur += c
        i += 1
    if cur is not None:
        args.append(cur)
    return args


def check_target(text, rel, args):
    if rel is None:
        if text != (args or ""):
            raise Violation("shortcut target %r, expected the arguments %r" % (text, args))
        return
    if args is not None:
        tail = " " + args
        if not text.endswith(tail):
            raise Violation("shortcut target %r does not end with a space and the arguments %r" % (text, args))
        text = text[: len(text) - len(tail)]
    if argv(text) != [rel]:
        raise Violation("%r stands for the path %r, but Windows reads it as %r" % (text, rel, argv(text)))
    quoted = not rel or " " in rel or "\t" in rel
    if quoted != (text[:1] == '"' and text[-1:] == '"' and len(text) > 1):
        raise Violation("path %r is shown as %r, double quotes expected: %s" % (rel, text, quoted))


class C20(Prop):
    id = "C20"
    rule = ("Files with every combination of path and arguments, present, empty or missing because the file is cut; "
            "paths over spaces, tabs, quotes and backslashes in every arrangement. Sweep: every path of up "
            "to 5 characters (quick) or 6 (thorough) over a, space, tab, quote and backslash, with and without arguments. "
            "Non-trivial: there is a path.")
    budget = {"quick": (3200, 60000), "thorough": (40000, 1000000)}

    def sweep(self, tier):
        import itertools
        for n in range(0, 6 if tier == "quick" else 7):
            for p in itertools.product("a \t\"\\", repeat=n):
                yield {"rel": "".join(p), "args": [None, "", "-x \"y\"", " "][sum(map(ord, p)) % 4], "cut": 0,
                       "unicode": bool(n & 1), "others": False, "cp": None}
        for rel in (None, "", "a", "a b"):
            for args in (None, "", " ", "x", "\"", "\\", " lead", "a  b\t"):
                for others in (False, True):
                    for cut in range(0, 60):
                        yield {"rel": rel, "args": args, "cut": cut, "unicode": bool(cut & 1), "others": others,
                               "cp": None}

    def gen(self, src):
        if src.flag(0.2):
            return damage.gen(src, 0.6)
        g = Gen(src)
        g.start()

        def text():
            m = src.int(0, 4)
            if m == 0:
                return None
            if m == 1:
                return "".join(src.pick(["a", " ", "\t", '"', "\\", "\\\\", "b.exe", "..\\", "%x%", "^&|", "'", "\n"])
                               for _ in range(src.int(0, 12)))
            if m == 2:
                return B.dec_u16(g.wide(200))[0]
            if m == 3:
                return "x" * src.pick([259, 260, 261, 300]) + src.pick(["", " ", "\\"])
            return B.dec_ansi(g.ansi(60), None)[0]
        return {"rel": text(), "args": text(), "cut": 0 if src.flag(0.8) else src.int(1, 200),
                "unicode": src.flag(0.7), "others": src.flag(0.3), "cp": None}

    def check(self, case, st):
        if "rel" in case:
            strings = {}
            for k, v in (("relative_path", case["rel"]), ("command_line_arguments", case["args"])):
                if v is not None:
                    raw = v.encode("utf-16-le", "surrogatepass") if case["unicode"] else v.encode("cp1252", "replace")
                    over = 0
                    if k == "relative_path":
                        w = 2 if case["unicode"] else 1
                        over = max(0, len(raw) // w - 260)
                        raw = raw[: 260 * w]
                    strings[k] = {"raw": raw.hex(), "over": over}
            if case["others"]:
                for k in ("description", "working_directory", "icon_location"):
                    strings[k] = {"raw": "6f006e00" if case["unicode"] else "6f6e", "over": 0}
            o = B.build(spec_of(strings=strings, unicode=case["unicode"], cp=case["cp"]))
            B.need(0 <= case["cut"] and len(o.data) - case["cut"] >= 76)
            data, cp, allow, intact = o.data[: len(o.data) - case["cut"]], o.cp, o.allow, not case["cut"]
            exp = o.report["data"]
        else:
            data, cp, allow, intact = damage.realise(case)
            exp = None
            if intact and "file" in case:
                exp = B.build(case["file"]).report["data"]
        with lib.observed():
            try:
                f = lib.lnk.lnk_file(indata=data, cp=cp, allow_terminal_blocks=allow)
            except lib.Refused:
                st.label("refused")
                return
            rep = lib.call("get_json", f.get_json)
            text = lib.call("print_shortcut_target()", lib.printed, f.print_shortcut_target)
            js = lib.call("print_shortcut_target(True)", lib.printed, f.print_shortcut_target, True)
        if not (intact and exp is not None):
            exp = get(rep, "data")
        if not text.endswith("\n"):
            raise Violation("print_shortcut_target prints %r" % text[:100])
        text = text[:-1]
        try:
            d = json.loads(js)
        except ValueError as e:
            raise Violation("print_shortcut_target(True) is not JSON: %s" % e) from e
        if d != {"shortcut_target": text}:
            raise Violation("print_shortcut_target(True) prints %r, expected the text %r" % (js[:200], text[:200]))
        rel, args = exp.get("relative_path"), exp.get("command_line_arguments")
        check_target(text, rel, args)
        st.label("path" if rel is not None else "no path", "arguments" if args is not None else "no arguments",
                 "intact" if intact else "damaged")
        if rel is not None and (" " in rel or "\t" in rel or not rel):
            st.label("quoted")
        st.mark(rel is not None)


PROP = C20()
