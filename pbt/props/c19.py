import contextlib
import io
import json
import os
import subprocess
import sys
import tempfile

import yaml

from .. import damage
from ..source import RandSource
from .common import *   # noqa: F403

TITLE = "Windows Shortcut Information:\n"


def flags(names, raw):
    return " | ".join(names) + (" - (%d)" % raw if raw else "(%d)" % raw)


def key(name, upper=False):
    if name.startswith("r_"):
        name = name[2:]
    if upper or not any(c.islower() for c in name):
        name = name.upper()
    else:
        name = name[:1].upper() + name[1:].lower()
    return name.replace("_", " ")


def nice(v):
    """The value as the readable output names it."""
    if isinstance(v, (list, tuple)):
        return [nice(x) for x in v]
    if isinstance(v, dict):
        if "class" in v:
            return {v["class"]: nice({k: x for k, x in v.items() if k != "class"})}
        out = {}
        for k, x in v.items():
            if k.startswith("r_") and k[2:] in v:
                continue            # the raw value of an entry that is shown by name
            out[key(k)] = nice(x)
        return out
    return v


def readable(rep):
    """Independent model of the document that print_lnk_file shows."""
    h = dict(rep["header"])
    h.pop("r_hotkey")
    for n in ("link_flags", "file_flags"):
        h[n] = flags(h[n], h["r_" + n])
    out = nice(h)
    for k, v in rep.items():
        if k != "header":
            out[key(k, True)] = nice(v)
    return out


def unindent(text):
    out = []
    for line in text.splitlines(True):
        if line.startswith("   "):
            line = line[3:]
        elif line.strip():
            raise Violation("readable output: a line is not indented: %r" % line[:80])
        out.append(line)
    return "".join(out)


def has_nel(v):
    if isinstance(v, dict):
        return any(has_nel(k) or has_nel(x) for k, x in v.items())
    if isinstance(v, (list, tuple)):
        return any(has_nel(x) for x in v)
    return isinstance(v, str) and "\x85" in v


def sorted_keys(pairs):
    names = [k for k, _ in pairs]
    if names != sorted(names):
        raise Violation("print_json: the keys are not sorted: %s" % names[:12])
    if len(set(names)) != len(names):
        raise Violation("print_json: repeated key in %s" % names[:12])
    return dict(pairs)


def check_json(f, full):
    name = "print_json(%s)" % full
    text = lib.call(name, lib.printed, f.print_json, full)
    try:
        got = json.loads(text, object_pairs_hook=sorted_keys)
    except ValueError as e:
        raise Violation("%s is not one JSON document: %s: %r" % (name, e, text[:100])) from e
    want = lib.jsonable(lib.call("get_json", f.get_json, full))
    expect(want, got, name)
    return text


def check_readable(f, full):
    name = "print_lnk_file(%s)" % full
    text = lib.call(name, lib.printed, f.print_lnk_file, full)
    rep = lib.call("get_json", f.get_json, full)
    if not text.startswith(TITLE):
        raise Violation("%s starts with %r" % (name, text[:60]))
    if has_nel(rep):
        return text, False
    body = unindent(text[len(TITLE):])
    try:
        got = yaml.safe_load(body)
    except yaml.YAMLError as e:
        raise Violation("%s is not a YAML document: %s" % (name, str(e)[:300])) from e
    expect(readable(rep), got, name)
    return text, True


ENCODINGS = ["ascii", "latin-1", "cp1252", "cp437", "cp932", "koi8-r", "utf-16", "utf-8-sig", "gb18030"]


def through(enc, fn, *a):
    """What arrives behind a standard output of that encoding."""
    raw = io.BytesIO()
    out = io.TextIOWrapper(raw, encoding=enc, newline="")
    with contextlib.redirect_stdout(out):
        fn(*a)
    out.flush()
    return raw.getvalue().decode(enc)


def check_encoding(f, enc, st):
    """JSON needs nothing but ASCII; the other outputs what their text needs."""
    for name, fn, args in (("print_json", f.print_json, (True,)), ("print_shortcut_target", f.print_shortcut_target, (True,)),
                           ("print_lnk_file", f.print_lnk_file, (True,)), ("print_shortcut_target", f.print_shortcut_target, ())):
        want = lib.printed(fn, *args)
        name = "%s%s" % (name, args)
        if args == () or name == "print_lnk_file(True,)":
            try:
                want = want.encode(enc).decode(enc)
            except UnicodeEncodeError:
                st.label("not for " + enc)
                continue
        try:
            got = through(enc, fn, *args)
        except Exception as e:      # noqa: BLE001
            raise Violation("%s to a standard output in %s raised %s" % (name, enc, lib.describe(e))) from e
        if got != want:
            raise Violation("%s to a standard output in %s shows %r, not %r" % (name, enc, got[:200], want[:200]))
    st.label("stdout in another encoding")


def cli(argv, path):
    old = sys.argv
    sys.argv = ["lnkparse"] + argv + [path]
    try:
        return lib.call("the command line " + " ".join(argv), lib.printed, lib.mod.main)
    except SystemExit as e:
        raise Violation("the command line %s exits with %s" % (" ".join(argv), e.code)) from e
    finally:
        sys.argv = old


def check_cli(path, data, argv, run=cli):
    """argv: the options; -c takes the following argument."""
    opts = [a for a in argv if a.startswith("-")]
    short = {"--target": "-t", "--json": "-j", "--all": "-a", "--codepage": "-c"}
    cp = "cp1252"
    for i, a in enumerate(argv):
        if a in ("-c", "--codepage"):
            cp = argv[i + 1]
    opts = {short.get(o, o) for o in opts}
    f = lib.parse(data, cp)
    if "-t" in opts:
        want = lib.printed(f.print_shortcut_target, "-j" in opts)
    elif "-j" in opts:
        want = lib.printed(f.print_json, "-a" in opts)
    else:
        want = lib.printed(f.print_lnk_file, "-a" in opts)
    got = run(argv, path)
    if got != want:
        for a, b in zip(want.splitlines(), got.splitlines()):
            if a != b:
                raise Violation("lnkparse %s prints %r, the API call %r" % (" ".join(argv), b[:150], a[:150]))
        raise Violation("lnkparse %s prints %d characters, the API call %d" % (" ".join(argv), len(got), len(want)))


def real_cli(argv, path):
    env = dict(os.environ, PYTHONIOENCODING="utf-8", PYTHONPATH=lib.REPO, PYTHONDONTWRITEBYTECODE="1",
               PYTHONWARNINGS="ignore", PYTHONPYCACHEPREFIX="/nonexistent/pycache")
    p = subprocess.run([sys.executable, "-c", "import sys; from LnkParse3.lnk_file import main; sys.exit(main())"]
                       + argv + [path], env=env, cwd="/", stdin=subprocess.DEVNULL,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode:
        raise Violation("lnkparse %s exits with %d: %s" % (" ".join(argv), p.returncode,
                                                           p.stderr.decode(errors="replace")[-300:]))
    return p.stdout.decode("utf-8")


FLAGS = [[], ["-t"], ["-j"], ["-a"], ["-t", "-j"], ["-t", "-a"], ["-j", "-a"], ["-t", "-j", "-a"],
         ["--target"], ["--json", "--all"]]


class C19(Prop):
    id = "C19"
    rule = ("Well-formed, sample and damaged files with texts of every script, control characters, YAML syntax, line "
            "breaks and the placeholder of the readable output; the JSON output, the readable output and the command "
            "line with a random option set, for both report kinds. Sweep: each of 1500 characters at each of four "
            "text places in three positions, 70 whole texts that YAML could read as another type, all option "
            "sets on the samples in process, 10 in a process of their own. Non-trivial: the report has a section besides the header.")
    budget = {"quick": (500, 5000), "thorough": (8000, 120000)}
    assumptions = ["PyYAML's safe loader reads YAML 1.1 correctly.",
                   "Standard output is UTF-8; how other encodings treat characters they lack is up to Python."]

    def start(self):
        self.dir = tempfile.TemporaryDirectory(prefix="c19-")
        self.n = 0

    def sweep(self, tier):
        names = sorted(damage.samples())
        for n in names:
            base = {"sample": n, "edits": [], "cp": None, "allow": True}
            for i, fl in enumerate(FLAGS):
                yield dict(base, argv=fl + (["-c", T.CODEPAGES[len(n + "x" * i) % len(T.CODEPAGES)]] if i & 1 else []))
        for i, fl in enumerate(FLAGS):
            yield {"sample": names[i * 3 % len(names)], "edits": [], "cp": None, "allow": True,
                   "argv": fl + (["--codepage", "cp932"] if i & 1 else []), "real": True}
        odd = ["null", "~", "true", "no", "1", "0x1F", "1_000", "1e3", ".inf", ".nan", "2001-01-01", "1:30",
               "2008-09-12 20:27:17.101000+00:00", "=", "<<", "", " ", "- a", "a: b", "a:", ": a", "#", "a #b", "[a",
               "{a", "*a", "&a", "!a", "|", ">", "'", "\"", "%", "@a", "`", "---", "...", "? a", "\n", "\na", "a\n",
               "a\n\nb", " a\n b", "a\n ", "\n\n", "a\r\nb", "\r", "\t", "\ta", "a\t", "a\u2028b", "a\u2029",
               "\u2028", "\x0b", "\x0c", "\x1c", "a\x1eb", "\x1b[0m", "\x7f", "\xa0", "\ufeff", "\ufeffa", "\ufffe", "\uffff",
               "EMPTY_LINE_PLACEHOLDER", "EMPTY_LINE_PLACEHOLDERx", "a\nEMPTY_LINE_PLACEHOLDER", "\nEMPTY_LINE_PLACEHOLDER",
               "class", "r_class", "x" * 200, "a b " * 60, " " * 150, "a\n" * 60, "   a\n      b", "b" * 130 + "\nc",
               "é" * 140, "😀 " * 80, "word\u3000" * 50]
        for t in odd:
            for w in range(4):
                yield {"text": t, "where": w}
        for p in ("a\nb ", "c d" * 40 + " "):
            for t in odd:
                yield {"text": p + t, "where": 0}
                yield {"text": t + p, "where": 1}
        chars = list(range(1, 0x250)) + list(range(0x2000, 0x2070)) + list(range(0xFFE0, 0x10000)) + \
            list(range(0xFE00, 0xFE20)) + list(range(0x300, 0x340)) + [0xD7FF, 0xE000, 0x10000, 0x1F600, 0x10FFFF, 0x3000]
        step = 1 if tier != "quick" else 3
        for i, c in enumerate(chars):
            for j, pat in enumerate(("%s", "a%sb", "%s%s", " %s ", "a %s" * 40)):
                if (i + j) % step == 0 or 0x20 > c or c in (0x85, 0x2028, 0x2029, 0xFEFF):
                    yield {"text": pat.replace("%s", chr(c)), "where": (i + j) % 4}

    def gen(self, src):
        case = damage.gen(src, 0.8)
        if src.flag(0.3):
            case["enc"] = src.pick(ENCODINGS)
        if src.flag(0.5):
            case["argv"] = src.pick(FLAGS) + (["-c", src.pick(T.CODEPAGES)] if src.flag() else [])
        return case

    def file_with(self, text, where):
        raw = text.encode("utf-16-le").hex()
        if where == 0:
            return spec_of(strings={"description": {"raw": raw[:1040], "over": 0}})
        if where == 1:
            return spec_of(strings={"command_line_arguments": {"raw": raw, "over": 0},
                                    "icon_location": {"raw": raw, "over": 0}})
        if where == 2:
            return spec_of(targets={"items": [{"k": "fs", "type": 0x36, "unk": 0, "size": 0, "dos": 0, "attr": 0,
                                               "name": raw, "term": True, "ext": ""}] * 2, "term": True, "pad": ""})
        B.need(where == 3)
        p = {"type": T.VT_LPWSTR, "pad": 0, "id": 1, "res": 0, "name": raw, "int": 0, "text": raw, "val": ""}
        return spec_of(extras=[{"k": "meta", "ext": "", "stores": [
            {"fmt": T.NAMED_FORMAT, "version": 1, "props": [p, p], "tail": ""}]}])

    def check(self, case, st):
        if "text" in case:
            o = B.build(self.file_with(case["text"], case["where"]))
            data, cp, allow = o.data, o.cp, o.allow
        else:
            data, cp, allow, _ = damage.realise(case)
        with lib.observed():
            try:
                f = lib.lnk.lnk_file(indata=data, cp=cp, allow_terminal_blocks=allow)
            except lib.Refused:
                st.label("refused")
                return
            for full in (True, False):
                check_json(f, full)
                _, compared = check_readable(f, full)
            if case.get("enc"):
                B.need(case["enc"] in ENCODINGS)
                check_encoding(f, case["enc"], st)
            if "argv" in case:
                self.n += 1
                path = os.path.join(self.dir.name, "link%d.lnk" % (self.n % 3))
                with open(path, "wb") as h:
                    h.write(data)
                check_cli(path, data, case["argv"], real_cli if case.get("real") else cli)
                st.label("command line")
            rep = f.get_json(False)
        st.label("readable compared" if compared else "readable not compared (U+0085)")
        st.mark(len(rep.get("data", ())) or len(rep.get("extra", ())) or rep.get("target") or rep.get("link_info"))


PROP = C19()
