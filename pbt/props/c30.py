import contextlib
import io
import os
import subprocess
import sys
import tempfile
import threading

from .. import damage, engine
from .common import *   # noqa: F403

LONG = {"t": "--target", "j": "--json", "a": "--all"}
NAMES = ["link.lnk", "a b.lnk", "./-t", "@link", "ünï 漢.lnk", "%s%d", "a\nb", "=x", "~", "$HOME", "*.lnk", "link", "[ac].lnk", "?.lnk", "{a,c}.lnk", "c.lnk ", "%TEMP%", "file:c.lnk"]
DECOYS = ["c.lnk", "0.lnk", "zz.lnk", "a", "nothing.lnk"]     # what a name could be taken for
DECOY = B.build(spec_of(header={"size": 4711})).data
DASHED = ["-t", "--help", "-", "-cx", "--"]            # behind "--" only
OTHER = ["missing", "directory", "dangling", "empty", "loop", "below"]
PAGES = T.CODEPAGES + ["nope", "cp99999", "", "CP1250", "cp 1250", "utf_16", "hex", "0", "=", "é"]
WRONG = [["two files"], ["no file"], ["-x"], ["--nope"], ["-tx"], ["-c"], ["--codepage"], ["--json=1"], ["--targets"]]


def text_warnings(warns):
    quiet = ("DeprecationWarning", "PendingDeprecationWarning", "ImportWarning", "ResourceWarning")
    return [w for w in warns if w.split(":")[0] not in quiet]


def spell(case, path):
    """The arguments as they are typed."""
    words = []
    for o in case["opts"]:
        if o[0] == "c":
            v = o[2]
            B.need(isinstance(v, str) and "\0" not in v and (o[1] in ("=", "joined") or not v.startswith("-")))
            B.need(o[1] != "joined" or v and v[0] != "=")
            words.append({"short": ["-c", v], "long": ["--codepage", v], "=": ["--codepage=" + v],
                          "joined": ["-c" + v]}[o[1]])
        else:
            words.append(["-" + o[0] if o[1] == "short" else LONG[o[0]]])
    at = min(case["at"], len(words))
    if case["dd"]:
        return [x for w in group(words, case["group"]) for x in w] + ["--", path]
    return [x for w in group(words[:at], case["group"]) for x in w] + [path] + \
        [x for w in group(words[at:], case["group"]) for x in w]


def group(words, on):
    """-t -j -c x  ->  -tjc x"""
    out = []
    for w in words:
        if on and out and len(out[-1]) == 1 and out[-1][0][1:].isalpha() and not out[-1][0].startswith("--") \
                and set(out[-1][0][1:]) <= set("tja") and not w[0].startswith("--"):
            out[-1] = [out[-1][0] + w[0][1:]] + w[1:]
        else:
            out.append(list(w))
    return out


class Result:
    def __init__(self, status, out, err):
        self.status, self.out, self.err = status, out, err


class C30(Prop):
    id = "C30"
    rule = ("Well-formed, damaged, refused, missing and odd files under odd names; up to six options in any order, "
            "spelling and grouping, before or behind the file; wrong usage; help. Mostly main() in process, part as a "
            "process of its own (also -m), with symbolic links, named pipes, standard input by name, and output that "
            "cannot be written. Sweep: all option sets x spellings on two files, all wrong usages, all odd files. "
            "Non-trivial: options are given, or the file is not readable as a link.")
    budget = {"quick": (200, 4000), "thorough": (6000, 120000)}
    assumptions = ["Standard output is UTF-8.", "Windows-1252 is the default code page."]

    def start(self):
        self.tmp = tempfile.TemporaryDirectory(prefix="c30-")
        self.dir = os.path.realpath(self.tmp.name)

    def sweep(self, tier):
        base = {"sample": "microsoft_example", "edits": [], "cp": None, "allow": True}
        src = engine.RandSource("c30 sweep")
        files = [base] + [damage.gen(src, 0.8) for _ in range(3)]
        sets = [[o for o, b in zip("tja", bits) if b] for bits in
                [(x & 1, x & 2, x & 4) for x in range(8)]]
        n = 0
        for s in sets:
            for perm in (s, s[::-1]):
                for how in ("short", "long"):
                    for page in (None, "short", "long", "=", "joined"):
                        for at in (0, 1, 9):
                            n += 1
                            opts = [[o, how] for o in perm]
                            if page:
                                opts.insert(n % (len(opts) + 1), ["c", page, T.CODEPAGES[n % len(T.CODEPAGES)]])
                            yield dict(self.plain(), file=files[n % 4], opts=opts, at=at, group=bool(n & 1),
                                       real=n % 23 == 0)
        for k in OTHER:
            for real in (False, True):
                for o in ([], [["t", "short"]], [["j", "long"], ["a", "long"]], [["c", "short", "cp1250"]]):
                    yield dict(self.plain(), opts=o, odd=k, real=real)
        for w in range(len(WRONG)):
            for real in (False, True):
                for o in ([], [["j", "short"]], [["c", "=", "cp1250"], ["a", "long"]]):
                    yield dict(self.plain(), opts=o, wrong=w, real=real)
        for w in ("-h", "--help"):
            for real in (False, True):
                for o in ([], [["j", "short"]], [["c", "=", "cp1250"], ["a", "long"]]):
                    for k in (None, "missing", "below"):
                        yield dict(self.plain(), opts=o, help=w, odd=k, real=real)
        for via in ("symlink", "fifo", "stdin", "full", "module"):
            for i in range(4):
                yield dict(self.plain(), file=files[i], opts=[[o, "short"] for o in sets[2 * i]], via=via, real=True)
        for i, name in enumerate(NAMES + DASHED):
            for real in (False, True):
                yield dict(self.plain(), file=files[i % 4], name=name, dd=name in DASHED, real=real or name in DASHED)

    def plain(self):
        return {"file": {"sample": "microsoft_example", "edits": [], "cp": None, "allow": True}, "opts": [], "at": 9,
                "dd": False, "group": False, "name": "link.lnk", "real": False, "via": None, "odd": None, "wrong": None,
                "help": None}

    def gen(self, src):
        case = self.plain()
        case["real"] = src.flag(0.08)
        case["file"] = damage.gen(src, 0.75)
        opts = []
        for _ in range(src.size(0, 6)):
            k = src.pick("tjac")
            if k == "c":
                opts.append(["c", src.pick(["short", "long", "=", "joined"]), src.pick(PAGES)])
            else:
                opts.append([k, src.pick(["short", "long"])])
        case["opts"] = opts
        case["at"] = src.int(0, 6)
        case["group"] = src.flag()
        if src.flag(0.3):
            case["dd"] = True
        case["name"] = src.pick(NAMES + (DASHED if case["dd"] and case["real"] else []))
        case["opts"] = [[o[0], "=", o[2]] if o[0] == "c" and o[2][:1] in ("", "=") else o for o in opts]
        x = src.int(0, 19)
        if x == 0:
            case["odd"] = src.pick(OTHER)
        elif x == 1:
            case["wrong"] = src.int(0, len(WRONG) - 1)
        elif x == 2:
            case["help"] = src.pick(["-h", "--help"])
        elif x < 6 and case["real"]:
            case["via"] = src.pick(["symlink", "fifo", "stdin", "full", "module"])
        return case

    # -- the two ways to run ------------------------------------------------

    def inside(self, argv):
        out, err = io.BytesIO(), io.StringIO()
        buf = io.TextIOWrapper(out, encoding="utf-8", newline="")
        old, cwd = sys.argv, os.getcwd()
        sys.argv = ["lnkparse"] + argv
        os.chdir(self.dir)
        try:
            with lib.observed() as w, contextlib.redirect_stdout(buf), contextlib.redirect_stderr(err):
                try:
                    status = lib.mod.main()
                except SystemExit as e:
                    status = e.code
                except Exception as e:      # noqa: BLE001    what the interpreter does with it
                    err.write("Traceback: %s" % lib.describe(e))
                    status = 1
        finally:
            sys.argv = old
            os.chdir(cwd)
        if isinstance(status, str):
            err.write(status)
            status = 1
        buf.flush()
        return Result(status or 0, out.getvalue(), err.getvalue() + "".join(text_warnings(w)))

    def outside(self, argv, via=None, data=None):
        env = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
        env.update(PYTHONIOENCODING="utf-8", PYTHONPATH=lib.REPO, PYTHONDONTWRITEBYTECODE="1",
                   PYTHONPYCACHEPREFIX="/nonexistent/pycache")
        cmd = [sys.executable, "-c", "import sys; from LnkParse3.lnk_file import main; sys.exit(main())"]
        if via == "module":
            cmd = [sys.executable, "-m", "LnkParse3.lnk_file"]
        if via == "full":
            with open("/dev/full", "wb") as f:
                p = subprocess.run(cmd + argv, env=env, cwd=self.dir, stdin=subprocess.DEVNULL, stdout=f,
                                   stderr=subprocess.PIPE)
            return Result(p.returncode, b"", p.stderr.decode(errors="replace"))
        k = {"input": data} if via == "stdin" else {"stdin": subprocess.DEVNULL}
        p = subprocess.run(cmd + argv, env=env, cwd=self.dir, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **k)
        return Result(p.returncode, p.stdout, p.stderr.decode(errors="replace"))

    # -- the check -----------------------------------------------------------

    def place(self, case, data):
        """Puts the file where the arguments say; -> the name to give."""
        name, via, odd = case["name"], case["via"], case["odd"]
        path = os.path.join(self.dir, name)
        with contextlib.suppress(FileNotFoundError, NotADirectoryError):
            if os.path.isdir(path) and not os.path.islink(path):
                os.rmdir(path)
            else:
                os.unlink(path)
        for n in DECOYS:
            if n != name:
                with open(os.path.join(self.dir, n), "wb") as f:
                    f.write(DECOY)
        if via == "stdin":
            return "/dev/stdin"
        if odd == "missing":
            return name
        if odd == "directory":
            os.mkdir(path)
        elif odd == "dangling":
            os.symlink("nothing-here", path)
        elif odd == "loop":
            os.symlink(name, path)
        elif via == "fifo":
            os.mkfifo(path)
        else:
            real = path
            if via == "symlink":
                real = os.path.join(self.dir, "real.lnk")
                with contextlib.suppress(FileNotFoundError):
                    os.unlink(real)
                os.symlink("real.lnk", path)
            with open(real, "wb") as f:
                f.write(b"" if odd == "empty" else data)
            if odd == "below":
                return name + "/x"
        return name

    def api(self, case, data):
        """-> (what the API prints, its warnings), or None if it refuses."""
        cp, flags = "cp1252", set()
        for o in case["opts"]:
            if o[0] == "c":
                cp = o[2]
            flags.add(o[0])
        with lib.observed() as w:
            try:
                f = lib.lnk.lnk_file(indata=data, cp=cp)
                if "t" in flags:
                    text = lib.printed(f.print_shortcut_target, "j" in flags)
                elif "j" in flags:
                    text = lib.printed(f.print_json, "a" in flags)
                else:
                    text = lib.printed(f.print_lnk_file, "a" in flags)
            except Exception:       # noqa: BLE001    judged by C01 and C19, here it only has to be told
                return None, []
        return text.encode("utf-8"), text_warnings(w)

    def feed(self, path, data):
        def run():
            with contextlib.suppress(BrokenPipeError), open(path, "wb") as f:
                f.write(data)
        t = threading.Thread(target=run, daemon=True)
        t.start()
        return t

    def check(self, case, st):
        B.need(case["via"] is None or case["real"] and not case["odd"])
        B.need(not (case["name"] in DASHED and not (case["dd"] and case["real"])))
        B.need(case["name"] and "/" not in case["name"][2:] and "\0" not in case["name"])
        B.need(case["wrong"] is None or case["name"] not in DASHED)
        B.need(sum(case[k] is not None for k in ("wrong", "help")) < 2)
        B.need(case["name"] not in ("-", ".", "..") or not case["odd"])
        data, _, _, _ = damage.realise(case["file"])
        if case["name"] == "-":
            case = dict(case, name="./-")
        name = self.place(case, data)
        try:
            argv = spell(case, name)
            judge = self.good
            if case["help"] is not None:
                argv.insert(0, case["help"])
                judge = self.helped
            elif case["wrong"] is not None:
                w = WRONG[case["wrong"]]
                if w == ["two files"]:
                    argv = argv + [name] if not case["dd"] else [name] + argv
                elif w == ["no file"]:
                    argv = argv[:argv.index("--")] if case["dd"] else [a for a in argv if a != name]
                elif w[0] in ("-c", "--codepage"):
                    argv = [a for a in argv if a != "--"] + w
                else:
                    argv = w + argv
                judge = self.misused
            B.need(not any("\0" in a for a in argv))
            if case["real"]:
                t = None
                if case["via"] == "fifo" and judge == self.good:
                    t = self.feed(os.path.join(self.dir, name), data)
                r = self.outside(argv, case["via"], data)
                if t:
                    t.join(5)
                    if t.is_alive():        # nobody opened it: let the feeder go
                        os.close(os.open(os.path.join(self.dir, name), os.O_RDONLY | os.O_NONBLOCK))
                        t.join(5)
            else:
                r = self.inside(argv)
        finally:
            self.clean()
        judge(case, data, argv, r)
        st.label("a process" if case["real"] else "in process", judge.__name__,
                 *([case["odd"]] if case["odd"] else []), *(["via " + case["via"]] if case["via"] else []))
        st.mark(case["opts"] or case["odd"] or case["wrong"] is not None)

    def clean(self):
        for e in os.scandir(self.dir):
            if e.is_dir(follow_symlinks=False):
                os.rmdir(e.path)
            else:
                os.unlink(e.path)

    def fail(self, argv, r, text):
        raise Violation("lnkparse %s: %s (status %s, %d bytes on standard output, standard error %r)" % (
            argv, text, r.status, len(r.out), r.err[-150:]))

    def refused(self, argv, r, why):
        if not r.status:
            self.fail(argv, r, "success is reported, but " + why)
        if r.out:
            self.fail(argv, r, "prints a result, but " + why)
        if not r.err.strip():
            self.fail(argv, r, "no explanation, but " + why)

    def good(self, case, data, argv, r):
        if case["odd"] in ("missing", "directory", "dangling", "loop", "below"):
            return self.refused(argv, r, "the file cannot be read")
        want, warns = self.api(case, b"" if case["odd"] == "empty" else data)
        if want is None:
            return self.refused(argv, r, "the file is not a link")
        if case["via"] == "full":
            if not r.status and want:
                self.fail(argv, r, "success is reported, but the output could not be written")
            return None
        if r.status:
            self.fail(argv, r, "failed")
        if r.out != want:
            for a, b in zip(want.splitlines(), r.out.splitlines()):
                if a != b:
                    self.fail(argv, r, "prints %r, the API call %r" % (b[:150], a[:150]))
            self.fail(argv, r, "the API call prints %d bytes" % len(want))
        if case["via"] != "module" and bool(r.err) != bool(warns):
            self.fail(argv, r, "the API call gives %d warnings" % len(warns))
        return None

    def misused(self, case, data, argv, r):
        self.refused(argv, r, "the arguments are wrong")

    def helped(self, case, data, argv, r):
        text = r.out.decode("utf-8")
        if case["via"] == "full":
            return
        if r.status:
            self.fail(argv, r, "help fails")
        for w in ["-h", "-t", "-j", "-c", "-a", "--help", "--target", "--json", "--codepage", "--all"]:
            if w not in text:
                self.fail(argv, r, "help does not tell of " + w)


PROP = C30()
