import gzip
import inspect
import io
import os
import pickle
import resource
import shutil
import subprocess
import sys
import tempfile
import threading
import warnings

from .. import damage, world
from ..texts import fill, put_texts
from .common import *   # noqa: F403
from .c17 import freeze

SILENT = {"get_json(True)": lambda f: f.get_json(True), "get_json(False)": lambda f: f.get_json(False),
          "lnk_command": lambda f: f.lnk_command, "size": lambda f: f.size}
LOUD = {"print_json(True)": lambda f: f.print_json(True), "print_json(False)": lambda f: f.print_json(False),
        "print_lnk_file(True)": lambda f: f.print_lnk_file(True),
        "print_lnk_file(False)": lambda f: f.print_lnk_file(False),
        "print_shortcut_target()": lambda f: f.print_shortcut_target(),
        "print_shortcut_target(True)": lambda f: f.print_shortcut_target(True)}
OPS = list(SILENT) + list(LOUD)
HANDLES = ["bytes", "BytesIO", "file", "unbuffered", "pipe", "gzip", "spooled", "read only"]
CLI = [[], ["-j"], ["-t"], ["-a"], ["-j", "-a"], ["-t", "-j"], ["-c", "cp437"], ["-j", "-c", "utf-8"]]
# texts that name something that exists or could be reached
PLACES = ["/etc/hostname", "\\\\127.0.0.1\\share\\x", "http://127.0.0.1:9/x.lnk", "//127.0.0.1/x", "/etc/passwd", "a.lnk",
          ".\\a.lnk", "./a.lnk", "C:\\Windows\\System32\\cmd.exe", "$(touch pbt)", "`touch pbt`", "; touch pbt", "| touch pbt",
          "/bin/sh -c 'touch pbt'", "__import__('os').system('touch pbt')", "!!python/object/apply:os.system ['touch pbt']",
          "{0.__class__}", "%s%n%x", "%(x)s", "{}", "{x}", "${jndi:ldap://127.0.0.1:9/a}", "file:///etc/passwd", "cp1252",
          "/proc/self/environ", "..", "/", "localhost", "import os", "/dev/zero", "shell:startup", "%COMSPEC%"]


class Plain:
    """An object that can do nothing but read()."""

    def __init__(self, data):
        self.data = data
        self.calls = 0

    def read(self, n=-1):
        self.calls += 1
        n = len(self.data) if n is None or n < 0 else n
        out, self.data = self.data[:n], self.data[n:]
        return out


class Recorder(io.BytesIO):
    """Refuses to be changed."""

    def __init__(self, data):
        super().__init__(data)
        self.wrong = []

    def write(self, b):
        self.wrong.append("write")
        return super().write(b)

    def truncate(self, *a):
        self.wrong.append("truncate")
        return super().truncate(*a)


class C26(Prop):
    id = "C26"
    rule = ("Well-formed, damaged and sample files with texts that name local files, hosts, commands, templates or code; "
            "parsed from bytes and from 7 kinds of handles (after 0-40 bytes read before), all outputs, and the command "
            "line, each in a process of its own in a scratch directory, with an audit hook and recording stand-ins for "
            "the file look-ups. Oracle: nothing is opened, looked up, written, run, connected to or printed except "
            "what the call is for; about 150 settings of the process are the same afterwards; the handle is left open, "
            "unchanged, and gives the report of the bytes from its position. Sweep: importing the package, each kind "
            "of handle x each command line for the samples. Non-trivial: the file is not refused.")
    assumptions = ["Effects are seen through the interpreter's audit events, look-ups of module os, the descriptor table "
                   "and process settings; a C extension could act beside them."]
    budget = {"quick": (240, 3600), "thorough": (6000, 90000)}

    def start(self):
        self.finish()
        self.scratch = tempfile.mkdtemp(prefix="pbt-c26-")
        world.preload()
        import encodings
        for cp in list(T.CODEPAGES) + ["utf-16-le", "ascii", "latin-1"]:
            try:
                b"a".decode(cp or "cp1252")
            except (LookupError, ValueError):
                pass
        assert encodings
        self.watch = world.Watch(os.path.dirname(os.path.abspath(lib.lnk.__file__)))

    def finish(self):
        if getattr(self, "scratch", None):
            shutil.rmtree(self.scratch, ignore_errors=True)
            self.scratch = None

    def sweep(self, tier):
        for _ in range(1):
            yield {"import": True}
        k = 0
        for n in sorted(damage.samples()):
            for j in range(len(HANDLES)):
                k += 1
                yield {"sample": n, "edits": [], "cp": None, "allow": True, "how": j, "before": "",
                       "ops": [k % len(OPS), (k // len(OPS) + j) % len(OPS)], "cli": None}
                yield {"sample": n, "edits": [], "cp": None, "allow": True, "how": j, "before": "4c000000" * 3,
                       "ops": [(k + 5) % len(OPS)], "cli": k % len(CLI)}

        from .c17 import rich
        for i, t in enumerate(PLACES):
            yield {"file": fill(rich(), t), "edits": [], "how": 0, "before": "", "ops": [i % len(OPS)],
                   "cli": None if i % 2 else i % len(CLI)}

    def gen(self, src):
        case = damage.gen(src, 0.75)
        if "file" in case and src.flag(0.7):
            put_texts(case["file"], src, PLACES)
        case["how"] = src.int(0, len(HANDLES) - 1)
        case["before"] = src.bytes(0, 40).hex() if src.flag(0.3) else ""
        case["ops"] = [src.int(0, len(OPS) - 1) for _ in range(src.int(1, 4))]
        case["cli"] = src.int(0, len(CLI) - 1) if src.flag(0.3) else None
        return case

    def check(self, case, st):
        if "import" in case:
            self.importing(st)
            return
        data, cp, allow, intact = damage.realise(case)
        before = B.hx(case["before"])
        B.need(case["ops"] and 0 <= case["how"] < len(HANDLES) and (case["cli"] is None or 0 <= case["cli"] < len(CLI)))
        how = HANDLES[case["how"]]
        B.need(how != "pipe" or len(data) + len(before) < 60000)
        wrong, refused = self.fork((data, cp, allow, how, before, [OPS[i % len(OPS)] for i in case["ops"]],
                                    None if case["cli"] is None else CLI[case["cli"]]))
        if wrong:
            raise Violation("; ".join(wrong[:3]))
        st.label(how, "refused" if refused else "reported", "intact" if intact else "damaged",
                 *["command line"] * (case["cli"] is not None))
        st.mark(not refused)

    def importing(self, st):
        top = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
        p = subprocess.run([sys.executable, os.path.join(top, "pbt", "world.py"), os.path.realpath(lib.REPO)],
                           cwd=self.scratch, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           text=True, env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1"))
        if p.returncode:
            raise RuntimeError("importing failed: %s" % p.stderr[-1000:])
        lines = p.stdout.splitlines()
        if lines:
            raise Violation("importing the package: %s" % "; ".join(lines[:3]))
        if os.listdir(self.scratch):
            raise Violation("importing the package left %s" % os.listdir(self.scratch)[:3])
        st.label("import")
        st.mark()

    def fork(self, args):
        d = os.path.join(self.scratch, "run")
        os.mkdir(d)
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            resource.setrlimit(resource.RLIMIT_CPU, (60, 60))
            try:
                os.chdir(d)
                out = run(self.watch, *args)
            except BaseException as e:       # noqa: BLE001
                import traceback
                out = ("error", traceback.format_exc() if not isinstance(e, Violation) else e.message)
            with os.fdopen(w, "wb") as f:
                pickle.dump(out, f)
            os._exit(0)
        os.close(w)
        try:
            with os.fdopen(r, "rb") as f:
                blob = f.read()
            _, status = os.waitpid(pid, 0)
            left = sorted(os.listdir(d))
        finally:
            shutil.rmtree(d, ignore_errors=True)
        if not blob:
            raise Violation("the process ended with status %d" % status)
        out = pickle.loads(blob)
        if out[0] == "error":
            raise RuntimeError(out[1])
        if left != ["a.lnk"]:
            out[0].append("files in the working directory: %s" % left[:4])
        return out


def accessors(f):
    """Call what can be called without arguments on the link and its parts."""
    for part in (None, "header", "targets", "info", "string_data", "extras"):
        o = f if part is None else getattr(f, part, None)
        for n in dir(type(o)) if o is not None else ():
            if n.startswith(("_", "print")):
                continue
            try:
                v = getattr(o, n)
                if inspect.ismethod(v) and all(p.default is not p.empty for p in inspect.signature(v).parameters.values()):
                    v()
            except Exception:       # noqa: BLE001
                pass


def run(watch, data, cp, allow, how, before, ops, cli):
    """-> (what was wrong, refused)"""
    os.environ["LC_ALL"] = os.environ["LANG"] = "C.UTF-8"       # what setlocale("") would take up
    path = os.path.join(os.getcwd(), "a.lnk")
    blob = before + data if how != "gzip" else gzip.compress(before + data, 1)
    with open(path, "wb") as f:
        f.write(data if cli is not None else blob)
    os.chmod(path, 0o640)
    os.utime(path, (1000000000, 1000000000))
    silent = open(os.devnull, "rb")
    os.dup2(silent.fileno(), 0)
    silent.close()
    raws = [io.BytesIO(), io.BytesIO()]
    sys.stdout, sys.stderr = (io.TextIOWrapper(r, encoding="utf-8", newline="") for r in raws)
    sys.argv = ["lnkparse"] + (cli or []) + [path]
    shown = []
    warnings.resetwarnings()
    warnings.simplefilter("always")

    def show(message, category, filename, lineno, file=None, line=None):
        shown.append(str(message))
    warnings.showwarning = show

    def printed():
        sys.stdout.flush()
        sys.stderr.flush()
        out = [r.getvalue().decode("utf-8") for r in raws]
        for r in raws:
            r.seek(0)
            r.truncate()
        return out

    wrong = []
    handle, keep = None, None
    plain = {}
    refused = False
    if cli is None:
        handle, keep = make(how, blob, path, len(before))
    state = world.settings()

    def quiet(what):
        for n, t in zip(("stdout", "stderr"), printed()):
            if t:
                wrong.append("%s wrote to %s: %.100r" % (what, n, t))

    watch.on(path if cli is not None else None)
    try:
        try:
            if cli is not None:
                try:
                    lib.mod.main()
                except SystemExit as e:
                    if e.code not in (0, None):
                        wrong.append("the command line ended with status %r" % (e.code,))
                out = printed()
                if out[1]:
                    wrong.append("the command line wrote to stderr: %.100r" % out[1])
            else:
                kw = {"indata": data} if handle is None else {"fhandle": handle}
                f = lib.lnk.lnk_file(cp=cp, allow_terminal_blocks=allow, **kw)
                quiet("parsing")
                for op in ops:
                    if op in SILENT:
                        plain[op] = freeze(SILENT[op](f))
                        quiet(op)
                    else:
                        LOUD[op](f)
                        a, b = printed()
                        plain[op] = freeze(a)
                        if b:
                            wrong.append("%s wrote to stderr: %.100r" % (op, b))
                accessors(f)
                quiet("an accessor")
                del f
        except lib.Refused:
            refused = True
            quiet("refusing")
        except Exception as e:      # noqa: BLE001   (C01 judges whether it may be raised)
            refused = True
            plain["raised"] = type(e).__name__
            printed()
    finally:
        events = watch.off()
    wrong += events
    if cli is not None and watch.opened > 1:
        wrong.append("the file was opened %d times" % watch.opened)
    wrong += ["changed: " + c for c in world.changed(state, world.settings())]
    st = os.stat(path)
    with open(path, "rb") as f:
        if f.read() != (data if cli is not None else blob):
            wrong.append("the file was changed")
    if (st.st_mode & 0o777, st.st_mtime) != (0o640, 1000000000):
        wrong.append("mode or time of the file were changed")
    if handle is not None:
        if getattr(handle, "closed", False):
            wrong.append("the handle (%s) was closed" % how)
        elif getattr(handle, "wrong", None):
            wrong.append("the handle was changed: %s" % handle.wrong)
    if handle is not None and not wrong:
        wrong += same(data, cp, allow, ops, plain, refused, how, printed)
    del keep
    return wrong, refused


def same(data, cp, allow, ops, got, refused, how, printed):
    """The handle gave what the bytes from its position give."""
    try:
        f = lib.lnk.lnk_file(indata=data, cp=cp, allow_terminal_blocks=allow)
        want = {}
        for op in ops:
            if op in SILENT:
                want[op] = freeze(SILENT[op](f))
            else:
                LOUD[op](f)
                want[op] = freeze(printed()[0])
    except Exception as e:      # noqa: BLE001
        if not refused:
            return ["a handle (%s) is parsed, its bytes raise %s" % (how, type(e).__name__)]
        return []
    if refused:
        return ["a handle (%s) raises %s, its bytes do not" % (how, got.get("raised", "a refusal"))]
    return ["%s differs between a handle (%s) and its bytes" % (op, how) for op in want if got[op] != want[op]]


def make(how, blob, path, skip):
    """-> (handle, things to keep), read up to the link"""
    keep = None
    if how == "bytes":
        return None, None
    if how == "BytesIO":
        h = Recorder(blob)
    elif how == "file":
        h = open(path, "rb")
    elif how == "unbuffered":
        h = open(path, "rb", buffering=0)
    elif how == "gzip":
        h = gzip.open(path)
    elif how == "spooled":
        h = tempfile.SpooledTemporaryFile(max_size=1 << 24)
        h.write(blob)
        h.seek(0)
    elif how == "read only":
        h = Plain(blob)
    else:
        r, w = os.pipe()
        h = os.fdopen(r, "rb")

        def fill():
            with os.fdopen(w, "wb") as f:
                f.write(blob)
        keep = threading.Thread(target=fill)
        keep.start()
        keep.join()
    h.read(skip) if skip else None
    return h, keep


PROP = C26()
