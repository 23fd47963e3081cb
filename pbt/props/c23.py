import os
import pickle
import shutil
import subprocess
import sys
import tempfile

from .. import damage
from ..texts import put_texts
from .common import *   # noqa: F403
from .c17 import freeze   # noqa: F401

BASE = {"PATH": "/usr/bin:/bin", "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0", "LC_ALL": "C.UTF-8",
        "TZ": "UTC0"}
# name -> (interpreter options, variables, year the clock shows)
ENVS = {
    "reference": ([], {}, None),
    "New York": ([], {"TZ": "EST5EDT,M3.2.0,M11.1.0"}, None),
    "India": ([], {"TZ": "IST-5:30"}, None),
    "UTC+14": ([], {"TZ": "<+14>-14"}, None),
    "UTC-11": ([], {"TZ": "<-11>11"}, None),
    "southern": ([], {"TZ": "AEST-10AEDT,M10.1.0,M4.1.0/3"}, None),
    "no TZ": ([], {"TZ": None}, None),
    "hash 1": ([], {"PYTHONHASHSEED": "1"}, None),
    "hash 77": ([], {"PYTHONHASHSEED": "77"}, None),
    "hash random": ([], {"PYTHONHASHSEED": "random"}, None),
    "C locale": ([], {"LC_ALL": "C", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"}, None),
    "POSIX locale, UTF-8 mode": ([], {"LC_ALL": "POSIX", "LANG": "de_DE.ISO-8859-1", "PYTHONUTF8": "1"}, None),
    "-O": (["-O"], {}, None),
    "-OO": (["-OO"], {}, None),
    "-X dev": (["-X", "dev"], {}, None),
    "-I": (["-s", "-B"], {"PYTHONNODEBUGRANGES": "1", "PYTHONSAFEPATH": "1"}, None),
    "1980": ([], {}, 1980),
    "2005": ([], {}, 2005),
    "2099": ([], {}, 2099),
    "variables": ([], {"HOME": "/home/pbt", "USERPROFILE": "C:\\Users\\pbt", "windir": "D:\\WIN", "SystemRoot": "D:\\WIN",
                       "TEMP": "X:\\t", "TMPDIR": "/tmp", "USER": "pbt", "APPDATA": "Q:\\a", "PROGRAMFILES": "P:\\f",
                       "X": "1", "A": "2", "ProgramFiles": "P:\\f"}, None),
    "wide terminal": ([], {"COLUMNS": "400", "LINES": "900", "TERM": "xterm-256color", "COLORTERM": "truecolor",
                           "LANG": "C", "LANGUAGE": "de"}, None),
    "terminal": ([], {"COLUMNS": "20", "LINES": "5", "TERM": "dumb", "NO_COLOR": "1", "FORCE_COLOR": "1",
                      "PYTHONIOENCODING": "latin-1", "PYTHONUNBUFFERED": "1"}, None),
    "quiet": ([], {"PYTHONWARNINGS": "ignore", "PYTHONOPTIMIZE": "", "PYTHONINSPECT": "", "DEBUG": "1", "VERBOSE": "1",
                   "PYTHONMALLOC": "malloc"}, None),
}
NAMES = list(ENVS)
SLOTS = 24      # so that each of 8 workers needs few environments
FILES = ["a.lnk", "A B.LNK", "\u00fc\u4e2d.lnk", "noending", "x.txt", "sub/dir/a.lnk", "$HOME", "%A%.lnk", "~"]
TEXTS = ["$HOME", "${HOME}\\x", "$X", "%A%", "%USERPROFILE%\\Desktop", "~\\x", "~", "~/x", "~root/x", "$HOME/x", "%windir%\\system32",
         "%ProgramFiles%\\a", "$A/$X", "%X%", "%SystemRoot%"]

CLOCK = r"""
#define _GNU_SOURCE
#include <dlfcn.h>
#include <sys/time.h>
#include <time.h>
static time_t now(void) { return (time_t) PBT_NOW; }
int clock_gettime(clockid_t c, struct timespec *t) {
    static int (*real)(clockid_t, struct timespec *);
    if (!real) real = (int (*)(clockid_t, struct timespec *)) dlsym(RTLD_NEXT, "clock_gettime");
    int r = real(c, t);
    if (!r && c == CLOCK_REALTIME) t->tv_sec = now();
    return r;
}
time_t time(time_t *t) { if (t) *t = now(); return now(); }
int gettimeofday(struct timeval *t, void *z) { (void) z; t->tv_sec = now(); t->tv_usec = 0; return 0; }
"""


class Server:
    def __init__(self, name, scratch):
        opts, env, year = ENVS[name]
        e = dict(BASE, PBT_REPO=lib.REPO)
        for k, v in env.items():
            e[k] = v
        e = {k: v for k, v in e.items() if v is not None}
        if year:
            so = os.path.join(scratch, "clock%d.so" % year)
            if not os.path.exists(so):
                src = os.path.join(scratch, "clock.c")
                with open(src, "w") as f:
                    f.write(CLOCK)
                subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-DPBT_NOW=%d" % ((year - 1970) * 31556952),
                                "-o", so, src, "-ldl"], check=True)
            e["LD_PRELOAD"] = so
        top = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
        code = "import sys; sys.path.insert(0, %r); from pbt.envserver import main; main()" % top
        self.p = subprocess.Popen([sys.executable] + opts + ["-c", code], env=e, cwd=scratch, bufsize=0,
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=None if os.environ.get("PBT_DEBUG") else subprocess.DEVNULL)
        self.rd = os.fdopen(os.dup(self.p.stdout.fileno()), "rb")

    def send(self, q):
        b = pickle.dumps(q)
        with os.fdopen(os.dup(self.p.stdin.fileno()), "wb") as f:
            f.write(b)

    def receive(self):
        n = int.from_bytes(self.rd.read(8), "little")
        return pickle.loads(self.rd.read(n)) if n else None

    def close(self):
        self.p.kill()
        self.p.wait()
        self.p.stdin.close()
        self.p.stdout.close()
        self.rd.close()


class C23(Prop):
    id = "C23"
    rule = ("Well-formed, damaged and sample files, texts that look like variables; the outputs, warnings, file handles "
            "and command line, in a process with another time zone (6), hash seed (3), locale and UTF-8 mode, "
            "interpreter options (-O, -OO, -X dev), date of the clock, environment variables, terminal, and with the "
            "file under another name, relative, through a link or read-only, against a process of the reference "
            "environment. Sweep: every sample in every environment. Non-trivial: the file is not refused.")
    assumptions = ["Only the C and C.UTF-8 locales are installed here.", "Texts are printed through a UTF-8 stdout."]
    budget = {"quick": (400, 4800), "thorough": (8000, 120000)}

    def start(self):
        self.stop_servers()
        self.servers = {}
        self.scratch = tempfile.mkdtemp(prefix="pbt-c23-env-")

    def stop_servers(self):
        for s in getattr(self, "servers", {}).values():
            s.close()
        if getattr(self, "scratch", None):
            shutil.rmtree(self.scratch, ignore_errors=True)
            self.scratch = None

    finish = stop_servers

    def isolate(self):
        """Fresh processes."""
        for s in self.servers.values():
            s.close()
        self.servers = {}

    def sweep(self, tier):
        k = 0
        for n in sorted(damage.samples()):
            for i in range(SLOTS):
                k += 1
                yield {"sample": n, "edits": [], "cp": None, "allow": True, "envs": [1 + i % (len(NAMES) - 1)],
                       "name": FILES[k % len(FILES)], "how": k * 7 % 96}

        from ..texts import fill
        from .c17 import rich
        for i in range(SLOTS):
            for j, t in enumerate(TEXTS):
                yield {"file": fill(rich(), t), "edits": [], "envs": [1 + i % (len(NAMES) - 1)], "name": "a.lnk",
                       "how": (i + j) * 16 % 96}
        day = 24 * 36 * 10 ** 9
        for i in range(SLOTS):
            for c, a, w in ((1, 36 * 10 ** 8, day - 1), (B.MAX_TICKS - 10, B.MAX_TICKS - 36 * 10 ** 8, B.MAX_TICKS - day // 2),
                            (B.MAX_TICKS - day - 10, B.MAX_TICKS - day * 5 // 4, B.MAX_TICKS - day * 3 // 2)):
                yield {"file": spec_of(header={"ctime": c, "atime": a, "wtime": w}), "edits": [], "envs": [1 + i % (len(NAMES) - 1)],
                       "name": "a.lnk", "how": 0}

    def gen(self, src):
        case = damage.gen(src, 0.75)
        if "file" in case:
            put_texts(case["file"], src, TEXTS)
            if src.flag(0.2):       # within two days of the borders of what can be shown
                h = case["file"]["header"]
                for k in ("ctime", "atime", "wtime"):
                    d = src.int(1, 40 * 36 * 10 ** 9)
                    h[k] = src.pick([d, B.MAX_TICKS - d, B.MAX_TICKS - 10, 1])
        case["envs"] = [src.pick(range(1 + self.worker % (len(NAMES) - 1), len(NAMES), 8)) for _ in range(2)]
        case["name"] = src.pick(FILES)
        case["how"] = src.int(0, 95)
        return case

    def ask(self, name, q):
        for last in (False, True):
            if name not in self.servers:
                self.servers[name] = Server(name, self.scratch)
            try:
                self.servers[name].send(q)
                a = self.servers[name].receive()
            except OSError:
                a = None
            if a is not None:
                return a
            self.servers.pop(name).close()
        return [("result", "the process died")]

    def check(self, case, st):
        data, cp, allow, intact = damage.realise(case)
        B.need(case["name"] in FILES)
        ref = self.ask("reference", (data, cp, allow, "a.lnk", 1 | case["how"] & ~15))
        for i in case["envs"]:
            name = NAMES[i % len(NAMES)]
            got = self.ask(name, (data, cp, allow, case["name"], case["how"]))
            for (w1, v1), (w2, v2) in zip(ref, got):
                if w1 != w2 or v1 != v2:
                    raise Violation("environment %r, file %r (%d): %s gives %s, in the reference environment %s" % (
                        name, case["name"], case["how"], w2, *tell(v2, v1)))
            if len(ref) != len(got):
                raise Violation("environment %r: %d outputs instead of %d" % (name, len(got), len(ref)))
            st.label(name)
        refused = ref[0][0] == "parsing"
        st.label("refused" if refused else "intact" if intact else "damaged")
        st.mark(not refused)


def tell(a, b, n=150):
    a, b = repr(a), repr(b)
    i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    i = max(0, i - 40)
    return "..." + a[i:i + n], "..." + b[i:i + n]


PROP = C23()
