"""Watches what the code under test does to the world around it: the audit
events of the interpreter, look-ups in the file system, and the settings of the
process.  Importable without the rest."""

import os
import sys
import traceback

# modules a program has usually imported; importing them later must not count
COMMON = ("yaml json warnings logging locale codecs decimal random socket signal threading atexit gc argparse textwrap re "
          "datetime uuid hashlib struct subprocess io contextlib copyreg faulthandler encodings.idna zoneinfo calendar "
          "time tempfile shutil linecache tokenize traceback inspect typing functools dataclasses enum collections "
          "copy string pathlib stringprep unicodedata").split()

HARMLESS = {"import", "object.__getattr__", "object.__setattr__", "object.__delattr__", "sys._getframe",
            "sys._getframemodulename", "sys._current_frames", "marshal.loads", "marshal.load", "marshal.dumps",
            "builtins.id", "gc.get_objects", "gc.get_referrers", "array.__new__", "cpython.PyConfig_Set", "code.__new__",
            "function.__new__", "os.putenv.none", "sys.unraisablehook", "sys.excepthook", "mmap.__new__none"}
LOOKS = ("stat", "lstat", "access", "readlink", "statvfs", "getxattr", "pathconf")


class Watch:
    """Records forbidden events between on() and off().  `places` may be read."""

    def __init__(self, package):
        self.package = os.path.realpath(package) + os.sep
        lib = {os.path.realpath(p) for p in sys.path if p and os.path.isdir(p)}
        lib |= {os.path.realpath(os.path.dirname(os.__file__)), os.path.realpath(sys.prefix),
                os.path.realpath(sys.base_prefix) + "/lib/python%d.%d" % sys.version_info[:2]}
        lib.discard("/")
        self.places = tuple(p + os.sep for p in lib if len(p) > 4) + (self.package,)
        self.active = False
        self.events = []
        self.file = None
        self.opened = 0
        import codecs
        for n in ("register", "register_error", "unregister"):
            setattr(codecs, n, self.called(codecs, n))
        sys.addaudithook(self.hook)
        for n in LOOKS:
            if hasattr(os, n):
                setattr(os, n, self.look(n, getattr(os, n)))

    def inside(self, path):
        if isinstance(path, int):
            return True
        try:
            p = os.path.normpath(os.path.join(self.cwd, os.fsdecode(path)))
        except (TypeError, ValueError):
            return False
        if "/LC_MESSAGES/" in p and p.endswith(".mo"):      # argparse asks for translations
            return True
        return p.startswith(self.places) or p + os.sep in self.places

    def add(self, text):
        f = sys._getframe(2)
        while f is not None:
            if f.f_code.co_filename.startswith(self.package):
                text += " (%s:%d)" % (os.path.basename(f.f_code.co_filename), f.f_lineno)
                break
            f = f.f_back
        self.events.append(text)

    def importing(self):
        f = sys._getframe(2)
        while f is not None:
            if f.f_code.co_filename.startswith("<frozen importlib"):
                return True
            f = f.f_back
        return False

    def look(self, name, real):
        def fn(path, *a, **k):
            if self.active and not self.inside(path) and not self.is_file(path) and not self.importing():
                self.add("os.%s(%.120r)" % (name, path))
            return real(path, *a, **k)
        fn.__name__ = name
        return fn

    def called(self, module, name):
        real = getattr(module, name)

        def fn(*a, **k):
            if self.active:
                self.add("%s.%s%.120r" % (module.__name__, name, a))
            return real(*a, **k)
        return fn

    def is_file(self, path):
        return self.file is not None and not isinstance(path, int) and os.fsdecode(path) == self.file

    def hook(self, event, args):
        if not self.active or event in HARMLESS:
            return
        self.active = False
        try:
            if event == "open":
                path, mode, flags = args
                writes = isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND)
                if isinstance(path, int):
                    self.add("open of file descriptor %d" % path)
                elif not writes and self.is_file(path):
                    self.opened += 1
                elif writes or not self.inside(path):
                    self.add("open(%.120r, %r)" % (path, mode))
            elif event in ("compile", "exec"):
                f = sys._getframe(1)
                if f.f_code.co_filename.startswith(self.package) and not self.importing():
                    self.add("%s of code made at run time" % event)
            elif event in ("os.listdir", "os.scandir"):
                if not self.inside(args[0]) and not self.importing():
                    self.add("%s(%.120r)" % (event, args[0]))
            elif event.split(".")[0] in WATCHED or event in WATCHED:
                self.add("%s%.160r" % (event, args))
        finally:
            self.active = True

    def on(self, file=None):
        self.cwd = os.getcwd()
        self.events, self.file, self.opened = [], file, 0
        self.active = True

    def off(self):
        self.active = False
        return self.events


WATCHED = set("os subprocess socket ctypes shutil tempfile urllib http ftplib smtplib imaplib poplib nntplib telnetlib "
              "webbrowser winreg sqlite3 syslog glob mmap fcntl resource signal pickle pty _posixsubprocess setopencodehook "
              "time.sleep sys.settrace sys.setprofile sys.addaudithook sys.set_asyncgen_hooks_firstiter "
              "builtins.input builtins.breakpoint cpython.run_command cpython.run_file cpython.run_stdin "
              "_thread threading msvcrt ensurepip gc.freeze pathlib.Path.glob".split())


def table(cls):
    return {k: id(v) for k, v in vars(cls).items()}


def settings(skip=()):
    """Every setting of the process that the code could have changed."""
    import atexit
    import builtins
    import codecs
    import copyreg
    import decimal
    import faulthandler
    import gc
    import importlib
    import json
    import locale
    import logging
    import random
    import resource
    import signal
    import socket
    import threading
    import time
    import warnings

    import yaml
    s = {}
    s["working directory"] = os.getcwd()
    s["environment"] = dict(os.environ)
    mask = os.umask(0o77)
    os.umask(mask)
    s["umask"] = mask
    s["locale"] = locale.setlocale(locale.LC_ALL)
    s["recursion limit"] = sys.getrecursionlimit()
    s["switch interval"] = sys.getswitchinterval()
    s["integer digits limit"] = sys.get_int_max_str_digits()
    s["streams"] = [id(getattr(sys, n)) for n in ("stdin", "stdout", "stderr", "__stdout__", "__stderr__")]
    s["stream encoding"] = [(sys.stdout.encoding, sys.stdout.errors, sys.stdout.line_buffering)]
    s["hooks"] = [id(getattr(sys, n)) for n in ("excepthook", "displayhook", "unraisablehook", "breakpointhook")]
    s["threading hook"] = id(threading.excepthook)
    s["trace"] = [id(sys.gettrace()), id(sys.getprofile())]
    s["import path"] = list(sys.path)
    s["importers"] = [[id(x) for x in sys.meta_path], [id(x) for x in sys.path_hooks]]
    s["arguments"] = list(sys.argv)
    s["bytecode"] = sys.dont_write_bytecode
    s["warning filters"] = [repr(f) for f in warnings.filters]
    s["warning functions"] = [id(warnings.showwarning), id(warnings.formatwarning), id(warnings.warn), warnings.defaultaction
                              if hasattr(warnings, "defaultaction") else 0]
    s["signal handlers"] = [str(signal.getsignal(i)) for i in sorted(signal.valid_signals())]
    s["timers"] = [signal.getitimer(i)[1] for i in (signal.ITIMER_REAL, signal.ITIMER_VIRTUAL)]
    s["threads"] = threading.active_count()
    s["garbage collector"] = (gc.isenabled(), gc.get_threshold(), gc.get_debug())
    s["random state"] = hash(random.getstate())
    s["text error handlers"] = [id(codecs.lookup_error(n)) for n in
                                ("strict", "replace", "ignore", "backslashreplace", "surrogateescape", "surrogatepass",
                                 "xmlcharrefreplace", "namereplace")]
    for cls in sorted({c for c in vars(yaml).values() if isinstance(c, type)}, key=lambda c: c.__name__):
        s["yaml." + cls.__name__] = table(cls)
        for k, v in vars(cls).items():
            if isinstance(v, dict) and not k.startswith("__"):
                s["yaml.%s.%s" % (cls.__name__, k)] = {repr(a): (id(b), list(map(id, b)) if isinstance(b, list) else 0)
                                                       for a, b in v.items()}
    for m in ("json.encoder", "json.decoder", "json.scanner", "yaml.representer", "yaml.emitter", "yaml.resolver"):
        mod = importlib.import_module(m)
        for k, v in vars(mod).items():
            if isinstance(v, type):
                s["%s.%s" % (m, k)] = table(v)
    s["json defaults"] = repr(sorted(vars(json._default_encoder).items(), key=lambda p: p[0]))
    r = logging.getLogger()
    s["logging"] = (r.level, [id(h) for h in r.handlers], logging.raiseExceptions, r.manager.disable,
                    logging.getLevelName(30))
    s["socket time limit"] = socket.getdefaulttimeout()
    s["decimal context"] = repr(decimal.getcontext())
    s["exit functions"] = atexit._ncallbacks()
    s["pickling functions"] = {repr(k): id(v) for k, v in copyreg.dispatch_table.items()}
    s["time zone"] = (time.tzname, time.timezone)
    s["limits"] = [resource.getrlimit(i) for i in (resource.RLIMIT_NOFILE, resource.RLIMIT_STACK, resource.RLIMIT_AS,
                                                  resource.RLIMIT_CORE)]
    s["user"] = (os.getuid(), os.geteuid(), os.getgid(), os.getpid(), os.getpriority(os.PRIO_PROCESS, 0))
    s["fault handler"] = faulthandler.is_enabled()
    names = [builtins] + [importlib.import_module(n) for n in
                          ("os", "io", "json", "yaml", "struct", "datetime", "codecs", "uuid", "hashlib", "textwrap", "re",
                           "subprocess", "time", "argparse", "os.path", "string", "copy", "contextlib", "functools",
                           "sys", "traceback", "linecache", "locale", "collections", "math", "random", "itertools")]
    for m in names:
        s["module " + m.__name__] = {k: id(v) for k, v in vars(m).items()
                                     if not k.startswith("_") and (callable(v) or isinstance(v, (str, int, tuple)))
                                     and not (m is sys and k in ("last_traceback", "last_value", "last_type", "argv",
                                                                 "last_exc", "stdout", "stderr", "stdin"))}
    s["open file descriptors"] = descriptors()
    for k in skip:
        s.pop(k, None)
    return s


def descriptors():
    out = []
    for n in os.listdir("/proc/self/fd"):
        try:
            out.append((int(n), os.readlink("/proc/self/fd/" + n)))
        except OSError:         # the one of listdir itself
            pass
    return sorted((n, t) for n, t in out if not t.startswith("/proc/"))


def changed(a, b):
    """-> what differs between two snapshots"""
    out = []
    for k in sorted(set(a) | set(b)):
        x, y = a.get(k), b.get(k)
        if x != y:
            if isinstance(x, dict) and isinstance(y, dict):
                keys = [n for n in list(x) + [m for m in y if m not in x] if x.get(n) != y.get(n)]
                # a module may be bound as an attribute of its package by an import
                if k.startswith("module ") and all(n not in x for n in keys):
                    continue
                out.append("%s (%s)" % (k, ", ".join(keys[:4])))
            else:
                out.append("%s (%.100r, before %.100r)" % (k, y, x))
    return out


def preload():
    import importlib
    for n in COMMON:
        importlib.import_module(n)


def import_main(package_parent):
    """Run in a process of its own: the effects of importing the package."""
    sys.dont_write_bytecode = True
    preload()
    sys.path.insert(0, package_parent)
    w = Watch(os.path.join(package_parent, "LnkParse3"))
    before = settings()
    w.on()
    import LnkParse3    # noqa: F401
    import LnkParse3.lnk_file   # noqa: F401
    w.off()
    after = settings()
    return w.events + ["changed: " + c for c in changed(before, after)]


if __name__ == "__main__":
    try:
        for line in import_main(sys.argv[1]):
            print("EFFECT", line)
    except BaseException:       # noqa: BLE001
        traceback.print_exc()
        sys.exit(3)
