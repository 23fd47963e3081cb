"""python3-vt -m pbt.envserver: answers requests of C23 in the environment it was
started in.  A request is a pickled (bytes, code page, allow, file name, how);
the answer everything the package says about the file."""

import builtins
import contextlib
import io
import os
import pickle
import shutil
import sys
import tempfile

from . import lib
from .props.c17 import freeze

OUTPUTS = ("get_json(True)", "get_json(False)", "print_json(True)", "print_lnk_file(True)",
           "print_shortcut_target()", "print_shortcut_target(True)", "lnk_command", "size")
CLI = (["-a"], [], ["-j", "-a"], ["-j"], ["-t"], ["-t", "-j"])


@contextlib.contextmanager
def stored(data, name, how):
    """A scratch folder with the file, as the working directory: -> the path to give."""
    top = os.path.realpath(tempfile.mkdtemp(prefix="pbt-c23-"))
    old = os.getcwd()
    try:
        name = os.fsdecode(name.encode())       # as sys.argv would have it
        path = os.path.join(top, name)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "wb") as f:
            f.write(data)
        os.utime(path, (86400 * 365 * 20, 86400 * 365 * 20))
        os.chdir(top)
        given = path if how & 1 else name
        if how & 2:
            os.chmod(path, 0o400)
        if how & 4:
            os.symlink(path, os.path.join(top, "link"))
            path = os.path.join(top, "link")
            given = path if how & 1 else "link"
        if how & 8:
            os.chdir("/")
            given = path if how & 1 else os.path.relpath(path, "/")
        yield given
    finally:
        os.chdir(old)
        shutil.rmtree(top, ignore_errors=True)


def attempt(fn, *a):
    try:
        return freeze(fn(*a))
    except (Exception, SystemExit) as e:      # noqa: BLE001   (C01 judges whether it may be raised)
        return ("raised", type(e).__name__)


def cli(argv, path):
    old = sys.argv
    sys.argv = ["lnkparse"] + argv + [path]
    try:
        return lib.printed(lib.mod.main)
    finally:
        sys.argv = old


def observe(data, cp, allow, name, how):
    """-> list of (what, value)"""
    out = []
    with lib.observed() as warns:
        try:
            f = lib.lnk.lnk_file(indata=data, cp=cp, allow_terminal_blocks=allow)
        except Exception as e:      # noqa: BLE001
            f = None
            out.append(("parsing", ("raised", type(e).__name__)))
        if f is not None:
            for what in OUTPUTS:
                out.append((what, attempt(lib.OUTPUTS[what], f)))
    out.append(("warnings", freeze(warns)))
    with lib.observed(), stored(data, name, how) as path:
        for mode in ("rb", "unbuffered"):
            with builtins.open(path, "rb", buffering=0 if mode == "unbuffered" else -1) as h:
                out.append(("a file handle (%s)" % mode, attempt(
                    lambda: lib.lnk.lnk_file(h, cp=cp, allow_terminal_blocks=allow).get_json(True))))
        argv = CLI[(how >> 4) % len(CLI)] + (["-c", cp] if cp else [])
        out.append(("the command line " + " ".join(argv), attempt(cli, argv, path)))
    return out


def main():
    rd, wr = os.fdopen(os.dup(0), "rb"), os.fdopen(os.dup(1), "wb")
    null = os.open(os.devnull, os.O_RDWR)
    os.dup2(null, 0)
    os.dup2(null, 1)
    lib.setup()
    while True:
        try:
            q = pickle.load(rd)
        except EOFError:
            return
        try:
            with lib.watchdog():
                a = observe(*q)
        except lib.Hang:
            a = [("result", "none within %d s of CPU time" % lib.CPU_LIMIT)]
        except MemoryError:
            a = [("result", "out of memory")]
        b = pickle.dumps(a)
        wr.write(len(b).to_bytes(8, "little") + b)
        wr.flush()


if __name__ == "__main__":
    sys.stdout = io.TextIOWrapper(io.BytesIO())
    main()
