"""Drives the code under test (imported from /repo) and observes it: report,
stdout, warnings, exceptions.  Only the public API is used."""

import contextlib
import datetime
import importlib
import io
import json
import os
import signal
import sys
import traceback
import warnings

REPO = os.environ.get("PBT_REPO", "/repo")


class Violation(Exception):
    def __init__(self, message, case=None):
        super().__init__(message)
        self.message = message
        self.case = case        # the failing case, if it is not the one that ran


class Hang(BaseException):
    pass


def load():
    """Import LnkParse3 from the working tree, never from bytecode caches."""
    sys.dont_write_bytecode = True
    sys.pycache_prefix = "/nonexistent/pycache"
    sys.path.insert(0, REPO)
    import LnkParse3

    where = os.path.realpath(LnkParse3.__file__)
    if not where.startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError("LnkParse3 was imported from %s" % where)
    return LnkParse3


lnk = None          # the package
mod = None          # the module with main()
Refused = None      # LnkParserError


def setup():
    global lnk, mod, Refused
    if lnk is None:
        lnk = load()
        mod = importlib.import_module("LnkParse3.lnk_file")
        Refused = importlib.import_module("LnkParse3.exceptions").LnkParserError


CPU_LIMIT = 25.0


@contextlib.contextmanager
def watchdog(seconds=None):
    """A case that uses this much CPU time is reported as not terminating."""
    def ring(*_):
        raise Hang()
    old = signal.signal(signal.SIGPROF, ring)
    signal.setitimer(signal.ITIMER_PROF, seconds or CPU_LIMIT)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, old)


@contextlib.contextmanager
def observed():
    """Collects all warnings (as a list of messages) and silences them."""
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter("always")
        out = []
        yield out
        out.extend("%s: %s" % (w.category.__name__, w.message) for w in rec)


def describe(e):
    tb = traceback.extract_tb(e.__traceback__)
    here = [f for f in tb if "LnkParse3" in f.filename]
    at = " at %s:%d" % (os.path.basename(here[-1].filename), here[-1].lineno) if here else ""
    return "%s: %s%s" % (type(e).__name__, str(e)[:200], at)


def call(what, fn, *a, **k):
    """Call into the library; any exception is a violation."""
    try:
        return fn(*a, **k)
    except Exception as e:      # noqa: BLE001
        raise Violation("%s raised %s" % (what, describe(e))) from e


def parse(data, cp=None, allow=True, what="parsing"):
    return call(what, lnk.lnk_file, indata=data, cp=cp, allow_terminal_blocks=allow)


def report(data, cp=None, allow=True, full=True):
    """-> (get_json(full), warnings, object) of a fresh parse."""
    with observed() as w:
        f = parse(data, cp, allow)
        r = call("get_json(%s)" % full, f.get_json, full)
    return r, w, f


def printed(fn, *a, **k):
    """What the call prints, through a UTF-8 stdout as a terminal or pipe has it."""
    raw = io.BytesIO()
    buf = io.TextIOWrapper(raw, encoding="utf-8", newline="")
    with contextlib.redirect_stdout(buf):
        fn(*a, **k)
    buf.flush()
    return raw.getvalue().decode("utf-8")


OUTPUTS = {
    "get_json(True)": lambda f: f.get_json(True),
    "get_json(False)": lambda f: f.get_json(False),
    "get_json()": lambda f: f.get_json(),
    "print_json(True)": lambda f: printed(f.print_json, True),
    "print_json(False)": lambda f: printed(f.print_json, False),
    "print_lnk_file(True)": lambda f: printed(f.print_lnk_file, True),
    "print_lnk_file(False)": lambda f: printed(f.print_lnk_file, False),
    "print_shortcut_target()": lambda f: printed(f.print_shortcut_target),
    "print_shortcut_target(True)": lambda f: printed(f.print_shortcut_target, True),
    "lnk_command": lambda f: f.lnk_command,
    "size": lambda f: f.size,
}


def jsonable(v):
    """The report as print_json must show it."""
    if isinstance(v, dict):
        return {k: jsonable(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [jsonable(x) for x in v]
    if isinstance(v, datetime.datetime):
        return v.replace(microsecond=0).isoformat()
    return v


def canon(v):
    return json.dumps(jsonable(v), sort_keys=True)
