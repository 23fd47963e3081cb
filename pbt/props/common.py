"""Shared by the properties whose oracle is the encoder: build a file from a
description, parse it, compare the part of the report the property is about."""

from .. import build as B
from .. import lib
from .. import tables as T
from ..engine import Prop
from ..gen import Gen, UNKNOWN_TYPES   # noqa: F401

Violation = lib.Violation


def spec_of(**f):
    s = B.base()
    h = f.pop("header", None)
    s.update(f)
    if h:
        s["header"] = dict(s["header"], **h)
    return s


def expect(exp, got, path, o=None):
    d = B.diff(exp, got, path)
    if d:
        raise Violation(d)


def sub(d, *path):
    for p in path:
        if not isinstance(d, dict) or p not in d:
            return None
        d = d[p]
    return d


def get(d, key, what="report"):
    if not isinstance(d, dict) or key not in d:
        raise Violation("%s has no entry %r" % (what, key))
    return d[key]


class FileProp(Prop):
    """case = description of a file"""

    def gen(self, src):
        return Gen(src).file()

    def check(self, case, st):
        o = B.build(case)
        rep, warns, lnk = lib.report(o.data, o.cp, o.allow)
        if not isinstance(rep, dict):
            raise Violation("get_json returned %r" % (rep,))
        self.compare(case, o, rep, warns, st)

    def compare(self, case, o, rep, warns, st):
        raise NotImplementedError


def label_sections(case, st):
    st.label(*["has " + k for k in ("targets", "info") if case[k] is not None])
    for b in case["extras"]:
        st.label("block " + b["k"])
    if case["strings"]:
        st.label("has strings")


def large(tier):
    """Files with one structure of a size at the limits of narrower integer types,
    with other structures before and behind it."""
    from .c06 import INFO
    from .c09 import C09
    g = "e04fd020ea3a6910a2d808002b30309d"
    root = {"k": "root", "type": 0x1F, "sort": 0x50, "guid": g, "ext": ""}
    plain = {"k": "plain", "type": 0x61, "data": "6162"}
    ids = {"items": [root, plain], "term": True, "pad": ""}
    strings = {"description": {"raw": 6, "over": 0}, "relative_path": {"raw": 8, "over": 0},
               "command_line_arguments": {"raw": 10, "over": 0}}
    extras = [C09.default("codepage"), {"k": "unknown", "sig": 7, "data": "abcdef"}]
    full = dict(targets=ids, info=INFO, strings=strings, extras=extras)
    few = (126, 254, 256, 300, 32700, 32768, 40000)
    used = 25                          # the two items and the end of the list
    for n in (65535, 65534, 65533):    # the longest list there can be
        yield spec_of(**dict(full, targets=dict(ids, pad=n - used - 2)))
        yield spec_of(**dict(full, targets=dict(ids, items=[dict(plain, data=n - 5)])))
    yield spec_of(header={"hsize": 65536 + 76}, **full)
    for n in few + (65400,):
        yield spec_of(**dict(full, targets=dict(ids, items=[root, dict(root, ext=n), plain])))
        yield spec_of(**dict(full, targets=dict(ids, items=[root, dict(plain, data=n), plain])))
        yield spec_of(**dict(full, targets=dict(ids, pad=n)))
        yield spec_of(header={"hsize": 76 + n}, **full)
    for n in few + (65000, 65536, 70000, 140000):
        for kind in ("local", "network", "both"):
            info = dict(INFO, kind=kind, hsize=36)
            yield spec_of(**dict(full, info=dict(info, tail=n)))
            for i in range(5):
                yield spec_of(**dict(full, info=dict(info, gaps=[n if i == j else "" for j in range(6)])))
        yield spec_of(**dict(full, info=dict(INFO, hsize=min(n, 100000) + 36, hpad=n)))
        yield spec_of(**dict(full, info={"kind": "none", "hsize": 28, "xflags": 0, "data": n}))
        yield spec_of(**dict(full, extras=[{"k": "unknown", "sig": 9, "data": n}] + extras))
        yield spec_of(appended=n, **full)
        for k in T.SIG:
            if k not in ("shim", "meta", "codepage"):
                yield spec_of(**dict(full, extras=[dict(C09.default(k), ext=n)] + extras))
    for n in few + (65534,):
        for uni in (False, True):
            for key in ("command_line_arguments", "icon_location"):
                yield spec_of(unicode=uni, **dict(full, strings=dict(strings, **{key: {"raw": 2 * n if uni else n, "over": 0}})))
