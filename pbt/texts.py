"""The places of a file description (see build.py) that hold text."""

from . import tables as T


def fixed(b, n, wide):
    """A field of n bytes, filled and terminated."""
    unit = 2 if wide else 1
    return (b[:n - unit] + bytes(n))[:n]


def put(d, key):
    def fn(b):
        d[key] = b.hex()
    return fn


def put_fixed(d, key, n, wide):
    def fn(b):
        d[key] = fixed(b, n, wide).hex()
    return fn


def put_string(d, key, limit, wide):
    def fn(b):
        d[key] = {"raw": (b[:limit * (2 if wide else 1)] if limit else b).hex(), "over": 0}
    return fn


def put_cpl(d, key):
    def fn(b):
        d.pop("share", None)
        d[key] = b.hex()
    return fn


def of_item(i):
    k = i["k"]
    if k == "fs":
        yield put(i, "name"), bool(i["type"] & 4)
    elif k == "users":
        yield put(i["fe"], "name"), bool(i["fe"]["type"] & 4)
    elif k == "vol":
        yield put_fixed(i, "name", 20, False), False
    elif k == "net":
        for key in ("loc", "desc", "comm"):
            yield put(i, key), False
    elif k == "cpl":
        for key in ("path", "name", "comm"):
            yield put_cpl(i, key), i["uni"]


def of_block(b):
    k = b["k"]
    if k in ("env", "icon"):
        yield put_fixed(b, "ansi", 260, False), False
        yield put_fixed(b, "wide", 520, True), True
    elif k == "darwin":
        yield put_fixed(b, "ansi", 260, False), False
    elif k == "console":
        yield put_fixed(b, "face_name", 64, True), True
    elif k == "tracker":
        yield put_fixed(b, "machine", 16, False), False
    elif k == "shim":
        yield put(b, "name"), True
    elif k == "shellitem":
        for i in b["items"]:
            yield from of_item(i)
    elif k == "meta":
        for s in b["stores"]:
            for p in s["props"]:
                if s["fmt"] == T.NAMED_FORMAT:
                    yield put(p, "name"), True
                if p["type"] == T.VT_LPWSTR:
                    yield put(p, "text"), True


def of_info(d):
    if "base" not in d or d.get("share"):
        return
    yield put(d["vol"], "label"), d["vol"]["wide"]
    for key, wide in (("base", False), ("suffix", False), ("ubase", True), ("usuffix", True)):
        if d[key] is not None:
            yield put(d, key), wide
    for key, wide in (("net", False), ("dev", False), ("unet", True), ("udev", True)):
        if d["cnrl"][key]:
            yield put(d["cnrl"], key), wide


def groups(f):
    """-> for each part of the file, the (function that sets the bytes of a text, whether it is wide)"""
    yield [(put_string(f["strings"], k, n, f["unicode"]), f["unicode"]) for k, _, n in T.STRINGS]
    if f["info"]:
        yield list(of_info(f["info"]))
    if f["targets"]:
        yield [p for i in f["targets"]["items"] for p in of_item(i)]
    for b in f["extras"]:
        yield list(of_block(b))


def fill(f, text):
    """Set every text of the file."""
    for g in groups(f):
        for fn, wide in g:
            fn(text.encode("utf-16-le", "surrogatepass") if wide else text.encode("latin-1", "replace"))
    return f


def put_texts(f, src, pool):
    """Set some texts of the file to texts of the pool, some of them long."""
    def text(wide):
        t = src.pick(pool)
        if src.flag(0.2):
            t = " ".join([t] * src.int(10, 50))
        return t.encode("utf-16-le" if wide else "ascii")
    for g in groups(f):
        if g and src.flag(0.4):
            for fn, wide in g:
                if src.flag(0.5):
                    fn(text(wide))
