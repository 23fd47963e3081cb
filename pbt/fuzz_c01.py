"""Atheris target of C01: the first byte selects the options, the rest is the file."""

import os
import sys

from . import lib
from . import tables as T


def case_of(blob):
    o = blob[0] if blob else 0
    cps = [None] + T.CODEPAGES
    return {"raw": blob[1:].hex(), "cp": cps[(o >> 2) % len(cps)], "allow": bool(o & 1),
            "handle": bool(o & 2), "cost": False, "order": o, "few": True}


def main():
    import atheris

    sys.dont_write_bytecode = True
    with atheris.instrument_imports(include=["LnkParse3"]):
        lib.setup()
    from .engine import Stats
    from .props.c01 import PROP
    st = Stats()
    st.mark = lambda c=True: None

    def one(blob):
        PROP.check(case_of(bytes(blob)), st)

    atheris.Setup(sys.argv, one)
    atheris.Fuzz()


if __name__ == "__main__":
    os.environ.setdefault("PYTHONHASHSEED", "0")
    main()
