from .common import *   # noqa: F403


class C13(Prop):
    id = "C13"
    rule = ("1-5 arbitrary well-formed files, joined with separators of 0-20 bytes and walked by their "
            "reported sizes with terminal blocks disallowed, each also on its own under both settings, "
            "with and without appended data, and ending within the terminal block; sweep: single files with each combination of sections. "
            "Non-trivial: at least two files, or sections beyond the header.")
    budget = {"quick": (1200, 16000), "thorough": (20000, 500000)}

    def sweep(self, tier):
        from .c22 import PROP as C22
        for s in C22.sweep("quick"):
            if s["info"] is None or s["info"]["kind"] != "both":
                yield {"files": [s], "sep": ""}

    def gen(self, src):
        g = Gen(src)
        files = []
        for _ in range(src.int(1, 4)):
            f = {}
            if src.flag(0.3):
                f["targets"] = None
            files.append(g.file(**f))
        return {"files": files, "sep": src.bytes(0, 20).hex() if src.flag() else ""}

    def check(self, case, st):
        need = B.need
        files = case["files"]
        need(files)
        sep = B.hx(case["sep"])
        alone, blob, starts = [], b"", []
        for s in files:
            need(s["terminal"] is not None)
            for allow in (True, False):
                o = B.build(dict(s, allow=allow))
                rep, _, lnk = lib.report(o.data, o.cp, allow)
                for what, v in (("size attribute", lnk.size), ("size entry", get(rep, "size"))):
                    expect(o.size, v, "%s (allow_terminal_blocks=%s, %d bytes)" % (what, allow, len(o.data)))
            o = B.build(dict(s, allow=False, appended=""))
            for cut in range(1, 5 if len(files) == 1 else 2):      # it ends within its terminal block
                data = o.data[:len(o.data) - cut]
                rep, _, lnk = lib.report(data, o.cp, bool(cut & 1))
                expect(len(data), lnk.size, "size attribute (%d bytes of the terminal block)" % (4 - cut))
                expect(len(data), get(rep, "size"), "size entry (%d bytes of the terminal block)" % (4 - cut))
            alone.append((lib.canon(lib.report(o.data, o.cp, False)[0]), o))
            blob += sep
            starts.append(len(blob))
            blob += o.data
        blob += sep
        pos = len(sep)
        for i, (want, o) in enumerate(alone):
            if pos != starts[i]:
                raise Violation("walk: file %d starts at %d, the sizes lead to %d" % (i, starts[i], pos))
            rep, _, lnk = lib.report(blob[pos:], o.cp, False)
            if lib.canon(rep) != want:
                raise Violation("file %d of %d reports differently within the concatenation: %s" % (
                    i, len(files), B.diff(lib.report(o.data, o.cp, False)[0], rep)))
            pos += lnk.size + len(sep)
        st.label("%d files" % len(files), "separated" if sep else "adjacent")
        st.mark(len(files) > 1 or len(alone[0][1].data) > 80)


PROP = C13()
