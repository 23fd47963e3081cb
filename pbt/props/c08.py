from .common import *   # noqa: F403

KEYS = [k for k, _, _ in T.STRINGS]


class C08(FileProp):
    id = "C08"
    rule = ("String data with any subset of the five strings, both encodings, contents with and "
            "without NULs, undecodable bytes, lengths around 260 and beyond (announced and stored), in "
            "files with and without other sections; sweep: all 32 subsets x both encodings, each "
            "string alone and among the others at lengths 0-3, 258-262, 519-522, 4096, 32767, 32768, 65535. "
            "Non-trivial: at least two strings, one of them not empty.")
    budget = {"quick": (3200, 80000), "thorough": (40000, 1200000)}

    def sweep(self, tier):
        def s(unicode, text, over=0):
            return {"raw": text.encode("utf-16-le" if unicode else "latin-1").hex(), "over": over}
        for uni in (False, True):
            for mask in range(32):
                ks = [k for i, k in enumerate(KEYS) if mask >> i & 1]
                yield spec_of(unicode=uni, strings={k: s(uni, k) for k in ks})
                yield spec_of(unicode=uni, strings={k: s(uni, "") for k in ks},
                              extras=[{"k": "codepage", "cp": 1252}])
            for i, (k, _, limit) in enumerate(T.STRINGS):
                lens = [0, 1, 2, 3, 127, 128, 255, 256, 258, 259, 260]
                if not limit:
                    lens += [261, 262, 300, 512, 519, 520, 521, 522, 4096, 32767, 32768, 65535]
                for n in lens:
                    alone = {k: s(uni, "x" * n)}
                    yield spec_of(unicode=uni, strings=alone)
                    yield spec_of(unicode=uni, strings=dict({q: s(uni, "other " + q) for q in KEYS}, **alone))
                if limit:
                    for over in (0, 1, 2, 39, 252, 253, 1000, 32507, 32508, 65275):
                        full = {k: s(uni, "y" * 260, over)}
                        yield spec_of(unicode=uni, strings=full, extras=[{"k": "codepage", "cp": 3}])
                        yield spec_of(unicode=uni, strings=dict({q: s(uni, "other " + q) for q in KEYS}, **full))
                for text in ("\0", "a\0", "\0a", "a\0b", "a\0b\0c"):
                    yield spec_of(unicode=uni, strings=dict({q: s(uni, q) for q in KEYS}, **{k: s(uni, text)}))

    def gen(self, src):
        g = Gen(src, big=True)
        f = dict(g.start(), info=None, targets=None, extras=[])
        if src.flag(0.3):
            f = g.start()
        f["unicode"] = src.flag()
        f["strings"] = g.strings(f["unicode"], 0.6)
        return g.file(**f)

    def compare(self, case, o, rep, warns, st):
        exp = o.report["data"]
        expect(exp, get(rep, "data"), "data")
        # what follows the strings is read right after them
        expect(o.report["extra"], get(rep, "extra"), "extra")
        expect(o.report["size"], get(rep, "size"), "size")
        st.label("%d strings" % len(exp), "unicode" if case["unicode"] else "ansi")
        if any(s["over"] for s in case["strings"].values()):
            st.label("announced longer than stored")
        st.mark(len(exp) >= 2 and any(exp.values()))


PROP = C08()
