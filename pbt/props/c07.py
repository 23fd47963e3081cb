from .c06 import CNRL, INFO, LinkInfoProp, sizes
from .common import *   # noqa: F403

NET = dict(INFO, kind="network")


class C07(LinkInfoProp):
    id = "C07"
    kinds = ("network",)
    rule = ("A network LinkInfo: arbitrary header size, layout, gaps, flags, provider type (listed, "
            "unlisted, valid or not), ANSI or Unicode net and device names, device present or not; "
            "sweep: all listed provider types and their neighbours with and without ValidNetType, all "
            "multiples of 0x1000 up to 0x100000, all permutations, text lengths. Non-trivial: at "
            "least one reported path is not empty.")
    budget = {"quick": (3200, 120000), "thorough": (40000, 1600000)}

    def sweep(self, tier):
        import itertools

        def net(**k):
            extra = {x: k.pop(x) for x in list(k) if x in INFO or x == "share"}
            return spec_of(info=dict(NET, cnrl=dict(CNRL, **k), **extra))
        for p in sorted(T.PROVIDERS):
            for d in (0, 1, -1, 0x100, 1 << 31, 0x200000, 0x800000, (p << 4) - p):
                for valid in (True, False):
                    yield net(provider=p + d, nettype=valid)
        for p in list(range(0, 0x100000, 0x1000)) + [1 << i for i in range(32)] + [(1 << 32) - 1]:
            yield net(provider=p)
        for perm in itertools.permutations(range(3)):
            for uni in (False, True):
                for hs in (28, 36):
                    for dev in (None, "5a3a"):
                        yield net(uni=uni, hsize=hs, dev=dev, udev=dev and "5a003a00",
                                  order=list(perm) + [9] * 3, gaps=["", "ff", "eeee", "", "", ""])
        for hs in range(28, 81):
            yield net(hsize=hs, usuffix=None)
            yield net(hsize=hs, uni=True)
        for i in range(2, 32):
            yield net(xflags=1 << i)
            yield net(xflags=0, hsize=28)
        for v in range(200):
            yield net(size=v)
        for perm in itertools.permutations(range(3)):
            for uni in (False, True):
                f = dict(order=list(perm) + [9] * 3, share=True, uni=uni, hsize=36)
                yield net(net="5c5c735c613a", dev="613a", unet="5c0061003a00", udev="3a00", **f)
                yield net(net="613a", dev="613a", unet="61003a00", udev="61003a00", suffix="", usuffix="", **f)
                yield net(net="613a", dev="623a", unet="61003a00", udev="", suffix="", usuffix="", **f)
        for n in (200, 255, 256, 65535, 65536, 70000):
            for uni in (False, True):
                for hs in (28, 36):
                    for i in range(3):
                        yield net(uni=uni, hsize=hs, gaps=[n if i == j else "" for j in range(6)])
                    yield net(uni=uni, hsize=hs, gap=n)
                    yield net(uni=uni, hsize=hs, gap2=n)
                    yield net(uni=uni, hsize=hs, gap=n, gaps=[n] * 6)
        for n in sizes(tier):
            for uni in (False, True):
                yield net(uni=uni, net="61" * max(n, 1), dev="62" * max(n, 1), unet="6100" * n, udev="6200" * n,
                          gap="33" * (n % 7), gap2="44" * (n % 300))
            yield net(suffix="61" * n, usuffix="6200" * n, hsize=36)


PROP = C07()
