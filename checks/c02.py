"""C02: capacitor ladder weights."""
from fractions import Fraction as F
import numpy as np
from lib.vf import Refused, frac

CFG = """SPECIFICATION Spec
CONSTANTS
 Mode = "{mode}"
 MaxN = {mn}
 MaxC = {mc}
INVARIANTS NonNegative SumAtMostOne NoLoss NoParasitics Plain {k} EmitDone
CHECK_DEADLOCK FALSE
"""


def small(l, lim=1 << 20):
    """Keep rationals inside TLC's 32-bit integers (size filter only)."""
    load, w = F(0), []
    for t in l:
        node = t["cd"] + t["cp"] + load
        if node == 0:
            w.append(F(0))
            continue
        w = [x * load / node for x in w] + [F(t["cd"]) / node]
        load = F(t["cb"]) * node / (t["cb"] + node) if t["cb"] else node
        if max([load.numerator, load.denominator] + [x.denominator for x in w]) > lim:
            return False
        s = F(0)
        for x in reversed(w):
            s += x
            if s.denominator > 1 << 20:
                return False
    return True


def run(c):
    from adctoolbox.fundamentals.convert_cap_to_weight import convert_cap_to_weight
    r = c.rng
    em = c.tlc("CapLadder", CFG.format(mode="ex", mn=2 if not c.thorough else 3, mc=3 if not c.thorough else 2, k="Kirchhoff"),
               name="CapLadder/all", exhaustive=True, workers=1)
    scen = []
    while len(scen) < c.n(300, 3000):
        n = r.randint(1, 12)
        mode = r.random()
        l = []
        for k in range(n):
            cd = r.choice([2 ** min(k, 6), r.randint(0, 9), 2 ** (k % 4), 0]) if r.random() < .9 else 0
            cb = 0 if r.random() < (0.8 if n > 4 else 0.4) else r.randint(1, 8)
            cp = 0 if r.random() < 0.5 else r.randint(0, 5)
            if mode < 0.15:
                cb = 0
            if mode > 0.9 and r.random() < 0.5:
                cd = cp = 0
            l.append({"cd": cd, "cb": cb, "cp": cp})
        if small(l):
            scen.append({"l": l})
    em += c.tlc("CapLadder", CFG.format(mode="file", mn=1, mc=1, k=""), scen=scen, name="CapLadder/random")

    def one(e, corrupt=False):
        l = e["l"]
        w = np.array([frac(x) for x in e["w"]])
        tot = frac(e["total"])
        if corrupt:
            w = w + 1e-6
        s = r.choice([1.0, 1.0, 1e-15, 2.5, 1e-12, 1e3])
        ty = r.choice([np.array, list, lambda x: np.array(x)[::1]])
        args = [[t[k] * s for t in l] for k in ("cd", "cb", "cp")]
        if s == 1.0 and r.random() < 0.5:
            args = [[int(x) for x in a] for a in args]
        args = [ty(a) for a in args]
        keep = [list(a) for a in args]
        got = c.call(convert_cap_to_weight, *args)
        if not c.check(not isinstance(got, Refused) and len(got) == 2, "returns weights and total", e, None, got):
            return
        c.close(got[0], w, "charge-redistribution weights", dict(e, scale=s), rtol=1e-11, atol=1e-14)
        c.close(got[1], tot * s, "total capacitance", dict(e, scale=s), rtol=1e-11, atol=0)
        c.check(all(list(a) == k for a, k in zip(args, keep)), "arguments untouched", e)
        c.trace({"ladder": l[:4], "w": e["w"][:4]})

    for e in em:
        one(e)
    c.selftest(lambda: [one(e, True) for e in em[:50]])
    for lens in ((2, 3, 3), (3, 2, 3), (3, 3, 2), (1, 2, 2), (0, 1, 1)):
        x = c.call(convert_cap_to_weight, *[np.ones(k) for k in lens])
        c.check(isinstance(x, Refused), "unequal lengths refused", {"lens": lens}, "error", x)
