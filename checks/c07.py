"""C07: nearest admissible coherent bin."""
import math

import numpy as np
from lib.vf import Refused

CFG = """SPECIFICATION Spec
CONSTANTS
 Mode = "{mode}"
 MaxN = {mn}
 MaxBin = {mb}
 Res = 4
 MaxR = {mr}
INVARIANTS Sound Nearest Coherence EmitDone
CHECK_DEADLOCK FALSE
"""


def run(c):
    from adctoolbox import find_coherent_frequency
    r = c.rng
    em = c.tlc("Coherent", CFG.format(mode="ex", mn=c.n(12, 16), mb=c.n(8, 20), mr=c.n(3, 6)), name="Coherent/all", exhaustive=True,
               workers=2)
    scen = []
    for _ in range(c.n(250, 2500)):
        k = r.randrange(6)
        n = (2 ** r.randint(1, 16), 2 ** r.randint(1, 13) * r.choice([3, 5, 15]), r.choice([210, 2310, 30030, 27720]),
             r.randint(1, 5000), r.choice([7, 101, 8191, 65521, 9973]), 30030 * r.randint(1, 2))[k]
        zone = r.choice([0.5, 0.5, 1, 3, 8])
        t = r.randint(0, int(8 * zone * min(n, 20000)) + 8)
        if r.random() < .2:
            t = r.choice([0, 4, 8, 8 * n, 4 * n, 8 * (n // 2), -8, 12])
        scen.append({"n": n, "t": t, "res": 8, "odd": r.randint(0, 1), "r": r.choice([0, 1, 2, 5, 10, 40, 200, -1])})
    em += c.tlc("Coherent", CFG.format(mode="file", mn=1, mb=1, mr=1), scen=scen, name="Coherent/random")
    # a centre half-way between two bins may be rounded either way: merge both outcomes
    acc = {}
    for e in em:
        acc.setdefault((e["n"], e["t"], e["res"], e["odd"], e["r"]), []).append(e)

    def one(key, es, corrupt=False):
        n, t, res, odd, rad = key
        fs = r.choice([1.0, 1e9, 800e6, 2.0 ** 20, 44100.0, 3.7e5])
        fin = t / res * fs / n
        kw = {"force_odd": bool(odd)}
        if rad >= 0:
            kw["search_radius"] = rad
        else:
            return
        if rad == 200 and r.random() < .5:
            del kw["search_radius"]
        if odd and r.random() < .5:
            del kw["force_odd"]
        got = c.call(find_coherent_frequency, fs, fin, n, **kw)
        sc = {"fs": fs, "fin": fin, "n": n, **kw}
        ok = {b for e in es for b in e["bins"]}
        if corrupt:
            ok = {b + 2 for b in ok} or {1}
        if isinstance(got, Refused):
            c.check(any(not e["ok"] for e in es) and not corrupt and isinstance(got.exc, ValueError), "an admissible bin exists but the search failed",
                    sc, sorted(ok), got)
            c.trace()
            return
        f, b = got
        c.check(b == int(b) and int(b) in ok, "nearest admissible bin", sc, sorted(ok), got)
        c.close(f, b * fs / n, "frequency is the bin times the bin spacing", sc, rtol=1e-12, atol=0)
        c.check(math.gcd(int(b), n) == 1, "coherent", sc, 1, got)
        c.trace({"n": n, "t": t / res, "bins": sorted(ok)})

    for k, es in acc.items():
        one(k, es)
    c.selftest(lambda: [one(k, es, True) for k, es in list(acc.items())[:50]])
