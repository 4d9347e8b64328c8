"""C06: folding to the first Nyquist zone."""
import numpy as np
from lib.vf import Refused

CFG = """SPECIFICATION Spec
CONSTANTS
 Mode = "{mode}"
 MaxN = {mn}
 Res = {res}
 Span = {span}
INVARIANTS Congruent Unique Progress EmitDone
CHECK_DEADLOCK FALSE
"""


def run(c):
    from adctoolbox import fold_bin_to_nyquist, fold_frequency_to_nyquist
    r = c.rng
    em = c.tlc("Fold", CFG.format(mode="ex", mn=c.n(9, 14), res=4, span=c.n(80, 200)), name="Fold/grid", exhaustive=True)
    scen = []
    for _ in range(c.n(1500, 12000)):
        n = r.choice([r.randint(1, 40), 2 ** r.randint(0, 14), 2 ** r.randint(1, 12) + r.choice([-1, 1]), r.randint(1, 5000)])
        res = r.choice([1, 2, 4, 8, 16])
        per = n * res
        x = r.choice([r.randint(-3 * per, 3 * per), r.randint(-50 * per, 50 * per), per // 2, per // 2 + 1, (per + 1) // 2,
                      per, per - 1, 0, -per // 2, 3 * per // 2, r.randint(0, per)])
        scen.append({"n": n, "res": res, "x": x})
    em += c.tlc("Fold", CFG.format(mode="file", mn=1, res=1, span=1), scen=scen, name="Fold/random")

    def one(e, corrupt=False):
        n, res = e["n"], e["res"]
        xb, yb = e["x"] / res, e["y"] / res          # exact in binary
        if corrupt:
            yb = yb + 0.25
        forms = [float(xb), np.float64(xb)]
        if e["x"] % res == 0:
            forms += [int(xb), np.int64(int(xb))]
        xv = r.choice(forms)
        g = c.call(fold_bin_to_nyquist, xv, n)
        c.close(g, yb, "folded bin is the alias", e, rtol=0, atol=0)
        if not isinstance(g, Refused):
            c.close(c.call(fold_bin_to_nyquist, g, n), yb, "bin folding idempotent", e, rtol=0, atol=0)
        c.close(c.call(fold_bin_to_nyquist, -xv, n), yb, "bin folding even", e, rtol=0, atol=0)
        fs = r.choice([1.0, 2.0, 1024.0, 0.5, 8e8, 1e5, 1e6 / 3, 48000])
        df = fs / n
        tol = 1e-9 * fs * max(1, abs(xb) / n)
        g = c.call(fold_frequency_to_nyquist, xb * df, fs)
        c.close(g, yb * df, "folded frequency is the alias", dict(e, fs=fs), rtol=0, atol=tol)
        c.check(isinstance(g, float) and 0 <= g <= fs / 2 * (1 + 1e-12), "folded frequency in first zone", dict(e, fs=fs), None, g)
        c.close(c.call(fold_frequency_to_nyquist, -xb * df, fs), yb * df, "frequency folding even", dict(e, fs=fs), rtol=0, atol=tol)
        c.trace({"n": n, "x": xb, "alias": yb})

    for e in em:
        one(e)
    c.selftest(lambda: [one(e, True) for e in em[:3]])
    # arrays elementwise
    by = {}
    for e in em:
        by.setdefault(e["n"], []).append(e)
    for n, es in list(by.items())[:60]:
        fs = r.choice([1.0, 2.0, 1e6])
        x = np.array([e["x"] / e["res"] for e in es]) * fs / n
        y = np.array([e["y"] / e["res"] for e in es]) * fs / n
        keep = x.copy()
        if len(x) % 2 == 0 and r.random() < .5:
            x, y, keep = x.reshape(2, -1), y.reshape(2, -1), keep.reshape(2, -1)
        g = c.call(fold_frequency_to_nyquist, x, fs)
        c.close(g, y, "array folded elementwise", {"n": n, "fs": fs, "count": len(es)}, rtol=0, atol=1e-9 * fs * 60)
        c.check(np.array_equal(x, keep), "argument untouched", {"n": n})
        c.trace()
