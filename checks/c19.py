"""C19: error sorted by signal value."""
import cmath
import math

import numpy as np
from checks import fitopt
from lib.vf import Refused

CFG = """SPECIFICATION Spec
CONSTANTS
 Mode = "{mode}"
 Bins = {bins}
 Vals = {vals}
 Lens = {lens}
INVARIANTS Conserved Ordered Nearest EmitDone
CHECK_DEADLOCK FALSE
"""


def run(c):
    from adctoolbox import analyze_error_by_value
    from adctoolbox.aout import rearrange_error_by_value
    import matplotlib.pyplot as plt
    r = c.rng
    em = c.tlc("ErrByValue", CFG.format(mode="ex", bins="{1, 2, 3, 4}", vals=c.n("{0, 1, 5}", "{0, 1, 3, 6}"), lens=c.n("{5, 6}", "{5, 6}")), name="ErrByValue/small", exhaustive=True, workers=4)
    lim = c.n(1200, 8000)
    em = em if len(em) < lim else r.sample(em, lim)
    scen = []
    for i in range(c.n(220, 1500)):
        n = r.choice([16, 25, 40, 64, 100, 150])
        unit = r.choice([1, 1, 1000])
        A = r.choice([5, 30, 500]) if unit == 1 else r.choice([100, 450, 520, 560, 590, 900, 1500])
        off = r.choice([0, 0, A, -A // 2]) if unit == 1 else r.choice([0, 0, 50, 200, 500])
        cyc, ph = r.choice([3, 5, 7.3]), r.uniform(0, 6)
        x = [round(off + A * math.cos(2 * math.pi * cyc * k / n + ph) + r.gauss(0, A / 30)) for k in range(n)]
        B = r.choice([1, 2, 3, 8, 10, 16, 33, 50, 100])
        margin = r.choice([0, 0, 1, 2, B // 4, B // 2])
        given = r.random() < .5
        lo, hi = sorted((r.choice([min(x), off - A, off - 2 * A, off - A // 2]), r.choice([max(x), off + A, off + 2 * A, off + A // 2 + 1])))
        if lo == hi:
            continue
        scen.append({"id": i, "unit": unit, "x": x, "B": B, "margin": margin, "given": given, "lo": lo, "hi": hi})
    em += c.tlc("ErrByValue", CFG.format(mode="file", bins="{1}", vals="{0}", lens="{1}"), scen=scen, name="ErrByValue/random", workers=4)

    def stats(e, g, sc, corrupt=0.0):
        q = e["c"]
        err = np.asarray(g["error"], float)
        idx = np.array(e["idx"])
        B, m = q["B"], q["margin"]
        mean, rms = np.full(B, np.nan), np.full(B, np.nan)
        for b in range(m, B - m):
            s = err[idx == b]
            if len(s):
                mean[b], rms[b] = s.mean() + corrupt, math.sqrt((s ** 2).mean()) + corrupt
        top = np.max(np.abs(err)) + 1e-300
        c.close(g["bin_indices"], idx, "every sample is in the bin nearest its value", sc)
        c.close(g["count_per_bin"], e["cnt"], "samples per bin", sc)
        c.close(np.asarray(g["error_mean"]) / top, mean / top, "mean error per bin, empty and clipped bins undefined", sc, rtol=1e-8, atol=1e-10)
        c.close(np.asarray(g["error_rms"]) / top, rms / top, "RMS error per bin, empty and clipped bins undefined", sc, rtol=1e-7, atol=1e-8)
        lo, hi = (v / 2 / q["unit"] for v in e["span"])
        c.close(g["value_bin_centers"], np.linspace(lo, hi, B), "bin centres span the range", sc)
        c.close(g["n_bins"], B, "bin count", sc)

    def replay(e, corrupt=0.0):
        if e["tie"]:
            return
        q = e["c"]
        x = np.array(q["x"]) if q["unit"] == 1 else np.array(q["x"]) / q["unit"]
        if q["unit"] == 1:
            x = x.astype(r.choice([float, int, np.float64, np.int32]))
        B, m = q["B"], q["margin"]
        kw = {"clip_percent": 0 if m == 0 and r.random() < .5 else (m + r.choice([.1, .4, .9])) / B}
        if B != 100 or r.random() < .5:
            kw["n_bins"] = B
        if q["given"]:
            kw["value_range"] = (q["lo"] / q["unit"], q["hi"] / q["unit"]) if q["unit"] != 1 else (q["lo"], q["hi"])
        n = len(x)
        f = None
        if r.random() < .5 and n >= 8:
            f = r.choice([3, 2, 1]) / n
            kw.update(norm_freq=f, max_iterations=0)
        elif r.random() < .3:
            kw["max_iterations"] = r.choice([1, 5])
        if r.random() < .3:
            kw["return_fit"] = True
        sc = {"x": q["x"] if n < 20 else q["x"][:20] + ["..."], "unit": q["unit"], "args": {k: str(v) for k, v in kw.items()}}
        x0 = x.copy()
        fn = rearrange_error_by_value if r.random() < .6 else (lambda s, **k: analyze_error_by_value(s, create_plot=False, **k))
        xx = x if r.random() < .8 else x.reshape(1, -1)
        g = c.call(fn, xx, **kw)
        if e["refuse"]:
            c.check(isinstance(g, Refused) and g.type == "ValueError", "nothing left to analyse is refused", sc, "ValueError", g)
            c.trace()
            return
        if not c.check(isinstance(g, dict), "analysis answers", sc, None, g):
            return
        c.check(np.array_equal(x, x0), "signal left as given", sc)
        stats(e, g, sc, corrupt)
        xf = x.astype(float)
        top = np.max(np.abs(xf)) + 1e-300
        c.close((np.asarray(g["error"]) + g["fitted_signal"]) / top, xf / top, "error is the signal minus its fitted sine", sc, rtol=0, atol=1e-12)
        if f is not None:
            t = np.arange(n)
            M = np.column_stack([np.cos(2 * np.pi * f * t), np.sin(2 * np.pi * f * t), np.ones(n)])
            fit = M @ np.linalg.lstsq(M, xf, rcond=None)[0]
            c.close(np.asarray(g["fitted_signal"]) / top, fit / top, "the fitted sine is the least-squares one", sc, rtol=0, atol=1e-9)
            c.close(g["norm_freq"], f, "frequency as given", sc)
        else:
            t = np.arange(n)
            v = g["norm_freq"]
            M = np.column_stack([np.cos(2 * np.pi * v * t), np.sin(2 * np.pi * v * t), np.ones(n)])
            fs_ = np.asarray(g["fitted_signal"])
            left = fs_ - M @ np.linalg.lstsq(M, fs_, rcond=None)[0]
            c.check(not .02 < v < .48 or np.max(np.abs(left)) < 1e-6 * top, "the frequency reported is that of the fitted sine", sc, 0, [v, float(np.max(np.abs(left)))])
        if kw.get("return_fit"):
            c.check("fit" in g and math.isclose(g["fit"]["rmse"], math.sqrt(np.mean(np.asarray(g["error"]) ** 2)), rel_tol=1e-6, abs_tol=1e-9 * top), "fit diagnostics belong to this fit", sc, None, g.get("fit"))
        c.trace({"cnt": e["cnt"][:12], "span": e["span"]})

    for e in em:
        replay(e)
    c.selftest(lambda: [replay(e, .05) for e in em[-40:]])

    # a static error is recovered: third Chebyshev polynomial of the value, orthogonal to the sine itself
    for _ in range(c.n(15, 80)):
        n, A = 4096, r.choice([1.0, 400.0])
        cyc = r.choice([37, 101, 513])
        x = np.cos(2 * np.pi * cyc * np.arange(n) / n + r.uniform(0, 6))
        h = r.choice([2, 3, 4])
        ep = r.uniform(.001, .01)
        T = [None, None, lambda v: 2 * v ** 2 - 1, lambda v: 4 * v ** 3 - 3 * v, lambda v: 8 * v ** 4 - 8 * v ** 2 + 1][h]
        y = A * (x + ep * T(x))
        sc = {"harmonic": h, "level": ep, "amplitude": A}
        B = r.choice([21, 40, 64])
        g = c.call(analyze_error_by_value, y, n_bins=B, value_range=(-A, A), clip_percent=.05, create_plot=False, norm_freq=cyc / n if r.random() < .5 else None)
        if c.check(isinstance(g, dict), "analysis answers", sc, None, g):
            cen = np.asarray(g["value_bin_centers"]) / A
            ok = np.isfinite(g["error_mean"])
            want = ep * T(cen)
            slope = ep * h * h * (1.2 / B + ep)
            c.check(ok.sum() >= B - 2 * math.ceil(.05 * B) - 1 and np.all(np.abs(np.asarray(g["error_mean"])[ok] / A - want[ok]) <= slope + 1e-9), "static error recovered in the bins", sc,
                    want.tolist(), (np.asarray(g["error_mean"]) / A).tolist())
        plt.figure()
        p = c.call(analyze_error_by_value, y, n_bins=B, value_range=(-A, A), clip_percent=.05)
        plt.close("all")
        q = c.call(analyze_error_by_value, y, n_bins=B, value_range=(-A, A), clip_percent=.05, create_plot=False)
        if c.check(isinstance(p, dict) and isinstance(q, dict), "plotting answers", sc, None, [p, q]):
            c.close(p["error_mean"], q["error_mean"], "plotting leaves the figures alone", sc)
        c.trace()

    # malformed requests
    good = np.cos(np.arange(64) * .7)
    for kw, x in [({"n_bins": 0}, good), ({"n_bins": -3}, good), ({"n_bins": 2.5}, good), ({"clip_percent": -.1}, good), ({"clip_percent": float("nan")}, good),
                  ({"clip_percent": .5}, good), ({"value_range": (1, 1)}, good), ({"value_range": (1, -1)}, good), ({"value_range": (0, float("inf"))}, good), ({"value_range": (0, 1, 2)}, good),
                  ({}, np.array([])), ({}, np.where(np.arange(64) == 9, np.nan, good)), ({}, np.where(np.arange(64) == 9, np.inf, good)), ({}, np.full(64, 7.0))]:
        g = c.call(rearrange_error_by_value, x, **kw)
        c.check(isinstance(g, Refused) and g.type == "ValueError", "malformed request refused", {"args": str(kw), "n": len(x)}, "ValueError", g)
        c.trace()
    npr = np.random.default_rng(1919 + c.seed)
    fitopt.check(c, rearrange_error_by_value, npr, freq="norm_freq")
    fitopt.check(c, analyze_error_by_value, npr, freq="norm_freq", create_plot=False)
