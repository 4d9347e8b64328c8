"""C20: error sorted by signal phase, amplitude/phase noise split."""
import math

import numpy as np
from checks import fitopt

CFG = """SPECIFICATION Spec
CONSTANTS
 Mode = "{mode}"
 LS = {ls}
 QS = {qs}
 Amps = {amps}
 Bins = {bins}
INVARIANTS ErrOrthogonal SplitOrthogonal Conserved EmitDone
CHECK_DEADLOCK FALSE
"""
W = np.array([[1, 1, -1, -1], [1, -1, 1, -1], [1, -1, -1, 1]])


def run(c):
    from adctoolbox import analyze_error_by_phase
    from adctoolbox.aout import rearrange_error_by_phase
    import matplotlib.pyplot as plt
    r = c.rng
    npr = np.random.default_rng(2020 + c.seed)
    em = c.tlc("ErrByPhase", CFG.format(mode="ex", ls=c.n("{5}", "{5, 7}"), qs="{4}", amps="{0, 1, 3}", bins="{3, 7}"), name="ErrByPhase/small", exhaustive=True, workers=4)
    scen = []
    for i in range(c.n(120, 900)):
        L, q = r.choice([(7, 4), (9, 4), (11, 4), (12, 3), (13, 4), (15, 4), (16, 3), (20, 1), (20, 2), (25, 4)])
        ms = [k for k in range(1, (L + 1) // 2) if (4 * k) % L]
        scen.append({"id": i, "L": L, "m": r.choice(ms), "q": q, "p": r.randrange(q * L), "a": r.choice([0, 0, 1, 2, 9, 30]), "b": r.choice([0, 0, 1, 3, 8, 30]), "c": r.choice([0, 0, 1, 4, 20]),
                     "B": r.choice([1, 3, 7, 11, 17, 37, 101])})
    em += c.tlc("ErrByPhase", CFG.format(mode="file", ls="{5}", qs="{4}", amps="{0}", bins="{1}"), scen=scen, name="ErrByPhase/random", workers=4)

    def stats(g, idx, B, sc, corrupt=0.0):
        err = np.asarray(g["error"], float)
        top = np.max(np.abs(err)) + 1e-300
        mean, rms = np.full(B, np.nan), np.full(B, np.nan)
        for b in range(B):
            s = err[idx == b]
            if len(s):
                mean[b], rms[b] = s.mean() + corrupt * top, math.sqrt((s ** 2).mean()) + corrupt * top
        c.close(np.asarray(g["bin_error_mean_v"]) / top, mean / top, "mean error per phase bin", sc, rtol=1e-7, atol=1e-8)
        c.close(np.asarray(g["bin_error_rms_v"]) / top, rms / top, "RMS error per phase bin", sc, rtol=1e-7, atol=1e-8)
        c.close(g["phase_bin_centers_rad"], (np.arange(B) + .5) * 2 * np.pi / B, "bin centres", sc)
        c.close(g["bin_counts"], np.bincount(idx, minlength=B), "samples per phase bin", sc)

    def replay(e, corrupt=0.0):
        q = e["c"]
        L, K, B = q["L"], q["L"] * q["q"], q["B"]
        k = np.arange(4 * L)
        ph = 2 * np.pi * ((q["m"] * q["q"] * k + q["p"]) % K) / K
        w = W[:, k // L]
        A, off, u = r.choice([1.0, 100.0, 2000.0]), r.choice([0, 3.0]), r.choice([1e-3, 1e-2])
        err = u * A / 10 * (w[0] * q["a"] * np.cos(ph) + w[1] * q["b"] * np.sin(ph) + w[2] * q["c"])
        x = off + A * np.cos(ph) + err
        uu = u * A / 10
        incl = r.random() < .6
        kw = {"norm_freq": q["m"] / L, "n_bins": B, "max_iterations": 0, "include_base_noise": incl}
        if incl and r.random() < .5:
            kw.pop("include_base_noise")
        sc = {"case": q, "amplitude": A, "unit": uu, "constant part": incl}
        x0 = x.copy()
        fn = rearrange_error_by_phase if r.random() < .6 else (lambda s, **kk: analyze_error_by_phase(s, create_plot=False, **kk))
        g = c.call(fn, x, **kw)
        if not c.check(isinstance(g, dict), "analysis answers", sc, None, g):
            return
        c.check(np.array_equal(x, x0), "signal left as given", sc)
        am, pm, base = (e["am"], e["pm"], e["base"]) if incl else (e["am0"], e["pm0"], 0)
        names = ["am_noise_rms_v", "pm_noise_rms_v", "base_noise_rms_v"]
        for nm, want in zip(names, (am, pm, base)):
            # squared: the split is linear in power
            c.close((g[nm] / uu) ** 2, want + corrupt * 10, f"{nm} is the least-squares split of the error power", sc, rtol=1e-6, atol=1e-6 * (1 + e["total2"]))
        c.close(g["total_rms_v"] / uu, math.sqrt(e["total2"] / 2), "total is the RMS error", sc, rtol=1e-7, atol=1e-6)
        c.close(g["pm_noise_rms_rad"] * A, g["pm_noise_rms_v"], "phase noise in radians is relative to the amplitude", sc, rtol=1e-6, atol=1e-12)
        c.close(g["am_relative"] * A, g["am_noise_rms_v"], "relative amplitude noise", sc, rtol=1e-6, atol=1e-12)
        c.close(g["error"], err, "error is the signal minus its fitted sine", sc, rtol=0, atol=1e-9 * A)
        c.close([g["amplitude"], g["dc_offset"], g["norm_freq"]], [A, off, q["m"] / L], "fitted sine", sc, rtol=1e-9, atol=1e-9 * A)
        c.close(np.exp(1j * np.asarray(g["phase"])), np.exp(1j * ph), "phase of every sample", sc, rtol=0, atol=1e-8)
        if not e["edge"] and np.max(np.abs(err)) > 0:
            stats(g, np.array(e["idx"]), B, sc, corrupt)
        c.trace({"case": q, "am2": am, "pm2": pm, "base2": base})

    for e in em:
        replay(e)
    c.selftest(lambda: [replay(e, .01) for e in em[-10:]])

    # trace direction: arbitrary records, accounted for from what was recorded
    for _ in range(c.n(60, 400)):
        n = r.choice([100, 333, 1000])
        f = r.uniform(.02, .48)
        x = r.choice([1, 50]) * (np.cos(2 * np.pi * f * np.arange(n) + r.uniform(0, 6)) + .02 * npr.standard_normal(n)) + r.choice([0, 5])
        B = r.choice([1, 2, 3, 4, 5, 16, 100])
        incl = r.random() < .5
        fg = r.choice([None, None, f, f, f + .1 / n])
        g = c.call(rearrange_error_by_phase, x, n_bins=B, include_base_noise=incl, norm_freq=fg, max_iterations=r.choice([1, 5]), return_fit=True)
        sc = {"n": n, "f": f, "bins": B, "constant part": incl}
        if not c.check(isinstance(g, dict), "analysis answers", sc, None, g):
            continue
        c.check(g["norm_freq"] == (g["fit"]["frequency"] if fg is None else fg), "the frequency given is the one reported, otherwise the one found", dict(sc, given=fg), fg, [g["norm_freq"], g["fit"]["frequency"]])
        ph = np.mod(np.asarray(g["phase"]), 2 * np.pi)
        pos = ph / (2 * np.pi) * B
        c.close(np.asarray(g["error"]) + g["fitted_signal"], x, "error is the signal minus its fitted sine", sc, rtol=0, atol=1e-10)
        c.close(g["fitted_signal"], g["dc_offset"] + g["amplitude"] * np.cos(ph), "phase refers to the fitted sine", sc, rtol=0, atol=1e-7 * g["amplitude"])
        if np.min(np.abs(pos - np.round(pos))) > 1e-9:
            stats(g, np.minimum(B - 1, np.floor(pos).astype(int)), B, sc)
        e2 = np.asarray(g["error"]) ** 2
        M = np.column_stack([np.cos(2 * ph), np.ones(n)])
        (a, b), *_ = np.linalg.lstsq(M, e2, rcond=None)
        want = [max(0, 2 * a), max(0, -2 * a), max(0, b - abs(a))] if incl else [max(0, b + a), max(0, b - a), 0]
        got = [g[q] ** 2 for q in ("am_noise_rms_v", "pm_noise_rms_v", "base_noise_rms_v")]
        c.close(np.array(got) / e2.mean(), np.array(want) / e2.mean(), "split of the recorded error power", sc, rtol=1e-6, atol=1e-8)
        c.close(g["r_squared_raw"], 1 - np.sum((e2 - M @ [a, b]) ** 2) / np.sum((e2 - e2.mean()) ** 2), "explained share of the error power", sc, rtol=1e-6, atol=1e-8)
        cnt, rms = np.asarray(g["bin_counts"]), np.asarray(g["bin_error_rms_v"])
        ok = cnt > 0
        if ok.sum() > 2:
            v, cen = rms[ok] ** 2, np.asarray(g["phase_bin_centers_rad"])[ok]
            left = np.sum((v - (got[0] * np.cos(cen) ** 2 + got[1] * np.sin(cen) ** 2 + got[2])) ** 2)
            tot, flat = np.sum((v - v.mean()) ** 2), .01 * v.mean() ** 2 * len(v)
            if tot > 2 * flat:
                c.close(g["r_squared_binned"], 1 - left / tot, "explained share of the trend over phase", sc, rtol=1e-6, atol=1e-8)
            elif tot < .5 * flat:
                c.close(g["r_squared_binned"], max(0, 1 - left / len(v) / v.mean() ** 2), "closeness to a flat trend", sc, rtol=1e-6, atol=1e-8)
        else:
            c.check(g["r_squared_binned"] == 0, "no trend from two bins", sc, 0, g["r_squared_binned"])
        c.trace()

    # noise of one kind is attributed to that kind (margins beyond eight sigma)
    for _ in range(c.n(12, 60)):
        n = 1 << 15
        A, s = r.choice([1.0, 400.0]), r.choice([1e-3, 1e-2])
        cyc = r.choice([211, 1001, 5003])
        ph = 2 * np.pi * cyc * np.arange(n) / n + r.uniform(0, 6)
        kind = r.choice(["am", "pm", "white"])
        z = npr.standard_normal(n)
        x = A * (1 + s * z) * np.cos(ph) if kind == "am" else A * np.cos(ph + s * z) if kind == "pm" else A * (np.cos(ph) + s * z)
        plot = r.random() < .3
        plt.figure()
        g = c.call(analyze_error_by_phase, x, create_plot=plot)
        plt.close("all")
        sc = {"kind": kind, "rms": s, "A": A}
        if not c.check(isinstance(g, dict), "analysis answers", sc, None, g):
            continue
        am, pm, ba = g["am_relative"] / s, g["pm_noise_rms_rad"] / s, g["base_noise_rms_v"] / A / s
        want = {"am": (1, 0, 0), "pm": (0, 1, 0), "white": (0, 0, 1)}[kind]
        lim = lambda w: (.85, 1.15) if w else (0, .4)  # noqa: E731
        for nm, v, w in zip(("amplitude", "phase", "baseline"), (am, pm, ba), want):
            c.check(lim(w)[0] <= v <= lim(w)[1], f"{kind} noise: {nm} share", sc, w, v)
        c.trace()
    fitopt.check(c, rearrange_error_by_phase, npr, freq="norm_freq")
    fitopt.check(c, analyze_error_by_phase, npr, freq="norm_freq", create_plot=False)
