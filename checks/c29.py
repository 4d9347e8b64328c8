"""C29: statistics of the error: autocorrelation, distribution, phase plane, error spectra."""
import math

import numpy as np
from checks import fitopt
from lib.vf import Refused

CFG1 = """SPECIFICATION Spec
CONSTANTS
 Mode = "{mode}"
 MaxLag = 6
INVARIANTS Counts Moments LagZeroTop Periodic EmitDone
CHECK_DEADLOCK FALSE
"""
CFG2 = """SPECIFICATION Spec
CONSTANTS
 Mode = "{mode}"
INVARIANTS HalfInside Fits EmitDone
CHECK_DEADLOCK FALSE
"""


def run(c):
    from adctoolbox import analyze_spectrum
    from adctoolbox.aout import (analyze_error_autocorr, analyze_error_envelope_spectrum, analyze_error_pdf, analyze_error_phase_plane,
                                 analyze_error_spectrum, analyze_phase_plane)
    from adctoolbox import fit_sine_4param
    import matplotlib.pyplot as plt
    r = c.rng
    npr = np.random.default_rng(2929 + c.seed)
    em = c.tlc("ErrStats", CFG1.format(mode="ex"), name="ErrStats/small patterns", exhaustive=True, workers=4)
    lim = c.n(400, 3000)
    em = em if len(em) < lim else r.sample(em, lim)
    scen = []
    for i in range(c.n(120, 800)):
        p = r.choice([2, 3, 4, 5, 6, 8, 11])
        while True:
            pat = [r.randint(-20, 20) for _ in range(p - 1)]
            pat.append(-sum(pat))
            if any(pat):
                break
        reps = r.choice([k for k in (5, 8, 13, 30) if p * k <= 330 and p * k >= 20] or [10])
        scen.append({"id": i, "pat": pat, "reps": reps, "maxlag": min(p * reps - 1, r.choice([1, 10, 50, p * reps - 1]))})
    em2 = c.tlc("ErrStats", CFG1.format(mode="file"), scen=scen, name="ErrStats/random patterns", workers=4)
    plt.figure()

    def replay(e, corrupt=0.0):
        n, reps, p = e["n"], e["reps"], len(e["pat"])
        cycs = [k for k in range(1, (n - 1) // 2 + 1) if k % reps and 2 * k != n]
        if not cycs:
            return
        cyc = r.choice(cycs)
        a, dc, ph, s = 10 ** r.uniform(0, 3), r.choice([0, r.uniform(-100, 100)]), r.uniform(0, 6.28), r.choice([1.0, 1.0, 2.0 ** -8, .3])
        t = np.arange(n)
        err = np.tile(np.array(e["pat"], float), reps) * s
        x = a * np.sin(2 * np.pi * cyc * t / n + ph) + dc + err
        sc = {"pattern": e["pat"], "repeats": reps, "cycles": cyc, "amplitude": a, "dc": dc, "unit": s}
        keep = x.copy()
        kw = {"frequency": cyc / n, "max_iterations": 0, "create_plot": r.random() < .02}
        tol = 1e-9 * (a + abs(dc) + e["top"])
        L = len(e["acc"]) - 1
        nz = r.random() < .5
        args = dict(kw, max_lag=L, normalize=nz)
        if L == 50 and r.random() < .5:
            del args["max_lag"]
        if nz and r.random() < .5:
            del args["normalize"]
        g = c.call(analyze_error_autocorr, x, **args)
        if c.check(isinstance(g, dict) and np.shape(g.get("acf")) == (2 * L + 1,), "autocorrelation answers", sc, 2 * L + 1, g):
            acf = np.array([v / (n - k) for k, v in enumerate(e["acc"])]) * s * s
            want = np.concatenate([acf[::-1], acf[1:]])
            if nz:
                want = want / acf[0]
            c.close(g["error_signal"], err, "the error is the record minus the sine", sc, rtol=0, atol=tol)
            c.close(g["lags"], np.arange(-L, L + 1), "lags run symmetrically", sc)
            c.close(g["acf"], want + corrupt * abs(want[L]), "autocorrelation is the mean product at each lag", dict(sc, normalised=nz), rtol=1e-6, atol=1e-6 * abs(want[L]) + (0 if nz else tol * tol))
        # distribution
        res = r.choice([4, 8, 12])
        fs = r.choice([None, r.uniform(.5, 3) * a])
        g = c.call(analyze_error_pdf, x, resolution=res, **dict(kw, **({} if fs is None else {"full_scale": fs})))
        lsb = (np.ptp(x) if fs is None else fs) / 2 ** res
        if c.check(isinstance(g, dict), "distribution answers", sc, None, g):
            el = err / lsb
            tl = tol / lsb
            sc = dict(sc, resolution=res, full_scale=fs)
            c.close(g["err_lsb"], el, "error in LSB of the stated range and resolution", sc, rtol=1e-6, atol=tl)
            c.close(g["mu"], 0.0 + corrupt, "mean of the error", sc, rtol=0, atol=tl)
            sg = math.sqrt(e["s2"] / (n - 1)) * s / lsb
            c.close(g["sigma"], sg, "spread of the error", sc, rtol=1e-6, atol=tl)
            x_, d_ = np.asarray(g["x"]), np.asarray(g["pdf"])
            c.check(np.all(d_ >= 0) and np.all(np.isfinite(d_)), "the density is not negative", sc)
            c.check(np.all(np.diff(x_) > 0) and x_[0] <= np.min(el) + tl and x_[-1] >= np.max(el) - tl, "the density covers every error", sc, [el.min(), el.max()], [x_[0], x_[-1]])
            h = 1.06 * sg * n ** -.2
            kde = np.mean(np.exp(-.5 * ((x_[:, None] - el[None, :]) / h) ** 2), axis=1) / (h * math.sqrt(2 * math.pi))
            c.close(d_, kde, "density estimate with the stated bandwidth", sc, rtol=1e-4, atol=1e-5 / sg)
            gp = np.exp(-x_ ** 2 / (2 * sg * sg)) / (sg * math.sqrt(2 * math.pi))
            c.close(g["gauss_pdf"], gp, "the reference Gaussian has that mean and spread", sc, rtol=1e-4, atol=1e-6 / sg)
            pp, qq = d_ + 2.2e-16, np.asarray(g["gauss_pdf"]) + 2.2e-16
            c.close(g["kl_divergence"], np.sum(pp * np.log(pp / qq)) * (x_[1] - x_[0]), "divergence from the reference", sc, rtol=1e-6, atol=1e-9)
        c.check(np.array_equal(keep, x), "the record is not modified", sc)
        c.trace({"pattern": e["pat"], "repeats": reps, "s2": e["s2"]})

    for e in em + em2:
        replay(e)
    c.selftest(lambda: [replay(e, 1e-3) for e in em2[:6]])

    # ---------------------------------------------------------------- phase plane
    pp = c.tlc("PhasePlane", CFG2.format(mode="ex"), name="PhasePlane/small records", exhaustive=True, workers=4)
    scen = []
    for i in range(c.n(300, 2500)):
        n = r.choice([5, 9, 14, 20, 24])
        lag = r.choice([1, 1, 2, 3, n // 2, n - 2])
        kind = r.choice(["sine", "sparkle", "random", "steps"])
        f, ph = r.uniform(.02, .48), r.uniform(0, 6)
        a = r.randint(5, 20)
        x = [round(a * math.sin(2 * math.pi * f * j + ph)) for j in range(n)]
        if kind == "sparkle":
            for _ in range(r.randint(1, 2)):
                x[r.randrange(n)] += r.choice([-40, 40, 25])
        elif kind == "random":
            x = [r.randint(-20, 20) for _ in range(n)]
        elif kind == "steps":
            x = [r.choice([0, 0, 0, 10, 40]) for _ in range(n)]
        if r.random() < .3:                       # large values leave a fine resolution: see the critical threshold below
            x = [v * (3500 // n // max(map(abs, x + [1]))) for v in x]
        scen.append({"id": i, "x": x, "lag": lag, "th": r.choice([1, 2, 4, 4, 6])})
    pp += c.tlc("PhasePlane", CFG2.format(mode="file"), scen=scen, name="PhasePlane/random records", workers=4)

    def plane(e, corrupt=False):
        x = np.array(e["x"]) * (s := r.choice([1, 1.0, 100.0, 2.0 ** -6])) + (r.choice([0, 5]) if s == 1 else 0)
        n, k = len(x), e["lag"]
        keep = x.copy()
        kw = {"lag": k, "create_plot": r.random() < .01}
        if e["th"] != 4 or r.random() < .5:
            kw["threshold"] = e["th"] if r.random() < .5 else float(e["th"])
        g = c.call(analyze_phase_plane, x if r.random() < .8 else x.tolist(), **kw)
        sc = {"record": e["x"], "lag": k, "threshold": e["th"], "unit": s}
        if not c.check(isinstance(g, dict), "phase plane answers", sc, None, g):
            return
        c.check(g["lag"] == k, "the lag reported is the lag used", sc, k, g["lag"])
        got = {int(v) for v in g["outliers"]}
        out, ins = {j - 1 + k for j in e["out"]}, {j - 1 + k for j in e["in"]}
        if corrupt:
            out, ins = ins, out
        c.check(out <= got and not (ins & got) and got <= set(range(k, n)), "exactly the points beyond the threshold are outliers", sc, sorted(out), sorted(got))
        c.check(list(g["outliers"]) == sorted(g["outliers"]), "outliers in order of time", sc)
        # a point stops being an outlier at deviation over 1.4826 times the median deviation
        fine = [q for q, v in enumerate(e["dev"]) if v > 3000] if e["mad"] > 4000 else []
        if fine:
            j = r.choice(fine)
            crit = 2 * e["dev"][j] / (1.4826 * e["mad"])
            for th, is_out in ((crit * .995, True), (crit * 1.005, False)):
                g = c.call(analyze_phase_plane, x, lag=k, threshold=th, create_plot=False)
                if c.check(isinstance(g, dict), "phase plane answers", sc, None, g):
                    c.check(((j + k) in {int(v) for v in g["outliers"]}) == is_out, "the threshold counts standard deviations", dict(sc, at=j + k, threshold=th), is_out, g["outliers"])
        g = c.call(analyze_phase_plane, x, lag=k, detect_outliers=False, create_plot=False)
        c.check(isinstance(g, dict) and len(g["outliers"]) == 0, "no outliers when not asked for", sc, 0, g)
        c.check(np.array_equal(x, keep), "the record is not modified", sc)
        c.trace()

    lim = c.n(1200, 5000)
    for e in (pp if len(pp) < lim else pp[-len(scen):] + r.sample(pp, lim - len(scen))):
        plane(e)
    c.selftest(lambda: [plane(e, True) for e in pp[-20:]])
    for _ in range(c.n(150, 1000)):
        n = r.randint(40, 3000)
        cyc = r.randint(3, n // 2 - 4)
        f = cyc / n
        x = 10 ** r.uniform(-2, 4) * np.sin(2 * np.pi * f * np.arange(n) + r.uniform(0, 6)) + r.uniform(-1, 1)
        g = c.call(analyze_phase_plane, x, create_plot=False)
        sc = {"n": n, "cycles": cyc}
        if c.check(isinstance(g, dict), "phase plane answers", sc, None, g):
            k = int(g["lag"])
            best = max(abs(math.sin(2 * math.pi * f * j)) - 1e-4 * j for j in range(1, max(2, min(n // 2, int(.6 / f) + 20))))
            c.check(1 <= k < n and abs(math.sin(2 * math.pi * f * k)) - 1e-4 * k >= best - 1e-3, "the automatic lag is as close to a quarter turn as can be", sc, best, k)
            h = c.call(analyze_phase_plane, x, lag=k, create_plot=False)
            c.check(isinstance(h, dict) and np.array_equal(h["outliers"], g["outliers"]), "the lag reported is the lag used", sc)
        # sparkle codes: the glitch and its echo one lag later
        gl = r.randrange(n)
        k = r.randint(1, min(12, n - 2))
        th = 4
        y = 100 * np.sin(2 * np.pi * f * np.arange(n) + .3) + npr.standard_normal(n)
        y[gl] += 2000 if r.random() < .5 else -2000
        g = c.call(analyze_phase_plane, y, lag=k, create_plot=False)
        if isinstance(g, dict) and n > 300:
            must = {i for i in (gl, gl + k) if k <= i < n}
            c.check(must <= {int(v) for v in g["outliers"]}, "a sparkle code shows as the points holding it", dict(sc, at=gl, lag=k), sorted(must), g["outliers"])
        bad = c.call(analyze_phase_plane, x[:20], lag=r.choice([20, 21, 100]), create_plot=False)
        c.check(isinstance(bad, Refused) and bad.type == "ValueError", "a lag beyond the record is refused", sc, "ValueError", bad)
        c.trace()

    # -------------------------------- spectra and phase plane of the error are those of the record minus the fit
    for _ in range(c.n(40, 250)):
        n = r.choice([512, 1000, 2048])
        cyc = r.choice([17, 31, 57, 101])
        t = np.arange(n)
        a, dc = 10 ** r.uniform(-1, 3), r.uniform(-1, 1)
        m = r.choice([3, 5, 7])
        x = a * (np.sin(2 * np.pi * cyc * t / n + r.uniform(0, 6)) + .01 * np.cos(2 * np.pi * 2 * cyc * t / n) + .003 * np.sin(2 * np.pi * m * t / n) + 1e-3 * npr.standard_normal(n)) + dc
        k0 = x.copy()
        it = r.choice([1, 2, 5])
        fr = r.choice([None, cyc / n])
        kw = {"max_iterations": it, "fs": r.choice([1, 1e6])}
        if fr:
            kw["frequency"] = fr
        sc = {"n": n, "cycles": cyc, "a": a, "args": kw}
        fit = c.call(fit_sine_4param, x, **({"frequency_estimate": fr} if fr else {}), max_iterations=it)
        if not c.check(isinstance(fit, dict), "fit answers", sc, None, fit):
            continue
        err = x - fit["fitted_signal"]
        plt.close("all")
        plt.figure()
        g = c.call(analyze_error_spectrum, x, create_plot=r.random() < .3, **kw)
        keys = ["enob", "sndr_dbc", "sfdr_dbc", "snr_dbc", "thd_dbc", "sig_pwr_dbfs", "noise_floor_dbfs"]
        if c.check(isinstance(g, dict), "error spectrum answers", sc, None, g):
            c.close(g["error_signal"], err, "error of the error spectrum", sc, rtol=1e-9, atol=1e-9 * a)
            w = c.call(analyze_spectrum, err, fs=kw["fs"], max_harmonic=5, create_plot=False)
            ks = [k for k in keys if k in w]
            c.check(len(ks) >= 4, "spectrum metrics present", sc, keys, list(w))
            c.close([g.get(k, math.nan) for k in ks], [w[k] for k in ks], "the error spectrum is the spectrum of the error", sc, rtol=1e-6, atol=1e-6)
        plt.close("all")
        plt.figure()
        g = c.call(analyze_error_envelope_spectrum, x, create_plot=r.random() < .3, **kw)
        if c.check(isinstance(g, dict), "envelope spectrum answers", sc, None, g):
            c.close(g["error_signal"], err, "error of the envelope spectrum", sc, rtol=1e-9, atol=1e-9 * a)
            F = np.fft.fft(err)
            h = np.zeros(n)
            h[0] = 1
            h[1:(n + 1) // 2] = 2
            if n % 2 == 0:
                h[n // 2] = 1
            env = np.abs(np.fft.ifft(F * h))
            c.close(g["envelope"], env, "the envelope is the magnitude of the analytic error", sc, rtol=1e-6, atol=1e-9 * a)
            c.check(np.all(np.asarray(g["envelope"]) >= np.abs(err) - 1e-9 * a), "the envelope bounds the error", sc)
            w = c.call(analyze_spectrum, env, fs=kw["fs"], max_harmonic=5, create_plot=False)
            ks = [k for k in keys if k in w]
            c.close([g.get(k, math.nan) for k in ks], [w[k] for k in ks], "the envelope spectrum is the spectrum of the envelope", sc, rtol=1e-6, atol=1e-6)
        o = r.choice([1, 2, 3, 5])
        hyst = r.random() < .7
        g = c.call(analyze_error_phase_plane, x, create_plot=r.random() < .3, fit_polynomial_order=o, detect_hysteresis=hyst,
                   unit_mode=r.choice(["auto", "normalized_fs", "voltage", "code"]))
        if c.check(isinstance(g, dict), "error phase plane answers", sc, None, g):
            fit = c.call(fit_sine_4param, x, max_iterations=3)
            err = x - fit["fitted_signal"]
            c.close(g["residual"], err, "residual of the error phase plane", sc, rtol=1e-9, atol=1e-9 * a)
            c.close(g["fitted_sine"], fit["fitted_signal"], "sine of the error phase plane", sc, rtol=1e-9, atol=1e-9 * a)
            m = (x > np.percentile(x, 2)) & (x < np.percentile(x, 98))
            tc = np.asarray(g["trend_coeffs"])
            if c.check(tc.shape == (o + 1,), "order of the trend", sc, o + 1, tc.shape):
                left = (err - np.polyval(tc, x))[m]
                u = (x[m] - dc) / a
                proj = [abs(np.mean(left * u ** j)) for j in range(o + 1)]
                c.check(max(proj) < 1e-6 * np.std(err), "the trend is the least-squares polynomial of the central levels", sc, 0, proj)
            slope = np.gradient(x)
            up, dn = m & (slope > 0), m & (slope < 0)
            if hyst and min(up.sum(), dn.sum()) > 150 and not np.any(slope == 0):
                u = (x - dc) / a
                fits = [np.polynomial.Polynomial.fit(u[s], err[s], o) for s in (up, dn)]
                c.close(g["hysteresis_gap"] / a, np.mean(np.abs(fits[0](u) - fits[1](u))) / a, "the hysteresis is the mean distance between the rising and the falling trend", sc, rtol=1e-5, atol=1e-9)
            elif not hyst:
                c.check(g["hysteresis_gap"] == 0, "no hysteresis when not asked for", sc, 0, g["hysteresis_gap"])
        g = c.call(analyze_error_phase_plane, x, create_plot=False, unit_mode=r.choice(["", "volts"]))
        c.check(isinstance(g, Refused) and g.type == "ValueError", "unknown unit refused", sc, "ValueError", g)
        c.check(np.array_equal(x, k0), "the record is not modified", sc)
        c.trace()

    # Gaussian error: density integrates to about one and follows the reference; hysteresis only with memory
    for _ in range(c.n(20, 120)):
        n = r.choice([1000, 4000])
        cyc = r.choice([31, 57])
        t = np.arange(n)
        sg = 10 ** r.uniform(-4, -2)
        x = np.sin(2 * np.pi * cyc * t / n) + sg * npr.standard_normal(n)
        g = c.call(analyze_error_pdf, x, resolution=10, full_scale=2.0, frequency=cyc / n, create_plot=False)
        sc = {"n": n, "cycles": cyc, "sigma": sg}
        if c.check(isinstance(g, dict), "distribution answers", sc, None, g):
            dx = g["x"][1] - g["x"][0]
            if sg * 512 > .3:
                c.check(abs(np.sum(g["pdf"]) * dx - 1) < .03, "the density integrates to one", sc, 1, float(np.sum(g["pdf"]) * dx))
                c.check(abs(g["kl_divergence"]) < .1, "Gaussian error is recognised", sc, 0, g["kl_divergence"])
            c.check(abs(g["sigma"] / (sg * 512) - 1) < .25, "spread in LSB", sc, sg * 512, g["sigma"])
        mem = r.uniform(.01, .05)
        cyc = r.choice([5, 7, 11])
        for name, y in (("static", None), ("memory", mem)):
            s = np.sin(2 * np.pi * cyc * t / n + .1)
            q = s + .02 * s ** 3 if y is None else s + .02 * s ** 3 + y * np.sign(np.cos(2 * np.pi * cyc * t / n + .1)) * (1 - s * s)
            q = q + 1e-4 * npr.standard_normal(n)
            g = c.call(analyze_error_phase_plane, q, create_plot=False, fit_polynomial_order=3)
            if c.check(isinstance(g, dict), "error phase plane answers", sc, None, g):
                gap = float(g["hysteresis_gap"])
                if y is None:
                    c.check(gap < 1e-3, "no hysteresis without memory", dict(sc, cycles=cyc), 0, gap)
                else:
                    c.check(gap > .2 * mem, "memory opens the loop", dict(sc, memory=mem, cycles=cyc), mem, gap)
        c.trace()
    plt.close("all")
    for fn in (analyze_error_autocorr, analyze_error_pdf, analyze_error_spectrum, analyze_error_envelope_spectrum):
        fitopt.check(c, fn, npr, create_plot=False)
