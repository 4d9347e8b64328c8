"""C15: sine fitting."""
import cmath
import math

import numpy as np

CFGA = """SPECIFICATION Spec
CONSTANTS
 Mode = "{mode}"
 NS = {ns}
 Vals = {v}
INVARIANTS Orthogonal RealFit EmitDone
CHECK_DEADLOCK FALSE
"""
CFGB = """SPECIFICATION Spec
CONSTANTS
 Mode = "{mode}"
 K = {k}
 Depth = {d}
INVARIANTS Covariant EmitAll
CHECK_DEADLOCK FALSE
"""
CFGR = """SPECIFICATION Spec
CONSTANTS
 Mode = "{mode}"
 MaxLen = {l}
 MaxSize = 3
INVARIANTS WithinBudget FirstSmall Verdict Settled EmitDone
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
"""
K = 2400


def run(c):
    from adctoolbox import estimate_frequency, fit_sine_4param
    r = c.rng
    npr = np.random.default_rng(c.seed + 1515)

    def identities(x, g, sc, corrupt=0.0):
        x = np.asarray(x, float)
        fs_, rs = np.asarray(g["fitted_signal"], float), np.asarray(g["residuals"], float)
        top = np.max(np.abs(x)) + 1e-300
        c.check(fs_.shape == x.shape == rs.shape, "fit has the shape of the data", sc, x.shape, (fs_.shape, rs.shape))
        c.close((fs_ + rs) / top, x / top + corrupt, "fit plus residual is the data", sc, rtol=0, atol=1e-12)
        c.close(np.asarray(g["rmse"]) / top, np.sqrt(np.mean(rs ** 2, axis=0)) / top + corrupt, "RMSE is the RMS of the residual", sc, rtol=1e-9, atol=1e-14)
        k = np.arange(x.shape[0])
        cols = x.T if x.ndim == 2 else [x]
        for i, _ in enumerate(cols):
            q = {key: (np.atleast_1d(g[key])[i]) for key in ("frequency", "amplitude", "phase", "dc_offset")}
            y = q["dc_offset"] + q["amplitude"] * np.cos(2 * np.pi * q["frequency"] * k + q["phase"])
            c.close((fs_[:, i] if x.ndim == 2 else fs_) / top, y / top, "the fitted waveform is the sine of the reported parameters", sc, rtol=0, atol=1e-9)

    # ---- projection at a known frequency, any record
    em = c.tlc("SineFit", CFGA.format(mode="ex", ns="{5, 6}", v=c.n("{0, 1, 3}", "{0, 1, 2, 5}")), name="SineFit/small", exhaustive=True, workers=4)
    em = em if len(em) < 1500 else r.sample(em, 1500)
    scen = []
    for _ in range(c.n(60, 400)):
        n = r.choice([7, 8, 9, 10, 12, 15, 16, 20, 24])
        scen.append({"N": n, "b": r.randint(1, (n - 1) // 2), "y": [r.randint(-50, 50) for _ in range(n)]})
    em += c.tlc("SineFit", CFGA.format(mode="file", ns="{5}", v="{0}"), scen=scen, name="SineFit/random", workers=4)

    def proj(e, corrupt=0.0):
        cf = e["c"]
        n, b, y = cf["N"], cf["b"], np.array(cf["y"], r.choice([float, int, float]))
        z = sum(v * cmath.exp(2j * math.pi * i / n) for i, v in enumerate(e["z"])) * 2 / n
        sc = {"N": n, "bin": b, "y": cf["y"]}
        y0 = y.copy()
        g = c.call(fit_sine_4param, y, frequency_estimate=b / n, max_iterations=0)
        if not c.check(isinstance(g, dict), "fit answers", sc, None, g):
            return
        c.check(np.array_equal(y, y0), "data left as given", sc)
        c.close(g["amplitude"], abs(z) + corrupt, "amplitude is that of the projection", sc, rtol=1e-9, atol=1e-9)
        c.close(g["dc_offset"], e["s"] / n + corrupt, "offset is the mean", sc, rtol=1e-9, atol=1e-9)
        c.close(g["frequency"], b / n, "the given frequency is kept when no iterations are asked", sc, rtol=1e-12)
        if abs(z) > 1e-6:
            c.close(abs(z) * cmath.exp(1j * g["phase"]), z, "phase is that of the projection", sc, rtol=1e-8, atol=1e-8)
        identities(y, g, sc, corrupt)
        c.trace({"N": n, "bin": b, "A": abs(z)})

    for e in em:
        proj(e)
    c.selftest(lambda: [proj(e, 0.001) for e in em[:5]])

    # ---- parameters recovered, and covariance under histories
    em = c.tlc("SineParams", CFGB.format(mode="ex", k=12, d=c.n(2, 3)), name="SineParams/small", exhaustive=True, workers=4)
    scen = []
    for _ in range(c.n(400, 4000)):
        n = r.choice([32, 50, 64, 100, 101, 200, 255, 256, 500])
        lo = max(1, math.ceil(4.2 * K / n))
        m = r.randint(lo, K // 2 - lo)
        todo = []
        for _ in range(r.randint(0, 4)):
            o = r.choice([("scale", r.choice([-3, -1, 2, 10])), ("offset", r.randint(-50, 50)), ("later", r.randint(1, 400)), ("reverse", 0), ("stack", 0), ("crop", 1)])
            todo.append({"op": o[0], "v": o[1]})
        scen.append({"N": n, "col": {"m": m, "A": r.randint(1, 1000), "p": r.randrange(K), "C": r.randint(-300, 300)}, "todo": todo})
    em2 = c.tlc("SineParams", CFGB.format(mode="file", k=K, d=0), scen=scen, name="SineParams/random", workers=4)

    def rec(e, k, corrupt=0.0):
        n = e["N"]
        t = np.arange(n)
        X = np.column_stack([q["C"] + q["A"] * np.cos(2 * np.pi * ((q["m"] * t + q["p"]) % k) / k) for q in e["cols"]])
        scale = r.choice([1.0, 1e-3, 1e4])
        scale *= min(1.0, 1e6 / (scale * max(q["A"] for q in e["cols"])))      # data up to about 20 bits
        X = X * scale
        x = X[:, 0] if X.shape[1] == 1 and r.random() < .8 else X
        if x.ndim == 1 and r.random() < .2:
            x = x[:, None]
        sc = {"N": n, "cols": e["cols"], "history": [f"{o['op']}({o['v']})" for o in e["word"]], "unit": scale}
        x0 = x.copy()
        g = c.call(fit_sine_4param, x, max_iterations=r.choice([15, 30, 60]))
        if not c.check(isinstance(g, dict), "fit answers", sc, None, g):
            return
        c.check(np.array_equal(x, x0), "data left as given", sc)
        for i, q in enumerate(e["cols"]):
            get = lambda key: float(np.atleast_1d(g[key])[i])  # noqa: E731
            top = scale * (q["A"] + abs(q["C"]))
            c.close(get("frequency"), q["m"] / k + corrupt, "frequency recovered", sc, rtol=0, atol=3e-9)
            c.close(get("amplitude") / top, q["A"] * scale / top + corrupt, "amplitude recovered", sc, rtol=0, atol=2e-6)
            c.close(get("dc_offset") / top, q["C"] * scale / top, "offset recovered", sc, rtol=0, atol=2e-6)
            c.close(cmath.exp(1j * get("phase")), cmath.exp(2j * math.pi * q["p"] / k), "phase recovered", sc, rtol=0, atol=1e-5)
            c.check(get("rmse") / top < 1e-5, "nothing is left over", sc, 0, get("rmse"))
        if x.ndim == 2:
            c.check(all(np.shape(g[key]) == (x.shape[1],) for key in ("frequency", "amplitude", "phase", "dc_offset", "rmse")), "one result per column", sc)
        identities(x, g, sc)
        fs = r.choice([1.0, 800e6])
        h = c.call(estimate_frequency, x, fs=fs)
        d = c.call(fit_sine_4param, x)
        if c.check(isinstance(d, dict), "default fit answers", sc, None, d):
            c.close(h, np.asarray(d["frequency"]) * fs, "frequency in Hz is the fitted one times the sampling rate", sc, rtol=1e-12)
            if n >= 50:
                c.close(h, (np.array([q["m"] / k for q in e["cols"]]) if x.ndim == 2 else e["cols"][0]["m"] / k) * fs,
                        "frequency in Hz is close to the true one", sc, rtol=0, atol=.05 / n * fs)
            identities(x, d, sc)
        c.trace({"N": n, "cols": e["cols"], "history": sc["history"]})

    for e in em2:
        rec(e, K)
    c.selftest(lambda: [rec(e, K, 0.001) for e in em2[:5]], "parameters")

    # the histories applied to samples: noisy data respond the same way
    for e in (em if len(em) < 400 else r.sample(em, 400)):
        if any(o["op"] in ("reverse", "stack", "later", "crop") for o in e["word"]) or not e["word"]:
            continue
        n = r.choice([64, 101, 200])
        t = np.arange(n)
        x = np.cos(2 * np.pi * r.uniform(4 / n, .5 - 4 / n) * t + r.uniform(0, 6)) + .05 * npr.standard_normal(n) + 1
        y, gain, off = x, 1.0, 0.0
        for o in e["word"]:
            if o["op"] == "scale":
                y, gain, off = y * o["v"], gain * o["v"], off * o["v"]
            else:
                y, off = y + o["v"], off + o["v"]
        it = r.choice([1, 20])
        a, b = c.call(fit_sine_4param, x, max_iterations=it), c.call(fit_sine_4param, y, max_iterations=it)
        sc = {"N": n, "history": [f"{o['op']}({o['v']})" for o in e["word"]], "noisy": True}
        if c.check(isinstance(a, dict) and isinstance(b, dict), "fit answers", sc, None, [a, b]):
            c.close(b["frequency"], a["frequency"], "frequency does not depend on scale and offset", sc, rtol=1e-8)
            c.close(b["amplitude"], a["amplitude"] * abs(gain), "amplitude scales", sc, rtol=1e-7)
            c.close(b["dc_offset"], a["dc_offset"] * gain + off, "offset follows", sc, rtol=1e-7, atol=1e-7)
            c.close(b["rmse"], a["rmse"] * abs(gain), "residual scales", sc, rtol=1e-6)
            c.close(b["residuals"], np.asarray(a["residuals"]) * gain, "residual follows", sc, rtol=1e-5, atol=1e-6)
            identities(y, b, sc)
            # independent columns
            if r.random() < .15:               # more columns than samples
                w = np.column_stack([x[:24] * (i + 1) for i in range(r.choice([24, 30]))])
                one = c.call(fit_sine_4param, x[:24], max_iterations=it)
                m = c.call(fit_sine_4param, w, max_iterations=it)
                if c.check(isinstance(m, dict) and isinstance(one, dict) and np.shape(m["amplitude"]) == (w.shape[1],), "as many results as columns", sc, w.shape[1], m):
                    c.close(m["amplitude"], one["amplitude"] * np.arange(1, w.shape[1] + 1), "columns are fitted independently", sc, rtol=1e-6)
            m = c.call(fit_sine_4param, np.column_stack([x, y, x[::-1]]), max_iterations=it)
            if c.check(isinstance(m, dict), "fit answers", sc, None, m):
                c.close([m["frequency"][0], m["amplitude"][0], m["rmse"][1]], [a["frequency"], a["amplitude"], b["rmse"]], "columns are fitted independently", sc, rtol=1e-9)
            # the least-squares fit is at least as good as the generating parameters
            c.check(it == 1 or a["rmse"] <= .05 * 1.6, "converged residual is the noise", sc, .05, a["rmse"])
            c.trace()

    # ---- refinement: budget, tolerance, verdict and warning
    c.tlc("Refine", CFGR.format(mode="ex", l=c.n(3, 4)), name="Refine/small", exhaustive=True, workers=4)

    def fit(x, **kw):
        g = c.call(fit_sine_4param, x, **kw)
        return g, any(issubclass(v.category, RuntimeWarning) for v in c.warned)

    plants, scen = [], []
    for _ in range(c.n(40, 300)):
        n = r.choice([64, 101, 200])
        f = r.uniform(4 / n, .5 - 4 / n)
        x = r.choice([1, 300]) * np.cos(2 * np.pi * f * np.arange(n) + r.uniform(0, 6)) + r.uniform(-2, 2)
        x = x + .1 * npr.standard_normal(n)
        kw = {"frequency_estimate": f + r.uniform(-.4, .4) / n} if r.random() < .5 else {}
        top = 5
        path = [fit(x, max_iterations=i, tolerance=0, **kw)[0] for i in range(top + 1)]
        sc = {"N": n, "f": f, "start": kw.get("frequency_estimate")}
        if not c.check(all(isinstance(g, dict) for g in path), "fit answers", sc, None, path):
            continue
        c.close(path[0]["frequency"], kw.get("frequency_estimate", path[0]["frequency"]), "no iterations, no change of frequency", sc, rtol=1e-12)
        for i in range(top):
            c.close(path[i]["frequency"] + path[i + 1]["last_delta_freq"], path[i + 1]["frequency"], "each iteration moves the frequency by the reported step", sc, rtol=1e-12)
        sizes = [abs(float(g["last_delta_freq"])) for g in path[1:]]
        plants.append((x, kw, path, sc))
        for _ in range(4):
            j = r.randrange(top)
            tol = sizes[j] * r.choice([.5, 2])
            if all(abs(s - tol) > 1e-3 * tol for s in sizes):
                order = sorted(set(sizes + [tol]))
                scen.append({"sizes": [order.index(s) for s in sizes], "tol": order.index(tol), "budget": r.randint(0, top), "id": len(plants) - 1, "t": repr(tol)})
    em = c.tlc("Refine", CFGR.format(mode="file", l=0), scen=scen, name="Refine/recorded", workers=4)

    def refine(e, corrupt=0):
        x, kw, path, sc = plants[e["c"]["id"]]
        tol, b = float(e["c"]["t"]), e["c"]["budget"]
        sc = dict(sc, tolerance=tol, max_iterations=b)
        two = r.random() < .3
        g, warned = fit(np.column_stack([x, x]) if two else x, max_iterations=b, tolerance=tol, **kw)
        if not c.check(isinstance(g, dict), "fit answers", sc, None, g):
            return
        get = (lambda k: np.asarray(g[k])[1]) if two else (lambda k: g[k])
        want = path[e["n"]]
        c.check(int(get("n_iterations")) == e["n"] + corrupt, "iterations stop at the first step below the tolerance or when used up", sc, e["n"], get("n_iterations"))
        c.check(bool(get("converged")) is e["done"], "convergence reported exactly when the last step was below the tolerance", sc, e["done"], get("converged"))
        c.check(warned is e["warn"], "a fit that did not converge warns, others do not", sc, e["warn"], warned)
        c.close(get("initial_frequency"), path[0]["frequency"], "the starting frequency is reported", sc, rtol=1e-12)
        c.close(get("last_delta_freq"), want["last_delta_freq"] if e["n"] else 0.0, "the last step is reported", sc, rtol=1e-9, atol=1e-15)
        for k in ("frequency", "amplitude", "phase", "dc_offset", "rmse"):
            c.close(get(k), want[k], f"{k} is that of the last iteration", sc, rtol=1e-9, atol=1e-12)
        c.trace({"tolerance": tol, "budget": b, "n": e["n"], "converged": e["done"]})

    for e in em:
        refine(e)
    c.selftest(lambda: [refine(e, 1) for e in em[:5]], "refinement")

    # a few cycles in a long record, or a few short of half the sampling rate; whole cycles right up to the ends
    for _ in range(c.n(40, 250)):
        if r.random() < .6:
            n = r.choice([1000, 4000, 12001, 20000])
            f = r.uniform(3.3, 9) / n
            f = r.choice([f, .5 - f])
        else:
            n = r.choice([16, 31, 64, 101])
            f = r.choice([1, 2, (n - 1) // 2, (n - 1) // 2 - 1]) / n
        A, C, ph = r.choice([1.0, 40.0]), r.choice([0.0, 2.0]), r.uniform(0, 6)
        x = C + A * np.cos(2 * np.pi * f * np.arange(n) + ph)
        g, _ = fit(x, max_iterations=30)
        sc = {"N": n, "cycles": f * n, "A": A, "C": C, "phase": ph}
        if c.check(isinstance(g, dict), "fit answers", sc, None, g):
            c.close(g["frequency"] * n, f * n, "slow and fast tones are found", sc, rtol=0, atol=1e-5)
            c.close([g["amplitude"] / A, g["dc_offset"] / A], [1.0, C / A], "amplitude and offset of slow and fast tones", sc, rtol=0, atol=1e-5)
        c.trace()
    # the start without an estimate is within a fraction of a bin; whatever the data, the frequency stays in the first zone
    for _ in range(c.n(60, 400)):
        n = r.choice([64, 101, 200, 500])
        f = r.uniform(6 / n, .5 - 6 / n)
        x = np.cos(2 * np.pi * f * np.arange(n) + r.uniform(0, 6))
        g, _ = fit(x, max_iterations=0)
        if c.check(isinstance(g, dict), "fit answers", {"N": n, "f": f}, None, g):
            c.close(g["frequency"] * n, f * n, "the start is within a quarter bin of the tone", {"N": n, "f": f}, rtol=0, atol=.25)
        y = npr.standard_normal(n) + r.choice([0, 1]) * np.arange(n)
        f0 = r.choice([1e-4, .4999, .001, .499, .25])
        g, _ = fit(y, frequency_estimate=f0, max_iterations=r.choice([1, 3, 8]))
        if c.check(isinstance(g, dict), "fit answers", {"N": n, "start": f0}, None, g):
            c.check(0 <= g["frequency"] <= .5, "the frequency stays between zero and half the sampling rate", {"N": n, "start": f0}, "0..0.5", g["frequency"])
        c.trace()
    for bad in (np.zeros((8, 4, 2)), np.float64(3.0)):
        g, _ = fit(bad)
        c.check(not isinstance(g, dict), "records that are neither 1-D nor 2-D are refused", {"shape": list(np.shape(bad))}, "error", g)
