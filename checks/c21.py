"""C21: harmonic decomposition and static nonlinearity."""
import cmath
import math

import numpy as np
from lib.vf import Refused, frac

CFG = """SPECIFICATION Spec
CONSTANTS
 Mode = "{mode}"
 NS = {ns}
 Order = {order}
 Amps = {amps}
 Tones = {tones}
INVARIANTS Hermitian Separate Partition RestOnly EmitDone
CHECK_DEADLOCK FALSE
"""
CFGB = """SPECIFICATION Spec
CONSTANTS
 Mode = "{mode}"
 Depth = {d}
 Amps = {amps}
 K2s = {k2}
 K3s = {k3}
INVARIANTS RatioLaw PeakLaw EmitAll
CHECK_DEADLOCK FALSE
"""


def run(c):
    from adctoolbox import analyze_decomposition_polar, analyze_decomposition_time, fit_static_nonlin
    from adctoolbox.aout import decompose_harmonic_error
    import matplotlib.pyplot as plt
    r = c.rng
    npr = np.random.default_rng(2121 + c.seed)
    em = c.tlc("Harmonics", CFG.format(mode="ex", ns=c.n("{9, 11}", "{9, 11, 13, 14}"), order=3, amps="{1, 4}", tones=2), name="Harmonics/small", exhaustive=True, workers=4)
    lim = c.n(500, 4000)
    em = em if len(em) < lim else r.sample(em, lim)
    scen = []
    for i in range(c.n(160, 1200)):
        N = r.choice([32, 40, 50, 64, 101, 128])
        H = r.choice([1, 2, 3, 5, 5, 7, 9])
        b = r.randint(1, N // 2 - 1)
        if 2 * b == N:
            continue
        tones = [{"h": 1, "k": 0, "A": r.choice([200, 1000]), "p": r.randrange(24)}]
        for _ in range(r.randint(0, 5)):
            if r.random() < .75:
                tones.append({"h": r.randint(2, max(2, H + 1)), "k": 0, "A": r.randint(1, 60), "p": r.randrange(24)})
            else:
                tones.append({"h": 0, "k": r.randint(1, (N - 1) // 2), "A": r.randint(1, 40), "p": r.randrange(24)})
        r.shuffle(tones)
        scen.append({"id": i, "N": N, "K": 24, "b": b, "H": H, "C": r.choice([0, 0, 7, -300]), "tones": tones})
    em2 = c.tlc("Harmonics", CFG.format(mode="file", ns="{9}", order=1, amps="{1}", tones=1), scen=scen, name="Harmonics/random", workers=4)

    fns = [decompose_harmonic_error,
           lambda s, n_harmonics=5, **k: analyze_decomposition_time(s, harmonic=n_harmonics, create_plot=False, **k),
           lambda s, n_harmonics=5, **k: analyze_decomposition_polar(s, harmonic=n_harmonics, create_plot=False, **k)]

    def val(v):
        K = len(v)
        return sum(q * cmath.exp(2j * math.pi * i / K) for i, q in enumerate(v) if q)

    def replay(e, corrupt=0.0):
        N, b, H, K = e["N"], e["b"], e["H"], e["K"]
        t = np.arange(N)
        x = e["C"] + np.zeros(N)
        for q in e["tones"]:
            f = q["h"] * b if q["h"] else q["k"]
            x = x + q["A"] * np.cos(2 * np.pi * (f * t % N) / N + 2 * np.pi * q["p"] / K)
        u = r.choice([1, 1e-3, 30.0])
        x = x * u
        if np.ptp(x) < 1e-9:
            return
        runs = r.choice([1, 1, 1, 4])
        d = npr.standard_normal((runs, N)) * u
        d -= d.mean(axis=0)
        y = x if runs == 1 else x + d                        # runs differ, their mean is x
        if runs == 1 and r.random() < .2:
            y = r.choice([x[None, :], x[:, None]])
        sc = {"N": N, "bin": b, "orders": H, "tones": e["tones"][:6], "unit": u, "runs": runs}
        y0 = np.array(y).copy()
        g = c.call(r.choice(fns), y, n_harmonics=H, frequency=b / N, max_iterations=0)
        if not c.check(isinstance(g, dict), "decomposition answers", sc, None, g):
            return
        c.check(np.array_equal(np.asarray(y), y0), "record left as given", sc)
        top = np.max(np.abs(x)) + u
        parts = np.asarray(g["fundamental_signal"]) + g["harmonic_signal"] + g["noise_residual"]
        c.close(parts / top, x / top, "fundamental, harmonics and residual add up to the record", sc, rtol=0, atol=1e-10)
        c.close((np.asarray(g["fundamental_signal"]) + g["harmonic_signal"]) / top, np.asarray(g["reconstructed_signal"]) / top, "reconstruction is fundamental plus harmonics", sc, rtol=0, atol=1e-10)
        rest = sum((2 * np.real(val(q["z"]) * np.exp(2j * np.pi * (q["k"] * t % N) / N)) if 2 * q["k"] != N else np.real(val(q["z"])) * np.cos(np.pi * t) for q in e["rest"]), np.zeros(N)) / 2
        ny = [q for q in e["rest"] if 2 * q["k"] == N]
        if not ny:
            c.close(np.asarray(g["noise_residual"]) / top, rest * u / top + corrupt, "what is orthogonal to the harmonics stays in the residual", sc, rtol=0, atol=1e-8)
            rms = math.sqrt(np.mean(rest ** 2)) * u
            c.close(np.asarray(g["residual_rms"]) / top, rms * 2 * math.sqrt(2) / top, "residual level is its peak-to-peak equivalent", sc, rtol=1e-6, atol=1e-8)
            if rms / np.ptp(x) > 1e-6:
                c.close(g["noise_db"], 20 * math.log10(rms * 2 * math.sqrt(2) / np.ptp(x)), "noise level in dB of the range", sc, rtol=0, atol=1e-4)
        if e["clear"]:
            z = np.array([val(v) for v in e["hz"]]) * u
            c.close(np.asarray(g["magnitudes"]) / top, 2 * np.abs(z) / top + corrupt, "magnitude of every harmonic", sc, rtol=1e-7, atol=1e-8)
            c.close(g["fundamental_freq"], b / N, "frequency", sc)
            fund = e["C"] * u + np.mean(x) - e["C"] * u + np.real(z[0] * np.exp(2j * np.pi * (b * t % N) / N))
            c.close(np.asarray(g["fundamental_signal"]) / top, fund / top, "fundamental part", sc, rtol=0, atol=1e-8)
            big = np.abs(z) / np.ptp(x) > 1e-6
            if big[0]:
                want = [cmath.exp(-1j * (cmath.phase(v) - (h + 1) * cmath.phase(z[0]))) for h, v in enumerate(z)]
                c.close(np.exp(1j * np.asarray(g["phases"]))[big], np.array(want)[big], "phase of every harmonic relative to the fundamental", sc, rtol=0, atol=1e-5)
                c.check(np.all(np.abs(np.asarray(g["phases"])) <= np.pi + 1e-9), "phases are within half a turn", sc)
            c.close(np.asarray(g["magnitudes_db"])[big], 20 * np.log10(2 * np.abs(z[big]) / np.ptp(x)), "magnitude in dB of the range", sc, rtol=0, atol=1e-4)
        c.trace({"N": N, "bin": b, "orders": H, "tones": len(e["tones"])})

    for e in em + em2:
        replay(e)
    c.selftest(lambda: [replay(e, .01) for e in em2[:10]])

    # a lone sine at any frequency is its own fundamental, offset included
    for _ in range(c.n(60, 400)):
        n, H = r.choice([50, 137, 400]), r.choice([1, 3, 5])
        while True:
            f = r.uniform(.03, .47)
            fl = [min(h * f % 1, 1 - h * f % 1) for h in range(1, H + 1)]
            if min([abs(p - q) for i, p in enumerate(fl) for q in fl[:i]] + [min(p, .5 - p) for p in fl]) > 1.5 / n:
                break
        a, dc = r.choice([1.0, 300.0]), r.choice([-2.5, .3, 4.0])
        x = a * np.cos(2 * np.pi * f * np.arange(n) + r.uniform(-3, 3)) + dc * a
        sc = {"n": n, "f": f, "a": a, "offset": dc * a, "orders": H}
        g = c.call(r.choice(fns), x, n_harmonics=H, frequency=f, max_iterations=0)
        if c.check(isinstance(g, dict), "decomposition answers", sc, None, g):
            c.close(np.asarray(g["fundamental_signal"]) / a, x / a, "a lone sine with offset is its own fundamental part", sc, rtol=0, atol=1e-8)
            c.close(np.asarray(g["harmonic_signal"]) / a, np.zeros(n), "a lone sine has no harmonic part", sc, rtol=0, atol=1e-8)
        c.trace()

    # any frequency: harmonics on distinct lines are found whatever zone they fall in; frequency may be searched
    for _ in range(c.n(80, 500)):
        n = r.choice([400, 1000, 2048])
        H = r.choice([3, 5, 7])
        close = r.choice([6, 6, .05])
        while True:
            f = r.uniform(.01, .49)
            fl = [min(h * f % 1, 1 - h * f % 1) for h in range(1, H + 1)]
            gap = min([abs(a - b) for i, a in enumerate(fl) for b in fl[:i]] + [min(a, .5 - a) for a in fl])
            if close / n < gap < (1 if close > 1 else .15 / n):
                break
        t = np.arange(n)
        A = [r.choice([1.0, 300.0])]
        A += [A[0] * r.choice([0, .001, .01]) for _ in range(H - 1)]
        ph = [r.uniform(-3, 3) for _ in range(H)]
        x = sum(a * np.cos(2 * np.pi * f * (h + 1) * t + p) for h, (a, p) in enumerate(zip(A, ph))) + r.choice([0, 2.0])
        g = c.call(r.choice(fns), x, n_harmonics=H, frequency=f, max_iterations=0)
        sc = {"n": n, "f": f, "amplitudes": A, "phases": ph}
        if c.check(isinstance(g, dict), "decomposition answers", sc, None, g):
            c.close(np.asarray(g["magnitudes"]) / A[0], 2 * np.array(A) / A[0], "magnitudes", sc, rtol=1e-5, atol=1e-6)
            for h in range(H):
                if A[h]:
                    c.close(cmath.exp(1j * g["phases"][h]), cmath.exp(-1j * (ph[h] - (h + 1) * ph[0])), "relative phases", sc, rtol=0, atol=1e-3)
            c.check(g["residual_rms"] / A[0] < 1e-6, "nothing is left over", sc, 0, g["residual_rms"])
        if max(A[1:]) <= .001 * A[0] and gap > 20 / n:
            g = c.call(r.choice(fns), x, n_harmonics=H, max_iterations=r.choice([20, 40]))
            if c.check(isinstance(g, dict), "decomposition answers", sc, None, g):
                c.close(g["fundamental_freq"], f, "frequency found", sc, rtol=0, atol=2e-3 / n)
                c.close(np.asarray(g["magnitudes"]) / A[0], 2 * np.array(A) / A[0], "magnitudes with searched frequency", sc, rtol=1e-3, atol=2e-4)
        c.trace()

    # static nonlinearity
    eb = c.tlc("StaticNl", CFGB.format(mode="ex", d=c.n(2, 3), amps="{5, 10}", k2="{0, 1, 5}", k3="{0, 2}"), name="StaticNl/small", exhaustive=True, workers=4)
    lim = c.n(150, 1200)
    eb = eb if len(eb) < lim else r.sample(eb, lim)
    scen = []
    for _ in range(c.n(150, 1000)):
        todo = [{"op": o, "v": v} for o, v in (r.choice([("scale", r.choice([2, 5, 30])), ("offset", r.randint(-5, 5)), ("delay", r.randint(1, 99)), ("mirror", 0)]) for _ in range(r.randint(0, 3)))]
        scen.append({"A": r.randint(2, 12), "k2": r.randint(-8, 8), "k3": r.randint(-8, 8), "todo": todo})
    eb += c.tlc("StaticNl", CFGB.format(mode="file", d=0, amps="{1}", k2="{1}", k3="{1}"), scen=scen, name="StaticNl/random", workers=4)

    def nl(e, corrupt=0.0):
        A, k2, k3, g0, d, s = (frac(e[q]) for q in ("A", "k2", "k3", "g", "d", "s"))
        n = r.choice([1000, 2000, 4096])
        cyc = r.randint(20, n // 9)
        ph = r.uniform(0, 6) + sum(o["v"] for o in e["word"] if o["op"] == "delay") * 2 * math.pi * cyc / n
        if r.random() < .5:
            cyc = n // 2 - cyc if math.gcd(6, n) == 2 else cyc
        lines = [0, n / 2] + [min(h * cyc % n, n - h * cyc % n) for h in (1, 2, 3)]
        if min(abs(p - q) for i, p in enumerate(lines) for q in lines[:i]) < 10 or n // math.gcd(n, cyc) < 60:
            return
        x = A * np.cos(2 * np.pi * cyc * np.arange(n) / n + ph)
        y = g0 * (x + k2 * x ** 2 + k3 * x ** 3) + d
        sc = {"A": A, "k2": k2, "k3": k3, "gain": g0, "offset": d, "n": n, "cycles": cyc, "history": [o["op"] for o in e["word"]]}
        y0 = y.copy()
        o = r.choice([3, 3, 3, 4, 5])
        g = c.call(fit_static_nonlin, y, o)
        if not c.check(isinstance(g, tuple) and len(g) == 4, "static fit answers", sc, None, g):
            return
        c.check(np.array_equal(y, y0), "record left as given", sc)
        amp = abs(s) * A                                      # amplitude of the fitted sine
        # a mirrored sine is again a sine: the reference keeps its sign
        w2, w3 = k2 / s * amp, k3 / s ** 2 * amp ** 2
        c.close(g[0] * amp, w2 + corrupt, "quadratic coefficient relative to unit gain", sc, rtol=2e-3, atol=2e-4)
        c.close(g[1] * amp ** 2, w3 + corrupt, "cubic coefficient relative to unit gain", sc, rtol=5e-3, atol=5e-4)
        hd = frac(e["dc"]) + np.real(s * A * np.exp(1j * (2 * np.pi * cyc * np.arange(n) / n + ph)))
        c.close((np.asarray(g[2]) - hd) / amp, np.zeros(n), "fitted sine is the fundamental", sc, rtol=0, atol=2e-3)
        X, Y = g[3]
        dc, u = frac(e["dc"]), None
        u = (np.asarray(X) - dc) / s
        want = g0 * (u + k2 * u ** 2 + k3 * u ** 3) + d
        c.close(np.asarray(Y) / amp, want / amp, "transfer curve", sc, rtol=0, atol=4e-3)
        c.check(abs(np.min(X) - (dc - amp)) < .02 * amp and abs(np.max(X) - (dc + amp)) < .02 * amp and np.all(np.diff(X) > 0), "transfer curve spans the sine", sc, [dc - amp, dc + amp], [np.min(X), np.max(X)])
        if k3 == 0 or r.random() < .3:
            q = c.call(fit_static_nonlin, y, 2)
            if c.check(isinstance(q, tuple) and len(q) == 4, "quadratic fit answers", sc, None, q):
                c.check(math.isnan(q[1]), "cubic coefficient undefined in a quadratic fit", sc, "nan", q[1])
                if k3 == 0:
                    c.close(q[0] * amp, w2, "quadratic coefficient in a quadratic fit", sc, rtol=2e-3, atol=2e-4)
        z = c.call(decompose_harmonic_error, y, n_harmonics=3, frequency=cyc / n, max_iterations=0)
        if c.check(isinstance(z, dict), "decomposition answers", sc, None, z):
            c.close(np.asarray(z["magnitudes"]) / amp, 2 * np.abs([frac(e[q]) for q in ("h1", "h2", "h3")]) / amp, "harmonics of the static curve", sc, rtol=1e-6, atol=1e-8)
        c.trace({"k2": e["k2"], "k3": e["k3"], "gain": e["g"]})

    for e in eb:
        nl(e)
    c.selftest(lambda: [nl(e, .05) for e in eb[-20:]], "static")
    for a, o in [(np.ones(50), 3), (np.cos(np.arange(4.)), 3), (np.cos(np.arange(50.)), 1), (np.cos(np.arange(50.)), 2.5), (np.zeros(50), 2)]:
        g = c.call(fit_static_nonlin, a, o)
        c.check(isinstance(g, Refused), "degenerate static fit refused", {"n": len(a), "order": o}, "error", g)
    # plotting leaves the figures alone
    for e in r.sample(em2, min(len(em2), c.n(5, 30))):
        x = sum(q["A"] * np.cos(2 * np.pi * (q["h"] * e["b"] if q["h"] else q["k"]) * np.arange(e["N"]) / e["N"] + q["p"]) for q in e["tones"])
        a = c.call(decompose_harmonic_error, x, n_harmonics=5)
        for fn in (analyze_decomposition_time, analyze_decomposition_polar):
            plt.figure()
            b = c.call(fn, x, harmonic=5)
            plt.close("all")
            if isinstance(a, dict):
                c.check(isinstance(b, dict) and np.allclose(b["magnitudes"], a["magnitudes"]) and np.allclose(b["noise_residual"], a["noise_residual"]), "plotting leaves the figures alone", {"N": e["N"]}, None, b)
