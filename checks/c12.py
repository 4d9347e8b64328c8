"""C12: oversampling band and performance sweep."""
import math

import numpy as np
from lib.vf import Refused

CFG = """SPECIFICATION Spec
CONSTANTS
 Mode = "{mode}"
 NS = {ns}
 MaxP = {p}
INVARIANTS AsDefined InRange Monotone EmitDone
CHECK_DEADLOCK FALSE
"""


def run(c):
    from adctoolbox import fit_sine_4param, perfosr, sweep_performance_vs_osr
    from adctoolbox.spectrum import compute_spectrum
    r = c.rng
    npr = np.random.default_rng(c.seed + 1212)
    c.tlc("Osr", CFG.format(mode="ex", ns=c.n("{4, 5, 6}", "{4, 5, 6, 7}"), p=c.n(2, 2)), name="Osr/small", exhaustive=True, workers=4)

    def ratio():
        return r.choice([[1, 1], [1, 1], [2, 1], [4, 1], [3, 2], [5, 4], [7, 3], [r.randint(1, 40), 1], [r.randint(20, 90), 20], [500, 1]])

    # ---- sweeps recorded from the implementation, residual spectra summed by the model
    recs, scen = [], []
    for _ in range(c.n(120, 1000)):
        n = r.choice([64, 100, 101, 127, 128, 200, 255])
        k = np.arange(n)
        f = r.choice([r.randint(3, n // 2 - 3) / n, r.uniform(3.2, n / 2 - 3) / n])
        A = r.choice([1.0, .3, 12.0])
        x = A * (np.sin(2 * np.pi * f * k + r.uniform(0, 6)) + r.choice([.01, .1]) * npr.standard_normal(n)) + r.choice([0.0, 4.0])
        if r.random() < .3:
            x = x + .05 * A * np.sin(2 * np.pi * (2 * f % 1) * k)
        default = r.random() < .15
        if default:
            osr = [[n, 2 * q] for q in range(n // 2, 0, -1)]
        else:
            osr = [ratio() for _ in range(r.randint(1, 7))]
            # a hair more and a hair less than what puts the edge on a bin
            q = r.randint(2, n // 2)
            osr += [[50 * n, 100 * q + d] for d in r.sample([-3, -1, 0, 1, 3], 2)]
            if r.random() < .3:
                q = r.randint(n // 4, n // 2)
                osr += [[2500 * n, 5000 * q + d] for d in (-1, 0, 1)]
        fit = c.call(fit_sine_4param, x)
        if not c.check(isinstance(fit, dict), "sine fit answers", {"N": n, "f": f}, None, fit):
            continue
        e = x - np.asarray(fit["fitted_signal"])
        w = np.sin(np.pi * k / n) ** 2
        E = np.array([abs(np.sum(e * w * np.exp(-2j * np.pi * ((q * k) % n) / n))) ** 2 for q in range(n // 2 + 1)]) / np.mean(w ** 2) / n ** 2
        E *= np.where((np.arange(n // 2 + 1) == 0) | (2 * np.arange(n // 2 + 1) == n), 1, 2)
        scale = 1e9 / E.sum()
        x0 = x.copy()
        vals = [a / b for a, b in osr]
        arg = None if default else r.choice([list, tuple, np.array])(vals)
        g = c.call(sweep_performance_vs_osr, x, osr=arg, create_plot=False)
        sc = {"N": n, "f": f, "A": A, "osr": osr if not default else "default"}
        if not c.check(isinstance(g, dict), "sweep answers", sc, None, g):
            continue
        c.check(np.array_equal(x, x0), "record left as given", sc)
        c.close(g["osr"], vals, "ratios reported in the order given", sc, rtol=1e-12)
        recs.append((g, float(fit["amplitude"]), scale, sc, x))
        scen.append({"N": n, "e": [int(round(v * scale)) for v in E], "osr": osr, "id": len(recs) - 1})
        if r.random() < .3:
            p = c.call(perfosr, x, osr=arg)
            if c.check(isinstance(p, tuple) and len(p) == 4, "four-output form answers", sc, None, p):
                for a, key in zip(p, ("osr", "sndr", "sfdr", "enob")):
                    c.close(a, g[key], f"four-output form reports the same {key}", sc, rtol=1e-9)
    em = c.tlc("Osr", CFG.format(mode="file", ns="{4}", p=1), scen=scen, name="Osr/recorded", workers=4)

    def one(e, corrupt=0.0):
        g, A, scale, sc, _ = recs[e["c"]["id"]]
        n = e["c"]["N"]
        for i, (b, tot, pk) in enumerate(e["res"]):
            if tot < 3000 or pk < 3000:
                continue
            t1, t2 = 4.4 * n / tot + 1e-5, 4.4 * 2 / pk + 1e-5
            s2 = dict(sc, osr=e["c"]["osr"][i], band=b)
            if isinstance(sc["osr"], list):
                s2["all"] = sc["osr"]
            c.close(g["sndr"][i], 10 * math.log10(A * A / 2 / (tot / scale)) + corrupt, "SNDR is signal over in-band residual", s2, rtol=0, atol=t1)
            c.close(g["sfdr"][i], 10 * math.log10(A * A / 2 / (pk / scale)) + corrupt, "SFDR is signal over the largest in-band residual", s2, rtol=0, atol=t2)
            c.close(g["enob"][i], (g["sndr"][i] - 1.76) / 6.02, "ENOB from SNDR", s2, rtol=1e-9)
        o = np.asarray(g["osr"])
        k = np.argsort(o, kind="stable")
        c.check(np.all(np.diff(np.asarray(g["sndr"])[k]) >= -1e-9) and np.all(np.diff(np.asarray(g["sfdr"])[k]) >= -1e-9),
                "SNDR and SFDR never fall as the ratio grows", sc, None, [g["sndr"], g["sfdr"]])
        c.trace({"N": n, "osr": sc["osr"], "bands": [v[0] for v in e["res"]][:6]})

    for e in em:
        one(e)
    c.selftest(lambda: [one(e, 0.5) for e in em[:5]])

    # ---- known residual tones: sweep and spectrum against the model's band
    scen = []
    for _ in range(c.n(120, 1000)):
        n = r.choice([128, 200, 201, 255, 256])
        top = (n - 1) // 2
        b = r.randint(5, top - 8)
        tones = {}
        for _ in range(r.randint(1, 4)):
            q = r.randint(3, top - 2)
            if abs(q - b) > 6 and all(abs(q - w) > 4 for w in tones):
                tones[q] = r.randint(20, 90)
        if not tones:
            continue
        e = [0] * (n // 2 + 1)
        for q, a in tones.items():
            e[q] += 4 * a * a
            e[q - 1] += a * a
            e[q + 1] += a * a
        osr = [ratio() for _ in range(3)]
        # a ratio that puts a tone exactly on, just inside and just outside the edge
        q = r.choice(list(tones))
        osr += [[n, 2 * q], [n, 2 * q + 1], [n, 2 * q - 1], [n, 2 * q - 2], [n, 2 * q + 2], [100 * n, 200 * q - 1], [100 * n, 200 * q + 1]]
        scen.append({"N": n, "e": e, "osr": osr, "b": b, "tones": [[q, a] for q, a in tones.items()]})
    em2 = c.tlc("Osr", CFG.format(mode="file", ns="{4}", p=1), scen=scen, name="Osr/tones", workers=4)
    A = 3000.0

    def two(e, corrupt=0.0):
        cf = e["c"]
        n = cf["N"]
        k = np.arange(n)
        x = A * np.sin(2 * np.pi * cf["b"] * k / n + r.uniform(0, 6))
        for q, a in cf["tones"]:
            x = x + a * np.cos(2 * np.pi * q * k / n + r.uniform(0, 6))
        o = [v[0] / v[1] for v in cf["osr"]]
        sc = {"N": n, "bin": cf["b"], "tones": cf["tones"], "osr": cf["osr"]}
        g = c.call(sweep_performance_vs_osr, x, osr=o, create_plot=False)
        if c.check(isinstance(g, dict), "sweep answers", sc, None, g):
            for i, (bnd, tot, pk) in enumerate(e["res"]):
                if tot:
                    # the four-parameter fit leaves a little of the fundamental behind
                    c.close(g["sndr"][i], 10 * math.log10(A * A / (tot / 6)) + corrupt * 60, "sweep SNDR counts exactly the tones in band", dict(sc, at=cf["osr"][i]), rtol=0, atol=.35)
        # full analysis, rectangular window: each tone counted iff its bin is in band, out-of-band tones irrelevant
        for i, (bnd, _, _) in enumerate(e["res"]):
            if cf["b"] >= bnd - 1:
                continue
            ins = [a for q, a in cf["tones"] if q < bnd]
            kw = {"win_type": "boxcar", "side_bin": 0, "max_scale_range": A, "osr": o[i]}
            h = c.call(compute_spectrum, x, **kw)
            s2 = dict(sc, at=cf["osr"][i], band=bnd)
            if not c.check(isinstance(h, dict), "analysis answers", s2, None, h):
                continue
            m = h["metrics"]
            if ins:
                c.close(m["sndr_dbc"], 10 * math.log10(A * A / sum(a * a for a in ins)) + corrupt, "SNDR counts exactly the tones in band", s2, rtol=0, atol=1e-6)
                c.close(m["sfdr_dbc"], 20 * math.log10(A / max(ins)) + corrupt, "SFDR looks at the tones in band", s2, rtol=0, atol=1e-6)
            else:
                c.check(m["sndr_dbc"] > 120 and m["sfdr_dbc"] > 120, "out-of-band tones do not count", s2, "> 120", [m["sndr_dbc"], m["sfdr_dbc"]])
            out = [q for q in range(bnd, (n + 1) // 2)]
            if out:
                y = x + 500 * np.cos(2 * np.pi * r.choice(out) * k / n) + 300 * np.sin(2 * np.pi * r.choice(out) * k / n)
                h2 = c.call(compute_spectrum, y, **kw)
                if c.check(isinstance(h2, dict), "analysis answers", s2, None, h2):
                    for key in ("sndr_dbc", "sfdr_dbc", "sig_pwr_dbfs"):
                        if m[key] < 120:
                            c.close(h2["metrics"][key], m[key] + corrupt, f"out-of-band content leaves {key} alone", s2, rtol=0, atol=1e-6)
        c.trace()

    for e in em2:
        two(e)
    c.selftest(lambda: [two(e, 0.01) for e in em2[:5]], "tones")

    # ---- four-output form: option values that mean nothing are refused, the others change no number
    import matplotlib.pyplot as plt
    k = np.arange(200)
    x = np.sin(2 * np.pi * 17.3 * k / 200) + .01 * npr.standard_normal(200)
    o = [1.0, 2.0, 3.5, 10.0]
    ref = c.call(perfosr, x, osr=o)
    for kw in ({"harmonic": 0}, {"harmonic": -2}, {"harmonic": 2.5}, {"smooth": 0}, {"smooth": -1}, {"osr": [2.0, 0.0, 4.0]}, {"osr": [1.0, -1.0]}, {"osr": [0.0]}):
        g = c.call(perfosr, x, **dict({"osr": o}, **kw))
        c.check(isinstance(g, Refused), "meaningless option refused", kw, "error", g)
    for kw in ({"harmonic": 1}, {"harmonic": 7}, {"harmonic": 3.0}, {"smooth": 1}, {"smooth": 3}, {"logscale": False}, {"disp": False}, {"disp": 0}, {"disp": None}, {"disp": True}, {"disp": 1}):
        plt.close("all")
        g = c.call(perfosr, x, osr=o, **kw)
        drawn = bool(plt.get_fignums())
        plt.close("all")
        if c.check(isinstance(g, tuple) and isinstance(ref, tuple), "legal option accepted", kw, None, g):
            c.close(np.concatenate(g), np.concatenate(ref), "display options change no number", kw, rtol=1e-12)
            c.check(drawn is bool(kw.get("disp")), "a plot appears exactly when asked for", kw, bool(kw.get("disp")), drawn)
        c.trace()

    # a ratio that is not positive has no band
    x = np.sin(2 * np.pi * 7 * np.arange(64) / 64) + .01 * npr.standard_normal(64)
    for o in (0, -1, -.5, 0.0):
        for what, fn in (("spectrum", lambda: compute_spectrum(x, osr=o)), ("sweep", lambda: sweep_performance_vs_osr(x, osr=[2, o], create_plot=False))):
            g = c.call(fn)
            c.check(isinstance(g, Refused) and isinstance(g.exc, ValueError), f"{what}: a ratio that is not positive is refused", {"osr": o}, "ValueError", g)
