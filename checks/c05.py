"""C05: predicted interleaving spurs against the exact spectrum."""
import math

import numpy as np
from checks.c04 import synth
from lib.vf import Refused

CFG = """SPECIFICATION Spec
CONSTANTS
 Mode = "{mode}"
 NS = {ns}
 MS = {ms}
 GVals = {{8, 11}}
 OVals = {{0, 3}}
 PVals = {{0, 1}}
INVARIANTS Accounted EmitDone
CHECK_DEADLOCK FALSE
"""


def amp(terms, n, m):
    return abs(sum(w * complex(math.cos(2 * math.pi * e / n), math.sin(2 * math.pi * e / n)) for e, w in terms)) / m


def run(c):
    from adctoolbox import predict_spurs
    r = c.rng
    em = c.tlc("TiSpurs", CFG.format(mode="ex", ns="{8, 12, 16}" if c.thorough else "{8, 12}", ms="{1, 2}"), name="TiSpurs/M12",
               exhaustive=True, workers=4)
    em += c.tlc("TiSpurs", CFG.format(mode="ex", ns="{12, 15}" if c.thorough else "{9}", ms="{3}"), name="TiSpurs/M3", exhaustive=True,
                workers=6)
    scen = []
    for _ in range(c.n(200, 1500)):
        m = r.choice([1, 2, 2, 3, 4, 4, 5, 7, 8, 16])
        n = m * r.choice([8, 16, 31, 32, 60, 64, 128])
        pm = max(1, n // r.choice([4, 16, 64]))
        z = r.random()
        scen.append({"N": n, "M": m, "b": r.randint(1, max(1, (n - 1) // 2)) + (n * r.randint(0, 2) if r.random() < .1 else 0),
                     "A": r.choice([1, 3, 100]), "phi": r.randint(0, n - 1),
                     "g": [10] * m if z < .15 else [r.randint(5, 15) for _ in range(m)],
                     "o": [7] * m if z < .15 else [r.randint(-40, 40) for _ in range(m)],
                     "p": [2] * m if z < .25 else [r.randint(-pm, pm) for _ in range(m)]})
    em += c.tlc("TiSpurs", CFG.format(mode="file", ns="{8}", ms="{1}"), scen=scen, name="TiSpurs/random")

    def one(e, corrupt=False):
        n, m, b = e["N"], e["M"], e["b"]
        fs = r.choice([1.0, 1e9, 2.4e9, 500.0])
        fin = b * fs / n
        fsc = r.choice([1.0, 2.0, 512.0])
        par = {"gain": np.array(e["g"]) / 10, "offset": np.array(e["o"], float), "skew": np.array(e["p"]) / n / fin, "A": 10.0 * e["A"], "fin": fin}
        kw = {}
        if r.random() < .3:
            kw["fin"] = fin
            par["fin"] = r.choice([None, 0.3 * fs, fin])
        elif r.random() < .2:
            par["fin"] = float(fin)
        if fsc != 1.0:
            kw["full_scale"] = fsc
        if r.random() < .3:
            par = {k: (v.tolist() if isinstance(v, np.ndarray) else v) for k, v in par.items()}
        sc = {k: e[k] for k in ("N", "M", "b", "A", "g", "o", "p")}
        sc.update(fs=fs, kw=kw)
        got = c.call(predict_spurs, par, fs, **kw)
        if not c.check(isinstance(got, list), "prediction answers", sc, "list", got):
            return
        exp = {}
        for kind, key in (("offset", "off"), ("gain_skew", "img")):
            for k, l in enumerate(e[key], 1):
                exp[(kind, k)] = (l["bin"] * fs / n, amp(l["sum"], n, m) * (1.01 if corrupt else 1))
        car = 10.0 * e["A"] * sum(e["g"]) / 10 / m
        c.check(len(got) == len(exp) and {(s["kind"], s["k"]) for s in got} == set(exp), "one entry per offset and image line", sc, sorted(exp), got)
        f = [s["freq_hz"] for s in got]
        c.check(all(a <= z + 1e-9 * fs for a, z in zip(f, f[1:])), "sorted by frequency", sc, None, f)
        scale = max(car, max(map(abs, e["o"])), 1e-3)
        for s in got:
            x = exp.get((s["kind"], s["k"]))
            if x is None:
                continue
            c.close(s["freq_hz"], x[0], f"{s['kind']} line position", dict(sc, k=s["k"]), rtol=0, atol=1e-9 * fs * max(1, b / n))
            c.close(s["amp"], x[1], f"{s['kind']} line amplitude", dict(sc, k=s["k"]), rtol=1e-8, atol=1e-11 * scale)
            if x[1] > 1e-6 * scale:
                c.close(s["dbfs"], 20 * math.log10(x[1] / fsc), "level re full scale", sc, rtol=0, atol=1e-6)
                c.close(s["dbc"], 20 * math.log10(x[1] / car), "level re carrier", sc, rtol=0, atol=1e-6)
            elif s["amp"] <= 0:
                c.check(s["dbfs"] == -np.inf and s["dbc"] == -np.inf, "absent line has no level", sc)
        # the record really sampled with these errors shows exactly these lines
        X = np.abs(np.fft.fft(synth(dict(e, g=[v for v in e["g"]])))) / n
        hit = {}
        for (kind, k), (fr, _a) in exp.items():
            hit.setdefault(round(fr * n / fs), []).append((kind, k))
        cb = b % n
        car_bin = min(cb, n - cb)
        by = {(s["kind"], s["k"]): s["amp"] for s in got}
        for bin_, ks in hit.items():
            if bin_ in (0, car_bin):
                continue
            side = 1 if 2 * bin_ == n else 2
            if len(ks) == 1 and ks[0][0] == "gain_skew" and side == 2:
                real = 2 * X[bin_]
                c.close(by.get(ks[0]), real, "image line as it is in the sampled record", sc, rtol=1e-7, atol=1e-9 * scale)
            if all(k[0] == "offset" for k in ks):
                real = side * X[bin_]
                c.close(sum(by.get(k, np.nan) for k in ks), real, "offset lines as they are in the sampled record", sc, rtol=1e-7, atol=1e-9 * scale)
        c.trace({"N": n, "M": m, "b": b, "lines": {str(k): v[1] for k, v in list(exp.items())[:4]}})

    for e in em:
        one(e)
    c.selftest(lambda: [one(e, True) for e in em[:60]])
    base = {"gain": [1, 1.1], "offset": [0, 0.1], "skew": [0, 0]}
    for what, fn in {
        "no input frequency": lambda: predict_spurs(base, 1.0),
        "unequal lengths (offset)": lambda: predict_spurs(dict(base, offset=[0.0]), 1.0, 0.1),
        "unequal lengths (skew)": lambda: predict_spurs(dict(base, skew=[0.0, 0, 0]), 1.0, 0.1),
    }.items():
        g = c.call(fn)
        c.check(isinstance(g, Refused) and isinstance(g.exc, ValueError), f"refused: {what}", {}, "ValueError", g)
    # an amplitude of zero leaves the offset lines alone, and a frequency of zero is a frequency
    for _ in range(c.n(20, 100)):
        m = r.choice([2, 3, 4, 8])
        par = {"gain": [r.choice([-1, 1, 1, 1]) * r.uniform(.8, 1.2) for _ in range(m)], "offset": [r.gauss(0, 1) for _ in range(m)], "skew": [r.choice([0, 0, r.gauss(0, .1)]) for _ in range(m)], "A": r.choice([0, 2.5]), "fin": .13}
        if abs(sum(par["gain"])) < .3:
            continue
        par["skew"] = [0.0] * m if r.random() < .5 else par["skew"]
        kw = r.choice([{}, {"fin": 0}, {"fin": 0.0}, {"fin": .31}])
        f = kw.get("fin", .13)
        sc = dict(par, kw=kw)
        g = c.call(predict_spurs, par, 1.0, **kw)
        if not c.check(isinstance(g, list) and len(g) == 2 * m - 2, "prediction answers", sc, None, g):
            continue
        al = np.array(par["gain"]) * np.exp(2j * np.pi * f * np.array(par["skew"]))
        car = par["A"] * np.mean(par["gain"])
        for s in g:
            seq, w = (np.array(par["offset"]), 1.0) if s["kind"] == "offset" else (al, par["A"])
            want = w * abs(sum(v * np.exp(-2j * np.pi * s["k"] * q / m) for q, v in enumerate(seq))) / m
            c.close(s["amp"], want, "line amplitude", dict(sc, k=s["k"], kind=s["kind"]), rtol=1e-9, atol=1e-12)
            at = (s["k"] / m + (0 if s["kind"] == "offset" else f)) % 1
            c.close(s["freq_hz"], min(at, 1 - at), "line position", dict(sc, k=s["k"], kind=s["kind"]), rtol=0, atol=1e-12)
            if want > 1e-9 and car > 0:
                c.close(s["dbc"], 20 * math.log10(want / car), "level re carrier", sc, rtol=0, atol=1e-6)
        c.trace()
    # an amplitude that is not given is one
    for kw in ({}, {"full_scale": 4.0}):
        g = [c.call(predict_spurs, dict(base, fin=.13, **k), 1.0, **kw) for k in ({}, {"A": 1.0})]
        if c.check(all(isinstance(q, list) for q in g), "prediction without an amplitude answers", kw, None, g):
            c.check(g[0] == g[1], "an amplitude that is not given counts as one", kw, g[1], g[0])
