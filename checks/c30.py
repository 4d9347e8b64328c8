"""C30: fractional delays."""
import numpy as np
from lib.vf import Refused, frac

CFG = """SPECIFICATION Spec
CONSTANTS
 Mode = "{mode}"
 MaxN = {mn}
 MaxD = {md}
 MaxOps = {mo}
INVARIANTS Additive OnlyDrops OneWay TonesTurn EmitAll
CHECK_DEADLOCK FALSE
"""


def run(c):
    from adctoolbox import fractional_delay_farrow, fractional_delay_fft
    r = c.rng
    em = c.tlc("Delay", CFG.format(mode="ex", mn=c.n(6, 9), md=c.n(4, 7), mo=2), name="Delay/histories", exhaustive=True, workers=2)
    scen = []
    for _ in range(c.n(400, 4000)):
        k = r.choice(["ring", "line", "tone", "tone", "poly"])
        n = r.choice([1, 2, 3, 8, 15, 16, 31, 64, 100, r.randint(1, 200)])
        res = r.choice([1, 2, 4, 8, 10])
        taps = r.choice([1, 3, 5, 7, 9])
        if k in ("ring", "line"):
            s = {"data": [r.randint(-99, 99) for _ in range(n)], "res": 1,
                 "todo": [r.choice([0, 1, -1, r.randint(-n - 3, n + 3)]) for _ in range(r.randint(1, 3))]}
        elif k == "tone":
            n = max(n, 3)
            s = {"data": [[b, r.randint(1, 9), r.randint(0, 15)] for b in r.sample(range(0, (n + 1) // 2), min((n + 1) // 2, r.randint(1, 3)))],
                 "res": res, "todo": [r.randint(-3 * res, 3 * res) if r.random() < .8 else r.randint(-n * res, n * res) for _ in range(r.randint(1, 3))]}
        else:
            taps = r.choice([3, 5, 7])
            n = r.randint(taps, 24)
            deg = min(taps - 1, 3)
            res = r.choice([2, 4, 5])
            s = {"data": [r.randint(-3, 3) for _ in range(r.randint(0, deg) + 1)], "res": res, "todo": [r.randint(-3 * res, 3 * res)]}
        s.update(kind=k, N=n, taps=taps)
        scen.append(s)
    em += c.tlc("Delay", CFG.format(mode="file", mn=1, md=1, mo=1), scen=scen, name="Delay/random")

    def one(e, corrupt=False):
        n, res, kind = e["N"], e["res"], e["kind"]
        fs = r.choice([1.0, 1e9, 48000.0, 3.0])
        k = np.arange(n)
        data = e["data"]
        if kind in ("ring", "line"):
            x = np.array(data, float)
            exp = np.array(e["rec"], float)
        elif kind == "tone":
            x = sum(a * np.cos(2 * np.pi * (b * k / n + p / 16)) for b, a, p in data) if data else np.zeros(n)
            exp = sum(a * np.cos(2 * np.pi * (b * k / n + frac(q))) if b else a * np.cos(2 * np.pi * p / 16) * np.ones(n)
                      for (b, a, p), q in zip(data, e["rec"]))
        else:
            x = np.polynomial.polynomial.polyval(k.astype(float), data)
            exp = np.array([frac(q) for q in e["rec"]])
        scale = max(1.0, float(np.max(np.abs(x))))
        if corrupt:
            exp = exp + 1e-3 * scale
        sc = {"kind": kind, "N": n, "res": res, "ops": e["ops"], "taps": e["taps"], "data": data[:6], "fs": fs}
        y, arg = x.tolist() if r.random() < .2 else x, x.copy()
        for d in e["ops"]:
            if kind in ("ring", "tone"):
                y = c.call(fractional_delay_fft, y, d / res / fs, fs)
            else:
                y = c.call(fractional_delay_farrow, y, d / res / fs, fs, **({} if e["taps"] == 7 and r.random() < .5 else {"n_taps": e["taps"]}))
            if not c.check(not isinstance(y, Refused) and np.shape(y) == (n,), "answers with as many samples as given", sc, n, y):
                return
        c.check(np.array_equal(x, arg), "record left as given", sc)
        tol = 1e-9 * scale * max(1, len(e["ops"]))
        if kind == "poly":
            d = e["ops"][0] / res
            di = [int(np.floor(d)), int(np.ceil(d))]     # either rounding of a half sample
            P = e["taps"] // 2
            lo, hi = max(P + max(di), P, 0), min(n - P + min(di), n - P, n)
            if lo < hi:
                c.close(y[lo:hi], exp[lo:hi], "polynomials up to the order are reproduced", sc, rtol=0, atol=1e-7 * scale)
        else:
            c.close(y, exp, {"ring": "whole-sample delays rotate the record", "line": "whole-sample delays shift with zero fill",
                             "tone": "every in-band tone is delayed by exactly the asked time"}[kind], sc, rtol=0, atol=tol)
        c.trace({"kind": kind, "N": n, "ops": e["ops"]})

    for e in em:
        one(e)
    c.selftest(lambda: [one(e, True) for e in em[:30]])
    # exact shift for any tap count, linearity, short records
    for _ in range(c.n(60, 400)):
        n = r.randint(1, 40)
        x = np.array([float(r.randint(-9, 9)) for _ in range(n)])
        z = np.array([float(r.randint(-9, 9)) for _ in range(n)])
        t = r.choice([1, 3, 5, 7, 9, 11])
        d = r.uniform(-4, 4)
        for f in (lambda v: fractional_delay_farrow(v, d, 1.0, n_taps=t), lambda v: fractional_delay_fft(v, d, 1.0)):
            a, b, s = c.call(f, x), c.call(f, z), c.call(f, 2 * x - 3 * z)
            if c.check(not any(isinstance(v, Refused) for v in (a, b, s)) and np.shape(a) == (n,), "answers with as many samples as given",
                       {"N": n, "d": d, "taps": t}, n, [np.shape(v) for v in (a, b, s)]):
                c.close(s, 2 * np.asarray(a) - 3 * np.asarray(b), "delay is linear", {"N": n, "d": d, "taps": t}, rtol=0, atol=1e-8)
        c.trace()
    for t in (0, 2, 4, -1, 8):
        g = c.call(fractional_delay_farrow, np.arange(20.0), 0.3, 1.0, n_taps=t)
        c.check(isinstance(g, Refused) and isinstance(g.exc, ValueError), "even or non-positive tap counts refused", {"taps": t}, "ValueError", g)
    for f in (fractional_delay_farrow, fractional_delay_fft):
        g = c.call(f, np.zeros((2, 4)), 0.1, 1.0)
        c.check(isinstance(g, Refused), "2-D record refused", {}, "error", g)
