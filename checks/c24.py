"""C24: noise shaping and the analysis of noise transfer functions."""
import math

import numpy as np
from lib.vf import Refused

CFG = """SPECIFICATION Spec
CONSTANTS
 Mode = "{mode}"
 MaxLen = {n}
INVARIANTS Integrates FlatErrorVanishes Binomial EmitDone
CHECK_DEADLOCK FALSE
"""


def run(c):
    from adctoolbox.siggen import ADC_Signal_Generator as Gen
    from adctoolbox import ntf_analyzer
    from adctoolbox.oversampling import ntfperf
    from scipy import signal as ss
    import matplotlib.pyplot as plt
    r = c.rng
    npr = np.random.default_rng(2424 + c.seed)
    em = c.tlc("Shaping", CFG.format(mode="ex", n=c.n(4, 5)), name="Shaping/small", exhaustive=True, workers=6)
    lim = c.n(2000, 12000)
    em = em if len(em) < lim else r.sample(em, lim)
    scen = []
    for i in range(c.n(250, 1500)):
        n, e = r.choice([1, 3, 8, 14]), r.choice([4, 6, 8])
        lo = r.randint(-80, 20)
        s = {"id": i, "order": r.choice([0, 0, 0, 1, 2, 3, 4, 5]), "n": r.randint(1, 6), "lo": lo, "hi": lo + r.choice([32, 64, 64, 96, 128]), "e": e,
             "x": [r.randint(-(1 << e), 1 << e) for _ in range(n)]}
        if s["order"] == 0:
            s["nb"], s["num"] = r.choice([0, 0, 1, 3]), [r.choice([1, 1, 2])] + [r.randint(-6, 6) for _ in range(r.randint(0, 5))]
            iir = r.random() < .5
            s["db"] = r.choice([0, 1]) if iir else 0
            s["den"] = [r.choice([1, 2])] + [r.choice([-1, 0, 1]) for _ in range(r.randint(1, 3))] if iir else [1]
        scen.append(s)
    em2 = c.tlc("Shaping", CFG.format(mode="file", n=0), scen=scen, name="Shaping/random", workers=6)
    by = {s["id"]: s for s in scen}

    def replay(e, corrupt=0.0):
        s = by.get(e["id"]) or e["cfg"]
        x = np.array([p[0] / 2.0 ** p[1] for p in e["x"]])
        want = x + np.array([p[0] / 2.0 ** p[1] for p in e["y"]])
        n = len(x)
        g = Gen(n, r.choice([1.0, 1e6]), .1, .5, r.uniform(-1, 1))
        kw = {"n_bits": s["n"], "quant_range": (s["lo"] / 64, s["hi"] / 64)}
        if s["order"]:
            kw["order"] = s["order"]
            if s["order"] == 1 and r.random() < .5:
                del kw["order"]
        else:
            num, den = np.array(s["num"]) / 2.0 ** s["nb"], np.array(s["den"]) / 2.0 ** s["db"]
            if len(den) == 1 and den[0] == 1 and r.random() < .6:
                kw["ntf"] = num if r.random() < .5 else num.tolist()
            else:
                kw["ntf"] = (num, den) if r.random() < .5 else (num.tolist(), den.tolist())
            if r.random() < .5:
                kw["order"] = r.choice([0, 1, 3, 9])      # ignored when a transfer function is given
        sc = {"signal": x.tolist(), "args": {k: str(v) for k, v in kw.items()}}
        keep = x.copy()
        y = c.call(g.apply_noise_shaping, x, **kw)
        c.close(y, want + corrupt, "shaped quantisation error added to the signal", sc, rtol=1e-9, atol=1e-9)
        c.check(np.array_equal(x, keep), "the given array is not modified", sc)
        c.trace({"signal": x.tolist(), "order": s["order"]})

    for e in em + em2:
        replay(e)
    c.selftest(lambda: [replay(e, 1e-3) for e in em2[:5]])

    for _ in range(c.n(40, 200)):
        n = r.choice([17, 64])
        f, a, dc = r.uniform(.01, .2), r.uniform(.1, .49), .5
        g = Gen(n, 1.0, f, a, dc)
        o, nb = r.randint(1, 5), r.randint(3, 12)
        sc = {"n": n, "f": f, "order": o, "bits": nb}
        clean = a * np.sin(2 * np.pi * f * np.arange(n)) + dc
        y = c.call(g.apply_noise_shaping, None, n_bits=nb, order=o)
        if c.check(isinstance(y, np.ndarray), "shaping answers", sc, None, y):
            e = y - clean
            for _k in range(o):
                e = np.cumsum(e)
            c.check(np.all(np.abs(e) < 2.0 ** -nb * 1.01 + 1e-9), "summed back, the error of the clean signal is within one step", sc)
            c.close(e + clean, c.call(g.apply_quantization_noise, None, n_bits=nb), "the shaped error is that of the quantiser", sc, rtol=0, atol=1e-8)
        bad = r.choice([0, 6, -1, 7, 1.5, 100])
        y = c.call(g.apply_noise_shaping, None, order=bad)
        c.check(isinstance(y, Refused) and y.type == "ValueError", "unsupported order refused", dict(sc, order=bad), "ValueError", y)
        c.trace()

    # --------------------------------------------- analysis of the transfer function
    def band_power(rr, fl, fh):
        """Integral over the band of the power response, relative to the whole first Nyquist zone."""
        k = np.arange(1, len(rr))
        return 2 * (rr[0] * (fh - fl) + np.sum(np.array(rr[1:]) * (np.sin(2 * np.pi * k * fh) - np.sin(2 * np.pi * k * fl)) / (np.pi * k)))

    seen = {}
    for e in em + em2:
        seen.setdefault(tuple(e["num"]), e["r"])
    fns = [ntf_analyzer, lambda t, a, b: ntfperf(t, a, b), lambda t, a, b: ntf_analyzer(t, a, b, is_plot=0)]
    for num, rr in list(seen.items())[:c.n(150, 800)]:
        for _ in range(3):
            fl = r.choice([0.0, r.uniform(0, .3)])
            fh = r.choice([.5, fl + r.uniform(.05, .19), fl + r.uniform(.02, .5 - fl) if fl < .45 else .5])
            fh = min(fh, .5)
            den = r.choice([[1.0], [1.0] + [0.0] * (len(num) - 1)])
            gain = r.choice([1.0, 1.0, 2.0, .25])
            p = band_power(rr, fl, fh) * gain ** 2
            tot = sum(abs(v) for v in rr) * gain ** 2
            # end points of the sampled band are not resolved; keep well above that error
            if p < 2e-3 * tot:
                continue
            tf = (np.array(num) * gain, den) if r.random() < .7 else ss.TransferFunction(np.array(num) * gain, den, dt=1)
            sc = {"num": num, "gain": gain, "band": [fl, fh]}
            g = c.call(r.choice(fns), tf, fl, fh)
            c.close(g, -10 * math.log10(p), "suppression is the band power of the transfer function", sc, rtol=0, atol=.15 if p < .05 * tot else .02)
            c.trace({"num": num, "band": [fl, fh]})
    for o in range(1, 6):                  # the default shapers in narrow bands: the textbook slope
        for osr in (4, 8, 16, 32):
            fh = .5 / osr
            f = np.linspace(0, fh, 20001)
            p = 2 * np.trapezoid((2 * np.sin(np.pi * f)) ** (2 * o), f)
            num = np.poly(np.ones(o))
            g = c.call(r.choice(fns), (num, [1.0]), 0.0, fh)
            c.close(g, -10 * math.log10(p), "in-band suppression of the default shapers", {"order": o, "osr": osr}, rtol=0, atol=.05)
            c.trace()
    for fh in (.0005, .002, .01, .05):     # narrow bands; their ends are resolved to about one point of 2^17 over the rate
        for o, osr in ((0, 1), (1, 2), (2, 4)):
            fl = r.choice([0.0, fh / 3])
            f = np.linspace(fl, fh, 20001)
            p = 2 * np.trapezoid((2 * np.sin(np.pi * f)) ** (2 * o), f)
            g = c.call(r.choice(fns), (np.atleast_1d(np.poly(np.ones(o))), [1.0]), fl, fh)
            slack = (2 * o + 1) * 1.2 / (131072 * (fh - fl))
            if slack < .2:
                c.close(g, -10 * math.log10(p), "in-band suppression of narrow bands", {"order": o, "band": [fl, fh]}, rtol=0, atol=4.8 * slack + 1e-3)
            c.trace()
    for _ in range(c.n(40, 200)):          # recursive transfer functions
        m = r.randint(1, 3)
        z, p = npr.uniform(-1, 1, m), npr.uniform(-.7, .7, r.randint(0, m))
        num, den = np.atleast_1d(np.poly(z)), np.atleast_1d(np.poly(p))
        fl = r.choice([0.0, r.uniform(0, .2)])
        fh = min(.5, fl + r.uniform(.1, .4))
        f = np.linspace(fl, fh, 40001)
        zz = np.exp(2j * np.pi * f)
        pw = 2 * np.trapezoid(np.abs(np.polyval(num, zz) / np.polyval(den, zz)) ** 2, f)
        sc = {"zeros": z.tolist(), "poles": p.tolist(), "band": [fl, fh]}
        a = c.call(r.choice(fns), (num, den), fl, fh)
        if pw > 1e-3:
            c.close(a, -10 * math.log10(pw), "suppression of a recursive transfer function", sc, rtol=0, atol=.05)
        k = r.uniform(.1, 10)
        b = c.call(r.choice(fns), (num * k, den), fl, fh)
        x = r.uniform(-.6, .6)
        d = c.call(r.choice(fns), (np.polymul(num, [1, x]), np.polymul(den, [1, x])), fl, fh)
        if c.check(not any(isinstance(v, Refused) for v in (a, b, d)), "analysis answers", sc, None, [a, b, d]):
            c.close(b, a - 20 * math.log10(k), "gain shifts the suppression by its level", sc, rtol=0, atol=1e-6)
            c.close(d, a, "a cancelling pole and zero change nothing", sc, rtol=0, atol=1e-4)
        mid = (fl + fh) / 2
        u, v = c.call(ntf_analyzer, (num, den), fl, mid), c.call(ntf_analyzer, (num, den), mid, fh)
        if c.check(not isinstance(u, Refused) and not isinstance(v, Refused), "analysis answers", sc, None, [u, v]):
            c.close(10 ** (-u / 10) + 10 ** (-v / 10), 10 ** (-a / 10), "band powers add", sc, rtol=1e-3, atol=1e-5)
        c.trace()
    plt.figure()
    for fn in (lambda: ntf_analyzer(([1, -2, 1], [1, 0, 0]), .01, .1, is_plot=1), lambda: ntfperf(([1, -2, 1], [1, 0, 0]), .01, .1, True)):
        c.close(c.call(fn), c.call(ntf_analyzer, ([1, -2, 1], [1, 0, 0]), .01, .1), "plotting does not change the figure of merit", {}, rtol=1e-9)
    plt.close("all")
