"""C23: impairments of the signal generator."""
import math

import numpy as np
from lib.vf import Refused

CFG = """SPECIFICATION Spec
CONSTANTS
 Mode = "{mode}"
 Depth = {depth}
INVARIANTS ZeroIsIdentity SameLength QuantExact Monotone ClipBounds SettleBetween UnitGain EmitDone
CHECK_DEADLOCK FALSE
"""
LN2 = math.log(2)


def rand_op(r):
    t = r.choice(["quant", "poly", "hd", "memory", "ra", "radyn", "settle", "ref", "am", "clip"])
    if t == "quant":
        lo = r.randint(-100, 40)
        return {"t": t, "n": r.randint(1, 9), "lo": lo, "hi": lo + r.choice([1, 16, 64, 64, 96, 100, 128])}
    if t == "poly":
        ks = [0, 0, 0, 0]
        for _ in range(r.randint(1, 2)):
            ks[r.randrange(4)] = r.randint(-4, 4)
        return {"t": t, "ks": ks, "kb": r.randint(0, 4)}
    if t == "hd":
        return {"t": t, "n": r.randint(2, 5), "j": r.randint(0, 8)}
    if t == "memory":
        return {"t": t, "s": r.randint(-16, 16)}
    if t == "ra":
        return {"t": t, "coarse": r.random() < .5, "g": r.randint(50, 80), "mb": r.randint(0, 6), "lb": r.randint(0, 12)}
    if t == "radyn":
        return {"t": t, "coarse": r.random() < .5, "g": r.choice([64, 60, 32]), "c": r.choice([0, 8, 16, -32, 64]), "mb": r.randint(0, 3), "lb": r.randint(0, 6)}
    if t == "settle":
        return {"t": t, "m": r.choice([1, 2, 3, 4, 6]), "c": r.choice([0, 0, 1, 4, 16])}
    if t == "ref":
        return {"t": t, "d": r.randint(1, 3), "s": r.randint(-8, 16)}
    if t == "am":
        return {"t": t, "q": r.randint(0, 6), "s": r.randint(-32, 64)}
    return {"t": t, "p": r.randint(0, 7), "b": 16}


def run(c):
    from adctoolbox.siggen import ADC_Signal_Generator as Gen
    r = c.rng
    npr = np.random.default_rng(2323 + c.seed)
    em = c.tlc("SigGen", CFG.format(mode="ex", depth=c.n(2, 2)), name="SigGen/all pairs of impairments", exhaustive=True, workers=6)
    lim = c.n(4000, 30000)
    em = em if len(em) < lim else r.sample(em, lim)
    scen = []
    for i in range(c.n(500, 4000)):
        n, e = r.choice([1, 2, 3, 5, 8, 12]), r.choice([2, 4, 6, 6, 8, 13])
        w = r.choice([1, 1, 2]) << e
        scen.append({"id": i, "dc": r.choice([0, 32, r.randint(-64, 64)]), "a": r.choice([0, 1, 2]), "e": e,
                     "x": [r.randint(-w, w) for _ in range(n)], "ops": [rand_op(r) for _ in range(r.choice([1, 1, 2, 3, 4]))]})
    em2 = c.tlc("SigGen", CFG.format(mode="file", depth=0), scen=scen, name="SigGen/random chains", workers=6)

    def apply(g, o, a, fs, x):
        """One impairment with the parameters of the model's action."""
        t = o["t"]
        if t == "quant":
            return c.call(g.apply_quantization_noise, x, n_bits=o["n"], quant_range=(o["lo"] / 64, o["hi"] / 64))
        if t == "poly":
            ks = {f"k{j + 2}": v / 2 ** o["kb"] for j, v in enumerate(o["ks"]) if v or r.random() < .5}
            return c.call(g.apply_static_nonlinearity, x, **ks)
        if t == "hd":
            return c.call(g.apply_static_nonlinearity_hd, x, **{f"hd{o['n']}_dB": -20 * math.log10(2.0 ** o["j"])})
        if t == "memory":
            return c.call(g.apply_memory_effect, x, memory_strength=o["s"] / 64)
        if t in ("ra", "radyn"):
            kw = {"relative_gain": o["g"] / 64, "msb_bits": o["mb"], "lsb_bits": o["lb"]}
            if not o["coarse"] or r.random() < .5:
                kw["mode"] = "coarse_path" if o["coarse"] else "residue_path"
            if t == "radyn":
                return c.call(g.apply_ra_gain_error_dynamic, x, coeff_3=o["c"] / 64, **kw)
            return c.call(g.apply_ra_gain_error, x, **kw)
        if t == "settle":
            if r.random() < .4:
                return c.call(g.apply_incomplete_sampling, x, tau_nom=.2 / fs / (o["m"] * LN2), coeff_k=o["c"])
            T = r.choice([1.0, 3e-10])
            return c.call(g.apply_incomplete_sampling, x, T_track=T, tau_nom=T / (o["m"] * LN2), coeff_k=o["c"])
        if t == "ref":
            return c.call(g.apply_reference_error, x, settling_tau=1 / (o["d"] * LN2), droop_strength=o["s"] / 64)
        if t == "am":
            return c.call(g.apply_am_tone, x, am_tone_freq=o["q"] * fs / 4, am_tone_depth=o["s"] / 64)
        return c.call(g.apply_clipping, x, percentile_clip=100 * o["p"] / o["b"])

    def replay(e, corrupt=0.0):
        fs = r.choice([1.0, 4.0, 1e6, 800e6])
        x = np.array(e["x"]) / 2.0 ** e["e"]
        n = len(x)
        g = Gen(N=n, Fs=fs, Fin=r.choice([.1, .3]) * fs, A=2.0 ** -e["a"], DC=e["dc"] / 64)
        sc = {"dc": e["dc"] / 64, "signal": x.tolist(), "chain": e["ops"]}
        for o, want in zip(e["ops"], e["path"]):
            want = np.array([p[0] / 2.0 ** p[1] for p in want])
            if n > 1 and r.random() < .2:      # a strided view is a signal like any other
                buf = np.full(2 * n, 7.0)
                buf[::2] = x
                x = buf[::2]
            keep = x.copy()
            y = apply(g, o, e["a"], fs, x)
            if not c.close(y, want + corrupt, f"impairment '{o['t']}' is its stated function", sc, rtol=1e-9, atol=1e-9):
                return
            c.check(np.array_equal(x, keep), "the given array is not modified", dict(sc, op=o))
            c.check(not np.shares_memory(x, y), "the result is a new array", dict(sc, op=o))
            x = np.asarray(y)
        c.trace({"signal": e["x"], "exp": e["e"], "chain": [o["t"] for o in e["ops"]]})

    for e in em + em2:
        replay(e)
    c.selftest(lambda: [replay(e, 1e-3) for e in em2[:5]])

    # one generator, histories of calls on the clean signal: no state, clean signal by default
    for _ in range(c.n(60, 400)):
        n, fs = r.choice([16, 33, 128]), r.choice([1.0, 1e6, 800e6])
        a, dc, f = r.uniform(.1, 1), r.uniform(-.5, .5), r.uniform(.01, .49)
        g = Gen(n, fs, f * fs, a, dc)
        clean = c.call(g.get_clean_signal)
        sc = {"n": n, "fs": fs, "f": f, "a": a, "dc": dc}
        if not c.close(clean, a * np.sin(2 * np.pi * f * np.arange(n)) + dc, "clean signal", sc, rtol=1e-9, atol=1e-9):
            continue
        for o in [rand_op(r) for _ in range(6)]:
            st = r.getstate()
            y0 = apply(g, o, 0, fs, None)
            r.setstate(st)
            y1 = apply(g, o, 0, fs, clean.copy())
            c.close(y0, y1, f"'{o['t']}' uses the clean signal when none is given", dict(sc, op=o), rtol=1e-12)
        c.close(c.call(g.get_clean_signal), clean, "the generator keeps no state", sc, rtol=0, atol=0)
        c.trace()

    # harmonic levels requested are harmonic levels produced
    for _ in range(c.n(60, 400)):
        n = r.choice([256, 1000])
        cyc = r.choice([3, 7, 11])
        a, dc = r.uniform(.1, 2), r.uniform(-1, 1)
        g, neg = Gen(n, 1.0, cyc / n, a, dc), Gen(n, 1.0, cyc / n, -a, -dc)
        lv = {h: r.uniform(-90, -20) for h in r.sample([2, 3], r.randint(1, 2))}
        top = r.choice([None, 4, 5])
        if top:
            lv = {top: r.uniform(-90, -20)}
        y = c.call(g.apply_static_nonlinearity_hd, None, **{f"hd{h}_dB": v for h, v in lv.items()})
        sc = {"n": n, "cycles": cyc, "a": a, "dc": dc, "levels": lv}
        if c.check(isinstance(y, np.ndarray) and y.shape == (n,), "distortion answers", sc, None, y):
            sp = np.abs(np.fft.rfft(y - dc)) * 2 / n
            for h, v in lv.items():
                c.close(20 * math.log10(sp[h * cyc] / a), v, f"harmonic {h} has the requested level", sc, rtol=0, atol=1e-6)
            c.close(c.call(neg.apply_static_nonlinearity_hd, None, **{f"hd{h}_dB": v for h, v in lv.items()}), -y, "turning the signal over turns its distortion over", sc, rtol=1e-9, atol=1e-12)
            q = {2: {0, 1, 2}, 3: {1, 3}, 4: {0, 1, 2, 4}, 5: {1, 3, 5}}
            ok = {h * cyc for k in lv for h in q[k]}
            rest = [i for i in range(len(sp)) if i not in ok]
            c.check(np.max(sp[rest]) < 1e-12 * max(1, a) * 100, "no other line appears", sc, None, float(np.max(sp[rest])))
        c.trace()

    # random impairments: stated RMS, additive or multiplicative form, reproducible under a seed
    n = 20000
    t = np.arange(n)
    for _ in range(c.n(12, 60)):
        a, dc, f = r.uniform(.1, 1), r.uniform(-.5, .5), r.uniform(.05, .2)
        fs = r.choice([1.0, 1e6])
        g = Gen(n, fs, f * fs, a, dc)
        clean = a * np.sin(2 * np.pi * f * t) + dc
        x = clean + .05 * np.cos(2 * np.pi * .013 * t) if r.random() < .6 else None
        base = clean if x is None else x
        s = 10 ** r.uniform(-6, -1)
        sa = r.choice([s, s, 1.5, 4.0])
        sc = {"a": a, "dc": dc, "f": f, "strength": s, "given": x is not None, "fs": fs}
        k0 = None if x is None else x.copy()
        np.random.seed(r.randrange(1 << 30))

        def white(d, rms, what):
            if not c.check(np.shape(d) == (n,), f"{what} answers", sc):
                return
            z = d / rms
            tol = 12 / math.sqrt(n)
            c.check(abs(np.mean(z)) < tol and abs(np.std(z) - 1) < tol, f"{what}: zero mean, stated RMS", sc, 1, [float(np.mean(z)), float(np.std(z))])
            c.check(abs(np.mean(z[1:] * z[:-1])) < tol, f"{what}: white", sc)
            c.check(abs(np.mean(z * np.sin(2 * np.pi * f * t))) < tol, f"{what}: unrelated to the signal", sc)
            c.check(abs(np.mean(z ** 4) - 3) < 1 and abs(np.mean(z ** 3)) < .4, f"{what}: Gaussian", sc, 3, float(np.mean(z ** 4)))

        y = c.call(g.apply_thermal_noise, x, noise_rms=s)
        if not isinstance(y, Refused):
            white(y - base, s, "thermal noise")
            y2 = c.call(g.apply_thermal_noise, x, noise_rms=s)
            c.check(np.corrcoef(y - base, y2 - base)[0, 1] < .1, "successive noise is fresh", sc)
        else:
            c.fail("thermal noise answers", sc, None, y)
        y = c.call(g.apply_am_noise, x, strength=sa)
        if not isinstance(y, Refused):
            ac = base - dc
            m = np.abs(ac) > .02 * a
            z = (y - base)[m] / ac[m] / sa
            c.check(abs(np.mean(z)) < .1 and abs(np.std(z) - 1) < .1, "amplitude noise is proportional to the signal", sc, 1, float(np.std(z)))
            lo_, hi_ = np.abs(ac[m]) < np.median(np.abs(ac)), np.abs(ac[m]) > np.median(np.abs(ac))
            c.check(abs(np.std(z[lo_]) / np.std(z[hi_]) - 1) < .12, "amplitude noise scales with the instantaneous signal", sc)
            c.check(abs(np.mean(z[1:] * z[:-1])) < .12, "amplitude noise is white", sc)
        else:
            c.fail("amplitude noise answers", sc, None, y)
        pr, ga = r.choice([0.0, 1.0, r.uniform(.02, .5)]), r.uniform(-.3, .3)
        y = c.call(g.apply_glitch, x, glitch_prob=pr, glitch_amplitude=ga)
        if not isinstance(y, Refused):
            d = y - base
            hit = np.abs(d - ga) < 1e-9
            c.check(np.all(hit | (np.abs(d) < 1e-9)), "a glitch adds its amplitude or nothing", sc)
            share = float(np.mean(hit)) if abs(ga) > 1e-6 else pr
            c.check(abs(share - pr) <= 10 * math.sqrt(pr * (1 - pr) / n), "glitches at the stated rate", dict(sc, p=pr), pr, share)
        else:
            c.fail("glitch answers", sc, None, y)
        # jitter: the signal is taken at displaced instants
        jr = 10 ** r.uniform(-4, -2) / fs
        y = c.call(g.apply_jitter, None, jitter_rms=jr)
        if not isinstance(y, Refused):
            slope = 2 * np.pi * f * fs * a * np.cos(2 * np.pi * f * t)
            m = np.abs(slope) > .5 * np.max(np.abs(slope))
            white_t = (y - clean)[m] / slope[m] / jr
            c.check(abs(np.mean(white_t)) < .12 and abs(np.std(white_t) - 1) < .1, "jitter moves the instants by the stated RMS", dict(sc, jitter=jr), 1, float(np.std(white_t)))
        else:
            c.fail("jitter answers", sc, None, y)
        # a ramp shows the displacement, and a cubic taken through a polynomial is exact
        tt = t[:400] / 400.0
        gj = Gen(400, 400.0, 1.0, a, dc)
        jr = 10 ** r.uniform(-5, -3.5)
        sd = r.randrange(1 << 30)
        res = []
        for sig in (tt, tt, 2 * tt ** 3 - tt ** 2 + .5 * tt - 1, np.full(400, .37)):
            np.random.seed(sd)
            res.append(c.call(gj.apply_jitter, sig.copy(), jitter_rms=jr))
        if c.check(all(isinstance(q, np.ndarray) for q in res), "jitter of a given signal answers", sc, None, res):
            z = (res[0] - tt) / jr
            c.check(abs(np.std(z) - 1) < .45 and abs(np.mean(z)) < .5, "jitter of a given signal has the stated RMS", sc, 1, float(np.std(z)))
            c.close(res[3], np.full(400, .37), "a constant is not affected by jitter", sc, rtol=1e-9)
            if np.array_equal(res[0], res[1]):
                u = res[0]
                c.close(res[2], 2 * u ** 3 - u ** 2 + .5 * u - 1, "a given signal is interpolated at the displaced instants", sc, rtol=1e-7, atol=1e-9)
        # instants before the first and after the last sample are reached too
        gk = Gen(8, 8.0, 1.0, a, dc)
        ends = np.array([c.call(gk.apply_jitter, np.arange(8) / 8, jitter_rms=.01) for _ in range(40)])
        if c.check(ends.shape == (40, 8), "jitter of a given signal answers", sc, None, ends.shape):
            z = (ends - np.arange(8) / 8) / .01
            c.check(np.all(np.abs(np.std(z, axis=0) - 1) < .7) and np.all(np.min(z, axis=0) < 0) and np.all(np.max(z, axis=0) > 0), "jitter displaces every instant both ways", sc, None, [z.min(axis=0), z.max(axis=0)])
        # drift: slow, additive, independent of the signal
        sd = r.randrange(1 << 30)
        res = []
        for sig, k in ((base, 1), (base, 1), (np.zeros(n), 1), (np.zeros(n), 3)):
            np.random.seed(sd)
            res.append(c.call(g.apply_drift, sig.copy(), drift_scale=k * s * 1e-2))
        if c.check(all(isinstance(q, np.ndarray) and q.shape == (n,) for q in res), "drift answers", sc, None, res):
            d = res[0] - base
            ds = np.diff(d)
            c.check(np.std(ds) < .2 * s * 1e-2 and np.std(d) > 3 * s * 1e-2, "drift is slow compared with a random walk of the same size", sc, None, [float(np.std(ds)), float(np.std(d))])
            if np.array_equal(res[0], res[1]):
                c.close(d, res[2], "drift does not depend on the signal", sc, rtol=1e-6, atol=1e-12)
                c.close(res[3], 3 * res[2], "drift is proportional to its scale", sc, rtol=1e-6, atol=1e-12)
        # zero strength is the identity
        for fn, kw in ((g.apply_thermal_noise, {"noise_rms": 0.0}), (g.apply_am_noise, {"strength": 0.0}), (g.apply_jitter, {"jitter_rms": 0.0}),
                       (g.apply_drift, {"drift_scale": 0.0}), (g.apply_glitch, {"glitch_prob": 0.0}), (g.apply_glitch, {"glitch_amplitude": 0.0}),
                       (g.apply_incomplete_sampling, {"tau_nom": 1e-6 / fs}), (g.apply_static_nonlinearity_hd, {})):
            c.close(c.call(fn, x, **kw), base, f"zero strength is the identity ({fn.__name__})", sc, rtol=1e-9, atol=1e-9)
        c.close(c.call(g.apply_incomplete_sampling, x, T_track=0.0, tau_nom=1e-9, coeff_k=.1), np.full(n, dc), "without time to settle the output stays at rest", sc, rtol=1e-9, atol=1e-12)
        # distortion is about the generator's offset, whatever the mean of the signal given
        xo = np.linspace(.1, .9, n)
        c.close(c.call(g.apply_static_nonlinearity, xo, k2=.5, k3=-.25), xo + .5 * (xo - dc) ** 2 - .25 * (xo - dc) ** 3, "distortion about the generator's offset", sc, rtol=1e-9, atol=1e-12)
        if k0 is not None:
            c.check(np.array_equal(k0, x), "the given array is not modified", sc)
        c.trace()

    g = Gen(8, 1.0, .1, .5, 0.0)
    for fn in (g.apply_ra_gain_error, g.apply_ra_gain_error_dynamic):
        y = c.call(fn, None, mode=r.choice(["", "both", "coarse", "RESIDUE_PATH"]))
        c.check(isinstance(y, Refused) and y.type == "ValueError", "unknown path refused", {}, "ValueError", y)

    # strengths that are not given have their documented values
    n = 64
    for fs, fin in ((1e9, .11e9), (2e6, .3e6)):
        g = Gen(n, fs, fin, .45, .5)
        for fn, kw in ((g.apply_thermal_noise, {"noise_rms": 50e-6}), (g.apply_quantization_noise, {"n_bits": 10, "quant_range": (0.0, 1.0)}),
                       (g.apply_jitter, {"jitter_rms": 2e-12}), (g.apply_static_nonlinearity, {"k2": 0, "k3": 0, "k4": 0, "k5": 0}),
                       (g.apply_memory_effect, {"memory_strength": .009}), (g.apply_incomplete_sampling, {"T_track": .2 / fs, "tau_nom": 40e-12, "coeff_k": .15}),
                       (g.apply_ra_gain_error, {"relative_gain": .99, "msb_bits": 4, "lsb_bits": 12, "mode": "coarse_path"}),
                       (g.apply_ra_gain_error_dynamic, {"relative_gain": 1, "coeff_3": .15, "msb_bits": 4, "lsb_bits": 12, "mode": "coarse_path"}),
                       (g.apply_reference_error, {"settling_tau": 2.0, "droop_strength": .01}), (g.apply_am_noise, {"strength": .01}),
                       (g.apply_am_tone, {"am_tone_freq": 500e3, "am_tone_depth": .05}), (g.apply_clipping, {"percentile_clip": 1.0}),
                       (g.apply_drift, {"drift_scale": 5e-5}), (g.apply_glitch, {"glitch_prob": .00015, "glitch_amplitude": .1}),
                       (g.apply_noise_shaping, {"n_bits": 10, "quant_range": (0.0, 1.0), "order": 1})):
            sd = r.randrange(1 << 30)
            res = []
            for k in ({}, kw):
                np.random.seed(sd)
                res.append(c.call(fn, None, **k))
            c.close(res[0], res[1], f"{fn.__name__}: strengths that are not given have their documented values", {"fs": fs}, rtol=1e-9, atol=1e-12)
            c.trace()
