"""C01: SAR conversion."""
import numpy as np
from lib.vf import Refused

CFG = """SPECIFICATION Spec
CONSTANTS
 Mode = "{mode}"
 MaxBits = {mb}
 MaxW = {mw}
 VNeg = {vn}
 VMax = {vm}
INVARIANTS DacIsSum NeverAbove Greedy IdealResidue SaturateLow SaturateHigh IdealFloor EmitDone
CHECK_DEADLOCK FALSE
"""


def run(c):
    from adctoolbox import sar_convert, sar_reconstruct, sar_ideal_weights, sar_apply_cap_mismatch
    from adctoolbox.models import sar_apply_mismatch

    def cfg(mode, mb=3, mw=4, vn=2, vm=10):
        return CFG.format(mode=mode, mb=mb, mw=mw, vn=vn, vm=vm)

    em = c.tlc("Sar", cfg("exhaustive", 4 if c.thorough else 3, 5, 2, 11), name="Sar/all weights", exhaustive=True)
    em += c.tlc("Sar", cfg("ideal"), name="Sar/all ideal", exhaustive=True)

    r = c.rng
    scen = []
    for _ in range(c.n(220, 2500)):
        kind = r.choice(["any", "ideal", "sub", "mis", "order", "big"])
        if kind == "ideal":
            n = r.randint(1, 14)
            red = r.choice([-1, r.randint(0, n - 1)])
            tot = 2 * (2 ** n + (2 ** (n - 1 - red) if red >= 0 else 0))
            vs = [r.choice([r.randint(-5, tot + 5), r.randint(0, tot), tot, tot - 1, 0, 1]) for _ in range(6)]
            scen += [{"kind": "ideal", "n": n, "r": red, "v": v} for v in vs]
            continue
        b = r.randint(1, 16)
        den = 1 << r.randint(6, 26)
        if kind == "any":
            w = [r.randint(0, den // 2) for _ in range(b)]
        elif kind == "big":         # not normalised: single weights beyond the range
            w = [r.randint(0, 3 * den) for _ in range(min(b, 8))]
        elif kind == "sub":
            radix, x, w = r.uniform(1.4, 2.1), den / 2, []
            for _ in range(b):
                w.append(int(x))
                x /= radix
        elif kind == "mis":
            w = [max(0, int(den / 2 ** (i + 1) * r.gauss(1, 0.1))) for i in range(b)]
        else:
            w = [r.randint(0, 1 << 6) * (den >> 6) // b for _ in range(b)]
        vs = []
        for _ in range(8):
            part = sum(x for x in w if r.random() < 0.5)
            vs.append(r.choice([r.randint(-den // 4, den + den // 4), part, part - 1, part + 1, sum(w), sum(w) - 1, -1, 0]))
        scen += [{"kind": "any", "w": w, "den": den, "v": v} for v in vs]
    em += c.tlc("Sar", cfg("file"), scen=scen, name="Sar/random")

    groups = {}
    for e in em:
        groups.setdefault((e["kind"], e["n"], e["r"], e["den"], tuple(e["w"])), []).append(e)

    rngs = [(0.0, 1.0), (-1.0, 1.0), (-0.5, 0.5), (2.0, 6.0), (-4.0, -3.5), [0, 2], (0.0, 0.125)]

    def replay(key, es, corrupt=False):
        kind, n, red, den, w = key
        W = np.array(w, dtype=float) / den
        sc = {"kind": kind, "n": n, "r": red, "w": list(w), "den": den}
        if kind == "ideal":
            got = c.call(sar_ideal_weights, n, redundant_bit=None if red < 0 else red)
            if not c.close(got, W, "ideal weights", sc, rtol=1e-14):
                return
            W = np.asarray(got)
            if red >= 0:  # ties are rounding-dependent when the denominator is not a power of two
                es = [e for e in es if e["v"] % 2]
        if not es:
            return
        lo, hi = r.choice(rngs)
        v = np.array([e["v"] / den for e in es]) * (hi - lo) + lo
        bits = np.array([e["bits"] for e in es])
        dac = np.array([e["dac"] / den for e in es])
        if corrupt:
            bits = bits.copy()
            bits[0, -1] ^= 1
        shape = r.choice([None, None, (1, len(es)), (len(es), 1), "scalar"])
        if shape == "scalar":
            i = r.randrange(len(es)) if not corrupt else 0
            v, bits, dac = v[i:i + 1], bits[i:i + 1], dac[i:i + 1]
            vin = r.choice([float(v[0]), v, [float(v[0])]])
        else:
            if shape:
                v, bits, dac = v.reshape(shape), bits.reshape(shape + (len(w),)), dac.reshape(shape)
            vin = r.choice([v, v.tolist(), np.asfortranarray(v)])
        keep = np.array(vin, dtype=float)
        wkeep = W.copy()
        codes = c.call(sar_convert, vin, W, quant_range=(lo, hi))
        sc = dict(sc, range=[lo, hi], vin=np.ravel(keep).tolist()[:8])
        if not c.check(not isinstance(codes, Refused) and codes.shape == bits.shape, "code shape", sc, bits.shape,
                       getattr(codes, "shape", codes)):
            return
        c.check(np.array_equal(codes, bits), "greedy bit decisions", sc, bits.tolist()[:3], codes.tolist()[:3])
        c.check(np.array_equal(np.array(vin, dtype=float), keep) and np.array_equal(W, wkeep), "arguments untouched", sc)
        rec = c.call(sar_reconstruct, codes, W, quant_range=(lo, hi))
        c.close(rec, dac * (hi - lo) + lo, "reconstruction", sc, rtol=1e-12, atol=1e-12)
        if lo == 0 and hi == 1:
            c.close(c.call(sar_reconstruct, codes, W), dac, "reconstruction default range", sc, rtol=1e-12)
            d = c.call(sar_convert, vin, W)
            c.check(not isinstance(d, Refused) and np.array_equal(d, bits), "default range is 0..1", sc)
        if r.random() < 0.1:
            z = c.call(sar_convert, vin, W, quant_range=(lo, hi), sampling_noise_rms=0.0, comparator_noise_rms=0.0,
                       rng=np.random.default_rng(1))
            c.check(not isinstance(z, Refused) and np.array_equal(z, bits), "zero noise is noiseless", sc)
        c.trace({"w": list(w)[:6], "den": den, "v": es[0]["v"], "bits": es[0]["bits"]})

    keys = list(groups)
    for k in keys:
        replay(k, groups[k])
    probe = [k for k in keys if k[2] < 0][:40]
    c.selftest(lambda: [replay(k, groups[k], corrupt=True) for k in probe], "code bits")

    # An input short of a threshold by a hair is below it (weights and ranges in powers of two are exact).
    for _ in range(c.n(60, 400)):
        b = r.randint(1, 12)
        w = [2.0 ** -(i + 1) for i in range(b)]
        lo, hi = r.choice([(0.0, 1.0), (0.0, 2.0), (0.0, .5)])
        k = r.randint(1, 2 ** b - 1)
        hair = 2.0 ** -r.choice([44, 48, 50])
        v = np.array([k / 2 ** b - hair, k / 2 ** b, k / 2 ** b + hair]) * (hi - lo) + lo
        want = [[q >> (b - 1 - i) & 1 for i in range(b)] for q in (k - 1, k, k)]
        g = c.call(sar_convert, v, np.array(w), quant_range=(lo, hi))
        sc = {"bits": b, "code": k, "hair": hair, "range": [lo, hi]}
        c.check(not isinstance(g, Refused) and np.array_equal(g, want), "a threshold is where it is", sc, want, g)
        c.trace()

    # Monotone and batch-independent on a dense sweep (real inputs, not grid points).
    for _ in range(c.n(12, 60)):
        n = r.randint(2, 10)
        W = sar_ideal_weights(n, r.choice([None, r.randint(0, n - 1)]))
        g = np.random.default_rng(r.randrange(2 ** 31))
        v = np.sort(g.uniform(-0.1, 1.1, 400))
        codes = c.call(sar_convert, v.reshape(20, 20), W)
        sc = {"sweep": n, "W": W.tolist()}
        if not c.check(not isinstance(codes, Refused), "sweep converts", sc, None, codes):
            continue
        rec = sar_reconstruct(codes, W).ravel()
        inr = (v >= 0) & (v < 1)
        lsb = W[-1]
        c.check(np.all(np.diff(rec) >= -1e-12), "monotone", sc)
        c.check(np.all(rec[inr] <= v[inr] + 1e-12) and np.all(v[inr] - rec[inr] < lsb + 1e-12), "within one LSB below", sc)
        c.check(np.all(codes.reshape(400, -1)[v < 0] == 0), "saturates low", sc)
        c.check(np.all(codes.reshape(400, -1)[v >= 1] == 1), "saturates high", sc)
        c.trace()

    # Noise and mismatch semantics (statistical, > 8 sigma margins).
    seed = r.randrange(2 ** 31)
    wred = np.array([32, 18, 18, 9, 9, 4, 4, 2, 1, 1]) / 128.0
    for lo, hi in ((0.0, 1.0), (-2.0, 2.0), (.25, .5)):
        span = hi - lo
        sc = {"noise": True, "range": [lo, hi], "seed": seed}
        x = np.full(20000, lo + 0.4 * span)
        a = c.call(sar_convert, x, wred, quant_range=(lo, hi), sampling_noise_rms=0.05 * span, rng=np.random.default_rng(seed))
        b = c.call(sar_convert, x, wred, quant_range=(lo, hi), sampling_noise_rms=0.05 * span, rng=np.random.default_rng(seed))
        if c.check(not isinstance(a, Refused) and not isinstance(b, Refused), "noisy conversion", sc, None, a):
            c.check(np.array_equal(a, b), "equal seeds, equal codes", sc)
            back = sar_convert(sar_reconstruct(a, wred, (lo, hi)), wred, (lo, hi))
            c.check(np.array_equal(back, a), "sampling noise is one displacement per sample", sc)
            rec = sar_reconstruct(a, wred, (lo, hi))
            c.check(abs(np.std(rec) / (0.05 * span) - 1) < 0.08, "sampling noise RMS in input units", sc, 0.05 * span, np.std(rec))
            c.check(len(np.unique(rec)) > 5, "noise differs between samples", sc)
        # every element of an array is a sample of its own
        for nm in ("sampling_noise_rms", "comparator_noise_rms"):
            for shape in ((40, 50), (2, 30, 20)):
                y = c.call(sar_convert, np.full(shape, lo + .4 * span), wred, quant_range=(lo, hi), rng=np.random.default_rng(seed + 5), **{nm: .05 * span})
                if c.check(not isinstance(y, Refused), "noisy conversion of an array", sc, None, y):
                    z = np.asarray(sar_reconstruct(y, wred, (lo, hi))).reshape(shape[0], -1)
                    for u in (z, np.asarray(sar_reconstruct(y, wred, (lo, hi))).reshape(-1, shape[-1]).T):
                        c.check(np.std(u.mean(axis=0)) < (.15 + len(u) ** -.5) * np.std(u) and not np.array_equal(u[0], u[1]), "noise of different samples is independent", dict(sc, shape=shape, kind=nm))
        w1 = np.array([0.5, 0.5])
        m = c.call(sar_convert, x * 0 + lo + 0.4 * span, w1, quant_range=(lo, hi), comparator_noise_rms=0.1 * span,
                   rng=np.random.default_rng(seed + 1))
        if c.check(not isinstance(m, Refused), "comparator noise", sc, None, m):
            p1 = m[:, 0].mean()
            p2 = m[m[:, 0] == 0][:, 1].mean()
            c.check(abs(p1 - 0.158655) < 0.025, "comparator noise RMS in input units", sc, 0.158655, p1)
            c.check(abs(p2 - 0.158655) < 0.03, "comparator noise fresh per decision", sc, 0.158655, p2)
        both = c.call(sar_convert, x, wred, quant_range=(lo, hi), comparator_noise_rms=0.05 * span, rng=np.random.default_rng(seed))
        if c.check(not isinstance(both, Refused), "comparator noise (redundant)", sc, None, both):
            back = sar_convert(sar_reconstruct(both, wred, (lo, hi)), wred, (lo, hi))
            c.check(not np.array_equal(back, both), "comparator noise is not a common displacement", sc)
        c.trace()
    for units, w in ((None, np.array([8, 4, 2, 1]) / 16), ([16, 1, 9, 25], np.array([8, 4, 2, 1]) / 16), (None, np.array([12, 3, 3, 1, .5]) / 30)):
        sc = {"mismatch": w.tolist(), "units": units}
        u = np.array(units, float) if units else w / w.min()
        g = np.random.default_rng(seed)
        ch = []
        for _ in range(3000):
            y = c.call(sar_apply_cap_mismatch, w, 0.02, g, units) if units else c.call(sar_apply_cap_mismatch, w, 0.02, rng=g)
            if isinstance(y, Refused):
                c.fail("mismatch call", sc, None, y)
                break
            ch.append(y)
        else:
            s = np.std(np.array(ch) / w - 1, axis=0)
            c.check(np.all(np.abs(s / (0.02 / np.sqrt(u)) - 1) < 0.15), "mismatch ~ 1/sqrt(units)", sc, (0.02 / np.sqrt(u)).tolist(), s.tolist())
            mu = np.mean(np.array(ch) / w, axis=0)
            c.check(np.all(np.abs(mu - 1) < 0.02 * 0.2), "mismatch centred", sc, 1, mu.tolist())
        z = c.call(sar_apply_cap_mismatch, w, 0.0, np.random.default_rng(3), units)
        c.close(z, w, "zero mismatch is identity", sc, rtol=1e-15)
        c.close(c.call(sar_apply_mismatch, w, 0.0), w, "zero legacy mismatch is identity", sc, rtol=1e-15)
        p = c.call(sar_apply_cap_mismatch, w, 0.1, np.random.default_rng(9), units)
        q = c.call(sar_apply_cap_mismatch, w, 0.1, np.random.default_rng(9), units)
        c.close(p, q, "equal seeds, equal chips", sc, rtol=0, atol=0)
        for ww in (w, np.array([5.3, 2.6, 1.4, 1.0]) * .09):
            e = [c.call(sar_apply_cap_mismatch, ww, .1, np.random.default_rng(11), k) for k in (None, ww / ww.min())]
            c.close(e[0], e[1], "sizes not given are the weights over the smallest", sc, rtol=1e-12)
            e = c.call(sar_apply_cap_mismatch, ww, .1, np.random.default_rng(11), 4 * ww / ww.min())
            c.close((np.asarray(e) / ww - 1) * 2, np.asarray(c.call(sar_apply_cap_mismatch, ww, .1, np.random.default_rng(11))) / ww - 1, "four times the size, half the mismatch", sc, rtol=1e-9, atol=1e-12)
        c.trace()
    for bad in ((1.0, 1.0), (1.0, 0.0), (0.0, float("nan")), (0.0, float("inf")), (0.0, 1.0, 2.0)):
        x = c.call(sar_convert, np.array([0.3]), np.array([0.5]), quant_range=bad)
        c.check(isinstance(x, Refused), "invalid range refused", {"range": list(bad)}, "error", x)
        x = c.call(sar_reconstruct, np.array([[1]]), np.array([0.5]), quant_range=bad)
        c.check(isinstance(x, Refused), "invalid range refused (reconstruct)", {"range": list(bad)}, "error", x)
    c.trace()
    w4 = np.array([8, 4, 2, 1]) / 16
    nan, inf = float("nan"), float("inf")
    for what, a, kw in [
            ("weights", [[.5, .25], [.25, .1]], {}), ("weights", [], {}), ("weights", [.5, nan, .1], {}), ("weights", [.5, inf, .1], {}),
            ("weights", [.5, .25, 0.0], {}), ("weights", [.5, -.25, .1], {}), ("sigma", w4, {"sigma": -.1}), ("sigma", w4, {"sigma": nan}),
            ("sigma", w4, {"sigma": inf}), ("units", w4, {"cap_units": [8, 4, 2]}), ("units", w4, {"cap_units": [8, 4, 2, 0]}),
            ("units", w4, {"cap_units": [8, 4, -2, 1]}), ("units", w4, {"cap_units": [8, nan, 2, 1]}), ("units", w4, {"cap_units": [inf, 4, 2, 1]}),
            ("units", w4, {"cap_units": 3})]:
        x = c.call(sar_apply_cap_mismatch, np.array(a, float), **dict({"sigma": .01, "rng": np.random.default_rng(1)}, **kw))
        c.check(isinstance(x, Refused) and x.type == "ValueError", f"meaningless mismatch refused ({what})", {"weights": np.array(a).tolist(), **{k: str(v) for k, v in kw.items()}}, "ValueError", x)
    g = np.random.default_rng(seed)
    ch = [c.call(sar_apply_mismatch, w4, .02, g) for _ in range(3000)]
    if c.check(not any(isinstance(y, Refused) for y in ch), "per-weight mismatch answers", {}):
        rel = np.array(ch) / w4 - 1
        c.check(np.all(np.abs(np.std(rel, axis=0) / .02 - 1) < .15) and np.all(np.abs(rel.mean(axis=0)) < .004), "per-weight mismatch has the stated spread in every bit", {}, .02, np.std(rel, axis=0).tolist())
        c.check(np.max(np.abs(np.corrcoef(rel.T) - np.eye(4))) < .2, "mismatch is independent between bits", {})
    c.trace()
