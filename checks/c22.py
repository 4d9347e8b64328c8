"""C22: diagnostics of the digital output."""
import math

import numpy as np
from lib.vf import Refused

CFG = """SPECIFICATION Spec
CONSTANTS
 Mode = "{mode}"
 MaxRows = {rows}
INVARIANTS InRange EndsExact Adds Totals NoGap EmitDone
CHECK_DEADLOCK FALSE
"""


def run(c):
    from adctoolbox import analyze_bit_activity, analyze_enob_sweep, analyze_overflow, analyze_weight_radix, analyze_spectrum, calibrate_weight_sine
    from adctoolbox.dout import plot_residual_scatter
    import matplotlib.pyplot as plt
    r = c.rng
    npr = np.random.default_rng(2222 + c.seed)
    em = c.tlc("DoutDiag", CFG.format(mode="ex", rows=c.n(3, 4)), name="DoutDiag/small", exhaustive=True, workers=4)
    lim = c.n(1200, 8000)
    em = em if len(em) < lim else r.sample(em, lim)
    scen = []
    for i in range(c.n(120, 800)):
        m = r.choice([1, 2, 3, 5, 8, 12])
        kind = r.choice(["binary", "radix", "random", "negative", "gap", "zero"])
        w = {"binary": [1 << (m - 1 - k) for k in range(m)], "radix": [max(1, round(1.85 ** (m - 1 - k))) for k in range(m)],
             "random": [r.randint(1, 60) for _ in range(m)], "negative": [r.choice([-1, -1, 1, 1]) * r.randint(1, 40) for _ in range(m)],
             "gap": [r.randint(300, 500) for _ in range(m // 2)] + [r.randint(20, 50) for _ in range(m - m // 2)],
             "zero": [r.randint(1, 60) for _ in range(m)]}[kind]
        if any(sum(w[k:]) == 0 for k in range(m)):
            continue
        n = r.choice([1, 2, 7, 20, 60])
        p = r.choice([.5, .9, .1])
        rows = [[int(r.random() < p) for _ in range(m)] for _ in range(n)]
        if r.random() < .3:
            rows[r.randrange(n)] = [r.randint(0, 1)] * m
        scen.append({"id": i, "w": w, "rows": rows})
    em2 = c.tlc("DoutDiag", CFG.format(mode="file", rows=0), scen=scen, name="DoutDiag/random", workers=4)
    by = {s["id"]: s["rows"] for s in scen}

    def replay(e, rows, corrupt=0.0):
        bits = np.array(rows)
        n, m = bits.shape
        perm = npr.permutation(n)
        bits = bits[perm].astype(r.choice([int, np.int8, np.uint8, bool, float]))
        s = r.choice([1.0, 1.0, 1 / 1024, 64.0])
        w = np.array(e["w"]) if s == 1.0 and r.random() < .5 else np.array(e["w"]) * s
        sc = {"weights": e["w"], "scale": s, "rows": np.asarray(rows).tolist()[:8], "n": n, "type": str(bits.dtype)}
        b0, w0 = bits.copy(), w.copy()
        plot = r.random() < .02
        if plot:
            plt.figure()
        g = c.call(analyze_bit_activity, bits if r.random() < .8 else bits.tolist(), create_plot=plot)
        c.close(g, np.array(e["ones"]) / n * 100 + corrupt, "bit activity is the percentage of ones", sc, rtol=1e-9)
        fb = bits.astype(int) if bits.dtype == bool else bits
        g = c.call(analyze_overflow, fb, w, create_plot=plot, **({"ofb": r.randint(1, m)} if r.random() < .3 else {}))
        if c.check(isinstance(g, tuple) and len(g) == 4, "overflow report answers", sc, None, g):
            seg = np.array(e["seg"], float)
            c.close(g[0], np.array(e["lo"]) / seg + corrupt, "lowest normalised residue", sc, rtol=1e-9)
            c.close(g[1], np.array(e["hi"]) / seg, "highest normalised residue", sc, rtol=1e-9)
            c.close(g[2], np.array(e["zero"]) / n * 100, "share at or below the lower end", sc, rtol=1e-9)
            c.close(g[3], np.array(e["one"]) / n * 100, "share at or above the upper end", sc, rtol=1e-9)
        g = c.call(analyze_weight_radix, w if r.random() < .8 else w.tolist(), create_plot=plot)
        if c.check(isinstance(g, dict), "radix report answers", sc, None, g):
            a = np.abs(np.array(e["w"], float))
            c.close(g["radix"], np.concatenate([[np.nan], a[:-1] / a[1:]]) + corrupt, "radix is the ratio to the next weight", sc, rtol=1e-9)
            k = e["sig"]
            c.close(g["effres"], math.log2(e["sum"] / e["sorted"][k - 1] + 1), "effective resolution of the significant weights", sc, rtol=1e-9)
            sig = np.array(e["sorted"][:k]) * s
            err = lambda q: math.sqrt(np.mean((sig * q - np.round(sig * q)) ** 2))  # noqa: E731
            mx = round(sig[0] / sig[-1])
            lo_, hi_ = max(1, round(mx * .5)), max(1, round(mx * 1.5))
            best = min([err(1 / sig[-1])] + [err(q / sig[0]) for q in range(lo_ + 1, hi_)])
            c.check(err(g["wgtsca"]) <= best + 1e-9 and .3 / sig[0] < g["wgtsca"] <= 1.8 * max(mx, 1) / sig[0], "scale maps the significant weights to integers best", sc, best, g["wgtsca"])
        sig = npr.integers(-50, 50, n) * s
        pairs = None if r.random() < .4 else [(r.randint(0, m), r.randint(0, m)) for _ in range(r.randint(1, 5))]
        g = c.call(plot_residual_scatter, sig, bits, weights=w, pairs=pairs, create_plot=plot)
        plt.close("all")
        if c.check(isinstance(g, dict), "residual plot answers", sc, None, g):
            want = pairs or [(i, m) for i in range(m)]
            c.check([tuple(p) for p in g["pairs"]] == want, "pairs plotted", sc, want, g["pairs"])
            part = np.column_stack([np.zeros(n), np.array(e["part"])[perm].reshape(n, m)]) * s
            for (a, b), gx, gy in zip(want, g["residuals_x"], g["residuals_y"]):
                c.close(gx, sig - part[:, a] + corrupt, "residual is the signal minus the leading bits", sc, rtol=1e-9, atol=1e-9 * s)
                c.close(gy, sig - part[:, b], "residual is the signal minus the leading bits", sc, rtol=1e-9, atol=1e-9 * s)
            if e["w"] == [1 << (m - 1 - k) for k in range(m)]:
                h = c.call(plot_residual_scatter, sig / s, bits, create_plot=False)
                if c.check(isinstance(h, dict), "residual plot answers", sc, None, h):
                    c.close(h["residuals_y"][0], sig / s - part[:, m] / s, "binary weights by default", sc, rtol=1e-9, atol=1e-9)
        c.check(np.array_equal(bits, b0) and np.array_equal(w, w0), "inputs left as given", sc)
        c.trace({"weights": e["w"], "ones": e["ones"], "zero": e["zero"], "one": e["one"]})

    for e in em:
        replay(e, e["rows"])
    for e in em2:
        replay(e, by[e["id"]])
    c.selftest(lambda: [replay(e, by[e["id"]], .5) for e in em2[:6]])

    # a single bit may come as a plain record
    for _ in range(c.n(5, 30)):
        x = npr.integers(0, 2, r.choice([3, 20]))
        w = [r.choice([.5, 3.0])]
        g, h = c.call(analyze_overflow, x, w, create_plot=False), c.call(analyze_overflow, x[:, None], w, create_plot=False)
        if c.check(isinstance(g, tuple) and isinstance(h, tuple), "a plain record of one bit is answered", {"n": len(x)}, h, g):
            c.close(np.array(g), np.array(h), "a plain record of one bit is that bit", {"n": len(x)})
            c.close(g[3], [100 * np.mean(x)], "share at or above the upper end", {"n": len(x)}, rtol=1e-9)
        for f in (lambda: analyze_overflow(x[:, None], [1.0, 2.0], create_plot=False), lambda: analyze_overflow(np.column_stack([x, x]), [1.0], create_plot=False)):
            q = c.call(f)
            c.check(isinstance(q, Refused) and isinstance(q.exc, ValueError), "as many weights as bits", {}, "ValueError", q)
        c.trace()

    # long records: the counts keep their meaning whatever small type holds the bits
    for _ in range(c.n(4, 20)):
        n, m = r.choice([40000, 70000, 140000]), r.randint(1, 3)
        p = [r.choice([.02, .5, .97]) for _ in range(m)]
        bits = (npr.random((n, m)) < p).astype(r.choice([np.int8, np.uint8, np.int16, bool, int]))
        g = c.call(analyze_bit_activity, bits, create_plot=False)
        c.close(g, [100 * sum(col.tolist()) / n for col in bits.T], "bit activity of long records", {"n": n, "type": str(bits.dtype)}, rtol=1e-9)
        c.trace()

    # mismatched shapes are refused
    for _ in range(c.n(20, 100)):
        m = r.randint(2, 8)
        bits = npr.integers(0, 2, (20, m))
        g = c.call(analyze_overflow, bits, np.ones(m + r.choice([-1, 1])), create_plot=False)
        c.check(isinstance(g, Refused) and g.type == "ValueError", "weight count must match", {"m": m}, "ValueError", g)
        g = c.call(plot_residual_scatter, np.zeros(19), bits, create_plot=False)
        c.check(isinstance(g, Refused) and g.type == "ValueError", "signal length must match", {"m": m}, "ValueError", g)
        c.trace()

    # the sweep over bit counts uses the partial sums of the calibrated weights
    for _ in range(c.n(6, 40)):
        m, n = r.choice([5, 6, 8]), r.choice([512, 1000])
        cyc = r.choice([31, 37, 57, 101])
        v = .5 + .48 * np.sin(2 * np.pi * cyc * np.arange(n) / n + r.uniform(0, 6))
        w = np.array([2.0 ** (m - 1 - k) for k in range(m)]) * (1 + .02 * npr.standard_normal(m))
        bits = np.zeros((n, m), int)
        acc = np.zeros(n)
        for k in range(m):
            t = acc + w[k] / (w.sum() + w[-1])
            bits[:, k] = v >= t
            acc = np.where(bits[:, k], t, acc)
        kw = {"freq": cyc / n}
        ho = r.choice([1, 1, 3])
        osr, win = r.choice([1, 1, 1.5, 2]), r.choice([None, "hann", "hamming", "boxcar"])
        a = dict(kw, harmonic_order=ho, osr=osr)
        if win:
            a["win_type"] = win
        sc = {"bits": m, "n": n, "cycles": cyc, "args": str(a)}
        if osr > 1 and 4 * cyc > n:
            continue
        b0 = bits.copy()
        plot = r.random() < .3
        plt.figure()
        g = c.call(analyze_enob_sweep, bits, create_plot=plot, **a)
        plt.close("all")
        cal = c.call(calibrate_weight_sine, bits, harmonic_order=ho, **kw)
        if not c.check(isinstance(g, tuple) and isinstance(cal, dict), "sweep answers", sc, None, [g, cal]):
            continue
        c.check(np.array_equal(bits, b0), "bits left as given", sc)
        c.close(g[1], np.arange(1, m + 1), "bit counts", sc)
        want = []
        for k in range(1, m + 1):
            s = c.call(analyze_spectrum, bits[:, :k] @ np.asarray(cal["weight"])[:k], osr=osr, win_type=win or "hamming", create_plot=False)
            want.append(s["enob"] if isinstance(s, dict) else float("nan"))
        c.close(g[0], want, "resolution of the partial sums of the leading bits", sc, rtol=1e-6, atol=1e-6)
        c.trace()
