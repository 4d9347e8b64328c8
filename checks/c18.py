"""C18: sine histogram DNL/INL."""
import math

import numpy as np

CFG = """SPECIFICATION Spec
CONSTANTS
 Mode = "{mode}"
 Los = {los}
 Spans = {spans}
 MaxHits = {hits}
 Clips = {clips}
INVARIANTS Conserved Monotone Mirror Inside EmitDone
CHECK_DEADLOCK FALSE
"""


def run(c):
    from adctoolbox import analyze_inl_from_sine
    from adctoolbox.aout import compute_inl_from_sine
    import matplotlib.pyplot as plt
    r = c.rng
    em = c.tlc("SineInl", CFG.format(mode="ex", los="{0, 2}", spans=c.n("{2, 3, 4}", "{2, 3, 4, 5}"), hits=c.n(5, 6), clips="{0, 10, 300}"),
               name="SineInl/small", exhaustive=True, workers=4)
    lim = c.n(2000, 15000)
    em = em if len(em) < lim else r.sample(em, lim)
    scen, volts = [], {}

    def sine(n, amp, off, cyc, ph):
        return [off + amp * math.sin(2 * math.pi * cyc * k / n + ph) for k in range(n)]

    for i in range(c.n(110, 900)):
        bits = r.choice([3, 4, 5, 6, 7])
        full = 1 << bits
        n = r.choice([64, 101, 256, 500, 1000])
        kind = r.choice(["codes", "unipolar", "bipolar", "fs"])
        s = sine(n, r.uniform(.1 if kind == "bipolar" else .3, .6), .5 + r.uniform(-.05, .05), r.choice([3, 7, 11, 17.3, 23]), r.uniform(0, 6))
        if r.random() < .3:
            s = [v + r.gauss(0, .01) for v in s]
        s = [min(1.2, max(-.2, v)) for v in s]
        # keep voltages away from rounding ties and from the voltage/code heuristics
        s = [v if abs((v * full) % 1 - .5) > 1e-3 else v + 2e-3 / full for v in s]
        if kind in ("unipolar", "bipolar"):
            s = [max(-.09 if kind == "unipolar" else 0.0, min(1.0, v)) for v in s]        # a little below zero is still unipolar
        raw = [round(v * full) for v in s]
        if kind == "codes":
            lo = r.choice([0, 0, 100, -30, -full // 2])
            xs = [q + lo for q in raw]
            if max(xs) - min(xs) < 4:
                continue
        else:
            xs = [min(full - 1, max(0, q)) for q in raw]
            fsv = r.choice([1.0, 1.2, .8]) if kind == "fs" else None
            v = np.array(s)
            v = v * fsv if kind == "fs" else (2 * v - 1 if kind == "bipolar" else v)
            if 1.999 < np.ptp(v) != 2 or (kind == "bipolar" and v.min() > -.11):
                continue
            volts[i] = (v, {"num_bits": bits} | ({"full_scale": fsv} if fsv else {}))
        scen.append({"id": i, "lo": min(xs), "hi": max(xs), "clip": r.choice([0, 1, 10, 10, 20, 50, 100]), "xs": xs})
    em2 = c.tlc("SineInl", CFG.format(mode="file", los="{0}", spans="{1}", hits=0, clips="{0}"), scen=scen, name="SineInl/random", workers=4)
    by = {s["id"]: s for s in scen}

    def expect(e):
        lev = -np.cos(np.pi * np.array(e["cum"]) / e["n"])
        w = np.diff(lev[:-1])
        if len(w) == 0 or w.sum() <= 1e-9:
            return None
        d = w / w.sum() * e["k"] - 1
        d = np.maximum(d - d.mean(), -1)
        return d, np.cumsum(d), np.arange(e["first"], e["first"] + e["k"] - 2)

    def replay(e, x, kw, corrupt=0.0):
        ex = None if e["tie"] else expect(e)
        if ex is None:
            return
        d, i, codes = ex
        if r.random() < .3 and e["c"]["clip"] == 10:
            kw = dict(kw)
        else:
            kw = dict(kw, clip_percent=e["c"]["clip"] / 1000)
        sc = {"args": kw, "hits": e["hist"], "first": e["c"]["lo"], "n": e["n"], "form": str(np.asarray(x).dtype)}
        x0 = np.array(x).copy()
        if r.random() < .7:
            g = c.call(compute_inl_from_sine, x, **kw)
            g = g if not isinstance(g, tuple) else dict(zip(("inl", "dnl", "code"), g))
        else:
            g = c.call(analyze_inl_from_sine, x, create_plot=False, **kw)
        if not c.check(isinstance(g, dict), "analysis answers", sc, None, g):
            return
        c.close(g["code"], codes, "codes inside the clipped range are reported", sc)
        c.close(g["dnl"], d + corrupt, "DNL follows the linearised code density", sc, rtol=1e-8, atol=1e-8)
        c.close(g["inl"], i, "INL is the running sum of DNL", sc, rtol=1e-8, atol=1e-7)
        c.check(np.array_equal(np.array(x), x0), "data left as given", sc)
        c.trace({"hist": e["hist"][:12], "dnl": [float(v) for v in d[:6]]})

    def form(xs, e):
        xs = list(xs)
        r.shuffle(xs)
        xs = xs * r.choice([1, 1, 2, 3])
        f = [lambda v: v, lambda v: np.array(v), lambda v: np.array(v, np.int32), lambda v: np.array(v).reshape(1, -1), lambda v: np.array(v, np.int16)]
        if max(xs) - min(xs) > 2:
            f += [lambda v: np.array(v, float), lambda v: np.array(v, np.float32)]
        if min(xs) >= 0:
            f.append(lambda v: np.array(v, np.uint16))
        return r.choice(f)(xs)

    for e in em:
        xs = [e["c"]["lo"] + i for i, k in enumerate(e["hist"]) for _ in range(k)]
        replay(e, form(xs, e), {} if r.random() < .7 else {"num_bits": r.randint(2, 12)})
    for e in em2:
        if e["id"] in volts:
            v, kw = volts[e["id"]]
            v = v.copy()
            np.random.default_rng(e["id"]).shuffle(v)
            replay(e, v if r.random() < .7 else np.concatenate([v, v]), kw)
        else:
            replay(e, form(by[e["id"]]["xs"], e), {} if r.random() < .7 else {"num_bits": r.randint(2, 12)})
            sh = r.choice([-1000, 7, 12345])             # a code offset only moves the code axis
            e2 = dict(e, first=e["first"] + sh)
            replay(e2, np.array(by[e["id"]]["xs"]) + sh, {})
    c.selftest(lambda: [replay(e, by[e["id"]]["xs"], {}, .01) for e in em2[:30] if e["id"] not in volts])

    # plant: known code widths under a densely sampled sine
    for t in range(c.n(25, 150)):
        k = r.choice([16, 32, 64, 100])
        w = [4] * k
        how = r.choice(["ideal", "wide", "narrow", "missing", "random"])
        at = r.randint(k // 4, 3 * k // 4)
        if how != "ideal" and how != "random":
            w[at] = {"wide": 8, "narrow": 2, "missing": 0}[how]
        elif how == "random":
            w = [r.randint(2, 6) for _ in range(k)]
        edges = np.cumsum([0] + w) / sum(w) * 2 - 1
        n = 40000 if how != "missing" else 40000
        th = np.pi * (np.arange(n) + .5) / n
        x = np.searchsorted(edges[1:-1], -np.cos(th), side="right")
        x = np.random.default_rng(t).permutation(x)
        clip = r.choice([0, .01, .05])
        sc = {"widths": w, "how": how, "clip": clip}
        g = c.call(analyze_inl_from_sine, x, clip_percent=clip, create_plot=False)
        if not c.check(isinstance(g, dict), "analysis answers", sc, None, g):
            continue
        ex = round(clip * (k - 1))
        true = np.array(w[ex + 1:k - ex - 1], float)      # listed under the transition below the code
        true = true / true.mean() - 1
        gd = np.asarray(g["dnl"])
        if c.check(gd.shape == true.shape, "one entry per analysed code", sc, true.shape, gd.shape):
            m = len(true)
            tol = 3.5 * np.pi / n * k + (2.0 / m + .002) * np.abs(true)
            if how != "missing":
                c.check(np.all(np.abs(gd - true) <= tol), "DNL has the true size at the true code", sc, true.tolist(), gd.tolist())
            else:
                c.check(gd[at - ex - 1] <= -1 + 1e-9, "a missing code reads minus one", sc, -1, gd.tolist())
                c.check(np.sum(gd < -.5) == 1, "only the missing code is missing", sc, 1, gd.tolist())
            if how == "ideal":
                c.check(np.max(np.abs(g["inl"])) < .1 and np.max(np.abs(gd)) < .05, "an ideal converter shows no error", sc, 0, np.max(np.abs(g["inl"])))
        c.trace()
    # voltages of no stated resolution are taken to ten bits; a range clipped away altogether leaves nothing; few scattered codes
    for t in range(c.n(12, 60)):
        n = r.choice([300, 1000])
        v = .5 + r.uniform(.3, .49) * np.sin(2 * np.pi * r.choice([7, 23]) * np.arange(n) / n + r.uniform(0, 6))
        v = v if r.random() < .5 else 2 * v - 1
        kw = r.choice([{}, {"full_scale": 1.3}, {"clip_percent": .04}])
        a, b = c.call(compute_inl_from_sine, v, **kw), c.call(compute_inl_from_sine, v, num_bits=10, **kw)
        if c.check(isinstance(a, tuple) and isinstance(b, tuple), "analysis answers", kw, b, a):
            c.check(all(np.array_equal(p, q) for p, q in zip(a, b)), "ten bits unless told otherwise", kw, None, None)
        lo = r.choice([0, 50])
        x = np.array([lo + r.randint(0, 40) for _ in range(200)] + [lo, lo + 40])
        cp = r.choice([.5, .6, .9, 1.0])
        g = c.call(compute_inl_from_sine, x, clip_percent=cp)
        if c.check(isinstance(g, tuple), "a range clipped away is answered", {"clip": cp}, None, g):
            c.check(all(np.size(q) == 0 for q in g), "a range clipped away leaves no codes", {"clip": cp}, 0, [np.size(q) for q in g])
        span = r.choice([500, 900])
        at = sorted(r.sample(range(1, span), r.choice([3, 5])))
        x = np.array([0] * 5 + [q for q in at for _ in range(r.randint(5, 30))] + [span] * 5)
        g = c.call(compute_inl_from_sine, x, clip_percent=0)
        cnt = np.bincount(x, minlength=span + 1)
        lev = -np.cos(np.pi * np.cumsum(cnt) / len(x))
        w = np.diff(lev[:-1])
        d = w / w.sum() * (span + 1) - 1
        d = np.maximum(d - d.mean(), -1)
        if c.check(isinstance(g, tuple), "analysis answers", {"codes": at}, None, g):
            c.close(g[1], d, "a few scattered codes carry all of the width", {"codes": at, "span": span}, rtol=1e-8, atol=1e-8)
            c.close(g[0], np.cumsum(d), "INL is the running sum of DNL", {"codes": at, "span": span}, rtol=1e-8, atol=1e-6)
        c.trace()
    # plotting does not alter the figures
    for e in em2[:c.n(6, 30)]:
        x = by[e["id"]]["xs"]
        a = c.call(analyze_inl_from_sine, x, create_plot=False)
        plt.figure()
        b = c.call(analyze_inl_from_sine, x, create_plot=True)
        plt.close("all")
        if isinstance(a, dict) and expect(e) is not None:
            c.check(isinstance(b, dict) and all(np.allclose(a[q], b[q], equal_nan=True) for q in ("inl", "dnl", "code")), "plotting leaves the figures alone", {"id": e["id"]}, None, b)
