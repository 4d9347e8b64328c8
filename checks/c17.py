"""C17: ramp histogram DNL/INL."""
import itertools

import numpy as np
from lib.vf import Refused

CFG = """SPECIFICATION Spec
CONSTANTS
 Mode = "{mode}"
 Los = {los}
 Spans = {spans}
 MaxHits = {hits}
INVARIANTS Conserved ZeroSum EndsAtZero Step NeverBelow Uniform FitOrthogonal EmitDone
CHECK_DEADLOCK FALSE
"""


def run(c):
    from adctoolbox import analyze_inl_from_ramp
    from adctoolbox.aout import compute_inl_from_ramp
    import matplotlib.pyplot as plt
    r = c.rng
    em = c.tlc("RampInl", CFG.format(mode="ex", los="{0, 3}", spans=c.n("{0, 1, 2, 3}", "{0, 1, 2, 3, 4}"), hits=c.n(4, 6)), name="RampInl/small", exhaustive=True, workers=4)
    lim = c.n(2500, 20000)
    em = em if len(em) < lim else r.sample(em, lim)
    scen, flat = [], {}
    for i in range(c.n(150, 1200)):
        lo = r.choice([0, 0, 0, 1, 5, -8, -128, 250, 40000, 100000, -70000])
        span = r.choice([1, 2, 3, 7, 15, 15, 31, 63])
        n = r.randint(1, min(600, 12 * (span + 1)))
        kind = r.random()
        if kind < .15:      # ideal ramp, whole number of hits per code
            xs = [lo + k for k in range(span + 1) for _ in range(max(1, n // (span + 1)))]
        elif kind < .3:     # steps with missing and stuck codes
            codes = r.sample(range(lo, lo + span + 1), r.randint(1, span + 1))
            xs = [r.choice(codes) for _ in range(n)]
        else:
            xs = [min(lo + span, max(lo, int(lo + span * k / n + r.gauss(0, .7)))) for k in range(n)]
        if r.random() < .15 and span <= 15:      # long dwells: some codes hit tens of thousands of times, some hardly
            xs = [v for v in xs for _ in range(r.choice([1, 1, 1, 5000, 40000]))] if len(xs) < 12 else xs + [r.choice(xs)] * r.choice([4000, 70000])
        if r.random() < .1:
            xs[r.randrange(len(xs))] = r.choice([lo - 1, lo + span + 1])
        scen.append({"id": i, "lo": lo, "hi": lo + span, "open": r.random() < .3, "excl": r.random() < .6, "xs": [[v, len(list(w))] for v, w in itertools.groupby(xs)]})
        flat[i] = xs
    em2 = c.tlc("RampInl", CFG.format(mode="file", los="{0}", spans="{1}", hits=0), scen=scen, name="RampInl/random", workers=4)

    def fit(p):
        k = len(p["raw"])
        u = 2 * np.arange(1, k + 1) - (k + 1)
        raw = np.array(p["raw"], float)
        return (raw - p["sr"] / k - p["sur"] / p["suu"] * u) / p["S"]

    def replay(e, xs, corrupt=0.0):
        q, p = e["c"], e["r"]
        kw = {"exclude_endpoints": q["excl"]}
        if q["lo"] or r.random() < .5:
            kw["code_min"] = q["lo"]
        if not q["open"]:
            w = q["hi"] - q["lo"] + 1
            if w & (w - 1) == 0 and w > 1 and r.random() < .7:
                kw["num_bits"] = w.bit_length() - 1
            else:
                kw["code_max"] = q["hi"]
                if r.random() < .3:
                    kw["num_bits"] = r.randint(1, 12)
        elif q["lo"] < 0 and r.random() < .1:
            kw["num_bits"] = None
        xs = list(xs)
        r.shuffle(xs)
        rep = r.choice([1, 1, 2, 3])                        # repeating the record changes nothing
        forms = [lambda v: v, lambda v: np.array(v), lambda v: np.array(v, float), lambda v: np.array(v, np.int32), lambda v: np.array(v * 2).reshape(2, -1)]
        if -2 ** 15 <= min(xs) and max(xs) < 2 ** 15:
            forms.append(lambda v: np.array(v, np.int16))
        if 0 <= min(xs) and max(xs) < 2 ** 16:
            forms.append(lambda v: np.array(v, np.uint16))
        if min(xs) >= 0 and max(xs) < 256:
            forms.append(lambda v: np.array(v, np.uint8))
        x = r.choice(forms)(xs * rep)
        x0 = np.array(x).copy()
        sc = {"args": kw, "hits": e["hist"], "first": e["c"]["lo"] - 1, "form": str(getattr(x, "dtype", "list"))}
        fn = compute_inl_from_ramp if r.random() < .8 else (lambda v, **k: analyze_inl_from_ramp(v, create_plot=False, **k))
        if e["refuse"]:
            g = c.call(fn, x, **kw)
            c.check(isinstance(g, Refused) and g.type == "ValueError", "refused: codes outside the declared range or nothing to analyse", sc, "ValueError", g)
            c.trace()
            return
        modes = r.sample(["endpoints", "fit", "none"], 2)
        for m in modes:
            if m != "endpoints" or r.random() < .5:
                kw["endpoint"] = m
            else:
                kw.pop("endpoint", None)
            g = c.call(fn, x, **kw)
            if not c.check(isinstance(g, dict), "analysis answers", sc, None, g):
                return
            tot = np.asarray(x0).size // max(1, len(xs))
            cnt = np.array(p["cnt"])
            dnl = np.array(p["dnl"], float) / p["S"] + corrupt
            raw = np.array(p["raw"], float) / p["S"]
            inl = fit(p) if m == "fit" else raw
            c.close(g["code"], np.arange(p["first"], p["last"] + 1), "analysed codes", sc)
            c.close(g["counts"], cnt * tot, "hit counts", sc)
            c.close(g["dnl"], dnl, "DNL is hits over average hits minus one", sc, rtol=1e-10, atol=1e-10)
            c.close(g["transition_code"], np.arange(p["first"], p["last"] + 2), "one transition more than codes", sc)
            c.close(g["inl"], inl + corrupt, f"INL is the running sum of DNL ({m})", sc, rtol=1e-9, atol=1e-9)
            c.close(g["missing_codes"], p["missing"], "missing codes are those without hits", sc)
            c.close([g["dnl_min"], g["dnl_max"], g["dnl_pp"], g["inl_min"], g["inl_max"], g["inl_pp"]],
                    [dnl.min(), dnl.max(), np.ptp(dnl), inl.min(), inl.max(), np.ptp(inl)], "summary figures", sc, rtol=1e-9, atol=1e-9)
            c.close([g["code_min"], g["code_max"]], [q["lo"], p["top"]], "range reported", sc)
            c.close(g["ideal_count"], p["S"] * tot / len(cnt), "ideal count", sc)
        c.check(np.array_equal(np.array(x), x0), "codes left as given", sc)
        c.trace({"hist": e["hist"], "dnl": p["dnl"], "over": p["S"]})

    for e in em:
        xs = [e["c"]["lo"] - 1 + i for i, k in enumerate(e["hist"]) for _ in range(k)]
        replay(e, xs)
    for e in em2:
        replay(e, flat[e["id"]])
    c.selftest(lambda: [replay(e, flat[e["id"]], .01) for e in em2[:20]])

    # plotting does not alter the figures
    for e in em2[:c.n(6, 30)]:
        if e["refuse"] or e["r"]["last"] - e["r"]["first"] < 2:
            continue
        xs = flat[e["id"]]
        kw = {"code_min": e["c"]["lo"], "code_max": e["r"]["top"], "exclude_endpoints": e["c"]["excl"]}
        plt.figure()
        a = c.call(analyze_inl_from_ramp, xs, create_plot=True, **kw)
        plt.close("all")
        sc = {"plot": True, "args": kw}
        if c.check(isinstance(a, dict), "plotting analysis answers", sc, None, a):
            c.close(a["dnl"], np.array(e["r"]["dnl"]) / e["r"]["S"], "plotted DNL", sc)
            c.close(a["inl"], np.array(e["r"]["raw"]) / e["r"]["S"], "plotted INL", sc, rtol=1e-9, atol=1e-9)

    # malformed codes
    hows = ["frac", "nan", "inf", "empty", "bits0", "bitsneg", "bitsfrac", "swap", "mode", "negopen", "minfrac", "maxfrac", "input", "modetype"]
    fracs = [.5, .25, 1e-6, -1e-9, 3e-9, 1e-12]
    for i in range(c.n(90, 300)):
        xs = [r.randint(0, 15) for _ in range(r.randint(1, 40))]
        x = np.array(xs, float)
        how = hows[i % len(hows)]
        kw = {"num_bits": 4}
        if how == "frac":
            x[r.randrange(len(x))] += fracs[i // len(hows) % len(fracs)]
        elif how == "nan":
            x[r.randrange(len(x))] = np.nan
        elif how == "inf":
            x[r.randrange(len(x))] = r.choice([np.inf, -np.inf])
        elif how == "empty":
            x = np.array([])
        elif how == "bits0":
            kw = {"num_bits": 0}
            x = x if r.random() < .5 else x * 0
        elif how == "minfrac":
            kw = {"num_bits": 5, "code_min": -.5}
        elif how == "maxfrac":
            kw = {"code_max": 15.5}
        elif how == "modetype":
            kw = {"num_bits": 4, "endpoint": None}
        elif how == "input":
            kw = {"num_bits": 4, "input_type": r.choice(["voltage", "", "Codes"]), "create_plot": False}
        elif how == "bitsneg":
            kw = {"num_bits": -3}
        elif how == "bitsfrac":
            kw = {"num_bits": 4.5}
        elif how == "swap":
            kw = {"code_min": 5, "code_max": 4}
        elif how == "mode":
            kw = {"num_bits": 4, "endpoint": "bestfit"}
            x = np.arange(16.0)
        else:
            kw = {}
            x[r.randrange(len(x))] = -1
        g = c.call(analyze_inl_from_ramp if how == "input" else compute_inl_from_ramp, x, **kw)
        c.check(isinstance(g, Refused) and g.type == "ValueError", "malformed codes or range refused", {"how": how, "args": kw}, "ValueError", g)
        c.trace()
