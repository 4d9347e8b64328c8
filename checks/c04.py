"""C04: extraction and foreground correction of interleaving mismatch."""
import numpy as np
from lib.vf import Refused, frac

CFG = """SPECIFICATION Spec
CONSTANTS
 Mode = "{mode}"
 NS = {ns}
 MS = {ms}
 GVals = {{8, 11}}
 OVals = {{0, 3}}
 PVals = {{0, 1}}
INVARIANTS OffsetsSeparate PhasorsSeparate ChannelPure Restored EmitDone
CHECK_DEADLOCK FALSE
"""


def synth(e, ideal=False):
    n = np.arange(e["N"])
    m = n % e["M"]
    g, o, p = (np.array(e[k], float) for k in "gop")
    if ideal:
        return e["A"] * np.cos(2 * np.pi * (e["phi"] + e["b"] * n) / e["N"])
    return o[m] + e["A"] * g[m] * np.cos(2 * np.pi * (e["phi"] + p[m] + e["b"] * n) / e["N"])


def walk(r, m, step):
    """Timing errors that wander, neighbours staying within `step`."""
    p = [r.randint(-step, step)]
    lean = r.choice([-step, 0, 0, step])
    while len(p) < m:
        p.append(p[-1] + (r.randint(min(0, lean), max(0, lean)) if lean else r.randint(-step, step)))
    return p


def run(c):
    from adctoolbox import calibrate_foreground, extract_mismatch_sine
    r = c.rng
    em = c.tlc("TiMismatch", CFG.format(mode="ex", ns="{8, 12, 16, 20}" if c.thorough else "{8, 12}", ms="{1, 2}"), name="TiMismatch/M12",
               exhaustive=True, workers=2)
    em += c.tlc("TiMismatch", CFG.format(mode="ex", ns="{12, 15}" if c.thorough else "{12}", ms="{3}"), name="TiMismatch/M3",
                exhaustive=True, workers=4)
    scen = []
    while len(scen) < c.n(150, 1200):
        m = r.choice([1, 2, 2, 3, 4, 4, 5, 7, 8, 16])
        n = m * r.choice([8, 16, 31, 32, 60, 64, 128, 256])
        b = r.randint(1, n // 2) if r.random() < .5 else r.randint(1, max(1, n // (2 * m) - 1))
        if r.random() < .1:
            b += n * r.randint(1, 2)            # undersampled input, above the aggregate rate
        if (b * m) % n == 0 or (2 * b * m) % n == 0:
            continue
        # neighbouring channels differ by less than half a turn of the tone
        pmax = max(1, n // r.choice([8, 16, 64, 400]))
        z = r.random()
        scen.append({"N": n, "M": m, "b": b, "A": r.choice([1, 3, 100]), "phi": r.randint(0, n - 1),
                     "g": [10] * m if z < .15 else [r.randint(7, 14) for _ in range(m)],
                     "o": [0] * m if z < .15 or .3 < z < .4 else [r.randint(-40, 40) for _ in range(m)],
                     "p": [0] * m if z < .25 else [r.randint(-pmax, pmax) for _ in range(m)] if z < .7 else walk(r, m, n * r.choice([1, 3, 9]) // 20)})
    em += c.tlc("TiMismatch", CFG.format(mode="file", ns="{8}", ms="{1}"), scen=scen, name="TiMismatch/random")

    def one(e, corrupt=False):
        n, m, b = e["N"], e["M"], e["b"]
        fs = r.choice([1.0, 1e9, 2.4e9, 500.0, 1.12e11])
        fin = b * fs / n
        x = synth(e)
        sc = {k: e[k] for k in ("N", "M", "b", "A", "phi", "g", "o", "p")}
        sc["fs"] = fs
        x0 = x.copy()
        got = c.call(extract_mismatch_sine, x if r.random() < .7 else x.tolist(), m, fs, fin)
        c.check(np.array_equal(x, x0), "record left as given", sc)
        if not c.check(isinstance(got, dict), "extraction answers", sc, "params", got):
            return
        s = e["A"] * 10
        gain = np.array([frac(q) for q in e["gain"]])
        turns = np.array([frac(q) for q in e["skew"]])
        if corrupt:
            turns = turns + 1e-3
            gain = gain * 1.001
        c.close(got["offset"], e["o"], "per-channel offsets", sc, rtol=1e-9, atol=1e-9 * s)
        c.close(got["gain"], gain, "per-channel gains relative to their mean", sc, rtol=1e-8)
        c.close(np.asarray(got["skew"]) * fin, turns, "per-channel skews relative to their mean", sc, rtol=0, atol=1e-9)
        c.close(got["A"], frac(e["amp"]), "mean amplitude", sc, rtol=1e-8)
        c.close(got["fin"], fin, "frequency used", sc, rtol=1e-12)
        # --- correction with the extracted parameters restores the waveform
        tot = float(np.mean(e["p"]))
        k = np.arange(n)
        ideal = frac(e["amp"]) * np.cos(2 * np.pi * (e["phi"] + tot + b * k) / n)
        if e["below"] and abs(tot) < n:
            y = c.call(calibrate_foreground, x, m, got, fs, **({} if r.random() < .5 else {"skew_method": "fft"}))
            if corrupt:
                ideal = ideal * 1.001
            c.close(y, ideal, "correction restores the mismatch-free waveform", sc, rtol=0, atol=1e-7 * s)
            if 32 * b <= n // m and np.max(np.abs(turns)) / b * n / m < 0.4:
                y = c.call(calibrate_foreground, x, m, got, fs, skew_method="farrow", n_taps=9)
                edge = 10 * m
                if n > 3 * edge and not isinstance(y, Refused):
                    c.close(np.asarray(y)[edge:-edge], ideal[edge:-edge], "tap-based correction restores the interior", sc, rtol=0, atol=1e-4 * s)
                    c.check(np.shape(y) == (n,), "length kept", sc)
                elif isinstance(y, Refused):
                    c.fail("tap-based correction answers", sc, ideal, y)
        # --- zero parameters are the identity; offset and gain are undone exactly on any record
        zero = {"offset": [0.0] * m, "gain": [1.0] * m, "skew": [0.0] * m}
        meth = r.choice(["fft", "farrow"])
        c.close(c.call(calibrate_foreground, x, m, zero, fs, skew_method=meth), x, "no mismatch is the identity", sc, rtol=1e-12, atol=1e-12 * s)
        rec = np.array([float(r.randint(-50, 50)) for _ in range(n)])
        unit = r.choice([8, 8, 60, 1.5, -8])
        par = {"offset": np.array(e["o"], float), "gain": np.array(e["g"], float) / unit, "skew": np.zeros(m)}
        c.close(c.call(calibrate_foreground, rec, m, par, fs, skew_method=meth),
                [(rec[i] - e["o"][i % m]) / (e["g"][i % m] / unit) for i in range(n)], "offset subtracted, then gain divided, channel by channel", sc)
        # --- whole-sample skews move channel records by whole samples (later for positive skew)
        kk = n // m
        d = [r.randint(-3, 3) for _ in range(m)]
        par = dict(par, skew=np.array(d) * m / fs)
        y = c.call(calibrate_foreground, rec, m, par, fs, skew_method=meth)
        exp = np.zeros(n)
        for i in range(n):
            ch, q = i % m, i // m - d[i % m]
            if meth == "farrow" and not 0 <= q < kk:
                continue
            exp[i] = (rec[(q % kk) * m + ch] - e["o"][ch]) / (e["g"][ch] / unit)
        c.close(y, exp, "channel m is delayed by its skew", dict(sc, delays=d, method=meth), rtol=0, atol=1e-8 * 100)
        c.trace({"N": n, "M": m, "b": b, "gain": gain[:4].tolist()})

    for e in em:
        one(e)
    c.selftest(lambda: [one(e, True) for e in em[:20]])

    # small skews count at every sampling rate
    for _ in range(c.n(30, 200)):
        m, kk = r.choice([2, 3, 4, 8]), r.choice([32, 61, 128])
        n = m * kk
        fs = r.choice([1.0, 1e6, 2e9, 1.12e11])
        b = r.randint(1, (kk - 1) // 2)
        fin, ph = b * fs / n, r.uniform(0, 6)
        skew = np.array([r.choice([0, r.uniform(-1, 1) * r.choice([.3, 1e-2, 1e-3, 1e-4])]) for _ in range(m)]) / fs
        t = np.arange(n) / fs
        x = np.cos(2 * np.pi * fin * (t + np.tile(skew, kk)) + ph)
        y = c.call(calibrate_foreground, x, m, {"offset": np.zeros(m), "gain": np.ones(m), "skew": skew}, fs)
        c.close(y, np.cos(2 * np.pi * fin * t + ph), "every skew is taken out, however small", {"M": m, "N": n, "fs": fs, "b": b, "skew": skew.tolist()}, rtol=0, atol=1e-9)
        c.trace()

    # estimated input frequency: a mismatch-free record shows none
    for e in [x for x in em if len(set(x["g"])) == 1 and not any(x["o"]) and not any(x["p"]) and x["N"] >= 64 and x["b"] < x["N"] / 2 - 2 and x["b"] > 2][:40]:
        fs = 1e3
        got = c.call(extract_mismatch_sine, synth(e), e["M"], fs)
        sc = {"N": e["N"], "M": e["M"], "b": e["b"], "fin": None}
        if c.check(isinstance(got, dict), "extraction answers without a frequency", sc, None, got):
            c.close(got["fin"], e["b"] * fs / e["N"], "estimated input frequency", sc, rtol=1e-6)
            c.close(got["gain"], np.ones(e["M"]), "no gain error", sc, rtol=1e-4)
            c.close(np.asarray(got["skew"]) * got["fin"], np.zeros(e["M"]), "no skew", sc, atol=1e-4)
            c.trace()
    # without a frequency, the one estimated from the record is used as it is, on or off the grid
    from adctoolbox import estimate_frequency
    for _ in range(c.n(20, 150)):
        m = r.choice([1, 2, 3, 4, 8])
        n = m * r.choice([32, 61, 128])
        fs = r.choice([1.0, 2.4e9])
        b = r.uniform(3, n / 2 - 3)
        x = r.choice([1, 50]) * np.cos(2 * np.pi * b * np.arange(n) / n + r.uniform(0, 6)) * np.tile([1 + .01 * r.gauss(0, 1) for _ in range(m)], n // m) + r.choice([0, .1])
        f = c.call(estimate_frequency, x, fs=fs)
        if isinstance(f, Refused):
            continue
        got, ref = c.call(extract_mismatch_sine, x, m, fs), c.call(extract_mismatch_sine, x, m, fs, float(f))
        sc = {"N": n, "M": m, "b": b, "fs": fs, "fin": None}
        if c.check(isinstance(got, dict) and isinstance(ref, dict), "extraction answers without a frequency", sc, ref, got):
            for k in ("fin", "A", "offset", "gain", "skew"):
                c.close(np.asarray(got[k]) * (fs if k == "skew" else 1), np.asarray(ref[k]) * (fs if k == "skew" else 1), "the estimated frequency is used as it is: " + k, sc, rtol=1e-9, atol=1e-9)
        c.trace()
    # refusals
    x = np.sin(np.arange(24.0))
    ok = {"offset": [0, 0], "gain": [1, 1], "skew": [1e-3, 0]}
    for what, fn in {
        "uneven record": lambda: extract_mismatch_sine(x[:23], 2, 1.0, 0.1),
        "zero channels": lambda: extract_mismatch_sine(x, 0, 1.0, 0.1),
        "2-D record": lambda: extract_mismatch_sine(x.reshape(2, 12), 2, 1.0, 0.1),
        "uneven record to correct": lambda: calibrate_foreground(x[:23], 2, ok, 1.0),
        "short parameter": lambda: calibrate_foreground(x, 2, dict(ok, gain=[1.0]), 1.0),
        "long parameter": lambda: calibrate_foreground(x, 2, dict(ok, offset=[0, 0, 0]), 1.0),
        "short skew": lambda: calibrate_foreground(x, 2, dict(ok, skew=[0]), 1.0),
        "unknown re-timing": lambda: calibrate_foreground(x, 2, ok, 1.0, skew_method="spline"),
        "even taps": lambda: calibrate_foreground(x, 2, ok, 1.0, skew_method="farrow", n_taps=6),
    }.items():
        g = c.call(fn)
        c.check(isinstance(g, Refused) and isinstance(g.exc, ValueError), f"refused: {what}", {}, "ValueError", g)
