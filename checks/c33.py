"""C33: every analysis of one record gives the same account of it."""
import math

import numpy as np
from lib.vf import Refused

CFG = """SPECIFICATION Spec
CONSTANTS
 Mode = "{mode}"
 Ns = {ns}
 Depth = {d}
INVARIANTS SignalAgrees RestAgrees HarmonicsAgree BandsAgree NonNegative EmitAll
CHECK_DEADLOCK FALSE
"""


def fold(x, n):
    y = x % n
    return n - y if 2 * y > n else y


def scenario(r):
    while True:
        n = r.choice([48, 63, 64, 100, 101, 128, 200])
        top = (n - 1) // 2
        b, H = r.randint(2, top), r.randint(2, 6)
        hb = [fold(h * b, n) for h in range(2, H + 1)]
        if len(set(hb)) == len(hb) and b not in hb and 0 not in hb and all(2 * q != n for q in hb) and max(hb) <= top:
            break
    todo = []
    for _ in range(r.randint(1, 7)):
        t = r.random()
        if t < .35:
            todo.append({"op": "add", "q": r.choice(hb), "a": r.randint(1, 15)})
        elif t < .65:
            todo.append({"op": "add", "q": r.randint(1, top), "a": r.randint(1, 15)})
        elif t < .75:
            todo.append({"op": "dc", "q": 0, "a": r.randint(-40, 40)})
        elif t < .82:
            todo.append({"op": "scale", "q": 0, "a": r.choice([2, 3])})
        elif t < .9:
            todo.append({"op": "negate", "q": 0, "a": 1})
        else:
            todo.append({"op": "cut", "q": r.choice([0, 0, r.randint(0, b)]), "a": r.randint(b, top)})
    lo = r.randint(0, top)
    return {"N": n, "b": b, "A": 60, "H": H, "lo": lo, "hi": r.randint(lo, top), "todo": todo}


def run(c):
    import adctoolbox as A
    from adctoolbox.aout import decompose_harmonic_error
    from adctoolbox.spectrum import compute_spectrum
    r = c.rng
    em = c.tlc("Ledger", CFG.format(mode="ex", ns=c.n("{9, 12}", "{9, 11, 12, 13}"), d=c.n(2, 3)), name="Ledger/small", exhaustive=True, workers=4)
    if len(em) > c.n(500, 4000):
        em = r.sample(em, c.n(500, 4000))
    em = em + c.tlc("Ledger", CFG.format(mode="file", ns="{9}", d=0), scen=[scenario(r) for _ in range(c.n(250, 2500))], name="Ledger/random", workers=4)

    def one(e, corrupt=0.0):
        cfg = e["c"]
        n, b, H = cfg["N"], cfg["b"], cfg["H"]
        k = np.arange(n)

        def tone(q, a):
            return a * np.cos(2 * np.pi * ((q * k) % n) / n + r.uniform(0, 6.28))

        x = tone(b, cfg["A"])
        sc = {"N": n, "bin": b, "harmonics": H, "edits": e["hist"]}
        for o in e["hist"]:
            if o["op"] == "add":
                x = x + tone(o["q"], o["a"])
            elif o["op"] == "dc":
                x = x + o["a"]
            elif o["op"] == "scale":
                x = x * o["a"]
            elif o["op"] == "negate":
                x = -x
            else:
                x = c.call(A.extract_freq_components, x, [[o["q"] / n, min(.5, o["a"] / n)]])
                if not c.check(isinstance(x, np.ndarray) and x.size == n, "band extraction answers", sc, None, x):
                    return
                x = np.asarray(x, float).ravel()
        sig, rest = e["fit"]["sig"], e["fit"]["rest"] * (1 + corrupt)
        amp, rms = math.sqrt(sig), math.sqrt(rest / 2)
        f = b / n
        got = {}

        def eq(v, want, who, scale):
            got[who] = v
            c.close(v, want, who, sc, rtol=1e-7, atol=1e-8 * scale)

        full = 4.0 * amp
        fit = c.call(A.fit_sine_4param, x, frequency_estimate=f, max_iterations=0)
        sp = c.call(compute_spectrum, x, win_type="boxcar", side_bin=0, max_harmonic=H, max_scale_range=full)
        qs = c.call(A.quick_sndr, x, win_type="boxcar", side_bin=0)
        kw = {"frequency": f, "max_iterations": 0, "create_plot": False}
        acf = c.call(A.analyze_error_autocorr, x, normalize=False, max_lag=3, **kw)
        bits = r.choice([8, 12])
        pdf = c.call(A.analyze_error_pdf, x, resolution=bits, full_scale=full, **kw)
        esp = c.call(A.analyze_error_spectrum, x, **kw)
        env = c.call(A.analyze_error_envelope_spectrum, x, **kw)
        kw2 = {"norm_freq": f, "max_iterations": 0, "create_plot": False}
        bv = c.call(A.analyze_error_by_value, x, n_bins=r.choice([5, 20]), clip_percent=0.0, **kw2)
        bp = c.call(A.analyze_error_by_phase, x, n_bins=r.choice([6, 24]), **kw2)
        dec = c.call(decompose_harmonic_error, x, n_harmonics=H, frequency=f, max_iterations=0)
        inb = c.call(A.extract_freq_components, x, [[cfg["lo"] / n, min(.5, cfg["hi"] / n)]])
        for who, g in (("fit", fit), ("spectrum", sp), ("lean SNDR", qs), ("autocorrelation", acf), ("distribution", pdf), ("error spectrum", esp),
                       ("envelope spectrum", env), ("by value", bv), ("by phase", bp), ("decomposition", dec), ("band", inb)):
            if not c.check(not isinstance(g, Refused), f"{who} answers", sc, None, g):
                return
        # the signal
        m = sp["metrics"]
        eq(fit["amplitude"], amp, "amplitude of the fit", amp)
        eq(fit["dc_offset"], e["fit"]["mean"], "offset of the fit", amp)
        eq(10 ** (m["sig_pwr_dbfs"] / 20) * full, amp, "amplitude in the spectrum", amp)
        eq(bp["amplitude"], amp, "amplitude by phase", amp)
        eq(bp["dc_offset"], e["fit"]["mean"], "offset by phase", amp)
        eq(np.std(dec["fundamental_signal"]) * math.sqrt(2), amp, "amplitude of the decomposition", amp)
        # what is left of it
        eq(fit["rmse"], rms, "error of the fit", amp)
        z = np.asarray(acf["acf"], float)
        eq(math.sqrt(max(z[np.argmin(np.abs(acf["lags"]))], 0)), rms, "error in the autocorrelation", amp)
        eq(pdf["sigma"] * full / 2 ** bits * math.sqrt((n - 1) / n), rms, "error in the distribution", amp)
        eq(pdf["mu"] * full / 2 ** bits, 0, "mean error in the distribution", amp)
        eq(bp["total_rms_v"], rms, "error by phase", amp)
        cnt = np.asarray(bv["count_per_bin"], float)
        live = cnt > 0
        eq(math.sqrt(np.sum(cnt[live] * np.asarray(bv["error_rms"])[live] ** 2) / n), rms, "error by value", amp)
        cp = np.asarray(bp["bin_counts"], float)
        live = cp > 0
        eq(math.sqrt(np.sum(cp[live] * np.asarray(bp["bin_error_rms_v"])[live] ** 2) / n), rms, "error in the phase bins", amp)
        err = fit["residuals"]
        for who, v in (("autocorrelation", acf["error_signal"]), ("error spectrum", esp["error_signal"]), ("envelope spectrum", env["error_signal"]),
                       ("by value", bv["error"]), ("by phase", bp["error"]), ("distribution", np.asarray(pdf["err_lsb"]) * full / 2 ** bits)):
            c.close(np.asarray(v).ravel(), np.asarray(err).ravel(), f"error signal {who}", sc, rtol=1e-7, atol=1e-8 * amp)
        eq(math.sqrt(np.mean((np.asarray(dec["harmonic_signal"]) + dec["noise_residual"]) ** 2)), rms, "error of the decomposition", amp)
        # ratios: dominated only by the arithmetic when nothing is left
        if e["fit"]["rest"] > 0:
            want = 20 * math.log10(amp / math.sqrt(2) / rms)
            for who, v in (("spectrum", m["sndr_dbc"]), ("lean routine", qs["sndr_dbc"]), ("amplitudes", c.call(A.amplitudes_to_snr, fit["amplitude"], fit["rmse"]))):
                c.close(v, want, f"signal to everything else: {who}", sc, rtol=0, atol=1e-6)
            c.close(c.call(A.snr_to_enob, want), m["enob"], "effective bits", sc, rtol=0, atol=1e-6)
            peak = max(p for q, p in e["lines"] if q != b)
            c.close(m["sfdr_dbc"], 10 * math.log10(sig / peak), "signal to the strongest other line", sc, rtol=0, atol=1e-6)
        # the harmonics
        mags = np.asarray(dec["magnitudes"], float)
        hp = dict((q, p) for q, p in e["harm"])
        tot = 0
        pw = dict((q, p) for q, p in e["lines"])
        centred = pw.get(b - 1, 0) == pw.get(b + 1, 0)     # else the position between bins moves
        for h in range(2, H + 1):
            p = hp.get(fold(h * b, n), 0)
            tot += p
            c.close(mags[h - 1] / mags[0], math.sqrt(p / sig) * (1 + corrupt), "harmonic in the decomposition", dict(sc, h=h), rtol=1e-6, atol=1e-8)
            if p and centred:
                c.close(m["harmonics_dbc"][h - 2], 10 * math.log10(p / sig), "harmonic in the spectrum", dict(sc, h=h), rtol=0, atol=1e-6)
        if tot and centred:
            c.close(m["thd_dbc"], 10 * math.log10(tot / sig), "all harmonics in the spectrum", sc, rtol=0, atol=1e-6)
        eq(math.sqrt(np.mean(np.asarray(dec["harmonic_signal"]) ** 2)), math.sqrt(tot / 2), "all harmonics in the decomposition", amp)
        eq(np.std(dec["noise_residual"]), math.sqrt(e["drest"] / 2), "rest of the decomposition", amp)
        # the band and its complement
        eq(np.mean((np.asarray(inb, float) - np.mean(inb)) ** 2), e["band"]["inside"] / 2, "power inside the band", sig)
        eq(np.mean((x - np.asarray(inb, float).ravel() - np.mean(x - np.asarray(inb, float).ravel())) ** 2), e["band"]["outside"] / 2, "power outside the band", sig)
        c.trace({"case": sc, "signal": sig, "rest": e["fit"]["rest"]})

    for e in em:
        one(e)
    c.selftest(lambda: [one(e, 0.01) for e in em[-20:]])
