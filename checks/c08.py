"""C08: spectrum power accounting."""
import math

import numpy as np
from checks import autolobe
from checks.spectools import CFG, FILE, LOBE, Bind, close_db, fold, scenario
from lib.vf import Refused


def run(c):
    from adctoolbox import analyze_spectrum, quick_sndr
    from adctoolbox.spectrum.analyze_spectrum import analyze_spectrum_virtuoso
    from adctoolbox.spectrum import compute_spectrum
    r = c.rng
    em = c.tlc("Spectrum", CFG.format(mode="ex", ns=c.n("{8, 9}", "{10, 13, 16}"), wins='{"rect", "hann"}', sbs="{0, 1, 2}",
                                      osrs="{1, 2}", a=20), name="Spectrum/small", exhaustive=True, workers=3)
    scen = [scenario(r) for _ in range(c.n(220, 2500))]
    em += c.tlc("Spectrum", FILE, scen=scen, name="Spectrum/random", workers=4)

    def one(e, corrupt=0.0):
        b = Bind(c, e, r)
        cfg, sc = e["c"], b.sc
        asm = None
        kw = dict(b.kw)
        if r.random() < .15:
            asm = r.choice([-3.0, 0.0, -20.0])
            kw["assumed_sig_pwr_dbfs"] = asm
        x0 = b.x.copy()
        g = c.call(compute_spectrum, b.x, **kw)
        if not c.check(isinstance(g, dict), "analysis answers", sc, "dict", g):
            return
        c.check(np.array_equal(x0, b.x), "record left as given", sc)
        m, pd = g["metrics"], g["plot_data"]
        sig = e["sig"] if asm is None else 10 ** (asm / 10) / b.unit
        c.check(pd["fundamental_bin"] == e["F"], "fundamental is the strongest in-band bin", sc, e["F"], pd["fundamental_bin"])
        c.close(m["sig_pwr_dbfs"], (b.db(e["sig"]) if asm is None else asm) + corrupt, "signal level", sc, rtol=0, atol=1e-6)
        close_db(c, m["sndr_dbc"], sig, e["nad"], "SNDR is signal over everything else in band", sc, corrupt, unit=b.unit)
        c.close(m["enob"], (m["sndr_dbc"] - 1.76) / 6.02, "ENOB from SNDR", sc, rtol=1e-9)
        tops = {s[1] for s in e["spurs"]}
        if len(tops) == 1 or max(tops) == 0:
            close_db(c, m["sfdr_dbc"], sig, max(tops), "SFDR is signal over the strongest other lobe", sc, corrupt, unit=b.unit)
            if len(e["spurs"]) == 1 and e["nad"] > 0:
                c.check(pd["spur_bin_idx"] == e["spurs"][0][0], "spur position", sc, e["spurs"], pd["spur_bin_idx"])
        hd = np.asarray(m["harmonics_dbc"], float)
        if e["centered"]:
            c.check(hd.shape == (cfg["H"] - 1,) and list(pd["harmonic_bins"]) == e["hb"], "harmonics at their folded positions", sc, e["hb"],
                    pd["harmonic_bins"])
            c.check(list(pd["collided_harmonics"]) == e["coll"], "harmonics on the fundamental are reported", sc, e["coll"], pd["collided_harmonics"])
            for i, p in enumerate(e["hp"]):
                if i < hd.size:
                    close_db(c, hd[i], p, sig, f"harmonic {i + 2}", sc, corrupt, unit=b.unit)
            close_db(c, m["thd_dbc"], e["thd"], sig, "THD counts every harmonic bin once", sc, corrupt, unit=b.unit)
        # the bins themselves
        n = cfg["N"]
        db = np.asarray(pd["power_spectrum_db_plot"], float)
        c.check(db.shape == (n // 2 + 1,), "bins from DC to Nyquist", sc, n // 2 + 1, db.shape)
        c.close(pd["freq"], np.arange(n // 2 + 1) * b.fs / n, "frequency axis", sc, rtol=1e-9)
        P = np.array(e["P"], float) * b.unit
        live = P > 1e-14
        if db.shape == P.shape:
            c.close(db[live], 10 * np.log10(P[live]) + corrupt, "power in every bin", sc, rtol=0, atol=1e-6)
            c.check(np.all(db[P == 0] < -125), "empty bins are empty", sc)
        # the lean routine and the plotting wrapper agree
        if cfg["osr"] == [1, 1] and cfg["cut"] == 0 and asm is None:
            q = c.call(quick_sndr, b.x, **{k: v for k, v in kw.items() if k in ("fs", "win_type", "side_bin", "max_scale_range")})
            if c.check(isinstance(q, dict), "lean routine answers", sc, None, q):
                close_db(c, q["sndr_dbc"], sig, e["nad"], "lean SNDR", sc, corrupt, unit=b.unit)
                c.close(q["enob"], (q["sndr_dbc"] - 1.76) / 6.02, "lean ENOB", sc, rtol=1e-9)
            if r.random() < .3:
                a = c.call(analyze_spectrum, b.x, create_plot=False, show_label=False, **kw)
                if c.check(isinstance(a, dict), "wrapper answers", sc, None, a):
                    for k in ("sndr_dbc", "sfdr_dbc", "snr_dbc", "thd_dbc", "sig_pwr_dbfs", "enob"):
                        c.close(a.get(k), m[k], f"wrapper reports the same {k}", sc, rtol=1e-9)
        # automatic side bins of a coherent tone: the window's main lobe
        d = LOBE[cfg["win"]]
        if cfg["sb"] == d and e["centered"] and asm is None and not (e["F"] < d + 1 or e["F"] + d + 1 >= e["inb"]) and \
                (d == 0 or e["P"][e["F"] - 1] == e["P"][e["F"] + 1]):
            g2 = c.call(compute_spectrum, b.x, **{k: v for k, v in kw.items() if k != "side_bin"})
            if c.check(isinstance(g2, dict), "automatic side bins answer", sc, None, g2):
                close_db(c, g2["metrics"]["sndr_dbc"], e["sig"], e["nad"], "automatic side bins cover the main lobe", sc, corrupt, unit=b.unit)
        c.trace({"N": n, "win": cfg["win"], "F": e["F"], "sig": e["sig"], "nad": e["nad"]})

    for e in em:
        one(e)
    c.selftest(lambda: [one(e, 0.01) for e in em[:10]])

    # a full-scale sine reads 0 dBFS in every window
    for w in ("boxcar", "rectangular", "hann", "hamming", "blackman", "blackmanharris", "flattop", "kaiser", "chebwin", "HANN"):
        for n in (256, 255):
            k = np.arange(n)
            b0 = r.randint(40, 80)
            x = 3.0 * np.cos(2 * np.pi * b0 * k / n + r.uniform(0, 6))
            for kw in ({"max_scale_range": 3.0}, {"max_scale_range": (-3.0, 3.0)}, {"max_scale_range": [0, 6.0]}, {"max_scale_range": (-1.0, 5.0)}, {"max_scale_range": (-7.0, -1.0)}):
                g = c.call(compute_spectrum, x, win_type=w, **kw)
                if c.check(isinstance(g, dict), "analysis answers", {"win": w}, None, g):
                    c.close(g["metrics"]["sig_pwr_dbfs"], 0.0, "a full-scale sine reads 0 dBFS in every window", {"win": w, "N": n, "bin": b0, **kw}, rtol=0, atol=2e-3)
                    c.trace()

    # the lean routine left to itself takes the window's main lobe, no more and no less
    for _ in range(c.n(60, 400)):
        w, d = r.choice([("boxcar", 0), ("Rectangular", 0), ("hann", 1), ("hamming", 1), ("blackman", 2), ("blackmanharris", 3), ("BlackmanHarris", 3), ("flattop", 4)])
        n = r.choice([128, 200, 255])
        k = np.arange(n)
        b0 = r.randint(2 * d + 2, n // 2 - 4 * d - 4)
        a = 10 ** r.uniform(-3, -1)
        x = np.cos(2 * np.pi * b0 * k / n + r.uniform(0, 6))
        y = x + a * np.cos(2 * np.pi * (b0 + 2 * d + 1) * k / n + r.uniform(0, 6))
        sc = {"N": n, "win": w, "bin": b0, "second": a}
        q = c.call(quick_sndr, x, win_type=w)
        if c.check(isinstance(q, dict), "lean routine answers", sc, None, q):
            c.check(q["sndr_dbc"] > 110, "lean routine takes the whole main lobe of a tone as signal", sc, "> 110", q)
        q = c.call(quick_sndr, y, win_type=w)
        if c.check(isinstance(q, dict), "lean routine answers", sc, None, q):
            c.close(q["sndr_dbc"], -20 * math.log10(a), "lean routine takes no more than the main lobe as signal", sc, rtol=0, atol=1e-6)
        c.trace()

    # every entry point hands every option on
    npr = np.random.default_rng(c.seed + 80)
    for _ in range(c.n(60, 400)):
        n, m = r.choice([64, 100, 101]), r.choice([1, 2, 3])
        k = np.arange(n)
        b0 = r.randint(3, n // 8)
        x = np.array([np.cos(2 * np.pi * b0 * k / n + r.uniform(0, 6)) for _ in range(m)])
        x = x + .05 * x ** 2 - .03 * x ** 3 + .02 * npr.standard_normal((m, n))
        kw = {k_: v for k_, v in {"fs": r.choice([1e3, 3e8]), "osr": r.choice([1, 2, 2.5]), "max_scale_range": r.choice([1.0, (-1.2, 1.3)]), "win_type": r.choice(["boxcar", "flattop", "chebwin"]),
                                  "side_bin": r.randint(0, 3), "max_harmonic": r.randint(2, 7), "nf_method": r.randint(0, 4), "assumed_sig_pwr_dbfs": r.choice([-1.0, 0.0]),
                                  "coherent_averaging": True}.items() if r.random() < .5}
        ref = c.call(compute_spectrum, x, **kw)
        if not c.check(isinstance(ref, dict), "analysis answers", kw, None, ref):
            continue
        for what, fn in (("analysis", analyze_spectrum), ("simulator-style analysis", analyze_spectrum_virtuoso)):
            k2 = dict(kw)
            if fn is analyze_spectrum_virtuoso and "win_type" not in kw:
                k2["win_type"] = "hann"
            g = c.call(fn, x, create_plot=False, show_label=False, **k2)
            if c.check(isinstance(g, dict), "wrapper answers", kw, None, g):
                for key, v in ref["metrics"].items():
                    c.close(g.get(key), v, f"{what} reports the same {key} under every option", {"N": n, "runs": m, **kw}, rtol=1e-9)
        c.trace()

    # ---- trace direction: spectra recorded from the implementation, accounted for by the model
    recs = []
    npr = np.random.default_rng(c.seed + 808)
    for _ in range(c.n(60, 500)):
        n = r.choice([64, 96, 101, 128])
        o = r.choice([[1, 1], [1, 1], [2, 1], [3, 2]])
        top = n * o[1] // (2 * o[0])
        b0 = r.uniform(3, top - 4) if r.random() < .5 else float(r.randint(3, top - 4))
        k = np.arange(n)
        x = np.sin(2 * np.pi * b0 * k / n + r.uniform(0, 6)) + r.choice([.02, .05, .1]) * npr.standard_normal(n)
        if r.random() < .5:
            x = x + .1 * x ** 2 - .05 * x ** 3
        kw = {"win_type": r.choice(["hann", "blackmanharris", "flattop", "kaiser", "chebwin", "boxcar", "blackman"]), "side_bin": r.randint(0, 6),
              "max_harmonic": r.randint(2, 7), "osr": o[0] / o[1], "max_scale_range": 1.0}
        g = c.call(compute_spectrum, x, **kw)
        if not c.check(isinstance(g, dict), "analysis answers", {"N": n, **kw}, None, g):
            continue
        p = 10 ** (np.asarray(g["plot_data"]["power_spectrum_db_plot"]) / 10)
        scale = 2e8 / p.sum()
        recs.append((g, p, scale, kw, {"N": n, "win": "rect", "sb": kw["side_bin"], "osr": o, "H": kw["max_harmonic"], "cut": 0,
                                       "p": [max(1, round(v * scale)) if v > 2e-20 else 0 for v in p], "id": len(recs)}))
    et = c.tlc("Spectrum", FILE, scen=[x[4] for x in recs], name="Spectrum/recorded", workers=4)

    def back(e, corrupt=0.0):
        g, p, scale, kw, cfg = recs[e["c"]["id"]]
        m, pd = g["metrics"], g["plot_data"]
        sc = {"N": cfg["N"], **kw}
        if not c.check(pd["fundamental_bin"] == e["F"], "recorded: fundamental", sc, e["F"], pd["fundamental_bin"]):
            return

        def cmp(got, num, den, clause):
            if num < 200 or den < 200:
                return
            tol = 4.343 * (cfg["N"] / num + cfg["N"] / den) + 1e-6     # rounding of the recorded powers
            c.close(got, 10 * math.log10(num / den) + corrupt, "recorded: " + clause, sc, rtol=0, atol=tol)

        cmp(m["sndr_dbc"], e["sig"], e["nad"], "SNDR")
        cmp(m["sig_pwr_dbfs"], e["sig"], scale, "signal level")
        for s in e["spurs"]:
            if len(e["spurs"]) == 1:
                cmp(m["sfdr_dbc"], e["sig"], s[1], "SFDR")
        d = (pd["fundamental_bin_fractional"] - e["F"]) * cfg["H"]
        if abs(d) < 0.4:
            cmp(m["thd_dbc"], e["thd"], e["sig"], "THD")
            for i, q in enumerate(e["hp"]):
                cmp(m["harmonics_dbc"][i], q, e["sig"], f"harmonic {i + 2}")
            c.check(list(pd["collided_harmonics"]) == e["coll"], "recorded: collided harmonics", sc, e["coll"], pd["collided_harmonics"])
        c.trace()

    for e in et:
        back(e)
    c.selftest(lambda: [back(e, 0.5) for e in et[:5]], "recorded spectra")

    # ---- tones between bins: harmonics are looked for at the multiples of the true position
    LK = """SPECIFICATION Spec
CONSTANTS
 Mode = "%s"
 Ns = {16, 21}
INVARIANTS InZone IsMultiple EmitDone
CHECK_DEADLOCK FALSE
"""
    c.tlc("Leakage", LK % "ex", name="Leakage/small", exhaustive=True)
    scen = [{"N": n, "q": r.randint(1500, 50 * n - 1500), "H": r.randint(3, 8)} for n in (r.choice([512, 601, 1024]) for _ in range(c.n(120, 1000)))]
    el = c.tlc("Leakage", LK % "file", scen=scen, name="Leakage/random")

    def leak(e, corrupt=0):
        cfg, pos = e["c"], e["pos"]
        n, q, H = cfg["N"], cfg["q"] / 100, cfg["H"]
        at = [q] + [v / 100 + corrupt for v in pos]
        amp = [1.0] + [10 ** (r.uniform(-55, -35) / 20) for _ in pos]
        k = np.arange(n)
        ph = [r.uniform(0, 6) for _ in at]
        x = sum(a * np.cos(2 * np.pi * f * k / n + w) for a, f, w in zip(amp, at, ph))
        win = r.choice(["hann", "hann", "blackman", "blackmanharris"])
        sb = {"hann": 4, "blackman": 4, "blackmanharris": 5}[win]
        sc = {"N": n, "position": q, "harmonics": H, "win": win, "levels": [round(20 * math.log10(a), 1) for a in amp]}
        g = c.call(compute_spectrum, x, win_type=win, side_bin=sb, max_harmonic=H, max_scale_range=1.0)
        if not c.check(isinstance(g, dict), "analysis answers", sc, None, g):
            return
        m, pd = g["metrics"], g["plot_data"]
        clear = 2 * sb + 3
        if all(abs(f - q) > clear and f > clear and f < n / 2 - clear for f in at[1:]):
            hb = list(pd["harmonic_bins"])
            c.check(len(hb) == H - 1 and all(abs(b - f) <= .5 + .05 * (i + 2) for i, (b, f) in enumerate(zip(hb, at[1:]))),
                    "harmonics of a tone between bins are looked for at its multiples", sc, at[1:], hb)
            if not all(abs(a - b) > clear for i, a in enumerate(at) for b in at[:i]):
                return
            # the leakage skirt of the fundamental at the harmonic must not matter
            far = all(abs(f - q) > (40 if win == "hann" else 25) and f > 40 for f in at[1:])
            if far:
                for i, a in enumerate(amp[1:]):
                    c.close(m["harmonics_dbc"][i], 20 * math.log10(a), "harmonic level of a tone between bins", dict(sc, harmonic=i + 2), rtol=0, atol=.6)
                c.close(m["sig_pwr_dbfs"], 0.0, "level of a tone between bins", sc, rtol=0, atol=.1)
        c.trace()

    for e in el:
        leak(e)

    # ... up to the very edge of the band
    for _ in range(c.n(40, 300)):
        n, osr = r.choice([512, 600]), r.choice([2, 4, 3])
        top = int(n / (2 * osr))
        q = top - 1 - r.choice([0, 0, 1, 2]) + r.choice([-1, 1]) * r.uniform(.25, .45)
        H = r.randint(2, 2 * osr - 1)
        x = np.cos(2 * np.pi * q * np.arange(n) / n + r.uniform(0, 6))
        sc = {"N": n, "osr": osr, "position": q, "harmonics": H}
        g = c.call(compute_spectrum, x, win_type="hann", side_bin=3, max_harmonic=H, osr=osr)
        if c.check(isinstance(g, dict), "analysis answers", sc, None, g):
            pd = g["plot_data"]
            c.check(all(abs(b - fold(h * q, n)) <= .5 + .05 * h for h, b in enumerate(pd["harmonic_bins"], 2)) and len(pd["harmonic_bins"]) == H - 1,
                    "harmonics of a tone next to the band edge are looked for at its multiples", sc, [fold(h * q, n) for h in range(2, H + 1)], pd["harmonic_bins"])
        c.trace()
    c.selftest(lambda: [leak(e, 3) for e in el], "tones between bins")

    autolobe.run(c, compute_spectrum)
