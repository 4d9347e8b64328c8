"""C11: power and coherent averaging of captures."""
import cmath
import math

import numpy as np

K = 12
CFG = """SPECIFICATION Spec
CONSTANTS
 Mode = "{mode}"
 NS = {ns}
 K = {k}
INVARIANTS FundamentalAtZero StartTimeGone EmitDone
CHECK_DEADLOCK FALSE
"""
LOBE = {"boxcar": 0, "hann": 1, "blackman": 2}


def fold(x, n):
    y = x % n
    return n - y if 2 * y > n else y


def run(c):
    from adctoolbox import analyze_spectrum, analyze_spectrum_polar
    from adctoolbox.spectrum import compute_spectrum
    r = c.rng
    em = c.tlc("Averaging", CFG.format(mode="ex", ns=c.n("{11, 16}", "{9, 11, 12, 16, 17}"), k=K), name="Averaging/pairs", exhaustive=True, workers=4)
    if len(em) > c.n(1500, 10 ** 9):
        em = r.sample(em, 1500)
    scen = []
    while len(scen) < c.n(300, 3000):
        n = r.choice([32, 45, 64, 100, 101, 128])
        b = r.randint(1, (n - 1) // 2)
        lobe = r.choice([0, 0, 1, 2])
        tones = [{"h": 1, "a": 60, "p": r.randrange(K)}]
        for h in sorted(r.sample(range(2, 16), r.randint(1, 5))):
            tones.append({"h": h, "a": r.randint(1, 9), "p": r.randrange(K)})
        # keep the decidable tones
        keep = tones[:1]
        for t in tones[1:]:
            q = fold(t["h"] * b, n)
            if q > lobe and 2 * (q + lobe) < n and all(abs(fold(j * b, n) - q) > 2 * lobe for j in range(1, t["h"])):
                keep.append(t)
        q = b
        if len(keep) < 2 or not (q > lobe and 2 * (q + lobe) < n):
            continue
        m = r.randint(1, 6)
        runs = [{"th": r.randrange(K), "g": r.choice([1, 1, 1, 2, 3, 0])} for _ in range(m)]
        runs[0]["g"] = runs[0]["g"] or 1
        scen.append({"N": n, "b": b, "lobe": lobe, "tones": keep, "runs": runs})
    em += c.tlc("Averaging", CFG.format(mode="file", ns="{8}", k=K), scen=scen, name="Averaging/random", workers=4)

    def one(e, corrupt=0.0):
        cfg = e["c"]
        n, m = cfg["N"], len(cfg["runs"])
        k = np.arange(n)
        x = np.zeros((m, n))
        a1 = cfg["tones"][0]["a"]
        for i, run_ in enumerate(cfg["runs"]):
            for t in cfg["tones"]:
                cyc = (t["h"] * cfg["b"] * k) % n
                x[i] += run_["g"] * t["a"] * np.cos(2 * np.pi * (cyc / n + (t["p"] + t["h"] * run_["th"]) / K))
            x[i] += r.choice([0.0, 3.0])
        win = {v: w for w, v in LOBE.items()}[cfg["lobe"]]
        fsr = float(max(2.0 * a1, 1))
        kw = {"win_type": win, "side_bin": cfg["lobe"], "max_scale_range": fsr, "max_harmonic": r.randint(2, 10)}
        if cfg["lobe"] == 0 and all(abs(w - e["bins"][0]) > 8 for w in e["bins"][1:]) and r.random() < .5:
            del kw["side_bin"]
        sc = {"N": n, "b": cfg["b"], "win": win, "tones": cfg["tones"], "runs": cfg["runs"]}
        x0 = x.copy()
        arg = x[0] if m == 1 and r.random() < .5 else x
        g = c.call(compute_spectrum, arg, coherent_averaging=True, **kw)
        if not c.check(isinstance(g, dict), "coherent analysis answers", sc, None, g):
            return
        c.check(np.array_equal(x, x0), "captures left as given", sc)
        F = e["bins"][0]
        pd, met = g["plot_data"], g["metrics"]
        c.check(pd["fundamental_bin"] == F, "fundamental found", sc, F, pd["fundamental_bin"])
        z = np.asarray(pd["complex_spectrum"])
        if not c.check(z.shape == (n // 2 + 1,), "complex spectrum reaches Nyquist", sc, n // 2 + 1, z.shape):
            return
        c.check(abs(cmath.phase(z[F])) < 1e-6, "fundamental at zero phase", sc, 0, cmath.phase(z[F]))
        for t, q, mag, ph in list(zip(cfg["tones"], e["bins"], e["mag"], e["ph"])):
            want = mag / e["mag"][0] * cmath.exp(2j * math.pi * (ph / K + corrupt))
            c.close(z[q] / z[F], want, f"harmonic {t['h']} keeps its phase and size relative to the fundamental", sc, rtol=1e-6, atol=1e-7)
        amp = e["mag"][0] / e["valid"]
        c.close(met["sig_pwr_dbfs"], 20 * math.log10(amp / fsr) + corrupt, "aligned signal level is the mean amplitude", sc, rtol=0, atol=1e-5)
        # nothing appears where no tone is
        p = 10 ** (np.asarray(pd["power_spectrum_db_plot"]) / 10)
        quiet = np.ones(n // 2 + 1, bool)
        for q in e["bins"]:
            quiet[max(0, q - cfg["lobe"]):q + cfg["lobe"] + 1] = False
        c.check(np.all(p[quiet] < 1e-13), "no power where no tone is", sc, 0, float(np.max(p[quiet], initial=0)))
        c.close(np.abs(z[e["bins"]]) ** 2, p[e["bins"]], "power is the squared magnitude of the aligned spectrum", sc, rtol=1e-6)
        byh = dict(zip((t["h"] for t in cfg["tones"]), e["mag"]))
        alone = all(abs(w - F) > 2 * cfg["lobe"] + 1 for w in e["bins"][1:])   # else the sub-bin position moves
        for h in range(2, kw["max_harmonic"] + 1) if alone else ():
            q = fold(h * cfg["b"], n)
            if h in byh and h not in pd["collided_harmonics"] and h <= 10 and sum(fold(j * cfg["b"], n) == q for j in byh) == 1 and \
                    all(abs(q - w) > 2 * cfg["lobe"] for w in e["bins"] if w != q) and q > cfg["lobe"]:
                c.close(met["harmonics_dbc"][h - 2], 20 * math.log10(byh[h] / e["mag"][0]) + corrupt, f"harmonic {h} level", sc, rtol=0, atol=1e-5)
        # power averaging of the same captures
        gp = c.call(compute_spectrum, arg, **kw)
        if c.check(isinstance(gp, dict), "power analysis answers", sc, None, gp):
            pp = 10 ** (np.asarray(gp["plot_data"]["power_spectrum_db_plot"]) / 10)
            lob = cfg["lobe"]
            for q, w in zip(e["bins"], e["pow"]):
                if lob and any(abs(q - v) <= 2 * lob for v in e["bins"] if v != q):
                    continue
                c.close(pp[q - lob:q + lob + 1].sum(), w / m / fsr ** 2 * (1 + corrupt), "power average is the mean of the runs", sc, rtol=1e-6)
            c.close(gp["metrics"]["sig_pwr_dbfs"], 10 * math.log10(e["pow"][0] / m / fsr ** 2) + corrupt, "power-averaged signal level", sc, rtol=0, atol=1e-5)
        # wrappers
        if r.random() < .25:
            mh = r.randint(3, 9)
            a = c.call(analyze_spectrum_polar, arg, max_code=fsr, harmonic=mh, win_type=win, create_plot=False)
            b = c.call(compute_spectrum, arg, coherent_averaging=True, win_type=win, max_scale_range=fsr, max_harmonic=mh)
            if c.check(isinstance(a, dict) and isinstance(b, dict), "polar analysis answers", sc, None, [a, b]):
                for key in ("sndr_dbc", "sfdr_dbc", "thd_dbc", "sig_pwr_dbfs", "snr_dbc"):
                    c.close(min(a[key], 110.0), min(b["metrics"][key], 110.0), f"polar analysis reports the coherent {key}", sc, rtol=1e-9)
            a = c.call(analyze_spectrum, arg, coherent_averaging=True, create_plot=False, **kw)
            if c.check(isinstance(a, dict), "wrapper answers", sc, None, a):
                c.close(a["sig_pwr_dbfs"], met["sig_pwr_dbfs"], "wrapper reports the coherent signal level", sc, rtol=1e-9)
        c.trace({"N": n, "bins": e["bins"], "phases": e["ph"], "runs": cfg["runs"]})

    for e in em:
        one(e)
    c.selftest(lambda: [one(e, 0.01) for e in em[-10:]])

    # components unrelated between runs: kept by power averaging, reduced in proportion by coherent averaging
    npr = np.random.default_rng(c.seed + 1111)
    for win in ("boxcar", "hann"):
        for n, b, m in ((512, 51, 64), (400, 77, 36)):
            k = np.arange(n)
            x = np.array([np.cos(2 * np.pi * b * k / n + npr.uniform(0, 6.28)) for _ in range(m)]) + .05 * npr.standard_normal((m, n))
            kw = {"win_type": win, "max_scale_range": 1.0, "nf_method": 3}
            gp, gc = c.call(compute_spectrum, x, **kw), c.call(compute_spectrum, x, coherent_averaging=True, **kw)
            sc = {"win": win, "N": n, "bin": b, "runs": m}
            if c.check(isinstance(gp, dict) and isinstance(gc, dict), "analysis answers", sc, None, [gp, gc]):
                d = gc["metrics"]["sndr_dbc"] - gp["metrics"]["sndr_dbc"]
                c.close(d, 10 * math.log10(m), "coherent averaging reduces uncorrelated content", sc, rtol=0, atol=3.5)
                want = 10 * math.log10(.5 / .05 ** 2)
                c.close(gp["metrics"]["sndr_dbc"], want, "power averaging keeps uncorrelated content", sc, rtol=0, atol=1.0)
                c.trace()

    # one capture, or the same capture again and again: aligning turns phases and nothing else
    for _ in range(c.n(40, 300)):
        n = r.choice([32, 45, 64, 101])
        k = np.arange(n)
        b, m = r.randint(2, n // 2 - 2), r.choice([1, 1, 2, 4])
        x = np.cos(2 * np.pi * b * k / n + r.uniform(0, 6)) + .1 * npr.standard_normal(n) + .2 * (-1.0) ** k + r.choice([0, 5.0])
        win = r.choice(["boxcar", "hann", "blackman", "flattop", "kaiser"])
        cut = r.choice([0, 0, r.randint(1, b)])
        kw = {"win_type": win, "max_scale_range": 1.5, "side_bin": r.randint(0, 3), "cutoff_freq": max(0, cut - .5) / n}
        sc = {"N": n, "bin": b, "copies": m, **kw}
        if r.random() < .3:
            x = np.vstack([x] * m + [np.full(n, r.choice([0.0, 3.0]))] * r.randint(1, 2))      # captures in which nothing happens do not count
            sc["empty"] = len(x) - m
            y = x[0]
        else:
            y = x
            x = np.vstack([x] * m)
        g, p = c.call(compute_spectrum, x, coherent_averaging=True, **kw), c.call(compute_spectrum, y, **kw)
        if c.check(isinstance(g, dict) and isinstance(p, dict), "analysis answers", sc, None, [g, p]):
            pg, pp = (10 ** (np.asarray(z["plot_data"]["power_spectrum_db_plot"]) / 10) for z in (g, p))
            if p["plot_data"]["fundamental_bin"] == b:
                c.close(pg[1:], pp[1:], "copies of one capture have that capture's spectrum", sc, rtol=1e-6, atol=1e-14)
                z = np.asarray(g["plot_data"]["complex_spectrum"])
                c.close(np.abs(z[cut:]) ** 2, pg[cut:], "power is the squared magnitude of the aligned spectrum", sc, rtol=1e-6, atol=2e-15)
                c.check(np.all(z[:cut] == 0), "nothing is shown below the cutoff", sc)
        c.trace()
    # the signal is the strongest content of the band: stronger content beyond it steers nothing
    for _ in range(c.n(40, 300)):
        n, m = r.choice([64, 100, 101]), r.choice([2, 3, 4])
        k = np.arange(n)
        osr = r.choice([2, 3, 4, 2.5])
        top = int(n / (2 * osr))
        b, q = r.randint(3, top - 3), r.randint(top + 4, n // 2 - 3)
        win, lobe = r.choice([("boxcar", 0), ("hann", 1)])
        x = np.array([np.cos(2 * np.pi * b * k / n + r.uniform(0, 6)) for _ in range(m)])
        y = x + r.choice([2.0, 5.0]) * np.array([np.cos(2 * np.pi * q * k / n + r.uniform(0, 6)) for _ in range(m)])
        kw = {"win_type": win, "side_bin": lobe, "max_scale_range": 2.0, "osr": osr, "coherent_averaging": True}
        sc = {"N": n, "runs": m, "bin": b, "beyond": q, **kw}
        g = c.call(compute_spectrum, y, **kw)
        if c.check(isinstance(g, dict), "analysis answers", sc, None, g):
            pd = g["plot_data"]
            c.check(pd["fundamental_bin"] == b, "fundamental found in band", sc, b, pd["fundamental_bin"])
            z = np.asarray(pd["complex_spectrum"])
            c.check(abs(cmath.phase(z[b])) < 1e-6, "fundamental in band at zero phase", sc, 0, cmath.phase(z[b]))
            c.close(g["metrics"]["sig_pwr_dbfs"], -20 * math.log10(2), "aligned signal level in band is the mean amplitude", sc, rtol=0, atol=1e-5)
        c.trace()

    # without a given full scale, one full scale for all captures: the range of all the samples
    for _ in range(c.n(20, 150)):
        n, m = r.choice([32, 45, 64]), r.choice([2, 3, 5])
        k = np.arange(n)
        b = r.randint(2, n // 2 - 2)
        x = np.array([r.uniform(.5, 2) * np.cos(2 * np.pi * b * k / n + r.uniform(0, 6)) + r.choice([0, 0, -1.5, 4]) for _ in range(m)]) + .05 * npr.standard_normal((m, n))
        kw = {"win_type": r.choice(["boxcar", "hann"]), "side_bin": 1, "coherent_averaging": r.random() < .5}
        full = (x.max() - x.min()) / 2
        a, b = c.call(compute_spectrum, x, **kw), c.call(compute_spectrum, x, max_scale_range=full, **kw)
        sc = {"N": n, "runs": m, "full scale": full, **kw}
        if c.check(isinstance(a, dict) and isinstance(b, dict), "analysis answers", sc, None, [a, b]):
            for key in ("sig_pwr_dbfs", "noise_floor_dbfs", "sndr_dbc"):
                c.close(a["metrics"][key], b["metrics"][key], f"{key}: the full scale is the range of all the captures", sc, rtol=0, atol=1e-9)
        c.trace()
    for m in (1, 3):
        for v in (0.0, 2.5):
            g = c.call(compute_spectrum, np.full((m, 32), v), coherent_averaging=True, max_scale_range=1.0)
            if c.check(isinstance(g, dict), "captures in which nothing happens answer", {"runs": m}, None, g):
                q = np.asarray(g["plot_data"]["power_spectrum_db_plot"], float)
                c.check(np.all(q < -190), "captures in which nothing happens have no power", {"runs": m, "value": v}, "< -190", q[:4])
