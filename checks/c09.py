"""C09: noise-floor estimators and noise density."""
import math

import numpy as np
from checks.spectools import CFG, FILE, LOBE, WIN, Bind, close_db, record, scenario
from lib.vf import Refused


def bias(M):
    """Ratio of the median to the mean of the averaged bin powers."""
    return 0.72 if M == 1 else (1 - 2 / (9 * M)) ** 3


def estimate(e, M, method):
    """Noise power in model units, or None when there is nothing to measure."""
    nz, inb = e["noise"], e["inb"]
    med = nz["med2"] / 2 / bias(M) * inb
    trim = nz["trim"] / nz["trimn"] * inb
    if method == 4:
        return None if nz["wideEmpty"] else nz["wide"]
    return {0: sorted([med, trim, nz["excl"]])[1], 1: med, 2: trim, 3: nz["excl"]}[method]


def run(c):
    from adctoolbox import analyze_spectrum
    from adctoolbox.spectrum import compute_spectrum
    r = c.rng
    em = c.tlc("Spectrum", CFG.format(mode="ex", ns=c.n("{8, 9}", "{10, 11, 16}"), wins='{"rect", "hann"}', sbs="{0, 1, 3}",
                                      osrs="{1, 2}", a=20), name="Spectrum/small", exhaustive=True, workers=3)
    scen = []
    for _ in range(c.n(220, 2500)):
        s = scenario(r, dense=r.random() < .7)
        M = r.choice([1, 1, 2, 3, 5])
        for _ in range(M - 1):
            # same fundamental, other noise
            f = s["runs"][0][-1]
            s["runs"].append([[q, r.randint(-40, 40), 0 if 2 * q == s["N"] else r.randint(-40, 40)] for q, _, _ in s["runs"][0][:-1]] + [f])
        if M > 1:
            s["runs"] = [[[q, int(a / 3), int(b / 3)] for q, a, b in run] for run in s["runs"]]
        scen.append(s)
    em += c.tlc("Spectrum", FILE, scen=scen, name="Spectrum/random", workers=4)

    def one(e, corrupt=0.0):
        b = Bind(c, e, r)
        sc = dict(b.sc, M=b.M)
        kw = dict(b.kw)
        cfg = e["c"]
        if not e["centered"]:
            return
        asm = r.choice([-3.0, -20.0]) if r.random() < .1 else None
        if asm is not None:
            kw["assumed_sig_pwr_dbfs"] = asm
        sig = e["sig"] if asm is None else 10 ** (asm / 10) / b.unit
        for method in range(5):
            k2 = dict(kw)
            if method or r.random() < .5:
                k2["nf_method"] = method
            g = c.call(compute_spectrum, b.x, **k2)
            if not c.check(isinstance(g, dict), "analysis answers", sc, None, g):
                continue
            m = g["metrics"]
            p = estimate(e, b.M, method)
            s2 = dict(sc, method=method)
            if p is None:
                c.check(all(math.isnan(m[q]) for q in ("snr_dbc", "noise_floor_dbfs", "nsd_dbfs_hz")) and not corrupt,
                        "nothing left to measure is undefined", s2, "nan", [m[q] for q in ("snr_dbc", "noise_floor_dbfs", "nsd_dbfs_hz")])
                continue
            if p * b.unit < 1e-13:
                p = 0
            close_db(c, m["snr_dbc"], sig, p, "SNR is signal over the estimated noise", s2, corrupt, unit=b.unit)
            c.close(m["noise_floor_dbfs"], m["sig_pwr_dbfs"] - m["snr_dbc"], "noise floor is the signal level minus the SNR", s2, rtol=1e-9)
            if p:
                c.close(m["noise_floor_dbfs"], b.db(p) if asm is None else asm - 10 * math.log10(sig / p), "noise floor", s2, rtol=0, atol=1e-6)
            bw = b.fs / 2 * cfg["osr"][1] / cfg["osr"][0]
            c.close(m["nsd_dbfs_hz"], m["noise_floor_dbfs"] - 10 * math.log10(bw) + corrupt, "density is the floor over the analysed bandwidth", s2, rtol=0, atol=1e-7)
            c.trace({"N": cfg["N"], "method": method, "M": b.M, "noise": p})
            if method == 2 and not cfg["cut"] and r.random() < .1:
                a = c.call(analyze_spectrum, b.x, create_plot=False, **k2)
                if c.check(isinstance(a, dict), "wrapper answers", s2, None, a):
                    c.close([a["snr_dbc"], a["nsd_dbfs_hz"], a["noise_floor_dbfs"]], [m["snr_dbc"], m["nsd_dbfs_hz"], m["noise_floor_dbfs"]],
                            "wrapper reports the same noise", s2, rtol=1e-9)

    for e in em:
        one(e)
    c.selftest(lambda: [one(e, 0.01) for e in em[-20:]])

    # the same noise below a much stronger tone: weak is not empty
    def faint(e, corrupt=0.0):
        cfg = e["c"]
        b, amp = cfg["runs"][0][-1][0], math.hypot(*cfg["runs"][0][-1][1:])
        nz = [v for i, v in enumerate(e["P"][:e["inb"]]) if v and abs(i - b) > cfg["sb"] and i > cfg["sb"]]
        if e["F"] != b or cfg["sb"] < LOBE[cfg["win"]] or cfg["cut"] or not nz or any(run[-1] != cfg["runs"][0][-1] for run in cfg["runs"]) or \
                b <= 2 * LOBE[cfg["win"]] or b + LOBE[cfg["win"]] >= e["inb"] or 2 * b + 2 * LOBE[cfg["win"]] >= cfg["N"]:
            return
        M = len(cfg["runs"])
        typ = sorted(nz)[len(nz) // 2]
        level = 10 ** -r.uniform(9, 16.3)                      # of the typical bin below full scale
        peak = math.sqrt(typ / (2 * M * e["E"]) / level)
        unit = 1 / (2 * M * e["E"] * peak ** 2)
        if peak < 20 * amp or min(nz) * unit < 1e-19:
            return
        x = []
        for run in cfg["runs"]:
            q, re, im = run[-1]
            x.append(record(cfg["N"], run[:-1]) + record(cfg["N"], [[q, re * peak / amp, im * peak / amp]]))
        x = np.array(x) if M > 1 else x[0]
        o = cfg["osr"][0] / cfg["osr"][1]
        sc = dict({k: cfg[k] for k in ("N", "win", "sb", "osr", "H")}, runs=M, bin=b, typical=level)
        for method in range(5):
            p = estimate(e, M, method)
            if not p or p * unit < 3e-15:
                continue
            g = c.call(compute_spectrum, x, win_type=WIN[cfg["win"]][0], side_bin=cfg["sb"], osr=o, max_harmonic=cfg["H"], max_scale_range=peak, nf_method=method)
            if c.check(isinstance(g, dict), "analysis answers", sc, None, g):
                c.close(g["metrics"]["noise_floor_dbfs"], 10 * math.log10(p * unit) + corrupt, "noise far below the tone is still noise", dict(sc, method=method), rtol=0, atol=2e-3)
                c.trace()

    for e in em:
        faint(e)
        faint(e)
    c.selftest(lambda: [faint(e, 0.1) for e in em[-60:]], "faint noise")

    for bad in (5, -1, 7, 100):
        g = c.call(compute_spectrum, np.sin(np.arange(64.0)), nf_method=bad)
        c.check(isinstance(g, Refused) and g.type == "ValueError", "unknown method is refused", {"nf_method": bad}, "ValueError", g)

    # recorded spectra (noise, any window, averaged runs)
    recs = []
    npr = np.random.default_rng(c.seed + 909)
    for _ in range(c.n(60, 500)):
        n = r.choice([64, 101, 128, 200])
        M = r.choice([1, 1, 2, 4])
        o = r.choice([[1, 1], [1, 1], [2, 1], [3, 2]])
        top = n * o[1] // (2 * o[0])
        b0 = r.randint(3, top - 4)
        k = np.arange(n)
        x = np.sin(2 * np.pi * b0 * k / n + r.uniform(0, 6)) + r.choice([.05, .1, .2]) * npr.standard_normal((M, n))
        if r.random() < .5:
            x = x + .1 * x ** 2 - .05 * x ** 3
        kw = {"win_type": r.choice(["hann", "blackmanharris", "flattop", "kaiser", "chebwin", "boxcar", "blackman"]), "side_bin": r.randint(0, 6),
              "max_harmonic": r.randint(2, 7), "osr": o[0] / o[1], "max_scale_range": 1.0, "fs": r.choice([1.0, 3e8])}
        gs = [c.call(compute_spectrum, x, nf_method=q, **kw) for q in range(5)]
        if not c.check(all(isinstance(g, dict) for g in gs), "analysis answers", {"N": n, **kw}, None, gs):
            continue
        p = 10 ** (np.asarray(gs[0]["plot_data"]["power_spectrum_db_plot"]) / 10)
        scale = 2e8 / p.sum()
        recs.append((gs, M, scale, kw, {"N": n, "win": "rect", "sb": kw["side_bin"], "osr": o, "H": kw["max_harmonic"], "cut": 0,
                                        "p": [max(1, round(v * scale)) if v > 2e-20 else 0 for v in p], "id": len(recs)}))
    et = c.tlc("Spectrum", FILE, scen=[x[4] for x in recs], name="Spectrum/recorded", workers=4)

    def back(e, corrupt=0.0):
        gs, M, scale, kw, cfg = recs[e["c"]["id"]]
        pd = gs[0]["plot_data"]
        if abs(pd["fundamental_bin_fractional"] - e["F"]) * cfg["H"] >= 0.4 or pd["fundamental_bin"] != e["F"]:
            return
        for method, g in enumerate(gs):
            m = g["metrics"]
            p = estimate(e, M, method)
            s2 = {"N": cfg["N"], "M": M, "method": method, **kw}
            if p is None:
                c.check(math.isnan(m["snr_dbc"]), "recorded: nothing left to measure is undefined", s2, "nan", m["snr_dbc"])
                continue
            if p < 300 * cfg["N"]:
                continue
            tol = 4.343 * 3 * cfg["N"] / p + 1e-5
            c.close(m["noise_floor_dbfs"], 10 * math.log10(p / scale) + corrupt, "recorded: noise floor", s2, rtol=0, atol=tol)
            c.trace()

    for e in et:
        back(e)
    c.selftest(lambda: [back(e, 0.5) for e in et[:8]], "recorded spectra")
