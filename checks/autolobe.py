"""Automatic side bins, window shapes and record preparation (part of C08)."""
import math

import numpy as np
from lib.vf import Refused
from scipy.signal import windows as sw
from scipy.special import i0

AL = """SPECIFICATION Spec
CONSTANTS
 Mode = "{mode}"
 MaxB = {b}
INVARIANTS InsideBand OwnLobe Covers Stops EdgeMeansLoud MedianIsMedian EmitDone
PROPERTY Decides
CHECK_DEADLOCK FALSE
"""
COS = {"hann": (.5, .5), "hamming": (.54, .46), "blackman": (.42, .5, .08), "blackmanharris": (.35875, .48829, .14128, .01168),
       "flattop": (.21557895, .41663158, .277263158, .083578947, .006947368), "rectangular": (1.0,)}
OWN = {"rectangular": 0, "hann": 1, "hamming": 1, "blackman": 2, "blackmanharris": 3, "flattop": 4, "kaiser": 8, "chebwin": 4}
WIDE = {"rectangular": 1, "hann": 3, "hamming": 3, "blackman": 4, "blackmanharris": 5, "flattop": 6, "kaiser": 10, "chebwin": 6}
NAMES = {"boxcar": "rectangular", "Boxcar": "rectangular", "Kaiser": "kaiser", "no such window": "hann"}


def window(name, n):
    """The named window, one period of it, from its definition."""
    name = NAMES.get(name, name)
    k = np.arange(n)
    if name == "kaiser":
        return i0(38 * np.sqrt(np.maximum(0, 1 - (2 * k / n - 1) ** 2))) / i0(38)
    if name == "chebwin":
        return sw.chebwin(n, 100, sym=False)
    return sum((-1) ** i * a * np.cos(2 * np.pi * i * k / n) for i, a in enumerate(COS[name]))


def bins(x, w):
    """One-sided powers of the records under the window, a full-scale sine adding up to one."""
    x = np.atleast_2d(x)
    n = x.shape[1]
    p = np.mean(np.abs(np.fft.rfft(x * w, axis=1)) ** 2, axis=0) / n ** 2 * 4 / np.mean(w ** 2)
    p[0] /= 2
    if n % 2 == 0:
        p[-1] /= 2
    return p


def cdb(v):
    """Hundredths of dB above -400 dB; removed bins at zero."""
    v = np.asarray(v, float)
    return [0 if q <= 1.0000001e-20 else int(round(1000 * math.log10(q) + 40000)) for q in v]


def leak(v):
    return [int(round(1000 * math.log10(max(q, 1e-39)) + 40000)) for q in v]


def run(c, compute_spectrum):
    r = c.rng
    npr = np.random.default_rng(c.seed + 8080)
    c.tlc("AutoLobe", AL.format(mode="ex", b=c.n(4, 5)), name="AutoLobe/small", exhaustive=True, workers=4)
    recs, scen = [], []
    for _ in range(c.n(160, 1500)):
        n = r.choice([64, 65, 90, 128, 200])
        win = r.choice(["boxcar", "rectangular", "hann", "hann", "hamming", "blackman", "blackmanharris", "flattop", "kaiser", "chebwin", "Kaiser",
                        "no such window", "Boxcar"])
        own = NAMES.get(win, win)
        o = r.choice([1, 1, 1, 2, 1.5])
        top = int(n // (2 * o))
        where = r.choice(["low", "high", "mid", "mid", "mid"])
        b = {"low": r.uniform(1, 6), "high": r.uniform(top - 5, top - .6), "mid": r.uniform(6, top - 6)}[where]
        if r.random() < .4:
            b = float(round(b))
        m = r.choice([1, 1, 1, 3])
        k = np.arange(n)
        lvl = r.choice([0, 1e-5, 1e-3, .01, .05])
        x = np.array([np.cos(2 * np.pi * b * k / n + r.uniform(0, 6)) for _ in range(m)]) + lvl * npr.standard_normal((m, n))
        if r.random() < .4:
            x = x + .01 * x ** 2
        x = x + r.choice([0, 2.5])
        cut = r.choice([0, 0, 0, r.randint(1, max(1, int(b / 2)))])
        kw = {"win_type": win, "osr": o, "max_scale_range": 1.0, "cutoff_freq": max(cut - .5, 0) / n}
        sc = {"N": n, "bin": b, "runs": m, "noise": lvl, **kw}
        g = c.call(compute_spectrum, x if m > 1 else x[0], **kw)
        if not c.check(isinstance(g, dict), "analysis answers", sc, None, g):
            continue
        pd = g["plot_data"]
        w = window(win, n)
        p = bins(x - x.mean(axis=1, keepdims=True), w)
        p[:cut] = 1e-20
        got = 10 ** (np.asarray(pd["power_spectrum_db_plot"], float) / 10)
        if not c.check(got.shape == p.shape, "bins from DC to Nyquist", sc, p.shape, got.shape):
            continue
        c.check(np.all(np.abs(got - p) <= 1e-6 * p + 1e-15), "power in every bin is that of the record under the named window", sc,
                None, {"bin": int(np.argmax(np.abs(got - p) - 1e-6 * p))})
        q = np.asarray(pd["fundamental_bin_fractional"], float)
        F = int(pd["fundamental_bin"])
        B = min(len(p), int(math.floor(n / (2 * o))) + 1)
        c.check(F == int(np.argmax(p[:B])), "fundamental is the strongest in-band bin", sc, int(np.argmax(p[:B])), F)
        ideal = bins(np.sin(2 * np.pi * float(q) * k / n), w)
        ideal = ideal * p[F] / max(ideal[F], 1e-30)
        room = min(F, B - 1 - F)
        i = len(recs)
        recs.append((sc, F, B, pd["sig_bin_start"], pd["sig_bin_end"]))
        scen.append({"id": i, "B": B, "F": F, "p": cdb(p[:B]), "left": leak([ideal[F - j] for j in range(1, room + 1)]) + [0],
                     "right": leak([ideal[F + j] for j in range(1, room + 1)]) + [0], "minimum": OWN[own], "fallback": WIDE[own],
                     "deep": leak([p[F] * 1e-24])[0], "slack": 2})
    em = c.tlc("AutoLobe", AL.format(mode="file", b=3), scen=scen, name="AutoLobe/recorded", workers=4)
    widths = {}
    for e in em:
        widths.setdefault(e["id"], set()).add(e["sb"])

    def one(i, off=0):
        sc, F, B, lo, hi = recs[i]
        ok = widths[i]
        # rounding noise at the very bottom of the arithmetic may decide a silent record
        if sc["noise"] == 0 and len(ok) > 1:
            return
        s = F - lo + off
        c.check(min(ok) <= s <= max(ok) and hi - 1 - F + off == s, "automatic side bins reach to where the tone's leakage meets the typical bin", sc,
                sorted(ok), (int(F - lo), int(hi - 1 - F)))
        c.trace({"case": sc, "side_bins": sorted(ok)})

    for i in sorted(widths):
        one(i)
    c.check(len(widths) == len(recs), "every record decided", {}, len(recs), len(widths))
    c.selftest(lambda: [one(i, 1) for i in sorted(widths)[:20]], "automatic side bins")
