"""Scenario generation and comparison shared by the spectrum checks."""
import math

import numpy as np
from lib.vf import Refused

CFG = """SPECIFICATION Spec
CONSTANTS
 Mode = "{mode}"
 NS = {ns}
 Wins = {wins}
 SBs = {sbs}
 OSRs = {osrs}
 MaxA = {a}
INVARIANTS Partition SpurInRest NoDoubleCount NoiseWithinRest Calibrated EmitDone
CHECK_DEADLOCK FALSE
"""
FILE = CFG.format(mode="file", ns="{8}", wins='{"rect"}', sbs="{0}", osrs="{1}", a=1)
WIN = {"rect": ["boxcar", "rectangular", "Rectangular"], "hann": ["hann", "Hann"], "hamming": ["hamming"], "blackman": ["blackman"]}
LOBE = {"rect": 0, "hann": 1, "hamming": 1, "blackman": 2}
AMAX = {"rect": 20000, "hann": 8000, "hamming": 300, "blackman": 380}


def fold(x, n):
    y = x % n
    return n - y if 2 * y > n else y


def gauss(r, a):
    """Gaussian integer of modulus about a, in a random direction."""
    if a <= 1 or r.random() < .3:
        return r.choice([(a, 0), (0, a), (-a, 0), (0, -a)])
    t = r.uniform(0, 2 * math.pi)
    return (round(a * math.cos(t)), round(a * math.sin(t)))


def scenario(r, nmax=128, dense=False):
    n = r.choice([16, 20, 27, 32, 33, 48, 50, 63, 64, 100, 101, 128])
    n = min(n, nmax)
    w = r.choice(["rect", "rect", "hann", "hann", "hamming", "blackman"])
    a = AMAX[w]
    top = (n - 1) // 2
    osr = r.choice([[1, 1]] * 4 + [[2, 1], [4, 1], [3, 2], [8, 1], [5, 4]])
    inb = n * osr[1] // (2 * osr[0])
    b = r.randint(1, max(1, min(top, inb)))
    H = r.randint(2, 9)
    tones = {}
    for h in range(2, H + 1):
        if r.random() < .6:
            q = fold(h * b, n)
            if 0 < q <= top and q != b:
                tones[q] = gauss(r, max(1, int(a / 10 ** r.uniform(1, 2.6))))
    for _ in range(r.randint(0, 6)):
        q = r.randint(1, top)
        if q != b:
            tones[q] = gauss(r, max(1, int(a / 10 ** r.uniform(.7, 2.8))))
    if n % 2 == 0 and r.random() < .2:
        tones[n // 2] = (max(1, a // 200), 0)
    if dense:
        for q in range(1, top + 1):
            if q != b and q not in tones and r.random() < .9:
                tones[q] = gauss(r, r.randint(1, max(2, a // 100)))
    tones[b] = gauss(r, a)
    sb = r.choice([LOBE[w], LOBE[w], LOBE[w] + 1, r.randint(0, 4)])
    return {"N": n, "win": w, "sb": sb, "osr": osr, "H": H, "cut": r.choice([0] * 5 + [r.randint(1, max(1, b))]),
            "runs": [[[q, z[0], z[1]] for q, z in tones.items()]]}


def record(N, run):
    k = np.arange(N)
    x = np.zeros(N)
    for b, re, im in run:
        if 2 * b == N:
            x += re * np.where(k % 2 == 0, 1.0, -1.0)
        else:
            t = 2 * np.pi * ((b * k) % N) / N
            x += re * np.cos(t) - im * np.sin(t)
    return x


class Bind:
    """One emitted behaviour and its replay through the implementation."""

    def __init__(self, c, e, r, **over):
        self.c, self.e = c, e
        cfg = e["c"]
        self.cfg = cfg
        N = cfg["N"]
        self.fs = r.choice([1.0, 1e6, 250e6])
        self.gain, self.dc = r.choice([(1.0, 0.0), (0.37, 5.0), (-2.0, -1.0), (1e-3, 0.5)])
        runs = [record(N, run) for run in cfg["runs"]]
        self.x = np.array(runs) * self.gain + self.dc if len(runs) > 1 else runs[0] * self.gain + self.dc
        peak = r.choice([None, 1, 2])
        amp = max(math.hypot(t[1], t[2]) for run in cfg["runs"] for t in run)
        span = (np.max(self.x) - np.min(self.x)) / 2
        kw = {}
        if peak is None:
            self.peak = span
        elif peak == 1:
            self.peak = float(abs(self.gain) * amp * 2)
            kw["max_scale_range"] = self.peak
        else:
            self.peak = float(abs(self.gain) * amp)
            lo = r.choice([0.0, -self.peak, 3.0])
            kw["max_scale_range"] = r.choice([tuple, list])((lo, lo + 2 * self.peak))
        if self.fs != 1.0 or r.random() < .5:
            kw["fs"] = self.fs
        kw["win_type"] = r.choice(WIN[cfg["win"]])
        if kw["win_type"] == "hann" and r.random() < .3:
            del kw["win_type"]
        kw["side_bin"] = cfg["sb"]
        o = cfg["osr"][0] / cfg["osr"][1]
        kw["osr"] = int(o) if o == int(o) else o
        if kw["osr"] == 1 and r.random() < .5:
            del kw["osr"]
        if cfg["H"] != 5 or r.random() < .5:
            kw["max_harmonic"] = cfg["H"]
        if cfg["cut"]:
            # any cutoff in (cut-1, cut] bins removes bins below `cut`
            kw["cutoff_freq"] = (cfg["cut"] - r.choice([0.0, .3, .9]) * 1.0) * self.fs / N
            if kw["cutoff_freq"] == cfg["cut"] * self.fs / N:
                kw["cutoff_freq"] *= 1 - 1e-12
        kw.update(over)
        self.kw = kw
        self.M = len(runs)
        # unit of the integer powers, in full-scale power
        self.unit = self.gain ** 2 / (2 * self.M * e["E"] * self.peak ** 2)
        self.sc = {k: cfg[k] for k in ("N", "win", "sb", "osr", "H", "cut")}
        self.sc["tones"] = cfg["runs"][0][:8]
        self.sc["kw"] = {k: v for k, v in kw.items()}

    def db(self, p):
        return 10 * math.log10(p * self.unit)


def close_db(c, got, num, den, clause, sc, corrupt=0.0, tol=1e-6, unit=1.0):
    """10*log10(num/den); an absent quantity counts as less than -125 dB of full scale."""
    if isinstance(got, Refused):
        c.fail(clause, sc, None, got)
        return
    if num > 0 and den > 0:
        c.close(got, 10 * math.log10(num) - 10 * math.log10(den) + corrupt, clause, sc, rtol=0, atol=tol)
    elif den == 0 and num > 0:
        big = 125 + 10 * math.log10(num * unit)
        c.check(got >= big and not corrupt, clause, sc, f">= {big}", got)
    elif num == 0:
        big = 125 + 10 * math.log10(den * unit)
        c.check((not got > -big) and not corrupt, clause, sc, f"<= -{big}", got)
