"""C10: information-free transformations of a capture leave the spectrum metrics alone."""
import math

import numpy as np
from lib.vf import Refused

CFG = """SPECIFICATION Spec
CONSTANTS
 Mode = "{mode}"
 Depth = {d}
INVARIANTS ShapeKept LevelFollows AutoLevelKept EmitAll
CHECK_DEADLOCK FALSE
"""
REL = ("sndr_dbc", "sfdr_dbc", "thd_dbc", "enob", "snr_dbc")


def apply(x, o):
    k, v, i = o["op"], o["v"], o["i"] - 1
    x = x.copy()
    if k == "scale":
        return x * v
    if k == "offset":
        return x + v
    if k == "offsetrun":
        x[i] = x[i] + v
    elif k == "shift":
        return np.roll(x, v, axis=1)
    elif k == "shiftrun":
        x[i] = np.roll(x[i], v)
    elif k == "reverse":
        return x[:, ::-1].copy()
    elif k == "stack":
        return np.tile(x, (v, 1))
    elif k == "permute":
        return np.roll(x, -1, axis=0)
    return x


def run(c):
    from adctoolbox import analyze_spectrum, quick_sndr
    from adctoolbox.spectrum import compute_spectrum
    r = c.rng
    em = c.tlc("SpecMorph", CFG.format(mode="ex", d=c.n(2, 3)), name="SpecMorph/words", exhaustive=True, workers=4)
    scen = []
    for _ in range(c.n(200, 2000)):
        todo, gains = [], 0
        for _ in range(r.randint(3, 8)):
            o = r.choice([("scale", 0, -1), ("scale", 0, 2), ("offset", 0, r.randint(-9, 9)), ("shift", 0, r.randint(1, 9)), ("reverse", 0, 0),
                          ("relabel", 0, r.choice([2, 10])), ("stack", 0, r.choice([2, 3])), ("permute", 0, 0), ("refscale", 0, r.choice([2, 3])),
                          ("layout", 0, 0), ("offsetrun", 1, 7), ("shiftrun", 1, r.randint(1, 9)), ("type", 0, 0)])
            big = o[0] in ("refscale", "stack", "relabel") or (o[0] == "scale" and o[2] != -1)
            gains += big
            if not (big and gains > 2):
                todo.append({"op": o[0], "i": o[1], "v": o[2]})
        todo = todo or [{"op": "reverse", "i": 0, "v": 0}]
        m, n = r.randint(1, 3), r.randint(3, 5)
        rec = [[r.randint(-2, 2) for _ in range(n)] for _ in range(m)]
        rec[0][0], rec[0][1] = 2, -1
        scen.append({"recs": rec, "todo": todo})
    em += c.tlc("SpecMorph", CFG.format(mode="file", d=0), scen=scen, name="SpecMorph/long", workers=4)
    npr = np.random.default_rng(c.seed * 7919 + 10)

    def base(n, m, isolated):
        k = np.arange(n)
        b = r.randint(5, n // 4 - 4)
        if isolated:
            b = 12
            tones = [(12, 1.0), (24, .03), (36, .01), (30, .02)]
        else:
            tones = [(b, 1.0), (2 * b % n, .02), (3 * b % n, .01), (r.randint(2, n // 2 - 1), .005)]
        x = np.zeros((m, n))
        for i in range(m):
            for q, a in tones:
                x[i] += a * np.cos(2 * np.pi * q * k / n + r.uniform(0, 6))
        if not isolated:
            x += .003 * npr.standard_normal((m, n))
        return x

    def present(x, word):
        """The layout and element type the history asked for."""
        lay = sum(o["op"] == "layout" for o in word)
        typ = sum(o["op"] == "type" for o in word)
        m = x.shape[0]
        if m == 1:
            y = [x[0], x, x.T][lay % 3] if lay else x[0]
        else:
            y = x.T if lay and x.shape[1] > 2 * m else x
        if typ:
            y = r.choice([lambda v: v.tolist(), np.asfortranarray, lambda v: np.ascontiguousarray(v), lambda v: v[::1], lambda v: v.astype(np.longdouble).astype(float)])(y)
        return y

    def one(e, corrupt=0.0):
        w = e["word"]
        moving = any(o["op"] in ("shift", "shiftrun", "reverse") for o in w)
        isolated = moving and r.random() < .4
        n = 96 if isolated else r.choice([64, 90, 101, 128, 255])
        x0 = base(n, e["m0"], isolated)
        if r.random() < .3 and not isolated:
            x0 = np.round(x0 * 2000)          # an integer record
        ints = np.all(x0 == np.round(x0))
        x = x0
        for o in w:
            x = apply(x, o)
        win = "boxcar" if moving else r.choice(["hann", "boxcar", "blackman", "flattop", "kaiser", "hamming"])
        kw = {"win_type": win, "osr": r.choice([1, 1, 2]) if not isolated else 1, "max_harmonic": r.randint(3, 7)}
        if isolated:
            kw["win_type"], kw["side_bin"] = "hann", r.choice([1, 2])
        elif r.random() < .5:
            kw["side_bin"] = r.randint(0, 3)
        stacked = e["m"] != e["m0"]
        if ints and not isolated:
            kw["nf_method"] = r.choice([3, 4])     # an integer record may have exactly empty bins, which rounding can fill
        else:
            kw["nf_method"] = r.choice([2, 3, 4]) if stacked else r.choice([0, 1, 2, 3, 4])
        auto = e["auto"] and e["ref"] == 1 and r.random() < .5
        peak = float(np.max(np.abs(x0))) * 1.1
        f0 = r.choice([1.0, 1e8])
        sc = {"word": [f"{o['op']}({o['i']},{o['v']})" for o in w], "N": n, "M": e["m0"], "auto": auto, "integer": bool(ints), **kw}
        a = c.call(compute_spectrum, x0 if e["m0"] > 1 else x0[0], fs=f0, max_scale_range=None if auto else peak, **kw)
        y = present(x, w)
        if ints and any(o["op"] == "type" for o in w):
            y = np.asarray(x if e["m"] > 1 else x[0]).astype(r.choice([np.int64, np.int32, np.float32]))
        b = c.call(compute_spectrum, y, fs=f0 * e["fs"], max_scale_range=None if auto else peak * e["ref"], **kw)
        if not c.check(isinstance(a, dict) and isinstance(b, dict), "analysis answers", sc, None, [a, b]):
            return
        tol = 2e-3 if getattr(y, "dtype", None) == np.float32 else 1e-6
        ma, mb = a["metrics"], b["metrics"]
        for k in REL:
            if k == "snr_dbc" and (isolated or ma[k] > 120):
                continue
            if k == "thd_dbc" and ma[k] < -100 and mb[k] < -100:
                continue                      # every harmonic excluded: nothing but the floor of the logarithm
            if min(ma["sndr_dbc"], mb["sndr_dbc"]) > 120:
                continue                      # nothing in band besides the signal lobe
            c.close(mb[k], ma[k] + corrupt, f"{k} unchanged", sc, rtol=0, atol=tol)
        if not isolated:
            ha, hb = (np.maximum(np.asarray(z["harmonics_dbc"], float), -100) for z in (ma, mb))
            c.close(hb, ha, "harmonics unchanged", sc, rtol=0, atol=tol * 10)
        c.check(a["plot_data"]["fundamental_bin"] == b["plot_data"]["fundamental_bin"], "fundamental bin unchanged", sc)
        dl = 0.0 if auto else 10 * math.log10(e["lvl"][0] / e["lvl"][1])
        c.close(mb["sig_pwr_dbfs"], ma["sig_pwr_dbfs"] + dl + corrupt, "signal level follows the reference", sc, rtol=0, atol=tol)
        if not isolated and ma["snr_dbc"] < 120 and ma["sndr_dbc"] < 120:
            c.close(mb["noise_floor_dbfs"], ma["noise_floor_dbfs"] + dl, "noise floor follows the reference", sc, rtol=0, atol=tol)
            c.close(mb["nsd_dbfs_hz"], ma["nsd_dbfs_hz"] + dl - 10 * math.log10(e["fs"]), "density follows the sampling rate", sc, rtol=0, atol=tol)
        c.close(b["plot_data"]["freq"], a["plot_data"]["freq"] * e["fs"], "frequency axis follows the sampling rate", sc, rtol=1e-9)
        pa, pb = (10 ** (np.asarray(z["plot_data"]["power_spectrum_db_plot"]) / 10) for z in (a, b))
        c.close(pb, pa * 10 ** (dl / 10), "bin powers follow the reference", sc, rtol=tol, atol=1e-12 if tol > 1e-4 else 1e-15)
        if e["m"] == 1 and kw["osr"] == 1 and e["m0"] == 1:
            q = [c.call(quick_sndr, z, fs=f, win_type=kw["win_type"], side_bin=kw.get("side_bin"), max_scale_range=s)
                 for z, f, s in ((x0[0], f0, None), (y, f0 * e["fs"], peak))]
            if c.check(all(isinstance(z, dict) for z in q), "lean routine answers", sc, None, q):
                c.close(q[1]["sndr_dbc"], q[0]["sndr_dbc"] + corrupt, "lean SNDR unchanged", sc, rtol=0, atol=tol)
        if r.random() < .15:
            q = [c.call(analyze_spectrum, z, fs=f, max_scale_range=s, create_plot=False, **kw)
                 for z, f, s in ((x0, f0, peak), (y, f0 * e["fs"], peak * e["ref"]))]
            if c.check(all(isinstance(z, dict) for z in q), "wrapper answers", sc, None, q):
                q = [{k: min(120.0, max(-100.0, z[k])) for k in REL[:3]} for z in q]
                c.close([q[1][k] for k in REL[:3]], [q[0][k] + corrupt for k in REL[:3]], "wrapper metrics unchanged", sc, rtol=0, atol=tol)
        c.trace({"word": sc["word"], "level_db": dl, "fs": e["fs"], "runs": e["m"]})

    for e in em:
        one(e)
    c.selftest(lambda: [one(e, 0.01) for e in em[:10]])

    # which way round an array is, and what is not a record
    x = np.cos(2 * np.pi * 5 * np.arange(40) / 40) + .02 * npr.standard_normal((3, 40))
    want = c.call(compute_spectrum, x, max_scale_range=1.0)
    for rows in (1, 2, 3):
        a, b = c.call(compute_spectrum, x[:rows], max_scale_range=1.0), c.call(compute_spectrum, x[:rows].T.copy(), max_scale_range=1.0)
        if c.check(isinstance(a, dict) and isinstance(b, dict), "analysis answers", {"rows": rows}, None, [a, b]):
            c.check((b["M"], b["N"]) == (rows, 40) and (rows == 1 or any("transpose" in str(w.message).lower() for w in c.warned)),
                    "an array the other way round is turned, saying so", {"rows": rows}, (rows, 40), (b["M"], b["N"]))
            c.close(b["metrics"]["sndr_dbc"], a["metrics"]["sndr_dbc"], "an array the other way round is the same record", {"rows": rows}, rtol=1e-9)
    for m, n in ((40, 40), (60, 40), (80, 40), (41, 40)):
        y = np.tile(x[0], (m, 1))
        g = c.call(compute_spectrum, y, max_scale_range=1.0)
        if c.check(isinstance(g, dict), "analysis answers", {"shape": (m, n)}, None, g):
            c.check((g["M"], g["N"]) == (m, n), "as many runs as twice the samples are still runs", {"shape": (m, n)}, (m, n), (g["M"], g["N"]))
    for what, fn in {"three dimensions": lambda: compute_spectrum(np.zeros((2, 3, 8))), "three dimensions (lean)": lambda: quick_sndr(np.zeros((2, 2, 8))),
                     "range of one": lambda: compute_spectrum(x, max_scale_range=(1.0,)), "range of three": lambda: compute_spectrum(x, max_scale_range=[0, 1, 2])}.items():
        g = c.call(fn)
        c.check(isinstance(g, Refused) and isinstance(g.exc, ValueError), f"refused: {what}", {}, "ValueError", g)
