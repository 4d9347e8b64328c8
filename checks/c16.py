"""C16: foreground calibration of bit weights from sine captures."""
import itertools
import math

import numpy as np
from lib.vf import Refused

CFG = """SPECIFICATION Spec
CONSTANTS
 Mode = "{mode}"
INVARIANTS IsSine IsPeriodic WeightsExact EmitDone
CHECK_DEADLOCK FALSE
"""
AL = {3: -1, 4: 0, 6: 1}


def levels(cap):
    v = [cap["p"], cap["q"]]
    while len(v) < cap["len"]:
        v.append(AL[cap["per"]] * v[-1] - v[-2])
    return v[:cap["len"]]


def telling(w, codes, caps, drop):
    """Can some coding of these captures determine the weights?"""
    by = {}
    for x in codes:
        by.setdefault(int(np.dot(w, x)), []).append(x)
    live = [k for k in range(len(w)) if k not in drop]
    rows = []
    for i, cap in enumerate(caps):
        for t, v in enumerate(levels(dict(cap, len=cap["per"]))):
            a = 2 * math.pi * t / cap["per"]
            for x in by.get(cap["dc"] + v, []):
                z = [0.0] * (3 * len(caps))
                z[3 * i:3 * i + 3] = [1, math.cos(a), math.sin(a)]
                rows.append([x[k] for k in live] + z)
    d = np.array(rows, float)
    return len(d) >= d.shape[1] - 1 and np.linalg.svd(d, compute_uv=False)[d.shape[1] - 2] > .05


def run(c):
    from adctoolbox import calibrate_weight_sine
    from adctoolbox.calibration import calibrate_weight_sine_lite
    r = c.rng
    npr = np.random.default_rng(1616 + c.seed)

    def identities(g, caps, sc, f, single, harm=1):
        """What every answer must satisfy, whatever the data."""
        w = np.asarray(g["weight"], float)
        off = float(np.squeeze(g["offset"]))
        lists = [g[k] for k in ("calibrated_signal", "ideal", "error")]
        if not c.check(all(len(x) == len(caps) for x in lists), "one record per capture", sc, len(caps), [len(x) for x in lists]):
            return False
        c.check(np.sum(w) >= -1e-12, "weights sum to a positive value", sc, None, w)
        snr, enob = np.atleast_1d(g["snr_db"]), np.atleast_1d(g["enob"])
        c.check(np.ndim(g["snr_db"]) == (0 if single else 1) and len(snr) == len(caps), "one figure of merit per capture", sc, len(caps), g["snr_db"])
        fr = np.atleast_1d(g["refined_frequency"])
        for k, b in enumerate(caps):
            cal, ide, err = (np.asarray(x[k], float) for x in lists)
            c.close(cal, b @ w, "the calibrated signal is the weighted sum of the codes", sc, rtol=1e-9, atol=1e-9)
            c.close(cal - off - ide, err, "signal minus offset minus sine is the error", sc, rtol=1e-9, atol=1e-9)
            pn, ps = np.mean(err ** 2), np.mean(ide ** 2)
            if pn > 0 and ps > 0:
                c.close(snr[k], 10 * math.log10(ps / pn), "signal-to-noise ratio of the returned sine and error", sc, rtol=1e-6, atol=1e-6)
            c.close(enob[k], (snr[k] - 1.76) / 6.02, "effective bits", sc, rtol=1e-6, atol=1e-3)
            # the sine has the refined frequency (and at most the excluded harmonics)
            t = np.arange(len(b))
            B = np.column_stack([fn(2 * np.pi * h * fr[k] * t) for h in range(1, harm + 1) for fn in (np.cos, np.sin)])
            res = ide - B @ np.linalg.lstsq(B, ide, rcond=None)[0]
            c.check(np.max(np.abs(res)) < 1e-6 * (np.max(np.abs(ide)) + 1e-300), "the ideal signal is a sine of the refined frequency", sc, 0, float(np.max(np.abs(res))))
        return True

    # ------------------------------------------------ exact captures from the model
    em = c.tlc("Calib", CFG.format(mode="ex"), name="Calib/small converter, every coding", exhaustive=True, workers=4)
    scen = []
    for i in range(c.n(200, 1500)):
        m = r.randint(2, 7)
        kind = r.choice(["redundant", "random", "negative", "binary"])
        w = {"redundant": [max(1, round(1.6 ** k)) for k in range(m)][::-1], "random": [r.randint(1, 5) for _ in range(m)],
             "negative": [r.choice([-1, 1, 1]) * r.randint(1, 4) for _ in range(m)], "binary": [1 << k for k in range(m)][::-1]}[kind]
        tie = r.choice(["none"] * 4 + ["dup", "dup", "inv", "low", "high"] + ["one", "one", "or", "or", "or"] * (m > 4)) if m > 2 else "none"
        i1, j1, l1 = (r.sample(range(m), 3) + [0])[:3] if m > 2 else [0, 1, 0]
        if tie in ("low", "high") and r.random() < .3:
            w.append(r.randint(1, 9))
            i1, m = m, m + 1
        ok, codes = [], []
        for code in itertools.product((0, 1), repeat=m):
            if (tie == "dup" and code[i1] != code[j1]) or (tie == "inv" and code[i1] == code[j1]) or (tie == "low" and code[i1]) or (tie == "high" and not code[i1]):
                continue
            if (tie == "one" and code[i1] + code[j1] + code[l1] != 1) or (tie == "or" and code[i1] + code[j1] != code[l1]):
                continue
            ok.append(sum(a * b for a, b in zip(w, code)))
            codes.append(code)
        drop = {"none": [], "low": [i1], "high": [i1], "one": [max(i1, j1, l1)], "or": [max(i1, j1, l1)]}.get(tie, [max(i1, j1)])
        reach = set(ok)
        if sum(w) <= 0 or len(reach) < 3:
            continue
        for _ in range(60):
            dc, own = r.choice(sorted(reach)), r.random() < .5
            span = max(reach) - min(reach)
            caps = []
            for _k in range(r.choice([1, 1, 2, 3])):
                cap = {"p": r.randint(-span // 2, span // 2), "q": r.randint(-span // 2, span // 2), "per": r.choice([3, 4, 6]), "len": r.choice([24, 36, 60]),
                       "dc": r.choice(sorted(reach)) if own else dc}
                if (cap["p"] or cap["q"]) and all(cap["dc"] + v in reach for v in levels(dict(cap, len=12))):
                    caps.append(cap)
            if caps and (r.random() < .1 or telling(w, codes, caps, drop)):
                for _k in range(r.choice([1, 3])):
                    scen.append({"id": len(scen), "w": w, "caps": caps, "tie": tie, "i": i1 + 1, "j": j1 + 1, "l": l1 + 1})
                break
    by = {s["id"]: s for s in scen}
    em2 = c.tlc("Calib", CFG.format(mode="file"), scen=scen, name="Calib/random converters", simulate=c.n(400, 3000), depth=400)
    em2 = em2[:c.n(400, 3000)]
    stats = {"exact": 0, "tied": 0, "identity": 0, "none": 0, "dup": 0, "inv": 0, "low": 0, "high": 0, "one": 0, "or": 0}

    def replay(e, corrupt=0.0):
        s = by.get(e["id"]) or e["cfg"]
        caps = [np.array(x) for x in e["rows"]]
        w = np.array(s["w"], float)
        m = len(w)
        tie, i1, j1, l1 = s["tie"], s["i"] - 1, s["j"] - 1, s["l"] - 1
        f = np.array([1.0 / k["per"] for k in s["caps"]])
        amp = [math.sqrt(en) / math.sin(2 * math.pi / k["per"]) for en, k in zip(e["energy"], s["caps"])]
        if min(amp) == 0:
            return
        form = r.choice([int, float, np.int8, np.uint8, bool])
        sc = {"weights": s["w"], "captures": s["caps"], "tie": [tie, i1, j1, l1], "type": form.__name__}
        # what the data can tell: all columns, offset, and the sines
        live = list(range(m))
        if tie in ("low", "high"):
            live.remove(i1)
        elif tie in ("dup", "inv"):
            live.remove(max(i1, j1))
        elif tie in ("one", "or"):
            live.remove(max(i1, j1, l1))
        const = [k for k in live if np.ptp(np.vstack(caps)[:, k]) == 0]
        cols = np.vstack(caps)[:, live].astype(float)
        tot = len(cols)
        per = []
        start = 0
        for k, b in enumerate(caps):
            t = np.arange(len(b))
            for fn in (np.cos, np.sin):
                z = np.zeros(tot)
                z[start:start + len(b)] = fn(2 * np.pi * f[k] * t)
                per.append(z)
            start += len(b)
        D = np.column_stack([cols, np.ones(tot)] + per)
        # one offset column per capture in the fit
        offs = np.zeros((tot, len(caps)))
        start = 0
        for k, b in enumerate(caps):
            offs[start:start + len(b), k] = 1
            start += len(b)
        D2 = np.column_stack([cols, offs] + per)
        sv, sv2 = np.linalg.svd(D, compute_uv=False), np.linalg.svd(D2, compute_uv=False)
        unique = not const and tot >= D2.shape[1] and sv[-2] > 1e-2 and sv2[-2] > 1e-2
        full = np.linalg.matrix_rank(np.column_stack([cols, np.ones(tot)])) == len(live) + 1
        nominal = None
        if r.random() < .4:
            nominal = np.abs(w) if r.random() < .5 else npr.uniform(1, 5, m)
        kw = {}
        if nominal is not None:
            kw["nominal_weights"] = nominal if r.random() < .5 else nominal.tolist()
        single = len(caps) == 1
        same = len(set(f)) == 1
        kw["freq"] = float(f[0]) if single or (same and r.random() < .5) else (f if r.random() < .5 else f.tolist())
        data = [b.astype(form) if r.random() < .8 else np.asfortranarray(b.astype(form)) for b in caps]
        if single and r.random() < .3:
            data = [data[0].T.copy()]
        keep = [d.copy() for d in data]
        g = c.call(calibrate_weight_sine, data[0] if single and r.random() < .7 else data, **kw)
        c.check(all(np.array_equal(a, b) for a, b in zip(keep, data)), "the codes are not modified", sc)
        if not unique:
            stats["identity"] += 1
            if isinstance(g, dict) and np.all(np.isfinite(g["weight"])) and full:
                identities(g, caps, sc, f, single)
            return
        if not c.check(isinstance(g, dict), "calibration answers", sc, None, g):
            return
        if not identities(g, caps, sc, f, single):
            return
        got = np.asarray(g["weight"], float)
        sgn = 1.0
        if tie in ("dup", "inv"):
            a, b = min(i1, j1), max(i1, j1)
            sgb = 1 if tie == "dup" else -1
            eff = w.copy()
            merged = eff[a] + sgb * eff[b]
            rest = [k for k in range(m) if k not in (a, b)]
            vec, gv = np.append(w[rest], merged), np.append(got[rest], got[a] + sgb * got[b])
            nominal = 2.0 ** np.arange(m - 1, -1, -1) if nominal is None else nominal
            if tie == "inv" and abs(nominal[a] - nominal[b]) < 1e-9:
                return
            if abs(merged) < 1e-9:
                return
        elif tie in ("low", "high"):
            c.check(abs(got[i1]) < 1e-9, "a bit that never toggles weighs nothing", sc, 0, got)
            rest = [k for k in range(m) if k != i1]
            vec, gv = w[rest], got[rest]
        elif tie == "one":
            # what the data tell: how much more one of the three weighs than another
            hot = sorted((i1, j1, l1))
            rest = [k for k in range(m) if k not in hot]
            vec, gv = (np.concatenate([x[rest], x[hot[:2]] - x[hot[2]]]) for x in (w, got))
        elif tie == "or":
            rest = [k for k in range(m) if k not in (i1, j1, l1)]
            vec, gv = (np.concatenate([x[rest], x[[i1, j1]] + x[l1]]) for x in (w, got))
        else:
            vec, gv = w, got
        if abs(np.sum(got)) > 1e-9 and abs(np.sum(vec)) < 1e-9:
            return
        # the sign is fixed by the positive sum of all the weights returned
        sgn = 1.0 if np.dot(vec, gv) >= 0 else -1.0
        if tie == "none" or tie in ("low", "high"):
            if np.sum(vec) > 1e-9:
                c.check(sgn > 0, "weights have a positive sum", sc, None, got)
        c.close(gv * amp[0] * sgn, vec * (1 + corrupt), "weights are proportional to the true ones, in units of the first sine's amplitude", sc, rtol=1e-6, atol=1e-6)
        if tie in ("dup", "inv"):
            c.close(got[b] * nominal[a], got[a] * nominal[b], "tied bits share their weight in nominal proportion", sc, rtol=1e-6, atol=1e-9)
        for k in range(len(caps)):
            # (one offset is returned: that of the first capture)
            if s["caps"][k]["dc"] == s["caps"][0]["dc"]:
                c.close(np.asarray(g["error"][k]), np.zeros(len(caps[k])), "an exact capture leaves no error", sc, rtol=0, atol=1e-6)
            c.close(np.asarray(g["ideal"][k]), sgn * np.array(e["vals"][k]) / amp[0], "the sine found is the one applied, on the same scale", sc, rtol=0, atol=1e-6)
        c.close(np.atleast_1d(g["refined_frequency"]), f, "a supplied frequency is kept", sc, rtol=1e-9)
        stats["tied" if tie != "none" else "exact"] += 1
        stats[tie] += 1
        # the minimal version agrees on well-conditioned data
        if single and tie == "none" and full:
            v = np.array(e["vals"][0], float)
            t = np.arange(len(v))
            cosc = 2 * abs(np.mean(v * np.cos(2 * np.pi * f[0] * t)))
            if cosc > .2 * amp[0]:
                lw = c.call(calibrate_weight_sine_lite, caps[0], float(f[0]))
                c.close(lw, vec * sgn / amp[0], "the minimal calibration gives the same weights", sc, rtol=1e-6, atol=1e-6)
        c.trace({"weights": s["w"], "captures": s["caps"], "tie": tie})

    lim = c.n(150, 1500)
    for e in (em if len(em) < lim else r.sample(em, lim)) + em2:
        replay(e)
    c.notes.append(stats)
    c.check(stats["exact"] >= 20 or c.violations, "enough exact captures", {}, 20, stats)
    c.selftest(lambda: [replay(e, 1e-3) for e in em2[:60]])

    # --------------------------- realistic converters: successive approximation with quantisation
    def sar(v, w, lsb):
        """Greedy conversion of v (0..1) with weights w, optionally redundant."""
        acc = np.zeros_like(v)
        bits = np.zeros((len(v), len(w)), int)
        for k, x in enumerate(w):
            bits[:, k] = v >= acc + x
            acc = acc + bits[:, k] * x
        return bits

    for it in range(c.n(60, 300)):
        kind = r.choice(["binary", "sub2", "redundant"])
        base = {"binary": [2.0 ** -k for k in range(1, 11)], "sub2": [1.85 ** -k for k in range(1, 13)],
                "redundant": [512, 256, 128, 64, 64, 32, 16, 8, 4, 2, 1]}[kind]
        w = np.array(base) * (1 + r.choice([0, .01]) * npr.standard_normal(len(base)))
        if kind == "binary":
            w = np.array(base) * (1 - abs(.01 * npr.standard_normal(len(base))) * np.array([1] * 5 + [0] * 5))
        w = w / w.sum()
        ncap = r.choice([1, 1, 2, 3])
        caps, fs_, amps = [], [], []
        dc = .5
        # without a frequency the coarse bits are told from the fine ones by how often they toggle
        mode = r.choice(["known", "known", "search", "auto", "auto"])
        short = mode != "known" and ncap > 1 and r.random() < .6
        for _k in range(ncap):
            n = r.choice([1024, 2000, 4096]) if not short else (4096 if _k else 400)      # short first, long after
            k0 = r.randint(n // 40, n // 2 - n // 40) if mode != "auto" else r.choice([r.randint(n // 40, n // 9), r.randint(2 * n // 5, 12 * n // 25)])
            while math.gcd(k0, n) > 1:      # every sample at a phase of its own
                k0 -= 1
            f = (k0 + r.choice([0, 0, r.uniform(-.5, .5)])) / n
            if min(abs(f * h - round(f * h)) for h in range(1, 13)) < .004 or min(abs(f * h - round(2 * f * h) / 2) for h in range(1, 13)) < .002:
                f = .1234567 if mode != "auto" else r.choice([.0734567, .4234567])
            a = r.uniform(.47, .495)
            v = dc + a * np.sin(2 * np.pi * f * np.arange(n) + r.uniform(0, 6))
            caps.append(sar(v, w, 0))
            fs_.append(f)
            amps.append(a)
        ho = r.choice([1, 1, 2, 3, 5])
        single = ncap == 1
        kw = {"harmonic_order": ho} if ho > 1 or r.random() < .5 else {}
        if mode == "known":
            kw["freq"] = fs_[0] if single else np.array(fs_)
            if r.random() < .3:
                kw["force_search"] = False
        elif mode == "auto":
            a = r.choice(["none", "missing", "zero", "zeros"])
            if a != "missing":
                kw["freq"] = {"none": None, "zero": 0, "zeros": [0.0] * ncap}[a]
        else:
            reach = .05 if short else .3         # a short leading capture narrows the basin of the search
            off = [r.uniform(-reach, reach) / len(b) for b in caps]
            kw["freq"] = fs_[0] + off[0] if single else np.array(fs_) + np.array(off)
            kw["force_search"] = True
        order = None
        inv = None
        dat = [b.copy() for b in caps]
        if mode != "auto" and r.random() < .2:                 # an inverted bit: its weight turns negative
            inv = r.randrange(3, len(w))
            for b in dat:
                b[:, inv] = 1 - b[:, inv]
        if r.random() < .3:                 # a dead bit anywhere
            pos = r.randrange(len(w) + 1)
            dat = [np.insert(b, pos, it % 2, axis=1) for b in dat]
            order = pos
        twin = None
        if order is None and inv is None and mode != "auto" and r.random() < .5:      # a bit wired twice, perhaps inverted
            src, pos, flip = r.randrange(len(w)), r.randrange(len(w) + 1), r.random() < .4
            dat = [np.insert(b, pos, b[:, src] ^ flip, axis=1) for b in dat]
            src += src >= pos
            nom = 2.0 ** np.arange(len(w), -1, -1)
            if r.random() < .6:
                nom = npr.uniform(1, 5, len(w) + 1)
                nom[max(src, pos)] = nom[min(src, pos)] * r.uniform(.1, .6) * r.choice([1, -1])
                kw["nominal_weights"] = nom
            twin = [src, pos, flip]
        wide = 8 if twin and "nominal_weights" not in kw and r.random() < .5 else 0      # unused columns below
        if wide:
            dat = [np.hstack([b, np.zeros((len(b), wide), int)]) for b in dat]
        sc = {"kind": kind, "captures": ncap, "freq": fs_, "mode": mode, "harmonics": ho, "dead": order, "inverted": inv, "wired twice": twin}
        g = c.call(calibrate_weight_sine, dat[0] if single else dat, **kw)
        if not c.check(isinstance(g, dict), "calibration answers", sc, None, g):
            continue
        if not identities(g, dat, sc, fs_, single, ho):
            continue
        got = np.asarray(g["weight"], float)
        if wide:
            c.check(np.max(np.abs(got[-wide:])) < 1e-9, "a bit that never toggles weighs nothing", sc, 0, got)
            got = got[:-wide]
        if order is not None:
            c.check(abs(got[order]) < 1e-9, "a bit that never toggles weighs nothing", sc, 0, got)
            got = np.delete(got, order)
        if twin is not None:
            c.close(got[pos] * nom[src], got[src] * nom[pos], "bits wired together share their weight in nominal proportion", sc, rtol=1e-9, atol=1e-12)
            one = got[src] - got[pos] if flip else got[src] + got[pos]
            got[src] = one
            got = np.delete(got, pos)
            if flip and np.dot(got, w) < 0:       # the positive sum is that of all the weights returned
                got = -got
        true = w.copy()
        if inv is not None:
            true[inv] = -true[inv]
        lsb = max(w[-1], 1e-3)
        c.close(got * amps[0], true, "weights recovered to within the quantisation", sc, rtol=0, atol=lsb * .75)
        c.check(np.min(np.atleast_1d(g["enob"])) > 8.0, "the calibrated converter resolves its bits", sc, None, g["enob"])
        c.close(np.atleast_1d(g["refined_frequency"]), fs_, "the frequency found is the true one", sc, rtol=0, atol=2e-6)
        c.trace({k: sc[k] for k in ("kind", "captures", "mode", "harmonics")})

    # ------------------------------------------------ how far the search goes, and bits that are seldom on
    for it in range(c.n(12, 80)):
        w = np.array([2.0 ** -k for k in range(1, 11)])
        w = w / w.sum()
        n = r.choice([1024, 2000, 4096])
        f = r.choice([r.uniform(.02, .09), r.uniform(.41, .47)])
        v = .5 + .48 * np.sin(2 * np.pi * f * np.arange(n) + r.uniform(0, 6))
        b = sar(v, w, 0)
        sc = {"n": n, "f": f}
        a, d, e = (c.call(calibrate_weight_sine, b, **k) for k in ({}, {"reltol": 1e-16, "max_iter": 300}, {"reltol": 1e-3}))
        if c.check(all(isinstance(x, dict) for x in (a, d, e)), "calibration answers", sc, None, [a, d, e]):
            c.close(a["refined_frequency"] * n, d["refined_frequency"] * n, "the search goes on until the stated tolerance", sc, rtol=0, atol=2e-11)
            c.close(a["weight"], d["weight"], "the search goes on until the stated tolerance", sc, rtol=1e-8, atol=1e-10)
            c.close(e["refined_frequency"] * n, d["refined_frequency"] * n, "a loose tolerance still finds the tone", sc, rtol=0, atol=5e-2)
        a, e = (c.call(calibrate_weight_sine, b, freq=f + q / n, force_search=True) for q in (-.2, .15))
        if c.check(isinstance(a, dict) and isinstance(e, dict), "calibration answers", sc, None, [a, e]):
            c.close(a["refined_frequency"] * n, e["refined_frequency"] * n, "wherever the search starts, it ends in one place", sc, rtol=0, atol=1e-9)
        # without refinement the coarse frequency is final, whatever the search settings
        a, d = (c.call(calibrate_weight_sine, b, force_search=False, **k) for k in ({"max_iter": 1}, {"max_iter": 50, "learning_rate": .9}))
        if c.check(isinstance(a, dict) and isinstance(d, dict), "calibration answers", sc, None, [a, d]):
            c.close(a["refined_frequency"], d["refined_frequency"], "no search when it is switched off", sc, rtol=0, atol=0)
            e = c.call(calibrate_weight_sine, b, freq=float(a["refined_frequency"]))
            c.close(e["weight"] if isinstance(e, dict) else e, a["weight"], "no search when it is switched off", sc, rtol=1e-9, atol=1e-12)
        # an over-range bit is on for less than one sample in a hundred
        n, f = 8192, r.choice([1531, 977, 2777]) / 8192
        a = .48
        v = .5 + a * np.sin(2 * np.pi * f * np.arange(n) + r.uniform(0, 6))
        over = v > .5 + a * r.choice([.9998, .9999])
        wo = r.uniform(.1, .3)
        b = np.insert(sar(v - wo * over, w, 0), r.choice([0, 10]), over, axis=1)
        at = 0 if b[0, 0] == over[0] and np.array_equal(b[:, 0], over) else 10
        if it % 2:                          # and next to it a bit that is never on
            b = np.insert(b, b.shape[1], 0, axis=1)
        g = c.call(calibrate_weight_sine, b, freq=f)
        sc = {"over-range bit": at, "on": int(over.sum()), "weight": wo}
        if c.check(isinstance(g, dict), "calibration answers", sc, None, g):
            c.close(np.asarray(g["weight"])[:11] * a, np.insert(w, at, wo), "seldom used bits are weighed too", sc, rtol=0, atol=w[-1])
        c.trace()

    # ------------------------------------------------------------------ refusals
    for _ in range(c.n(20, 100)):
        b = npr.integers(0, 2, (200, 5))
        f = r.choice([.51, 1.0, 1e6, [.1, .7]])
        g = c.call(calibrate_weight_sine, [b, b] if isinstance(f, list) else b, freq=f)
        c.check(isinstance(g, Refused) and g.type == "ValueError", "a frequency outside the first Nyquist zone is refused", {"freq": f}, "ValueError", g)
        if not isinstance(f, list):
            g = c.call(calibrate_weight_sine_lite, b, f)
            c.check(isinstance(g, Refused) and g.type == "ValueError", "a frequency outside the first Nyquist zone is refused", {"freq": f}, "ValueError", g)
        g = c.call(calibrate_weight_sine, [b, b[:, :4]], freq=.1)
        c.check(isinstance(g, Refused) and g.type == "ValueError", "captures of different width are refused", {}, "ValueError", g)
        g = c.call(calibrate_weight_sine, [b] * r.choice([2, 3]), freq=r.choice([[.1], [.1] * 4, np.array([.1]), np.array([.1, .2, .1, .2])]))
        c.check(isinstance(g, Refused) and g.type == "ValueError", "frequencies must be as many as captures", {}, "ValueError", g)
        for fn in (calibrate_weight_sine, calibrate_weight_sine_lite):
            g = c.call(fn, b, .5)
            c.check(not isinstance(g, Refused), "half the sampling rate is still in the first zone", {}, None, g)
        g = c.call(calibrate_weight_sine, [], freq=.1)
        c.check(isinstance(g, Refused) and g.type == "ValueError", "no capture, no calibration", {}, "ValueError", g)
        g = c.call(calibrate_weight_sine, b, freq=.1, nominal_weights=[1, 2])
        c.check(isinstance(g, Refused) and g.type == "ValueError", "nominal weights must match", {}, "ValueError", g)
        c.trace()
