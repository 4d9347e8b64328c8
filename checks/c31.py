"""C31: historical names answer exactly as their present-day counterparts."""
import itertools

import numpy as np
from checks.c28 import plain, same
from lib.vf import Refused

ALL = ["spectrum", "overflow", "activity", "radix", "calibrate", "pdf", "envelope", "decompose", "byphase", "bycode", "tonsd", "fromnsd", "sinefit", "perfosr"]
CFG = """SPECIFICATION Spec
CONSTANTS
 Names = {%s}
INVARIANTS Single Agree Shaped EmitDone
CHECK_DEADLOCK FALSE
"""
ALIAS = {"sndr_db": "sndr_dbc", "sfdr_db": "sfdr_dbc", "snr_db": "snr_dbc", "thd_db": "thd_dbc", "noise_floor_db": "noise_floor_dbfs"}


def run(c):
    import adctoolbox as A
    import adctoolbox.aout as O
    import adctoolbox.common as C
    import adctoolbox.dout as D
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    r = c.rng
    npr = np.random.default_rng(3100 + c.seed)
    em = c.tlc("Legacy", CFG % ", ".join('"%s"' % n for n in ALL), name="Legacy/every call", exhaustive=True)

    def data():
        n = r.choice([512, 1000])
        k = r.choice([37, 61, 113])
        t = np.arange(n)
        s = r.uniform(.3, .48) * np.sin(2 * np.pi * k * t / n + r.uniform(0, 6))
        sig = s + .01 * s ** 2 + .02 * s ** 3 + npr.standard_normal(n) * 1e-3 + .5
        bits = ((np.clip(np.floor(sig * 256), 0, 255).astype(int)[:, None] >> np.arange(7, -1, -1)) & 1)
        return sig, bits, k / n, npr.uniform(.5, 2, 8).cumsum()[::-1]

    switch = itertools.cycle([{}, {"disp": 0}, {"disp": 1}, {"disp": False}, {"disp": True}])

    def replay(e, corrupt=0):
        sig, bits, f, w = data()
        old, new, opt = (None if e[k] < 0 else e[k] for k in ("old", "new", "opt"))
        opt = opt + corrupt if opt is not None else None
        nm = e["name"]
        if nm in ("tonsd", "fromnsd"):               # a level of zero is a level
            old, new, opt = (None if v is None else v * 10 - 20 if k != "opt" or e["old"] >= 0 or e["new"] >= 0 else v for k, v in (("old", old), ("new", new), ("opt", opt)))

        def kw(o, n):
            d = {}
            if old is not None:
                d[o] = old
            if new is not None:
                d[n] = new
            return d
        sc = {"name": nm, "old": old, "new": new}
        give = None
        if nm == "spectrum":
            got = c.call(O.analyze_spectrum, sig, create_plot=False, **kw("n_thd", "max_harmonic"))
            ref = c.call(A.analyze_spectrum, sig, create_plot=False, max_harmonic=opt)
        elif nm == "overflow":
            k2 = {}
            if old is not None:
                k2["disp"] = old - 2        # 0 = off
            if new is not None:
                k2["create_plot"] = new > 2
            drawn = bool(k2["create_plot"]) if "create_plot" in k2 else bool(k2["disp"]) if "disp" in k2 else True
            plt.close("all")
            got = c.call(D.check_overflow, bits, w, **k2)
            if not isinstance(got, Refused):
                c.check(bool(plt.get_fignums()) == drawn, "the historical plot switch is honoured", sc, drawn, plt.get_fignums())
            plt.close("all")
            ref = c.call(A.analyze_overflow, bits, w, create_plot=False)
        elif nm == "activity":
            got, ref = c.call(D.check_bit_activity, bits, create_plot=False), c.call(A.analyze_bit_activity, bits, create_plot=False)
        elif nm == "radix":
            got, ref = c.call(D.plot_weight_radix, w, create_plot=False), c.call(A.analyze_weight_radix, w, create_plot=False)
        elif nm == "calibrate":
            got = c.call(D.calibrate_weight_sine, bits, freq=f, **kw("order", "harmonic_order"))
            ref = c.call(A.calibrate_weight_sine, bits, freq=f, harmonic_order=opt)
        elif nm == "pdf":
            got, ref = c.call(O.plot_error_pdf, sig, create_plot=False, full_scale=1.0), c.call(A.analyze_error_pdf, sig, create_plot=False, full_scale=1.0)
        elif nm == "envelope":
            got, ref = c.call(O.plot_envelope_spectrum, sig, create_plot=False), c.call(A.analyze_error_envelope_spectrum, sig, create_plot=False)
        elif nm == "decompose":
            a = {} if old is None else {"harmonic": old}
            fr = r.choice([None, f])
            sw = next(switch)
            plt.close("all")
            got = c.call(O.decompose_harmonics, sig, fr, **sw, **a)
            c.check(bool(plt.get_fignums()) == bool(sw.get("disp", 1)), "the historical plot switch is honoured", dict(sc, switch=sw), bool(sw.get("disp", 1)), plt.get_fignums())
            plt.close("all")
            ref = c.call(A.analyze_decomposition_time, sig, harmonic=opt, frequency=fr, max_iterations=1 if fr is None else 0, create_plot=False)
            sc["frequency"] = fr
        elif nm in ("byphase", "bycode"):
            a = {} if old is None else {"bins": old * 5}
            fr = r.choice([None, f])
            old_f, new_f = (O.plot_error_hist_phase, A.analyze_error_by_phase) if nm == "byphase" else (O.plot_error_hist_code, A.analyze_error_by_value)
            sw = next(switch)
            plt.close("all")
            got = c.call(old_f, sig, freq=fr, **sw, **a)
            c.check(bool(plt.get_fignums()) == bool(sw.get("disp", 1)), "the historical plot switch is honoured", dict(sc, switch=sw), bool(sw.get("disp", 1)), plt.get_fignums())
            plt.close("all")
            ref = c.call(new_f, sig, norm_freq=fr, n_bins=opt if old is None else opt * 5, create_plot=False)
            give = sig
            sc["frequency"] = fr
        elif nm in ("tonsd", "fromnsd"):
            v = npr.uniform(-150, 100, 5)
            fs, osr = r.choice([1.0, 1e6, 3e9]), r.choice([1.0, 8.0])
            o, n = (C.snr_to_nsd, A.snr_to_nsd) if nm == "tonsd" else (C.nsd_to_snr, A.nsd_to_snr)
            got, ref = c.call(o, v, fs, osr=osr, **kw("signal_pwr_dbfs", "psignal_dbfs")), c.call(n, v, fs, osr=osr, psignal_dbfs=opt)
        elif nm == "sinefit":
            got, ref = c.call(C.fit_sine, sig, max_iterations=3), c.call(A.fit_sine_4param, sig, max_iterations=3)
        else:
            a = {} if old is None else {"harmonic": old}
            g = np.array(sorted(r.sample(range(1, 60), 6)))
            got = c.call(A.perfosr, sig, osr=g, **a)
            ref = c.call(A.sweep_performance_vs_osr, sig, osr=g, harmonic=opt, create_plot=False)
        if not c.check(not isinstance(got, Refused) and not isinstance(ref, Refused), "both names answer", sc, ref, got):
            return
        F = e["fields"]
        if F == ["same"]:
            c.check(same(plain(ref), plain(got)), "the old name gives the answer of the new one", sc, repr(ref)[:300], repr(got)[:300])
        elif F == ["same", "aliases"]:
            for k, v in ref.items():
                c.check(k in got and same(plain(v), plain(got[k])), "current fields are all there", dict(sc, field=k), repr(v)[:200], repr(got.get(k))[:200])
            for o, n in ALIAS.items():
                if n in ref:
                    c.check(o in got and same(plain(ref[n]), plain(got[o])), "historical fields carry the current values", dict(sc, field=o), ref[n], got.get(o))
        elif F == ["radix"]:
            c.check(same(plain(ref["radix"]), plain(got)), "the old name gives the answer of the new one", sc, ref["radix"], got)
        else:
            want = [sum(np.asarray(ref[x]) for x in k.split("+")) if "+" in k else give if k == "input" else ref[k] for k in F]
            if c.check(isinstance(got, tuple) and len(got) == len(want), "the historical tuple has its historical length", sc, len(want), type(got).__name__):
                for k, a, b in zip(F, want, got):
                    c.check(same(plain(a), plain(b)), "the historical tuple carries the current fields in order", dict(sc, field=k), repr(a)[:200], repr(b)[:200])
        c.trace({"name": nm, "old": old, "new": new})

    for _ in range(c.n(2, 12)):
        for e in em:
            replay(e)
    c.selftest(lambda: [replay(e, 1) for e in em])

    # autocorrelation of an error that is supplied ready-made
    for _ in range(c.n(5, 40)):
        n = 600
        e = npr.standard_normal(n) * .1 + np.sin(2 * np.pi * 50 / n * np.arange(n) + r.uniform(0, 6))
        g = c.call(O.plot_error_autocorr, e, max_lag=5, normalize=False, create_plot=False)
        if c.check(isinstance(g, tuple) and len(g) == 2, "the historical autocorrelation answers", {}, None, g):
            z = e - e.mean()
            want = np.array([np.mean(z[abs(k):] * z[:n - abs(k)]) for k in range(-5, 6)])
            c.check(np.array_equal(g[1], np.arange(-5, 6)), "lags", {}, None, g[1])
            d = c.call(O.plot_error_autocorr, e, create_plot=False)
            f = c.call(O.plot_error_autocorr, e, max_lag=50, normalize=False, create_plot=False)
            if c.check(isinstance(d, tuple) and isinstance(f, tuple), "the historical autocorrelation answers", {}, None, d):
                c.check(np.array_equal(d[1], np.arange(-50, 51)), "fifty lags unless told otherwise", {}, None, len(d[1]))
                c.close(d[0], np.asarray(f[0]) / f[0][50], "normalised unless told otherwise", {}, rtol=1e-9, atol=1e-12)
            c.check(np.allclose(g[0], want, rtol=1e-3, atol=1e-3), "the autocorrelation of a ready-made error is that error's own", {"error": "noise plus a tone"}, want, g[0], key="legacy-autocorr")
        c.trace()
