"""C14: unit conversions, limits and figures of merit."""
import math

import numpy as np
from lib.vf import Refused

CFG = """SPECIFICATION Spec
CONSTANTS
 Mode = "{mode}"
 Span = {span}
 Depth = {depth}
INVARIANTS PathIndependent EmitPath
CHECK_DEADLOCK FALSE
"""
LCFG = """SPECIFICATION Spec
CONSTANTS
 Mode = "{mode}"
 Depth = {depth}
INVARIANTS ScalingLaw EmitAll
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
"""
PR = [2, 3, 5, 7, 23, math.pi]


def lg(v):
    return sum(e / 2 * math.log10(p) for e, p in zip(v, PR))


def lin(v):
    return 10 ** lg(v) if any(x % 2 for x in v) or v[5] else math.prod(float(p) ** (e / 2) for e, p in zip(v, PR))


DB = {"db", "dbm", "nsd"}


def value(kind, v):
    if kind in DB:
        return 10 * lg(v)
    if kind == "enob":
        return (10 * lg(v) - 1.76) / 6.02
    return lin(v)


def run(c):
    import adctoolbox as A
    from adctoolbox.fundamentals import units as U
    from adctoolbox.utils.vpp_for_target_dbfs import vpp_for_target_dbfs
    r = c.rng
    em = c.tlc("Units", CFG.format(mode="ex", span=c.n(2, 4), depth=c.n(3, 4)), name="Units/paths", exhaustive=True, workers=2)
    scen = []

    def rv(k=3):
        return [2 * r.randint(-k, k), 2 * r.randint(-2, 2), 2 * r.randint(-k, k), 2 * r.randint(-1, 1), 0, 0]

    for _ in range(c.n(80, 600)):
        par = {"z": rv(), "fs": rv(6), "n": [2 * r.randint(3, 12), 2 * r.randint(0, 2), 0, 0, 0, 0], "vref": rv(1),
               "osr": [2 * r.randint(0, 6), 2 * r.randint(0, 2), 0, 0, 0, 0], "sig": rv(2), "bits": r.randint(1, 18)}
        kd = r.choice(["mag", "pow", "mw", "vrms", "lsb", "bin", "db", "dbm", "nsd", "volts"])
        for _ in range(3):
            v = [2 * r.randint(0, 4), 2 * r.randint(0, 3), 2 * r.randint(0, 2), 0, 0, 0] if kd == "bin" else rv()
            scen.append({"kind": kd, "v": v, "par": par})
    em += c.tlc("Units", CFG.format(mode="file", span=1, depth=3), scen=scen, name="Units/random", workers=2)

    def calls(par):
        f = {k: lin(par[k]) for k in ("z", "fs", "n", "vref", "osr")}
        sig = 10 * lg(par["sig"])
        zk = {} if abs(f["z"] - 50) < 1e-12 else {"z_load": f["z"]}
        n = int(round(f["n"]))
        m = {k: getattr(A, k) for k in ("mag_to_db", "db_to_mag", "power_to_db", "db_to_power", "mw_to_dbm", "dbm_to_mw", "snr_to_enob", "enob_to_snr")}
        m["dbm_to_vrms"] = lambda x: A.dbm_to_vrms(x, **zk)
        m["vrms_to_dbm"] = lambda x: A.vrms_to_dbm(x, **zk)
        m["lsb_to_volts"] = lambda x: A.lsb_to_volts(x, f["vref"], par["bits"])
        m["volts_to_lsb"] = lambda x: A.volts_to_lsb(x, f["vref"], par["bits"])
        m["bin_to_freq"] = lambda x: A.bin_to_freq(x, f["fs"], n)
        m["freq_to_bin"] = lambda x: A.freq_to_bin(x, f["fs"], n)
        m["snr_to_nsd"] = lambda x: A.snr_to_nsd(x, f["fs"], osr=f["osr"], psignal_dbfs=sig)
        m["nsd_to_snr"] = lambda x: A.nsd_to_snr(x, f["fs"], osr=f["osr"], psignal_dbfs=sig)
        m["u_snr_to_nsd"] = lambda x: U.snr_to_nsd(x, f["fs"], signal_pwr_dbfs=sig, osr=f["osr"])
        m["u_nsd_to_snr"] = lambda x: U.nsd_to_snr(x, f["fs"], signal_pwr_dbfs=sig, osr=f["osr"])
        return m

    grouped = {}
    for e in em:
        grouped.setdefault((e["kind"], str(e["par"]), tuple(e["path"])), []).append(e)

    def same(got, exp, kind, clause, sc):
        if kind in DB or kind == "enob":
            c.close(got, exp, clause, sc, rtol=1e-9, atol=1e-8)
        else:
            c.close(got, exp, clause, sc, rtol=1e-8, atol=0)

    def walk(es, corrupt=False):
        e = es[0]
        fns = calls(e["par"])
        sc = {"kind": e["kind"], "path": e["path"], "v": [x["v"] for x in es][:3], "par": e["par"]}
        starts = [value(x["kind"], x["v"]) for x in es]
        exps = [value(x["out"], x["val"]) for x in es]
        if "freq_to_bin" in e["path"]:
            # bins are whole numbers: only whole starting bins come back
            keep = [i for i, x in enumerate(es) if abs(starts[i] - round(starts[i])) < 1e-9 and 0 <= starts[i] < 1e8]
            starts, exps = [round(starts[i]) for i in keep], [exps[i] for i in keep]
            if e["kind"] != "bin" or not starts:
                return
        if corrupt:
            exps = [x + 1e-3 * (1 + abs(x)) for x in exps]
        x = starts[0]
        for f in e["path"]:
            x = c.call(fns[f], x)
        same(x, exps[0], e["out"], "chain of scalar conversions", sc)
        if "freq_to_bin" not in e["path"] and len(starts) > 1:
            x = np.array(starts).reshape((-1, 1)) if r.random() < .3 else np.array(starts)
            shp = x.shape
            for f in e["path"]:
                x = c.call(fns[f], x)
            same(x, np.array(exps).reshape(shp), e["out"], "chain of array conversions", sc)
        c.trace({"kind": e["kind"], "path": e["path"], "value": exps[0]})

    for es in grouped.values():
        walk(es)
        if len(es) > 1:
            walk(es[::-1])
    c.selftest(lambda: [walk(es, True) for es in list(grouped.values())[:20]])
    # nearest bin for in-between frequencies
    for _ in range(c.n(200, 1000)):
        n = r.choice([16, 100, 1023, 4096])
        k, d = r.randint(-n // 3, n), r.choice([-.45, -.3, -.01, 0, .2, .49])
        fs = r.choice([1.0, 1e6, 44100.0])
        g = c.call(A.freq_to_bin, (k + d) * fs / n, fs, n)
        c.check(g == k and not isinstance(g, float), "nearest bin", {"k": k, "d": d, "n": n}, k, g)
    # ------------------------------------------------ limits
    el = c.tlc("Limits", LCFG.format(mode="ex", depth=c.n(2, 3)), name="Limits/laws", exhaustive=True)
    scen = [{"f": f, "a": [rv(), rv(), [2 * r.randint(0, 6), 0, 0, 0, 0, 0] if f == "snr" else [r.randint(2, 14), 0, 0, 0, 0, 0] if f == "walden" else rv()]}
            for f in ("walden", "schreier", "thermal", "jitter", "snr", "sinepow", "vpp") for _ in range(c.n(4, 30))]
    el += c.tlc("Limits", LCFG.format(mode="file", depth=1), scen=scen, name="Limits/random")

    def lim(e, corrupt=False, wrap=float):
        a = [lin(v) for v in e["a"]]
        bits = e["a"][2][0]
        v = e["val"]
        f = e["f"]
        fn, exp = {
            "walden": (lambda: A.calculate_walden_fom(wrap(a[0]), a[1], bits), lin(v)),
            "schreier": (lambda: A.calculate_schreier_fom(wrap(a[0]), 10 * lg(e["a"][1]), a[2]), 10 * lg(v)),
            "thermal": (lambda: A.calculate_thermal_noise_limit(wrap(a[0]), a[1]), 10 * lg(v)),
            "jitter": (lambda: A.calculate_jitter_limit(wrap(a[0]), a[1]), 10 * lg(v)),
            "snr": (lambda: A.amplitudes_to_snr(wrap(a[0]), a[1], osr=a[2]), 10 * lg(v)),
            "sinepow": (lambda: A.sine_amplitude_to_power(wrap(a[0]), a[1]), lin(v)),
            "vpp": (lambda: vpp_for_target_dbfs(wrap(a[0]), 20 * lg(e["a"][1]), 20 * lg(e["a"][2])), lin(v)),
        }[f]
        got = c.call(fn)
        sc = {"f": f, "a": a}
        if corrupt:
            exp = exp * 1.01 + .01
        if wrap is not float:
            exp = np.array([exp, exp])
        # the Boltzmann constant and temperature are conventions: a small allowance in dB
        c.close(got, exp, f"{f} formula", sc, rtol=1e-8, atol=0.008 if f == "thermal" else 1e-9 if f in ("walden", "sinepow", "vpp") and False else
                (1e-8 if f in ("schreier", "jitter", "snr") else 0))
        c.trace()

    for e in el:
        lim(e)
        if r.random() < .3:
            lim(e, wrap=lambda x: np.array([x, x]))
    c.selftest(lambda: [lim(e, True) for e in el if e["f"] == "jitter"])
    g = c.call(A.amplitudes_to_snr, 2.0, 0.5, return_power=True)
    c.check(isinstance(g, tuple) and len(g) == 3, "powers returned on request", {}, 3, g)
    if isinstance(g, tuple) and len(g) == 3:
        c.close(g[1], 2.0, "signal power", {})
        c.close(g[2], 0.25, "noise power", {})
        c.close(g[0], 10 * math.log10(8), "SNR with powers", {})
    c.check(c.call(A.amplitudes_to_snr, 1.0, 0.0) == np.inf, "no noise means infinite SNR", {})
    for na in (1e-13, 3e-15, 1e-20):
        c.close(c.call(A.amplitudes_to_snr, 1.0, na), -20 * math.log10(na * math.sqrt(2)), "however little the noise, it counts", {"noise": na}, rtol=1e-9)
    for osr in (1, 1.5, 1.9, 2, 3.7):
        for sa, na in ((2.0, [.5, .25, .1]), ([1.0, 2.0, 3.0], .5), ([1.0, 2.0, 3.0], [.5, .25, .1]), ([[1.0, 4.0]], 1.0), (1.0, [.5]), ([2.0], .5)):
            g = c.call(A.amplitudes_to_snr, np.array(sa), np.array(na), osr=osr, return_power=True)
            sc = {"signal": sa, "noise": na, "osr": osr}
            if c.check(isinstance(g, tuple) and len(g) == 3, "SNR of arrays", sc, None, g):
                ps, pn = np.array(sa) ** 2 / 2, np.array(na) ** 2
                c.close(g[0], 10 * np.log10(ps / pn * osr), "SNR elementwise", sc, rtol=1e-9, atol=1e-9)
                c.close(g[1], ps, "signal power elementwise", sc)
                c.close(g[2], pn, "noise power elementwise", sc)
    g = c.call(A.amplitudes_to_snr, np.array([1.0, 1.0]), np.array([0.0, 1.0]))
    c.check(not isinstance(g, Refused) and np.shape(g) == (2,) and g[0] == np.inf and abs(g[1] + 3.0103) < 1e-3, "no noise means infinite SNR, elementwise", {}, None, g)
    c.close(c.call(vpp_for_target_dbfs, 2.0, -3.5), 2.0 * 10 ** (3.0 / 20), "default target level", {})
    # default parameters
    c.close(c.call(A.snr_to_nsd, 60.0, 2e6), -60 - 60.0, "default density", {})
    c.close(c.call(A.nsd_to_snr, -120.0, 2e6), 60.0, "default SNR from density", {})
    c.close(c.call(A.vrms_to_dbm, 1.0), 10 * math.log10(20), "default 50 ohm", {})
    c.close(c.call(A.sine_amplitude_to_power, 1.0), 0.01, "default 50 ohm", {})
    c.close(c.call(A.calculate_thermal_noise_limit, 1.0), c.call(A.calculate_thermal_noise_limit, 1.0, 1.0), "default full scale", {})
