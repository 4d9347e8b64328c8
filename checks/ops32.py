"""The analyses as drawn: what each one has to put into the axes it is aimed at.

A requirement is one of
  ("series", x, y)    the points (x, y) are drawn, by whatever artist (x None: only the heights matter)
  ("part", y)         a contiguous stretch of y, of at least 8 samples, is drawn
  ("number", pat, v)  a text, legend entry or title matches pat and its number is v to the digits shown
  ("title", text)
"""
import numpy as np


def record(g):
    n = int(g.choice([256, 512, 1024]))
    k = int(g.choice([j for j in range(n // 32, n // 4) if j % 2]))
    t = np.arange(n)
    s = .45 * np.sin(2 * np.pi * k * t / n + g.uniform(0, 6))
    sig = s + g.uniform(.004, .02) * s ** 2 + g.uniform(.01, .03) * s ** 3 + 1e-3 * g.standard_normal(n) + .5
    m = int(g.integers(5, 9))
    nb = int(g.integers(8, 24))
    full = np.clip(np.floor(sig * 2 ** m), 0, 2 ** m - 1).astype(int)
    bits = ((full[:, None] >> np.arange(m - 1, -1, -1)) & 1).astype(float)
    w = 2.0 ** np.arange(m - 1, -1, -1) * (1 + .02 * g.standard_normal(m))
    return {"n": n, "k": k, "f": k / n, "fs": float(g.choice([1.0, 1e3, 250e6])), "sig": sig, "bits": bits, "weights": w,
            "codes": np.clip(np.floor(sig * 64), 0, 63).astype(int), "ramp": np.sort(g.integers(0, 32, 900)), "nb": nb,
            "osr": np.array(sorted(g.choice(np.arange(1, 12), 5, replace=False))), "osr1": int(g.choice([1, 1, 2]))}


def points(ax):
    """Every set of points the axes shows, whatever draws it."""
    out = []
    for ln in ax.lines:
        out.append((np.asarray(ln.get_xdata(), float), np.asarray(ln.get_ydata(), float)))
    for c in ax.collections:
        if hasattr(c, "get_segments") and c.get_segments():
            seg = [s for s in c.get_segments() if len(s)]
            ends = np.array([s[np.argmax(np.abs(s[:, 1] - seg[0][0, 1]))] for s in seg])
            out.append((ends[:, 0], ends[:, 1]))
            out.append((np.array([s[-1][0] for s in seg]), np.array([s[-1][1] for s in seg])))
        elif len(c.get_offsets()):
            off = np.asarray(np.ma.filled(c.get_offsets(), np.nan), float)
            out.append((off[:, 0], off[:, 1]))
    for cont in ax.containers:
        ps = getattr(cont, "patches", None)
        if ps:
            out.append((np.array([p.get_x() + p.get_width() / 2 for p in ps]), np.array([p.get_y() + p.get_height() for p in ps])))
    return out


def texts(axs):
    out = []
    for a in axs:
        out += [t.get_text() for t in a.texts] + [a.get_title(), a.get_xlabel(), a.get_ylabel()]
        if a.get_legend() is not None:
            out += [t.get_text() for t in a.get_legend().get_texts()]
    return out


def near(a, b, tol=1e-9):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    if not a.size:
        return True
    sc = np.nanmax(np.abs(np.where(np.isfinite(b), b, 0))) + 1e-300
    with np.errstate(all="ignore"):
        return bool(np.all((a == b) | (np.isnan(a) & np.isnan(b)) | (np.abs(a - b) <= tol * sc)))


def drawn(axs, x, y):
    x = None if x is None else np.asarray(x, float)
    y = np.asarray(y, float)
    for a in axs:
        for px, py in points(a):
            if py.shape != y.shape:
                ok = np.isfinite(y)
                if py.shape == y[ok].shape and near(py, y[ok]) and (x is None or near(px, x[ok])):
                    return True
                continue
            if near(py, y) and (x is None or near(px, x)):
                return True
            if x is not None:
                o, q = np.lexsort((y, x)), np.lexsort((py, px))
                if near(py[q], y[o]) and near(px[q], x[o]):
                    return True
    return False


def part(axs, y):
    y = np.asarray(y, float)
    for a in axs:
        for _, py in points(a):
            m = len(py)
            if 8 <= m <= len(y) and np.ptp(py) > 0:
                i = np.where(np.abs(y[:len(y) - m + 1] - py[0]) <= 1e-12 * np.max(np.abs(y)))[0]
                if any(near(y[j:j + m], py) for j in i):
                    return True
    return False


UNIT = {"V": 1, "mV": 1e-3, "uV": 1e-6, "µV": 1e-6, "nV": 1e-9, "pV": 1e-12, "": 1, "K": 1e3, "M": 1e6, "G": 1e9}


def number(axs, pat, v):
    """A text matches pat; group 1 is the number, group 2 (if any) its unit."""
    import re
    hit = False
    for t in texts(axs):
        for mt in re.finditer(pat, t):
            hit = True
            s = mt.group(1)
            u = UNIT.get(mt.group(2), None) if mt.re.groups > 1 else 1
            if u is None:
                continue
            half = .5 * 10.0 ** (-len(s.split(".")[1]) if "." in s else 0)
            if abs(float(s) - v / u) <= half * (1 + 1e-6) + 1e-9 * abs(v / u):
                return True
    return None if not hit else False


def met(req, axs):
    if req[0] == "series":
        return drawn(axs, req[1], req[2])
    if req[0] == "part":
        return part(axs, req[1])
    if req[0] == "number":
        return bool(number(axs, req[1], req[2]))
    return any(req[1] in t for t in texts(axs))


NUM = r"\s*[=:]\s*([-+]?\d+(?:\.\d+)?)"


def spectrum_reqs(r, sig, res, label, fs=None, top=3, **kw):
    from adctoolbox.spectrum import compute_spectrum
    full = compute_spectrum(sig, fs=r["fs"] if fs is None else fs, **kw)
    pd, m = full["plot_data"], full["metrics"]
    f, p = pd["freq"], pd["power_spectrum_db_plot"]
    reqs = [("series", f, p)]
    if label:
        b = pd["fundamental_bin"]
        reqs.append(("series", f[b:b + 1], p[b:b + 1]))
        s = pd["spur_bin_idx"]
        reqs.append(("series", f[s:s + 1], p[s:s + 1]))
        for key, name in (("enob", "(?i:enob)"), ("sndr_dbc", "SNDR"), ("sfdr_dbc", "SFDR"), ("thd_dbc", "THD"), ("snr_dbc", "SNR"),
                          ("noise_floor_dbfs", "Noise Floor"), ("nsd_dbfs_hz", "NSD"), ("sig_pwr_dbfs", "Sig")):
            if np.isfinite(m[key]):
                reqs.append(("number", name + NUM, float(res[key])))
        fs_ = r["fs"] if fs is None else fs
        reqs.append(("number", r"Fin/fs = ([\d.]+)([KMG]?)", f[b]))
        reqs.append(("number", r"Fin/fs = [^/]*/ ([\d.]+)([KMG]?)", fs_))
        # harmonics well above the noise are marked, up to the order asked for
        line = m["noise_floor_dbfs"] - 10 * np.log10(full["N"] / 2 / full["osr"])
        for h in range(2, top + 1):
            hb = int(pd["harmonic_bins"][h - 2])
            if h not in pd["collided_harmonics"] and hb and p[hb] > line + 25:
                reqs.append(("series", f[hb:hb + 1], p[hb:hb + 1]))
    return reqs


def ops(r):
    """name -> (kind, call(**kw), requirements(result))"""
    import adctoolbox as A
    import adctoolbox.aout as O
    sig, fs, f, nb = r["sig"], r["fs"], r["f"], r["nb"]
    out = {}
    kw = {"fs": fs, "osr": r["osr1"]}
    out["spectrum"] = ("plain", lambda **k: A.analyze_spectrum(sig, **kw, **k), lambda q: spectrum_reqs(r, sig, q, True, osr=r["osr1"]))
    out["spectrum unlabelled"] = ("plain", lambda **k: A.analyze_spectrum(sig, **kw, show_label=False, **k),
                                  lambda q: spectrum_reqs(r, sig, q, False, osr=r["osr1"]))
    out["virtuoso"] = ("plain", lambda **k: A.analyze_spectrum_virtuoso(sig, **kw, **k),
                       lambda q: spectrum_reqs(r, sig, q, True, osr=r["osr1"], win_type="rectangular"))
    out["error spectrum"] = ("plain", lambda **k: A.analyze_error_spectrum(sig, fs=fs, title="alpha", **k),
                             lambda q: spectrum_reqs(r, q["error_signal"], q, False) + [("title", "alpha")])
    out["error envelope"] = ("plain", lambda **k: A.analyze_error_envelope_spectrum(sig, fs=fs, title="beta", **k),
                             lambda q: spectrum_reqs(r, q["envelope"], q, False) + [("title", "beta")])
    out["autocorrelation"] = ("plain", lambda **k: A.analyze_error_autocorr(sig, max_lag=nb, title="gamma", **k),
                              lambda q: [("series", q["lags"], q["acf"]), ("title", "gamma")])
    out["density"] = ("plain", lambda **k: A.analyze_error_pdf(sig, resolution=8, title="delta", **k),
                      lambda q: [("series", q["x"], q["pdf"]), ("series", q["x"], q["gauss_pdf"]), ("title", "delta"),
                                 ("number", "μ" + NUM, q["mu"]), ("number", "σ" + NUM, q["sigma"]), ("number", "KL" + NUM, q["kl_divergence"])])

    def plane(q):
        k, o = q["lag"], np.asarray(q["outliers"], int)
        x, y = sig[:len(sig) - k], sig[k:]
        keep = np.ones(len(x), bool)
        keep[o] = False
        return [("series", x[keep], y[keep]), ("number", "Lag" + NUM, k), ("number", "Outliers" + NUM, len(o))] + ([("series", x[o], y[o])] if len(o) else [])
    out["phase plane"] = ("plain", lambda **k: O.analyze_phase_plane(sig, lag=3, **k), plane)
    # the same record in volts and as codes: large magnitudes of either sign are codes
    for name, data, mode, k_ in (("volts", sig, {}, 1e6), ("codes", sig * 150 - 140, {}, 1.0), ("many codes", sig * 900, {}, 1.0),
                                 ("fraction", sig, {"unit_mode": "normalized_fs"}, 1e6), ("as codes", sig, {"unit_mode": "code"}, 1.0),
                                 ("as volts", sig * 900, {"unit_mode": "voltage"}, 1e6)):
        unit = "LSB" if k_ == 1 else "uFS" if name == "fraction" else "uV"

        def eplane(q, data=data, k_=k_, unit=unit):
            res = np.asarray(q["residual"]) * k_
            return [("title", "eps"), ("series", data, res), ("title", "(" + unit + ")"), ("number", "RMS" + NUM + " " + unit, float(np.std(res))),
                    ("number", "Peak" + NUM + " " + unit, float(np.max(np.abs(res))))]
        out["error plane, " + name] = ("plain", lambda data=data, mode=mode, **k: O.analyze_error_phase_plane(data, title="eps", **mode, **k), eplane)
    out["activity"] = ("plain", lambda **k: A.analyze_bit_activity(r["bits"], title="zeta", **k),
                       lambda q: [("series", np.arange(1, len(q) + 1), q), ("title", "zeta")])
    b, w = r["bits"], r["weights"]
    ix = np.arange(1, len(w) + 1)
    out["overflow"] = ("plain", lambda **k: A.analyze_overflow(b, w, title="eta", **k),
                       lambda q: [("series", ix, q[0]), ("series", ix, q[1]), ("title", "eta")])
    out["radix"] = ("plain", lambda **k: A.analyze_weight_radix(w, title="theta", **k),
                    lambda q: [("series", ix, np.abs(w)), ("title", "theta"), ("number", "Eff. Res" + NUM, q["effres"])])
    out["enob sweep"] = ("plain", lambda **k: A.analyze_enob_sweep(b, freq=f, verbose=False, title="iota", **k),
                         lambda q: [("series", q[1], q[0]), ("title", "iota")])
    out["osr sweep"] = ("own", lambda **k: A.sweep_performance_vs_osr(sig, osr=r["osr"], **k),
                        lambda q: [("series", q["osr"], q["sndr"]), ("series", q["osr"], q["sfdr"])])
    out["by value"] = ("split", lambda **k: A.analyze_error_by_value(sig, n_bins=nb, title="kappa", **k),
                       lambda q: [("series", q["value_bin_centers"], q["error_mean"]), ("series", q["value_bin_centers"], q["error_rms"]),
                                  ("series", None, q["error"]), ("title", "kappa")])

    def phase(q):
        deg = np.degrees(q["phase_bin_centers_rad"])
        return [("series", deg, q["bin_error_mean_v"]), ("series", deg, q["bin_error_rms_v"]), ("title", "lambda"),
                ("series", np.degrees(q["phase"]) % 360, q["error"]), ("series", np.degrees(q["phase"]) % 360, q["fitted_signal"]),
                ("number", "R²" + NUM, q["r_squared_binned"]),
                ("number", "AM" + NUM + r"\s*(\w*V|)", q["am_noise_rms_v"]), ("number", "PM" + NUM + r"\s*(\w*V|)", q["pm_noise_rms_v"]),
                ("number", "Total" + NUM + r"\s*(\w*V|)", q["total_rms_v"])]
    out["by phase"] = ("split", lambda **k: A.analyze_error_by_phase(sig, n_bins=nb, title="lambda", **k), phase)
    out["decomposition"] = ("split", lambda **k: A.analyze_decomposition_time(sig, title="mu", **k),
                            lambda q: [("part", sig), ("part", q["fundamental_signal"]), ("part", q["harmonic_signal"]), ("part", q["noise_residual"])])
    lo = lambda a: float(np.min(a))
    out["inl sine"] = ("split", lambda **k: A.analyze_inl_from_sine(r["codes"], num_bits=6, **k),
                       lambda q: [("series", q["code"] / 64, q["inl"]), ("series", q["code"] / 64, q["dnl"]),
                                  ("number", r"INL = \[([-+]?\d+\.\d+)", lo(q["inl"])), ("number", r"DNL = \[([-+]?\d+\.\d+)", lo(q["dnl"])),
                                  ("number", r"INL = \[[^,]*, ([-+]?\d+\.\d+)", float(np.max(q["inl"]))), ("number", r"DNL = \[[^,]*, ([-+]?\d+\.\d+)", float(np.max(q["dnl"])))])
    out["inl ramp"] = ("split", lambda **k: A.analyze_inl_from_ramp(r["ramp"], num_bits=5, **k),
                       lambda q: [("series", None, q["inl"]), ("series", None, q["dnl"]),
                                  ("number", r"INL = \[([-+]?\d+\.\d+)", q["inl_min"]), ("number", r"DNL = \[([-+]?\d+\.\d+)", q["dnl_min"]),
                                  ("number", r"INL = \[[^,]*, ([-+]?\d+\.\d+)", q["inl_max"]), ("number", r"DNL = \[[^,]*, ([-+]?\d+\.\d+)", q["dnl_max"])])

    def wheel(q):
        reqs = [("number", r"Residue Errors\s+([-+]?\d+\.\d+)", q["noise_db"])]
        db = np.asarray(q["magnitudes_db"])
        floor = np.floor((min(np.min(db), q["noise_db"]) - 10) / 10) * 10
        return reqs + [("series", [p], [d - floor]) for p, d in zip(q["phases"], db)]
    out["decomposition polar"] = ("polar", lambda **k: A.analyze_decomposition_polar(sig, **k), wheel)
    out["decomposition polar on a plain axes"] = ("split", lambda **k: A.analyze_decomposition_polar(sig, **k), wheel)
    out["spectrum polar"] = ("polar", lambda **k: A.analyze_spectrum_polar(sig, fs=fs, **k),
                             lambda q: [("number", "SNR" + NUM, q["snr_dbc"]), ("number", "THD" + NUM, q["thd_dbc"]),
                                        ("number", "HD2" + NUM, q["harmonics_dbc"][0]), ("number", "HD3" + NUM, q["harmonics_dbc"][1])])
    return out


def dashboards(r):
    """name -> (call(path, show), requirements())"""
    import adctoolbox as A
    import adctoolbox.aout as O
    from adctoolbox.calibration import calibrate_weight_sine
    from adctoolbox.toolset.generate_aout_dashboard import generate_aout_dashboard
    from adctoolbox.toolset.generate_aout_dashboard_3x4 import generate_aout_dashboard as big
    from adctoolbox.toolset.generate_dout_dashboard import generate_dout_dashboard
    sig, fs = r["sig"], r["fs"]
    q = {"create_plot": False}

    def aout(res=12):
        o = spectrum_reqs(r, sig, A.analyze_spectrum(sig, fs=fs, **q), True)
        v = A.analyze_error_by_value(sig, **q)
        p = A.analyze_error_by_phase(sig, **q)
        d = A.analyze_decomposition_time(sig, **q)
        e = A.analyze_error_pdf(sig, resolution=res, **q)
        c = A.analyze_error_autocorr(sig, frequency=r["f"], **q)
        return o + [("series", v["value_bin_centers"], v["error_rms"]), ("series", np.degrees(p["phase_bin_centers_rad"]), p["bin_error_rms_v"]),
                    ("part", d["fundamental_signal"]), ("part", d["noise_residual"]), ("series", e["x"], e["pdf"]), ("series", c["lags"], c["acf"]),
                    ("number", r"Residue Errors\s+([-+]?\d+\.\d+)", d["noise_db"])]

    def aout12():
        s = A.analyze_error_spectrum(sig, fs=fs, **q)
        v = A.analyze_error_envelope_spectrum(sig, fs=fs, **q)
        k = O.analyze_phase_plane(sig, **q)["lag"]
        return aout() + spectrum_reqs(r, s["error_signal"], s, False) + spectrum_reqs(r, v["envelope"], v, False) + [("number", "Lag" + NUM, k)]

    def dout():
        b, w = r["bits"], r["weights"]
        cal = calibrate_weight_sine(b, freq=r["f"])
        o = A.analyze_overflow(b, cal["weight"], **q)
        ix = np.arange(1, b.shape[1] + 1)
        en = A.analyze_enob_sweep(b, freq=cal["refined_frequency"], verbose=False, **q)
        nom = b @ w
        return (spectrum_reqs(r, nom, A.analyze_spectrum(nom, **q), True, fs=1.0)
                + spectrum_reqs(r, cal["calibrated_signal"], A.analyze_spectrum(cal["calibrated_signal"], **q), True, fs=1.0)
                + [("series", ix, A.analyze_bit_activity(b, **q)), ("series", ix, o[0]), ("series", ix, o[1]),
                   ("series", en[1], en[0]), ("series", ix, np.abs(cal["weight"]))])
    return {"aout": (lambda path, show: generate_aout_dashboard(sig, fs=fs, freq=r["f"] * fs, output_path=path), aout, 8),
            "aout12": (lambda path, show: big(sig, fs=fs, freq=r["f"] * fs, output_path=path), aout12, 12),
            "dout": (lambda path, show: generate_dout_dashboard(r["bits"], freq=r["f"], weights=r["weights"], output_path=path, show=show), dout, 6)}
