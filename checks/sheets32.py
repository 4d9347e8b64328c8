"""Sheets: every drawing option of one analysis on fresh axes, with everything the sheet carries, and nothing else."""
import math
import re

import numpy as np
from checks.ops32 import NUM, drawn, near, number, texts

CFG = """SPECIFICATION Spec
CONSTANTS
 Mode = "{mode}"
 Ns = {{{ns}}}
 MaxH = 6
INVARIANTS InBand Apart NoneUnasked Returns {emit}
CHECK_DEADLOCK FALSE
"""


def scenarios(r, count):
    out = []
    for i in range(count):
        n = r.choice([128, 255, 256, 500, 512, 625])
        coh, osr = r.random() < .4, r.choice([100, 100, 100, 150, 200, 370, 800])
        inband = int(n / 2 / (osr / 100))
        k = r.randrange(8, inband - 7) if inband > 20 else 9
        if osr == 100 and r.random() < .3:           # an order that folds back onto the tone
            o = r.choice([2, 3, 4, 5])
            k = r.choice([round(n / (o + 1)), round(n / (o - 1))]) if o > 2 else round(n / 3)
            k = k if 8 < k < n // 2 - 8 else n // 4
        out.append({"id": i, "n": n, "k": k, "sb": r.choice([1, 2, 3]), "maxh": r.choice([3, 5, 5, 7]), "top": r.choice([0, 2, 3, 3, 5, 9]), "label": r.random() < .85,
                    "title": r.random() < .8, "runs": r.choice([1, 1, 2, 4, 7]), "coh": coh, "osr": osr, "style": r.choice(["light", "light", "dark"])})
    return out


def mark_texts(ax):
    """Texts that are a bare number, with where they stand."""
    return {t.get_text(): float(t.get_position()[0]) for t in ax.texts if re.fullmatch(r"\d+", t.get_text())}


def spectrum_sheet(c, s, e, g, plt):
    import adctoolbox as A
    from adctoolbox.spectrum import compute_spectrum, plot_spectrum, plot_spectrum_virtuoso
    n, k, m = s["n"], s["k"], s["runs"]
    t = np.arange(n)
    d = []
    for _ in range(m):
        v = .45 * np.sin(2 * np.pi * k * t / n + g.uniform(0, 6))
        d.append(v + .02 * v ** 2 + .03 * v ** 3 - .04 * v ** 4 + .03 * v ** 5 + 3e-5 * g.standard_normal(n))
    data = np.array(d) if m > 1 else d[0]
    fs = float(g.choice([1.0, 7.3, 20e3, 250e6, 3.2e9]))
    osr = s["osr"] / 100 if s["osr"] % 100 else s["osr"] // 100
    kw = {"fs": fs, "osr": osr, "side_bin": s["sb"], "max_harmonic": s["maxh"], "coherent_averaging": s["coh"], "win_type": ["hann", "rectangular"][s["id"] % 2], "max_scale_range": 1.0}
    full = compute_spectrum(data, **kw)
    pd, mt = full["plot_data"], full["metrics"]
    f, p = np.asarray(pd["freq"]), np.asarray(pd["power_spectrum_db_plot"])
    if pd["fundamental_bin"] != k:
        return None
    c.check(sorted(pd["collided_harmonics"]) == e["hit"], "orders folding onto the tone", s, e["hit"], pd["collided_harmonics"])
    _, ax = plt.subplots()
    opt = {"show_title": s["title"], "show_label": s["label"], "plot_harmonics_up_to": s["top"], "ax": ax}
    dark = s["style"] == "dark"
    if g.random() < .5:
        (A.analyze_spectrum_virtuoso if dark else A.analyze_spectrum)(data, **kw, **opt)
    else:
        (plot_spectrum_virtuoso if dark else plot_spectrum)(full, **opt)
    bad = []
    if not drawn([ax], f, p):
        bad.append("curve")
    c.check(ax.get_title() == e["title"], "title of a spectrum", s, e["title"], ax.get_title())
    x0, x1 = ax.get_xlim()
    if not near([x0, x1], [fs / n, fs / 2]):
        bad.append("frequency limits %r" % ((x0, x1),))
    line = mt["noise_floor_dbfs"] - 10 * math.log10(n / (2 * osr))
    y0, y1 = ax.get_ylim()
    nin = int(np.sum(f <= fs / 2 / osr * (1 + 1e-12)))
    if dark:
        want = max(20 * math.floor(line / 20) - 20, -200)
        if not (y1 == 0 and (abs(y0 - want) < 1e-9)):
            bad.append("level limits %r, floor %r" % ((y0, y1), want))
    else:
        lo = [min(max(float(np.median(p[:q])) - 20, -200), -40) for q in (nin - 1, nin, nin + 1)]
        if not (y1 == 0 and min(lo) - 1e-9 <= y0 <= max(lo) + 1e-9):
            bad.append("level limits %r, floor %r" % ((y0, y1), lo))
    if (ax.get_xscale() == "log") != e["log"]:
        bad.append("scale " + ax.get_xscale())
    got = mark_texts(ax)
    want = {}
    for q in e["marks"]:
        if p[q["bin"]] >= line - 19.99:
            want[str(q["h"])] = q["bin"] * fs / n
            if not drawn([ax], [q["bin"] * fs / n], [p[q["bin"]]]):
                bad.append("marker of order %d" % q["h"])
        elif p[q["bin"]] > line - 20.01:
            got.pop(str(q["h"]), None)
    if not (sorted(got) == sorted(want) and all(abs(got[o] - want[o]) <= 1e-9 * fs for o in want)):
        bad.append("orders marked %r, not %r" % (got, want))
    if not s["label"]:
        if len(ax.texts) or len(ax.lines) + len(ax.collections) != 1:
            bad.append("an unlabelled sheet carries more than its curve")
    else:
        for key, name in (("enob", "(?i:enob)"), ("sndr_dbc", "SNDR"), ("sfdr_dbc", "SFDR"), ("thd_dbc", "THD"), ("snr_dbc", "SNR"),
                          ("noise_floor_dbfs", "Noise Floor"), ("nsd_dbfs_hz", "NSD"), ("sig_pwr_dbfs", "Sig")):
            if np.isfinite(mt[key]) and not number([ax], name + NUM, float(mt[key])):
                bad.append(key)
        for pat, v in ((r"Fin/fs = ([\d.]+)([KMG]?)", k * fs / n), (r"Fin/fs = [^/]*/ ([\d.]+)([KMG]?) ", fs)):
            if not number([ax], pat, v):
                bad.append("frequencies in the text")
        for v, tx in ((k * fs / n, r"Fin/fs = [\d.]+([KMG]?)"), (fs, r"/ [\d.]+([KMG]?) Hz")):
            u = [q.group(1) for q in (re.search(tx, z) for z in texts([ax])) if q]
            if u != ["G" if v >= 1e9 else "M" if v >= 1e6 else "K" if v >= 1e3 else ""]:
                bad.append("unit of %g: %r" % (v, u))
        span = [fs / n, fs / 2 / osr] if e["over"] else [0, fs / 2]
        if np.isfinite(line) and not drawn([ax], span, [line, line]):
            bad.append("noise line")
        if (e["over"] or not dark) and not drawn([ax], [fs / 2 / osr] * 2, [0, -1000]):
            bad.append("band edge")
        tx = "\n".join(texts([ax]))
        note = re.findall(r"Collided with fundamental: (.*)", tx)
        if note != ([", ".join("HD%d" % o for o in e["hit"])] if e["hit"] else []):
            bad.append("note on collisions %r" % note)
        if bool(number([ax], r"Coherent Gain = ([\d.]+)", 10 * math.log10(m))) != e["gain"] or ("Coherent Gain" in tx) != e["gain"]:
            bad.append("note on coherent gain")
        if bool(number([ax], r"OSR = ([\d.]+)", osr)) != e["over"] or ("OSR" in tx) != e["over"]:
            bad.append("note on oversampling")
        sp = pd["spur_bin_idx"]
        if not drawn([ax], [sp * fs / n], [p[sp]]):
            bad.append("spur marker")
        lab = [z for z in ax.texts if z.get_text() == "MaxSpur"]
        if len(lab) != 1 or abs(lab[0].get_position()[0] - sp * fs / n) > 1e-9 * fs:
            bad.append("spur label")
        else:                         # whatever limits the reader chooses afterwards, the label is where it means something
            for lo, hi in ((p[sp] + 1, 20.0), (p[sp] - 60, p[sp] + 30), (p[sp] - 60, p[sp] - 1), (p[sp] - 60, p[sp] + 5)):
                ax.set_ylim(lo, hi)
                y = lab[0].get_position()[1]
                x = ax.transAxes.inverted().transform(ax.transData.transform((sp * fs / n, p[sp])))[0]
                if min(abs(x), abs(x - 1)) < 1e-6:
                    continue
                if lab[0].get_visible() != (lo < p[sp] <= hi and -1e-9 <= x <= 1 + 1e-9):
                    bad.append("spur label shown outside of the limits, or hidden inside: %r" % ((x, p[sp], lo, hi),))
                elif lab[0].get_visible() and not lo <= y <= hi:
                    bad.append("spur label outside of the axes")
        if not drawn([ax], [k * fs / n], [p[k]]):
            bad.append("tone marker")
        if not dark and not drawn([ax], f[pd["sig_bin_start"]:pd["sig_bin_end"]], p[pd["sig_bin_start"]:pd["sig_bin_end"]]):
            bad.append("tone highlighted")
    plt.close("all")
    return bad


def polar_sheet(s, g, plt):
    import adctoolbox as A
    from adctoolbox.spectrum import compute_spectrum
    n, m = s["n"], s["runs"]
    k = s["k"]
    t = np.arange(n)
    v = [.45 * np.sin(2 * np.pi * k * t / n + q) for q in g.uniform(0, 6, m)]
    data = np.array([a + .02 * a ** 2 + .03 * a ** 3 - .04 * a ** 4 + .03 * a ** 5 + 1e-4 * g.standard_normal(n) for a in v])
    data = data if m > 1 else data[0]
    h = int(g.choice([2, 3, 5, 7]))
    kw = {"fs": float(g.choice([1.0, 1e6])), "osr": 1, "win_type": str(g.choice(["boxcar", "hann"]))}
    full = compute_spectrum(data, **kw, coherent_averaging=True, max_harmonic=max(3, h))
    span = [None, 60.0, 90.0][int(g.integers(3))]
    _, ax = plt.subplots(subplot_kw={"projection": "polar"})
    A.analyze_spectrum_polar(data, harmonic=h, fixed_radial_range=span, ax=ax, **kw)
    pd = full["plot_data"]
    z = np.asarray(pd["complex_spectrum"])
    db = 20 * np.log10(np.abs(z) + 1e-20)
    ref = -span if span else np.percentile(db, 1)
    rad = np.maximum(db, ref) - ref
    want = rad * z / (np.abs(z) + 1e-20)
    bad = []
    pts = [np.asarray(q.get_offsets(), float) for q in ax.collections]
    if not any(len(q) == len(want) and np.max(np.abs(q[:, 1] * np.exp(1j * q[:, 0]) - want)) < 1e-6 * (1 + np.max(np.abs(want))) for q in pts):
        bad.append("points of the spectrum")
    if not near(ax.get_ylim(), [0, span if span else -ref]):
        bad.append("radial limits %r" % (ax.get_ylim(),))
    tick = [(float(a), b.get_text()) for a, b in zip(ax.get_yticks(), ax.get_yticklabels())]
    if any(abs(float(b) - (a + 10 * round(ref / 10))) > 1e-9 for a, b in tick) or len(tick) < 3:
        bad.append("radial ticks %r" % tick)
    if ax.get_theta_direction() != -1 or abs(ax.get_theta_offset() - np.pi / 2) > 1e-9:
        bad.append("orientation")

    def marked(b):
        for ln in ax.lines:
            x, y = np.asarray(ln.get_xdata(), float).ravel(), np.asarray(ln.get_ydata(), float).ravel()
            if len(x) == 1 and abs(y[0] * np.exp(1j * x[0]) - want[b]) < 1e-6 * (1 + abs(want[b])):
                return True
        return False
    if not marked(k):
        bad.append("tone marker")
    got, exp = mark_texts(ax), []
    for o in range(2, h + 1):
        b = int(pd["harmonic_bins"][o - 2])
        if o in pd["collided_harmonics"] or b == 0:
            continue
        exp.append(str(o))
        if str(o) in got and not (marked(b) and abs(np.exp(1j * got[str(o)]) - np.exp(1j * np.angle(want[b]))) < 1e-6) and rad[b] > 1e-6:
            bad.append("order %d" % o)
    if sorted(got) != sorted(exp):
        bad.append("orders marked %r" % got)
    mt = full["metrics"]
    tx = "\n".join(texts([ax]))
    for name, v in (("SNR", mt["snr_dbc"]), ("THD", mt["thd_dbc"]), ("HD2", mt["harmonics_dbc"][0]), ("HD3", mt["harmonics_dbc"][1])):
        if not number([ax], name + NUM, float(v)):
            bad.append(name)
    for o in (2, 3):
        b = int(pd["harmonic_bins"][o - 2])
        deg = float(np.degrees(np.angle(z[b]))) if o not in pd["collided_harmonics"] and b > 0 and mt["harmonics_dbc"][o - 2] > -149 else 0.0
        q = re.search(r"HD%d = .*∠\s*([-\d.]+)" % o, tx)
        if not q or min(abs(float(q.group(1)) - deg), abs(abs(float(q.group(1)) - deg) - 360)) > .0501:
            bad.append("phase of HD%d" % o)
    note = re.findall(r"Collided: (.*)", tx)
    if note != ([", ".join("HD%d" % o for o in sorted(pd["collided_harmonics"]))] if pd["collided_harmonics"] else []):
        bad.append("note on collisions %r" % note)
    plt.close("all")
    return bad, {"harmonic": h, "span": span, "n": n, "k": k, "runs": m}


def time_sheet(s, g, plt):
    import adctoolbox as A
    n = s["n"]
    k = int(g.integers(3, n // 3))
    sig = .4 * np.sin(2 * np.pi * k * np.arange(n) / n + g.uniform(0, 6)) + .01 * g.standard_normal(n)
    at = int(g.choice([0, 3, n // 2, n - 1, n - 4]))
    sig[at] += .2
    cyc = float(g.choice([1.5, 2.0, 3.25, 40.0]))
    _, ax = plt.subplots()
    q = A.analyze_decomposition_time(sig, n_cycles=cyc, ax=ax, title="nu")
    axs = plt.gcf().axes
    per = int(1.0 / A.analyze_decomposition_time(sig, create_plot=False)["fundamental_freq"]) if "fundamental_freq" in q else int(n / k)
    size = min(int(cyc * per), n)
    peak = int(np.argmax(np.abs(sig - q["fundamental_signal"])))
    lo = min(max(0, peak - size // 3), n - size)
    ix = np.arange(lo + 1, lo + size + 1)
    bad = []
    for name, y, a in (("record", sig, 0), ("sine", q["fundamental_signal"], 0), ("harmonics", q["harmonic_signal"], 1), ("other errors", q["noise_residual"], 1)):
        if not drawn([axs[a]], ix, np.asarray(y)[lo:lo + size]):
            bad.append(name)
    for a in axs:
        if size > 1 and not near(a.get_xlim(), [lo + 1, lo + size]):
            bad.append("samples shown %r" % (a.get_xlim(),))
    if axs[0].get_title() != "nu":
        bad.append("title")
    plt.close("all")
    return bad, {"n": n, "k": k, "peak": peak, "cycles": cyc, "shown": [lo, size]}


def linearity_sheet(g, plt):
    from adctoolbox.aout import plot_dnl_inl
    b = [None, 4, 6][int(g.integers(3))]
    m = int(g.integers(6, 40))
    code = np.arange(m) + int(g.integers(0, 5))
    dnl, inl = (g.standard_normal(m) * g.choice([.2, 2.0]) for _ in range(2))
    for a in (dnl, inl):                 # extremes at either end
        a[[0, -1]] = g.permutation([3.5, -4.25]) * g.choice([1, .2])
    icode = [None, code + .5, code[1:-1] * 2, np.append(code, code[-1] + 1)][int(g.integers(4))]
    if icode is not None:
        inl = np.resize(inl, len(icode))
    kw = {} if icode is None else {"inl_code": icode}
    ct = [None, "N = 2^10"][int(g.integers(2))]
    st = bool(g.random() < .8)
    if g.random() < .5:
        _, axs = plt.subplots(2, 1)
        plot_dnl_inl(code, dnl, inl, num_bits=b, show_title=st, col_title=ct, axes=tuple(axs), **kw)
    else:
        _, ax = plt.subplots()
        axs = plot_dnl_inl(code, dnl, inl, num_bits=b, show_title=st, col_title=ct, ax=ax, **kw)
    bad = []
    sc = 1.0 if b is None else 2.0 ** b
    for a, x, y, name in ((axs[0], code, dnl, "DNL"), (axs[1], code if icode is None else icode, inl, "INL")):
        if not drawn([a], np.asarray(x) / sc, y):
            bad.append(name)
        t = "%s = [%.2f, %.2f] LSB" % (name, np.min(y), np.max(y))
        want = "" if not st else (ct + "\n" + t if ct and name == "DNL" else t)
        if a.get_title() != want:
            bad.append("title %r, not %r" % (a.get_title(), want))
        if not near(a.get_xlim(), [0, 1] if b else [np.min(x), np.max(x)]):
            bad.append("codes shown %r" % (a.get_xlim(),))
        y0, y1 = a.get_ylim()
        if not near([y0, y1], [1.2 * np.min(y), 1.2 * np.max(y)] if np.max(np.abs(y)) > 1 else [-1, 1]):
            bad.append("levels shown %r" % ((y0, y1),))
        if a.get_ylabel() != name + " (LSB)":
            bad.append("label")
    plt.close("all")
    return bad, {"bits": b, "codes": m, "own codes": icode is not None}


def residue_sheet(g, plt):
    import adctoolbox as A
    m, n = int(g.integers(1, 7)), int(g.integers(20, 200))
    bits = g.integers(0, 2, (n, m))
    w = g.uniform(.1, 4, m) if g.random() < .6 else None
    sig = g.standard_normal(n)
    pairs = None if g.random() < .4 else [tuple(int(v) for v in g.integers(0, m + 1, 2)) for _ in range(int(g.integers(1, 7)))]
    q = A.plot_residual_scatter(sig, bits, weights=w, pairs=pairs)
    full = 2.0 ** np.arange(m - 1, -1, -1) if w is None else w
    res = [sig - bits[:, :j] @ full[:j] for j in range(m + 1)]
    pr = [(j, m) for j in range(m)] if pairs is None else pairs
    bad = []
    axs = [a for a in plt.gcf().axes if a.get_visible()]
    if len(axs) != len(pr):
        bad.append("%d panels" % len(axs))
    for j, (a, (x, y)) in enumerate(zip(axs, pr)):
        if not drawn([a], res[x], res[y]):
            bad.append("panel %d" % j)
        want = ["Signal" if v == 0 else "Res. of bit #%d" % v for v in (x, y)]
        if [a.get_xlabel(), a.get_ylabel()] != want:
            bad.append("labels %r" % [a.get_xlabel(), a.get_ylabel()])
    if not all(near(u, res[x]) and near(v, res[y]) for u, v, (x, y) in zip(q["residuals_x"], q["residuals_y"], pr)):
        bad.append("residues")
    before = plt.get_fignums()
    A.plot_residual_scatter(sig, bits, weights=w, pairs=pairs, create_plot=False)
    if plt.get_fignums() != before:
        bad.append("a figure although none was asked for")
    plt.close("all")
    return bad, {"bits": m, "n": n, "pairs": pr}


def osr_sheet(g, plt):
    import adctoolbox as A
    n = int(g.choice([128, 200, 255]))
    f = float(g.uniform(3, n / 2 - 3) / n)
    x = np.sin(2 * np.pi * f * np.arange(n) + g.uniform(0, 6)) + .01 * g.standard_normal(n)
    kind = int(g.integers(3))
    osr = None if kind == 0 else np.sort(g.uniform(1, 40, int(g.integers(2, 14)))) if kind == 1 else g.permutation(np.array([1, 1.5, 2, 3, 4, 6, 9, 14, 25.0]))[:int(g.integers(2, 9))]
    h, log = int(g.integers(1, 8)), bool(g.random() < .7)
    sm = [None, None, 1, 2, 7][int(g.integers(5))]
    own = bool(g.random() < .6)
    ax = None if own else plt.subplots()[1]
    old = bool(g.random() < .4)
    if old:
        q = dict(zip(("osr", "sndr", "sfdr", "enob"), A.perfosr(x, osr=osr, harmonic=h, logscale=log, smooth=sm, disp=1, ax=ax)))
    else:
        q = A.sweep_performance_vs_osr(x, osr=osr, harmonic=h, logscale=log, smooth=sm, ax=ax)
    bad = []
    o, sn, sf = (np.asarray(q[k]) for k in ("osr", "sndr", "sfdr"))
    axs = plt.gcf().axes
    main = axs[0]
    twin = [a for a in axs[1:] if near(a.get_position().bounds, main.get_position().bounds)]
    side = [a for a in axs[1:] if a not in twin]
    if len(twin) != 1 or len(side) != int(own):
        return ["%d axes" % len(axs)], {}
    if not drawn([main], o, sn) or not drawn([main], o, sf):
        bad.append("curves")
    if (main.get_xscale() == "log") != log:
        bad.append("scale")
    lim = np.array([min(np.min(sn), np.min(sf)) - 5, max(np.max(sn), np.max(sf)) + 5])
    if not near(main.get_ylim(), lim) or not near(twin[0].get_ylim(), (lim - 1.76) / 6.02):
        bad.append("levels %r %r" % (main.get_ylim(), twin[0].get_ylim()))
    fr = A.fit_sine_4param(x)["frequency"]
    want = {}
    edge = False
    for k in range(1, h + 1):
        b = (k * fr) % 1
        b = min(b, 1 - b)
        at = 1 / (2 * b)
        edge |= min(abs(at - np.min(o)), abs(at - np.max(o))) < 1e-6 * at
        if np.min(o) <= at <= np.max(o):
            want["Fund" if k == 1 else "HD%d" % k] = at
    got = {t.get_text(): float(t.get_position()[0]) for t in main.texts}
    if not edge:
        if sorted(got) != sorted(want) or any(abs(got[t] / want[t] - 1) > 1e-9 for t in want):
            bad.append("marks %r, not %r" % (got, want))
        bars = sorted(float(l.get_xdata()[0]) for l in main.lines if len(l.get_xdata()) == 2 and l.get_xdata()[0] == l.get_xdata()[1])
        if not near(bars, sorted(want.values())):
            bad.append("bars %r" % bars)
    if own:
        m = len(o)
        if m < 3:
            if side[0].lines:
                bad.append("a slope from two points")
        else:
            w = min(max(5, round(m / 10)) if sm is None else sm, (m - 1) // 2)
            sl = []
            for i in range(m):
                a, b = max(0, i - w), min(m - 1, i + w)
                d = math.log10(o[b]) - math.log10(o[a])
                sl.append((sn[b] - sn[a]) / d if abs(d) > 1e-15 else 0.0)
            if not drawn(side, o, sl):
                bad.append("slope")
            r = np.ptp(sl)
            if not near(side[0].get_ylim(), [min(sl) - .1 * r - 5, max(sl) + .1 * r + 5]) or (side[0].get_xscale() == "log") != log:
                bad.append("frame of the slope")
            if [t.get_text() for t in side[0].texts] != ["White Noise Limit"] or not any(near(l.get_ydata(), [10, 10]) for l in side[0].lines):
                bad.append("limit of white noise")
    plt.close("all")
    return bad, {"n": n, "f": f, "osr": None if osr is None else osr.tolist(), "harmonic": h, "smooth": sm, "own": own, "old name": old}


def run(c, plt):
    import contextlib
    import io
    import random
    import warnings
    r = random.Random("sheets%d" % c.seed)
    c.tlc("Sheet", CFG.format(mode="grid", ns="9, 12, 16", emit=""), name="Sheet/every tone of short records", exhaustive=True, workers=4, expect_emit=False)
    scen = scenarios(r, c.n(70, 600))
    em = {e["id"]: e for e in c.tlc("Sheet", CFG.format(mode="file", ns="8", emit="EmitDone"), scen=scen, name="Sheet/random sheets")}
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for s in scen:
            g = np.random.default_rng([c.seed, 36, s["id"]])
            bad = spectrum_sheet(c, s, em[s["id"]], g, plt)
            if bad is not None:
                c.check(not bad, "a spectrum sheet carries what was asked for", s, [], bad)
            for fn, args, every in ((polar_sheet, (s, g, plt), 2), (time_sheet, (s, g, plt), 3), (linearity_sheet, (g, plt), 2), (residue_sheet, (g, plt), 3), (osr_sheet, (g, plt), 2)):
                if s["id"] % every == 0:
                    bad, sc = fn(*args)
                    c.check(not bad, "%s carries what was asked for" % fn.__name__.replace("_", " "), sc, [], bad)
            c.trace()
    e = dict(em[0], title="no such title")
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        c.selftest(lambda: spectrum_sheet(c, scen[0], e, np.random.default_rng([c.seed, 36, 0]), plt), "wrong title")
